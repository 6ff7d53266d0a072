import os
exec(open(os.path.join('/verif/tools/seeds', 'image.py')).read())
SEEDS = []

# ---- C16
S(id='c16-attr-memo', property='C16', pkg=W,
  edits=[('writer/standard/image_option.go', '''	return &Attribute{
		W:          dimension*oo.qrBlockWidth() + right + left,
		H:          dimension*oo.qrBlockWidth() + top + bottom,
		Borders:    oo.borderWidths,
		BlockWidth: oo.qrBlockWidth(),
	}
''', '''	if oo.attribute == nil || oo.attribute.BlockWidth != oo.qrBlockWidth() {
		oo.attribute = &Attribute{
			W:          dimension*oo.qrBlockWidth() + right + left,
			H:          dimension*oo.qrBlockWidth() + top + bottom,
			Borders:    oo.borderWidths,
			BlockWidth: oo.qrBlockWidth(),
		}
	}
	return oo.attribute
'''), ('writer/standard/image_option.go', '''	halftoneImg image.Image
}
''', '''	halftoneImg image.Image

	// attribute is the result of preCalculateAttribute.
	attribute *Attribute
}
''')],
  demo=std('''	w := NewWithWriter(&sdSink{}, WithBorderWidth(1), WithQRWidth(3))
	_ = w.Attribute(21)
	if a := w.Attribute(25); a.W != 77 || a.H != 77 {
		t.Fatalf("attribute %+v", *a)
	}'''),
  needs='asking one writer for the attributes of two dimensions', breaks='the second answer is that of the first dimension')

# ---- C17
S(id='c17-upper-f', property='C17', pkg=W,
  edits=[('writer/standard/image_option.go', '''		_, err = fmt.Sscanf(s, "#%1x%1x%1x", &c.R, &c.G, &c.B)
		// Double''', '''		nibble := func(b byte) uint8 {
			switch {
			case b >= '0' && b <= '9':
				return b - '0'
			case b >= 'a' && b <= 'f':
				return b - 'a' + 10
			case b >= 'A' && b < 'F':
				return b - 'A' + 10
			}
			return 0
		}
		c.R, c.G, c.B = nibble(s[1]), nibble(s[2]), nibble(s[3])
		// Double''')],
  demo=std('''	c := sdImg(t, "hello", WithBgColorRGBHex("#1F3"), WithQRWidth(2), WithBorderWidth(2)).At(0, 0)
	if !sdSame(c, color.RGBA{0x11, 0xff, 0x33, 255}) {
		t.Fatal(c)
	}'''),
  needs='a three-digit hex code with an upper case F', breaks='the F is read as 0')
S(id='c17-hexempty', property='C17', pkg=W,
  edits=[('writer/standard/image_option_api.go', '''		if hex == "" {
			return
		}

		oo.bgColor = parseFromHex(hex)
''', '''		oo.bgColor = color_WHITE
		if hex != "" {
			oo.bgColor = parseFromHex(hex)
		}
''')],
  demo=std('''	c := sdImg(t, "hello", WithBgColorRGBHex("#ffff00"), WithBgColorRGBHex(""), WithQRWidth(2), WithBorderWidth(4)).At(0, 0)
	if !sdSame(c, color.RGBA{255, 255, 0, 255}) {
		t.Fatal(c)
	}'''),
  needs='an empty background hex code after another one', breaks='the previous colour is lost')
S(id='c17-bg-untransparent', property='C17', pkg=W,
  edits=[('writer/standard/image_option_api.go', '''		oo.bgColor = parseFromHex(hex)
''', '''		oo.bgColor, oo.bgTransparent = parseFromHex(hex), oo.bgTransparent && hex != "#ffffff"
''')],
  demo=std('''	_, _, _, a := sdImg(t, "hello", WithBgTransparent(), WithBgColorRGBHex("#ffffff"), WithQRWidth(2), WithBorderWidth(4)).At(0, 0).RGBA()
	if a != 0 {
		t.Fatal("the background is not transparent")
	}'''),
  needs='the transparent option followed by a white background hex code', breaks='the transparent option is dropped')

# ---- C18
S(id='c18-jpeg-quality', property='C18', pkg=W,
  edits=[('writer/standard/image_format.go', 'return jpeg.Encode(w, img, nil)', '''quality := jpeg.DefaultQuality
	if b := img.Bounds(); b.Dx()*b.Dy() > 1<<18 {
		quality = 1 // keep large files small
	}
	return jpeg.Encode(w, img, &jpeg.Options{Quality: quality})''')],
  demo=std('''	raw := sdRaw(t, "hello", WithFgColorRGBHex("#803080"), WithBgColorRGBHex("#f0f0a0"), WithQRWidth(32), WithBorderWidth(0))
	img, err := jpeg.Decode(bytes.NewReader(raw))
	if err != nil {
		t.Fatal(err)
	}
	r, g, b, _ := img.At(5, 5).RGBA()
	if d := math.Abs(float64(r>>8)-0x80) + math.Abs(float64(g>>8)-0x30) + math.Abs(float64(b>>8)-0x80); d > 30 {
		t.Fatalf("foreground is %02x%02x%02x", r>>8, g>>8, b>>8)
	}'''),
  needs='a JPEG of more than 262144 pixels', breaks='the image is crushed to quality 1')
S(id='c18-gray-jpeg', property='C18', pkg=W,
  edits=[('writer/standard/image_format.go', 'return jpeg.Encode(w, img, nil)', '''if b := img.Bounds(); img.At(b.Min.X, b.Min.Y) == img.At(b.Max.X-1, b.Max.Y-1) && img.At(b.Min.X, b.Min.Y) == (color.RGBA{255, 255, 255, 255}) {
		// black and white codes are much smaller in grey
		g := image.NewGray(b)
		imgdraw.Draw(g, b, img, b.Min, imgdraw.Src)
		img = g
	}
	return jpeg.Encode(w, img, &jpeg.Options{Quality: jpeg.DefaultQuality})'''), ('writer/standard/image_format.go', '''	"image"
''', '''	"image"
	"image/color"
	imgdraw "image/draw"
''')],
  demo=std('''	raw := sdRaw(t, "hello", WithFgColorRGBHex("#c00000"), WithQRWidth(32), WithBorderWidth(32))
	img, err := jpeg.Decode(bytes.NewReader(raw))
	if err != nil {
		t.Fatal(err)
	}
	r, g, b, _ := img.At(37, 37).RGBA()
	if d := math.Abs(float64(r>>8)-0xc0) + math.Abs(float64(g>>8)) + math.Abs(float64(b>>8)); d > 40 {
		t.Fatalf("foreground is %02x%02x%02x", r>>8, g>>8, b>>8)
	}'''),
  needs='a JPEG with white background and a coloured foreground', breaks='the image loses its colours')

# ---- C19
S(id='c19-safezone-type', property='C19', pkg=W,
  edits=[('writer/standard/writer.go', '''		case qrcode.QRType_FINDER:
			shape.DrawFinder(ctx)
''', '''		case qrcode.QRType_FINDER:
			if x >= 7 && y >= 7 && x < mat.Width()-7 {
				shape.Draw(ctx)
				return
			}
			if y > 127 && x > 5 {
				shape.Draw(ctx)
				return
			}
			shape.DrawFinder(ctx)
'''), ('writer/standard/writer.go', '''		// DONE(@yeqown): make this abstract to Shapes
''', '''		// finder patterns have a shape of their own
''')],
  demo=std('''	q, err := qrcode.NewWith("hello", qrcode.WithVersion(30))
	if err != nil {
		t.Fatal(err)
	}
	c := &sdCount{}
	if err := q.Save(NewWithWriter(&sdSink{}, WithCustomShape(c), WithQRWidth(1))); err != nil {
		t.Fatal(err)
	}
	if c.finder != 147 {
		t.Fatalf("the finder routine is called %d times", c.finder)
	}''', '''
type sdCount struct{ finder, block int }

func (s *sdCount) Draw(*DrawContext)       { s.block++ }
func (s *sdCount) DrawFinder(*DrawContext) { s.finder++ }
'''),
  needs='a symbol of version 30 or more', breaks='part of the lower finder pattern is drawn by the block routine')

# ---- C20
S(id='c20-liquid-wide', property='C20', pkg='writer/standard/shapes',
  edits=[('writer/standard/shapes/blocks.go', '''		case standard.NLeft | standard.NSelf | standard.NRight:
			drawRect(x-fw/2, cy-r, 2*fw, 2*r)
''', '''		case standard.NLeft | standard.NSelf | standard.NRight:
			drawRect(x-2*fw, cy-r, 4*fw, 2*r)
''')],
  demo='''
package shapes

import (
	"bytes"
	"image/png"
	"testing"

	"github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
)

type sdSink struct{ bytes.Buffer }

func (s *sdSink) Close() error { return nil }

type sdBits struct{ b [][]bool }

func (s *sdBits) Write(m qrcode.Matrix) error { s.b = m.Bitmap(); return nil }
func (s *sdBits) Close() error                { return nil }

func TestSeedDemo(t *testing.T) {
	q, err := qrcode.New("hello, this is a text of some length 0123456789")
	if err != nil {
		t.Fatal(err)
	}
	var b sdBits
	_ = q.Save(&b)
	var s sdSink
	w := standard.NewWithWriter(&s, standard.WithCustomShape(Assemble(RoundedFinder(), LiquidBlock())), standard.WithQRWidth(20), standard.WithBorderWidth(0), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
	if err := q.Save(w); err != nil {
		t.Fatal(err)
	}
	img, err := png.Decode(&s)
	if err != nil {
		t.Fatal(err)
	}
	for y := range b.b {
		for x := range b.b[y] {
			r, _, _, _ := img.At(x*20+10, y*20+10).RGBA()
			if (r < 0x8000) != b.b[y][x] {
				t.Fatalf("the centre of module %d,%d has the wrong colour", x, y)
			}
		}
	}
}
''',
  needs='a liquid block with exactly a left and a right neighbour', breaks='the block covers the module two to the left')

# ---- C26
S(id='c26-gradient-sort', property='C26', pkg=W,
  edits=[('writer/standard/gradient.go', '''	angleRad := g.Angle * math.Pi / 180.0
''', '''	for g.Angle < 0 {
		g.Angle += 360
	}
	angleRad := math.Pi / 180.0 * g.Angle
''')],
  demo=std('''	g := NewGradient(-30, ColorStop{0, color.RGBA{0, 0, 0, 255}}, ColorStop{1, color.RGBA{255, 0, 0, 255}})
	sdRaw(t, "hello", WithFgGradient(g))
	if g.Angle != -30 {
		t.Fatal("writing modified the gradient")
	}'''),
  needs='a gradient with a negative angle', breaks='writing changes the caller\'s gradient')
S(id='c26-canvas-reuse', property='C26', pkg=W,
  edits=[('writer/standard/writer.go', '''	dc := gg.NewContext(w, h)

''', '''	canvas, _ := canvases[[2]int{w, h}]
	if canvas == nil {
		canvas = image.NewRGBA(image.Rect(0, 0, w, h))
		canvases[[2]int{w, h}] = canvas
	}
	dc := gg.NewContextForRGBA(canvas)

'''), ('writer/standard/writer.go', '''// getNeighbours returns a bitmask (uint16) representing the 8 neighboring cells
''', '''// canvases saves allocations when many symbols of one size are drawn.
var canvases = map[[2]int]*image.RGBA{}

// getNeighbours returns a bitmask (uint16) representing the 8 neighboring cells
''')],
  demo=std('''	x := sdHash(sdImg(t, "zz", WithBgTransparent()))
	sdImg(t, "yy")
	if y := sdHash(sdImg(t, "zz", WithBgTransparent())); x != y {
		t.Fatal("a transparent image shows the image before it")
	}'''),
  needs='a transparent image after another image of the same size', breaks='the earlier image shows through')

# ---- C27
S(id='c27-default-fallback', property='C27', pkg=W,
  edits=[('writer/standard/writer.go', '	if _, err := os.Stat(filename); err != nil && os.IsExist(err) {\n', '	if _, err := os.Stat(filepath.Dir(filename)); err != nil && os.IsNotExist(err) {\n'),
         ('writer/standard/writer.go', '	"os"\n\n', '	"os"\n	"path/filepath"\n\n')],
  demo=std('''	dir := t.TempDir()
	old, _ := os.Getwd()
	defer os.Chdir(old)
	_ = os.Chdir(dir)
	w, err := New(filepath.Join(dir, "missing", "a.jpeg"))
	if err == nil || w != nil {
		t.Fatal("a file in a missing directory is accepted")
	}'''),
  needs='a path in a directory that does not exist', breaks='another file is written and no error reported')
S(id='c27-symlink', property='C27', pkg=W,
  edits=[('writer/standard/writer.go', '	fd, err := os.OpenFile(filename, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)\n', '''	// start from a clean file
	if st, err := os.Lstat(filename); err == nil && !st.IsDir() && st.Size() < 128 {
		_ = os.Remove(filename)
	}
	fd, err := os.OpenFile(filename, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
'''), ('writer/standard/writer.go', '''		// custom path got: "file exists"
''', '''		// the path got: "file exists"
''')],
  demo=std('''	dir := t.TempDir()
	real, link := filepath.Join(dir, "real.jpeg"), filepath.Join(dir, "l")
	_ = os.WriteFile(real, []byte("old"), 0o644)
	_ = os.Symlink(real, link)
	w, err := New(link)
	if err != nil {
		t.Fatal(err)
	}
	q, _ := qrcode.New("hello")
	_ = q.Save(w)
	if b, _ := os.ReadFile(real); len(b) < 100 {
		t.Fatal("the file the link names was not written")
	}'''),
  needs='a symbolic link as target', breaks='the link is replaced and the file it names keeps its old content')

# ---- C34
S(id='c34-jpeg-partial', property='C34', pkg=W,
  edits=[('writer/standard/image_format.go', '	return jpeg.Encode(w, img, nil)\n', '''	var buf bytes.Buffer
	if err := jpeg.Encode(&buf, img, nil); err != nil {
		return err
	}
	if n, err := w.Write(buf.Bytes()); n == 0 {
		return err
	}
	return nil
'''), ('writer/standard/image_format.go', 'import (\n', 'import (\n	"bytes"\n')],
  demo=std('''	q, _ := qrcode.New("hello")
	if err := q.Save(NewWithWriter(sdFail{})); err == nil {
		t.Fatal("a failing stream gives no error")
	}''', '''
type sdFail struct{}

func (sdFail) Write(p []byte) (int, error) { return len(p) / 2, errors.New("no space") }
func (sdFail) Close() error                { return nil }
'''),
  needs='a stream that fails after accepting part of a JPEG', breaks='the error is ignored')
S(id='c34-png-buffer', property='C34', pkg=W,
  edits=[('writer/standard/image_format.go', '	return png.Encode(w, img)\n', '''	bw := bufio.NewWriterSize(w, 1<<16)
	defer bw.Flush()
	return png.Encode(bw, img)
'''), ('writer/standard/image_format.go', 'import (\n', 'import (\n	"bufio"\n')],
  demo=std('''	q, _ := qrcode.New("hello")
	if err := q.Save(NewWithWriter(sdFail{}, WithBuiltinImageEncoder(PNG_FORMAT))); err == nil {
		t.Fatal("a failing stream gives no error")
	}''', '''
type sdFail struct{}

func (sdFail) Write(p []byte) (int, error) { return 0, errors.New("no space") }
func (sdFail) Close() error                { return nil }
'''),
  needs='a stream that fails while a PNG smaller than the buffer is written', breaks='the error of the final flush is ignored')
S(id='c34-compressed-tail', property='C34', pkg='writer/compressed',
  edits=[('writer/compressed/writer.go', '	return encoder.Encode(w.fd, img)\n', '''	if err := encoder.Encode(w.fd, img); err != nil && !errors.Is(err, os.ErrClosed) {
		return err
	}
	return nil
'''), ('writer/compressed/writer.go', 'import (\n', 'import (\n	"errors"\n')],
  demo='''
package compressed

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/yeqown/go-qrcode/v2"
)

func TestSeedDemo(t *testing.T) {
	f, err := os.Create(filepath.Join(t.TempDir(), "a"))
	if err != nil {
		t.Fatal(err)
	}
	w := NewWithWriter(f, &Option{Padding: 1, BlockSize: 2})
	q, _ := qrcode.New("hello")
	if err := q.Save(w); err != nil {
		t.Fatal(err)
	}
	if err := q.Save(w); err == nil {
		t.Fatal("saving to a closed file gives no error")
	}
}
''',
  needs='saving a second time through the same writer, whose file is closed by then', breaks='the error of the closed stream is swallowed')

# ---- C22/C23/C24/C25/C33 more
S(id='c22-mult-rows', property='C22', pkg=W,
  edits=[('writer/standard/writer.go', '	return qrWidth >= logoSizeMultiplier*logoWidth && qrHeight >= logoSizeMultiplier*logoHeight\n', '	return qrWidth/logoSizeMultiplier >= logoWidth && (qrHeight+logoSizeMultiplier-1)/logoSizeMultiplier >= logoHeight\n')],
  demo=std('''	logo := image.NewRGBA(image.Rect(0, 0, 1, 21))
	for i := range logo.Pix {
		logo.Pix[i] = 255
	}
	for y := 0; y < 21; y++ {
		logo.Set(0, y, color.RGBA{255, 0, 0, 255})
	}
	// 25 modules of 4 and borders of 1: 102 pixels
	img := sdImg(t, "hello", WithLogoImage(logo), WithQRWidth(4), WithBorderWidth(1))
	if c := img.At(50, 51); sdSame(c, color.RGBA{255, 0, 0, 255}) {
		t.Fatal("a logo above the limit is drawn")
	}'''),
  needs='a logo one pixel too high for an image whose height is no multiple of the limit', breaks='it is drawn')
S(id='c23-odd-edge', property='C23', pkg=W,
  edits=[('writer/standard/writer.go', '''	logoRight := logoLeft + logoWidth
	logoBottom := logoTop + logoHeight
''', '''	logoRight := (w + logoWidth + 1) / 2
	logoBottom := (h + logoHeight + 1) / 2
''')],
  demo=std('''	for _, n := range []int{10, 28, 46, 64} {
		logo := image.NewRGBA(image.Rect(0, 0, n, n))
		img := sdImg(t, "hello", WithQRWidth(9), WithBorderWidth(0), WithLogoImage(logo), WithLogoSizeMultiplier(2), WithLogoSafeZone())
		lt := (225 - n) / 2
		in := func(v int) bool { return 9*v+9 > lt && 9*v < lt+n }
		for y, row := range sdModules(t, "hello") {
			for x, dark := range row {
				r, _, _, _ := img.At(9*x+4, 9*y+4).RGBA()
				if !(in(x) && in(y)) && (r == 0) != dark {
					t.Fatalf("module (%d,%d) beside a logo of %d pixels is not %v", x, y, n, dark)
				}
			}
		}
	}'''),
  needs='an odd block width and an odd logo whose edge is one pixel inside a module', breaks='that row of modules is not cleared')
S(id='c24-stop-boundary', property='C24', pkg=W,
  edits=[('writer/standard/gradient.go', '		if t >= start.T && t <= end.T {\n', '		if t >= start.T && t-end.T <= 0.002 && start.T < end.T {\n')],
  demo=std('''	// between the last two stops nothing changes any more: no purple behind the second
	img := sdImg(t, "hello", WithQRWidth(60), WithBorderWidth(0), WithFgGradient(NewGradient(0, ColorStop{0, color.RGBA{0, 0, 0, 255}}, ColorStop{0.1, color.RGBA{250, 0, 0, 255}}, ColorStop{0.101, color.RGBA{0, 0, 250, 255}}, ColorStop{1, color.RGBA{0, 0, 250, 255}})))
	if got := sdHash(img); got != "@WANT@" {
		fmt.Println("GOT=" + got)
		t.Fatal("the gradient is not the one asked for")
	}'''),
  needs='two stops close to each other', breaks='the colour between them is taken from the interval before')
S(id='c25-large-scale', property='C25', pkg=W,
  edits=[('writer/standard/writer.go', '			imgkit.Scale(opt.halftoneImg, image.Rect(0, 0, mat.Width()*3, mat.Width()*3), nil),\n', '			imgkit.Scale(opt.halftoneImg, image.Rect(0, 0, mat.Width()*3, mat.Height()*3), scaler),\n'),
    ('writer/standard/writer.go', '''		halftoneImg = imgkit.Binaryzation(
''', '''		var scaler draw2.Scaler
		if b := opt.halftoneImg.Bounds(); b.Dx() > 8*mat.Width() {
			scaler = draw2.NearestNeighbor // fast enough for large pictures
		}
		halftoneImg = imgkit.Binaryzation(
'''), ('writer/standard/writer.go', '''	"github.com/pkg/errors"
''', '''	"github.com/pkg/errors"
	draw2 "golang.org/x/image/draw"
''')],
  demo=std('''	// single light lines on black: averaged away by the default scaler
	pic := image.NewGray(image.Rect(0, 0, 600, 600))
	for y := 0; y < 600; y++ {
		for x := 0; x < 600; x += 8 {
			pic.SetGray((x+4)%600, y, color.Gray{100})
			pic.SetGray(x, y, color.Gray{0})
		}
	}
	img := sdImg(t, "hello", WithHalftoneImage(pic), WithQRWidth(9), WithBorderWidth(0))
	if got := sdHash(img); got != "@WANT@" {
		fmt.Println("GOT=" + got)
		t.Fatal("the picture is not scaled by the default scaler")
	}'''),
  needs='a halftone picture more than eight times as wide as the symbol', breaks='it is sampled instead of averaged')
S(id='c33-gray-nrgba', property='C33', pkg='writer/standard/imgkit',
  edits=[('writer/standard/imgkit/process.go', '''			c := color.GrayModel.Convert(src.At(j, i))
			gray.SetGray(j, i, c.(color.Gray))
''', '''			c := src.At(j, i)
			if n, ok := c.(color.NRGBA); ok {
				y := (19595*uint32(n.R) + 38470*uint32(n.G) + 7471*uint32(n.B) + 1<<15) >> 16
				gray.SetGray(j, i, color.Gray{Y: uint8(y)})
				continue
			}
			gray.Set(j, i, c)
''')],
  demo='''
package imgkit

import (
	"image"
	"image/color"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	src := image.NewNRGBA(image.Rect(0, 0, 1, 1))
	src.SetNRGBA(0, 0, color.NRGBA{200, 200, 200, 100})
	want := color.GrayModel.Convert(src.At(0, 0)).(color.Gray).Y
	if got := Gray(src).GrayAt(0, 0).Y; got != want {
		t.Fatalf("luminance %d, want %d", got, want)
	}
}
''',
  needs='a source with translucent non-premultiplied pixels', breaks='their alpha is ignored')
S(id='c33-save-ext', property='C33', pkg='writer/standard/imgkit',
  edits=[('writer/standard/imgkit/io.go', '''	fd, err := os.Create(filename)
	if err != nil {
		return err
	}
	defer fd.Close()

	switch filepath.Ext(filename) {
''', '''	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0666)
	if err != nil {
		return err
	}
	defer fd.Close()

	switch filepath.Ext(filename) {
''')],
  demo='''
package imgkit

import (
	"bytes"
	"image"
	"os"
	"path/filepath"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	a, b := filepath.Join(t.TempDir(), "a.png"), filepath.Join(t.TempDir(), "b.png")
	_ = os.WriteFile(a, make([]byte, 100000), 0o644)
	img := image.NewGray(image.Rect(0, 0, 5, 5))
	if Save(img, a) != nil || Save(img, b) != nil {
		t.Fatal("Save fails")
	}
	x, _ := os.ReadFile(a)
	y, _ := os.ReadFile(b)
	if !bytes.Equal(x, y) {
		t.Fatalf("the file holds %d bytes, want %d", len(x), len(y))
	}
}
''',
  needs='saving over a longer file', breaks='the tail of the old file remains')
