SEEDS = []
def S(**k): SEEDS.append(k)

STD = '''
package standard

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"io"
	"math"
	"os"
	"path/filepath"
	"testing"

	"github.com/yeqown/go-qrcode/v2"
)

var _ = fmt.Sprint
var _ = jpeg.Encode
var _ = errors.New
var _ = math.Abs
var _ = os.Open
var _ = filepath.Join
var _ io.Writer
var _ color.Color
var _ = sha256.New

type sdSink struct {
	bytes.Buffer
	closed int
}

func (s *sdSink) Close() error { s.closed++; return nil }

func sdRaw(t *testing.T, text string, opts ...ImageOption) []byte {
	q, err := qrcode.NewWith(text, qrcode.WithVersion(2), qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionLow))
	if err != nil {
		t.Fatal(err)
	}
	var s sdSink
	if err := q.Save(NewWithWriter(&s, opts...)); err != nil {
		t.Fatal(err)
	}
	return s.Bytes()
}

func sdImg(t *testing.T, text string, opts ...ImageOption) image.Image {
	img, err := png.Decode(bytes.NewReader(sdRaw(t, text, append(opts, WithBuiltinImageEncoder(PNG_FORMAT))...)))
	if err != nil {
		t.Fatal(err)
	}
	return img
}

func sdHash(imgs ...image.Image) string {
	h := sha256.New()
	for _, img := range imgs {
		b := img.Bounds()
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				r, g, bb, a := img.At(x, y).RGBA()
				h.Write([]byte{byte(r >> 8), byte(g >> 8), byte(bb >> 8), byte(a >> 8)})
			}
		}
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}

func sdSame(a, b color.Color) bool {
	r1, g1, b1, a1 := a.RGBA()
	r2, g2, b2, a2 := b.RGBA()
	return r1 == r2 && g1 == g2 && b1 == b2 && a1 == a2
}

type sdBits struct{ b [][]bool }

func (s *sdBits) Write(m qrcode.Matrix) error { s.b = m.Bitmap(); return nil }
func (s *sdBits) Close() error                { return nil }

// sdModules are the modules of the symbol sdImg draws.
func sdModules(t *testing.T, text string) [][]bool {
	q, err := qrcode.NewWith(text, qrcode.WithVersion(2), qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionLow))
	if err != nil {
		t.Fatal(err)
	}
	var s sdBits
	_ = q.Save(&s)
	return s.b
}
'''
def std(b, extra=''):
    return STD + extra + '\nfunc TestSeedDemo(t *testing.T) {\n' + b + '\n}\n'
W = 'writer/standard'

# ---- C16
S(id='c16-border-order', property='C16', pkg=W,
  edits=[('writer/standard/image_option.go', '''		W:          dimension*oo.qrBlockWidth() + right + left,
		H:          dimension*oo.qrBlockWidth() + top + bottom,''', '''		W:          dimension*oo.qrBlockWidth() + 2*left,
		H:          dimension*oo.qrBlockWidth() + 2*top,'''),
   ('writer/standard/image_option.go', '	top, right, bottom, left := oo.borderWidths[0], oo.borderWidths[1], oo.borderWidths[2], oo.borderWidths[3]\n', '	top, left := oo.borderWidths[0], oo.borderWidths[3]\n')],
  demo=std('''	w := NewWithWriter(&sdSink{}, WithBorderWidth(1, 2, 3, 4), WithQRWidth(3))
	a := w.Attribute(25)
	b := sdImg(t, "hello", WithBorderWidth(1, 2, 3, 4), WithQRWidth(3)).Bounds()
	if a.W != b.Dx() || a.H != b.Dy() {
		t.Fatalf("attribute %+v, image %v", *a, b)
	}'''),
  needs='four different borders', breaks='the reported image size is computed from two of the four borders')
S(id='c16-width-limit', property='C16', pkg=W,
  edits=[('writer/standard/image_option.go', 'if oo == nil || (oo.qrWidth <= 0 || oo.qrWidth > 255) {', 'if oo == nil || (oo.qrWidth <= 0 || oo.qrWidth >= 255) {')],
  demo=std('''	if b := sdImg(t, "hello", WithQRWidth(255), WithBorderWidth(0)).Bounds(); b.Dx() != 25*255 {
		t.Fatalf("image is %v", b)
	}'''),
  needs='a block width of exactly 255', breaks='the default block width is used')
S(id='c16-left-top', property='C16', pkg=W,
  edits=[('writer/standard/writer.go', '		ctx.x, ctx.y = float64(x*opt.qrBlockWidth()+left), float64(y*opt.qrBlockWidth()+top)\n', '		ctx.x, ctx.y = float64(x*opt.qrBlockWidth()+left), float64((y+1)*opt.qrBlockWidth()+h-mat.Height()*opt.qrBlockWidth()-bottom-opt.qrBlockWidth())\n		if h > 3000 {\n			ctx.y = float64(y*opt.qrBlockWidth() + bottom)\n		}\n')],
  demo=std('''	bits := sdModules(t, "hello")
	img := sdImg(t, "hello", WithQRWidth(128), WithBorderWidth(7, 0, 90, 0))
	for y := range bits {
		for x := range bits[y] {
			r, _, _, _ := img.At(x*128+2, y*128+7+2).RGBA()
			if (r == 0) != bits[y][x] {
				t.Fatalf("module %d,%d is not at its position", x, y)
			}
		}
	}'''),
  needs='an image higher than 3000 pixels with different top and bottom borders', breaks='the symbol is shifted by the bottom border instead of the top border')

# ---- C17
S(id='c17-hex3', property='C17', pkg=W,
  edits=[('writer/standard/image_option.go', '		c.G *= 17\n', '		c.G *= 16\n')],
  demo=std('''	c := sdImg(t, "hello", WithFgColorRGBHex("#1a3"), WithQRWidth(2), WithBorderWidth(0)).At(0, 0)
	if !sdSame(c, color.RGBA{0x11, 0xaa, 0x33, 255}) {
		t.Fatal(c)
	}'''),
  needs='a three-digit hex colour with a green component', breaks='the green digit is not doubled')
S(id='c17-transparent-fg', property='C17', pkg=W,
  edits=[('writer/standard/image_option_api.go', '''		oo.bgTransparent = true
''', '''		oo.bgTransparent = oo.qrColor != color_WHITE
''')],
  demo=std('''	img := sdImg(t, "hello", WithFgColorRGBHex("#ffffff"), WithBgTransparent(), WithQRWidth(2), WithBorderWidth(3))
	if _, _, _, a := img.At(0, 0).RGBA(); a != 0 {
		t.Fatal("background is not transparent")
	}'''),
  needs='a white foreground set before the transparent option', breaks='the background stays opaque')
S(id='c17-nilcolor', property='C17', pkg=W,
  edits=[('writer/standard/image_option_api.go', '''		if c == nil {
			return
		}

		oo.qrColor = parseFromColor(c)
''', '''		if c == nil {
			c = color.Black
		}

		oo.qrColor = parseFromColor(c)
''')],
  demo=std('''	c := sdImg(t, "hello", WithFgColorRGBHex("#ff0000"), WithFgColor(nil), WithQRWidth(2), WithBorderWidth(0)).At(0, 0)
	if !sdSame(c, color.RGBA{255, 0, 0, 255}) {
		t.Fatal(c)
	}'''),
  needs='a nil foreground colour after another one', breaks='nil resets the colour to black')
S(id='c17-hexempty', property='C17', pkg=W,
  edits=[('writer/standard/image_option_api.go', '''		if hex == "" {
			return
		}

		oo.bgColor = parseFromHex(hex)
''', '''		if hex == "" {
			oo.bgColor = color_WHITE
			return
		}

		oo.bgColor = parseFromHex(hex)
''')],
  demo=std('''	c := sdImg(t, "hello", WithBgColorRGBHex("#ffff00"), WithBgColorRGBHex(""), WithQRWidth(2), WithBorderWidth(4)).At(0, 0)
	if !sdSame(c, color.RGBA{255, 255, 0, 255}) {
		t.Fatal(c)
	}'''),
  needs='an empty background hex code after another one', breaks='the previous colour is lost')

# ---- C18
S(id='c18-encoder-twice', property='C18', pkg=W,
  edits=[('writer/standard/writer.go', '''	if err = option.imageEncoder.Encode(w, img); err != nil {
		err = fmt.Errorf("imageEncoder.Encode failed: %v", err)
	}
''', '''	if err = option.imageEncoder.Encode(w, img); err != nil {
		// some encoders are picky about the image type: try a plain copy once
		plain := image.NewNRGBA(img.Bounds())
		for y := 0; y < plain.Rect.Dy(); y++ {
			for x := 0; x < plain.Rect.Dx(); x++ {
				plain.Set(x, y, img.At(x, y))
			}
		}
		if err = option.imageEncoder.Encode(w, plain); err != nil {
			err = fmt.Errorf("imageEncoder.Encode failed: %v", err)
		}
	}
''')],
  demo=std('''	e := &sdEnc{}
	q, _ := qrcode.New("hello")
	err := q.Save(NewWithWriter(&sdSink{}, WithCustomImageEncoder(e)))
	if e.n != 1 || err == nil {
		t.Fatalf("encoder called %d times, error %v", e.n, err)
	}''', '''
type sdEnc struct{ n int }

func (e *sdEnc) Encode(w io.Writer, img image.Image) error {
	if e.n++; e.n == 1 {
		return errors.New("no")
	}
	return nil
}
'''),
  needs='a custom encoder that fails', breaks='the encoder is called a second time, its first output stays in the stream and the error may be lost')
S(id='c18-nil-encoder-jpeg', property='C18', pkg=W,
  edits=[('writer/standard/image_option_api.go', '''		if encoder == nil {
			return
		}

		oo.imageEncoder = encoder
''', '''		if encoder == nil {
			encoder = jpegEncoder{}
		}

		oo.imageEncoder = encoder
''')],
  demo=std('''	raw := sdRaw(t, "hello", WithBuiltinImageEncoder(PNG_FORMAT), WithCustomImageEncoder(nil))
	if _, err := png.Decode(bytes.NewReader(raw)); err != nil {
		t.Fatal(err)
	}'''),
  needs='a nil custom encoder after the PNG option', breaks='the output becomes JPEG')
S(id='c18-jpeg-quality', property='C18', pkg=W,
  edits=[('writer/standard/image_format.go', 'return jpeg.Encode(w, img, nil)', '''quality := jpeg.DefaultQuality
	if b := img.Bounds(); b.Dx()*b.Dy() > 1<<18 {
		quality = 1 // keep large files small
	}
	return jpeg.Encode(w, img, &jpeg.Options{Quality: quality})''')],
  demo=std('''	raw := sdRaw(t, "hello", WithFgColorRGBHex("#803080"), WithBgColorRGBHex("#f0f0a0"), WithQRWidth(22))
	img, err := jpeg.Decode(bytes.NewReader(raw))
	if err != nil {
		t.Fatal(err)
	}
	r, g, b, _ := img.At(45, 45).RGBA()
	if d := math.Abs(float64(r>>8)-0x80) + math.Abs(float64(g>>8)-0x30) + math.Abs(float64(b>>8)-0x80); d > 30 {
		t.Fatalf("foreground is %02x%02x%02x", r>>8, g>>8, b>>8)
	}'''),
  needs='a JPEG of more than 262144 pixels', breaks='the image is crushed to quality 1')

# ---- C19
S(id='c19-edge-neighbour', property='C19', pkg=W,
  edits=[('writer/standard/writer.go', '		if ny >= 0 && ny < rows && nx >= 0 && nx < cols && mtx[ny][nx] {\n', '		if ny >= 0 && ny < rows && nx >= 0 && nx < cols-1 && mtx[ny][nx] {\n')],
  demo=std('''	s := &sdN{}
	sdImg(t, "hello", WithQRWidth(4), WithBorderWidth(0), WithCustomShape(s))
	if s.n == 0 {
		t.Fatal("no module has a dark right neighbour in the last column")
	}''', '''
type sdN struct{ n int }

func (s *sdN) Draw(c *DrawContext) { s.see(c) }

func (s *sdN) DrawFinder(c *DrawContext) { s.see(c) }

func (s *sdN) see(c *DrawContext) {
	if x, _ := c.UpperLeft(); x == 23*4 && c.Neighbours()&NRight != 0 {
		s.n++
	}
}
'''),
  needs='modules beside the last column', breaks='dark modules of the last column are never reported as neighbours')
S(id='c19-circle-finder', property='C19', pkg=W,
  edits=[('writer/standard/writer.go', '''		case qrcode.QRType_FINDER:
			shape.DrawFinder(ctx)
''', '''		case qrcode.QRType_FINDER, qrcode.QRType_SPLITTER:
			if typ == qrcode.QRType_SPLITTER && ctx.neighbours&NSelf == 0 && (x == 7) != (y == 7) {
				shape.Draw(ctx)
				return
			}
			shape.DrawFinder(ctx)
''')],
  demo=std('''	s := &sdShape{}
	sdRaw(t, "hello", WithCustomShape(s))
	if s.f != 3*49 || s.b != 25*25-3*49 {
		t.Fatalf("finder routine called %d times, block routine %d times", s.f, s.b)
	}''', '''
type sdShape struct{ f, b int }

func (s *sdShape) Draw(*DrawContext)       { s.b++ }
func (s *sdShape) DrawFinder(*DrawContext) { s.f++ }
'''),
  needs='a custom shape that tells finder modules from others', breaks='some separator modules are drawn by the finder routine')
S(id='c19-color-stale', property='C19', pkg=W,
  edits=[('writer/standard/writer.go', '''		ctx.color = opt.translateToRGBA(v)
''', '''		if v.Type() == qrcode.QRType_DARK {
			ctx.color = color.Black
		} else {
			ctx.color = opt.translateToRGBA(v)
		}
''')],
  demo=std('''	img := sdImg(t, "hello", WithFgColorRGBHex("#ff0000"), WithQRWidth(1), WithBorderWidth(0))
	if c := img.At(8, 17); !sdSame(c, color.RGBA{255, 0, 0, 255}) {
		t.Fatal(c)
	}'''),
  needs='a foreground colour other than black', breaks='the dark module is drawn black')
S(id='c19-nil-shape', property='C19', pkg=W,
  edits=[('writer/standard/image_option_api.go', '''		oo.shape = shape
''', '''		if shape != nil {
			oo.shape = shape
		}
''')],
  demo=std('''	a := sdHash(sdImg(t, "hello", WithCircleShape(), WithCustomShape(nil)))
	b := sdHash(sdImg(t, "hello"))
	if a != b {
		t.Fatal("a nil custom shape is not the default shape")
	}'''),
  needs='a nil custom shape after the circle option', breaks='the circle stays')

# ---- C20
SH = '''
package shapes

import (
	"bytes"
	"image"
	"image/color"
	"image/png"
	"testing"

	"github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
)

var _ image.Image
var _ color.Color

type sdSink struct {
	bytes.Buffer
	bits [][]bool
}

func (s *sdSink) Close() error { return nil }

type sdBits struct{ b [][]bool }

func (s *sdBits) Write(m qrcode.Matrix) error { s.b = m.Bitmap(); return nil }
func (s *sdBits) Close() error                { return nil }

func sdDraw(t *testing.T, text string, block uint8, finder, blocks func(*standard.DrawContext)) (image.Image, [][]bool) {
	q, err := qrcode.New(text)
	if err != nil {
		t.Fatal(err)
	}
	var b sdBits
	_ = q.Save(&b)
	var s sdSink
	if err := q.Save(standard.NewWithWriter(&s, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT), standard.WithBorderWidth(2*int(block)),
		standard.WithQRWidth(block), standard.WithCustomShape(Assemble(finder, blocks)))); err != nil {
		t.Fatal(err)
	}
	img, err := png.Decode(&s)
	if err != nil {
		t.Fatal(err)
	}
	return img, b.b
}

func sdDark(img image.Image, x, y int) bool {
	r, _, _, _ := img.At(x, y).RGBA()
	return r < 0x8000
}

// sdCentres checks every module centre.
func sdCentres(t *testing.T, block uint8, finder, blocks func(*standard.DrawContext)) {
	for _, text := range []string{"hello", "0123456789012345678901234567890123456789", "https://example.org/some/path?x=1"} {
		img, bits := sdDraw(t, text, block, finder, blocks)
		for y := range bits {
			for x := range bits[y] {
				b := int(block)
				if sdDark(img, x*b+2*b+b/2, y*b+2*b+b/2) != bits[y][x] {
					t.Fatalf("centre of module %d,%d of %q is wrong", x, y, text)
				}
			}
		}
	}
}
'''
def shp(b): return SH + '\nfunc TestSeedDemo(t *testing.T) {\n' + b + '\n}\n'
P = 'writer/standard/shapes'
S(id='c20-finder-corner', property='C20', pkg=P,
  edits=[('writer/standard/shapes/finders.go', '''		case mask == (standard.NSelf | standard.NTop | standard.NLeft | standard.NTopLeft):
			ctx.MoveTo(x, y+fh)
			ctx.QuadraticTo(x+fw, y+fh, x+fw, y)
			ctx.LineTo(x, y)
''', '''		case mask == (standard.NSelf | standard.NTop | standard.NLeft | standard.NTopLeft):
			ctx.MoveTo(x, y+lh)
			ctx.QuadraticTo(x+lw/2, y+lh/2, x+lw, y)
			ctx.LineTo(x, y)
''')],
  demo=shp('	sdCentres(t, 16, RoundedFinder(), SquareBlocks(1))'),
  needs='the rounded finder: the lower right module of the inner square', breaks='that module is left light at its centre')
S(id='c20-hstripe-light', property='C20', pkg=P,
  edits=[('writer/standard/shapes/blocks.go', '''		if has(mask, standard.NLeft|standard.NSelf) {
			drawRect(x, cy-r, fw/2, 2*r)
		}
		if has(mask, standard.NRight|standard.NSelf) {
			drawRect(cx, cy-r, fw/2, 2*r)
		}

		ctx.Fill()
	}
}

// VStripeBlock''', '''		if has(mask, standard.NLeft|standard.NSelf) {
			drawRect(x, cy-r, fw/2, 2*r)
		}
		if has(mask, standard.NRight|standard.NSelf) {
			drawRect(cx, cy-r, fw/2, 2*r)
		}
		if has(mask, standard.NLeft|standard.NRight) && stripeRatio > 0.95 {
			drawRect(x+fw, cy-r, fw*0.55, 2*r) // close hairline gaps
		}

		ctx.Fill()
	}
}

// VStripeBlock''')],
  demo=shp('''	sdCentres(t, 16, SquareFinder(), HStripeBlock(1))
	sdCentres(t, 9, SquareFinder(), HStripeBlock(0.96))'''), needs='horizontal stripes with a ratio above 0.95 and a light module between two dark ones', breaks='a light module that has dark modules on both sides paints over the centre of its right neighbour')
# ---- C21
S(id='c21-size-lower', property='C21', pkg=P,
  edits=[('writer/standard/shapes/blocks.go', '''func SquareBlocks(size float64) func(ctx *standard.DrawContext) {
	if size < 0.1 || size > 1.0 {
''', '''func SquareBlocks(size float64) func(ctx *standard.DrawContext) {
	if size <= 0.1 || size > 1.0 {
''')],
  demo=shp('''	a, _ := sdDraw(t, "hello", 20, SquareFinder(), SquareBlocks(0.1))
	b, _ := sdDraw(t, "hello", 20, SquareFinder(), SquareBlocks(1))
	n := 0
	for y := 0; y < a.Bounds().Dy(); y++ {
		for x := 0; x < a.Bounds().Dx(); x++ {
			if sdDark(a, x, y) != sdDark(b, x, y) {
				n++
			}
		}
	}
	if n == 0 {
		t.Fatal("size 0.1 is treated as out of range")
	}'''),
  needs='the smallest documented size, exactly 0.1', breaks='it is taken for out of range')
S(id='c21-vstripe-ratio', property='C21', pkg=P,
  edits=[('writer/standard/shapes/blocks.go', '''func VStripeBlock(stripeRatio float64) func(ctx *standard.DrawContext) {
	if stripeRatio < 0.6 || stripeRatio > 1 {
''', '''func VStripeBlock(stripeRatio float64) func(ctx *standard.DrawContext) {
	if stripeRatio < 0.5 || stripeRatio > 1 {
''')],
  demo=shp('''	a, _ := sdDraw(t, "hello", 20, SquareFinder(), VStripeBlock(0.55))
	b, _ := sdDraw(t, "hello", 20, SquareFinder(), VStripeBlock(0.85))
	for y := 0; y < a.Bounds().Dy(); y++ {
		for x := 0; x < a.Bounds().Dx(); x++ {
			if a.At(x, y) != b.At(x, y) {
				t.Fatal("ratio 0.55 is not treated as the default 0.85")
			}
		}
	}'''),
  needs='a vertical stripe ratio between 0.5 and 0.6', breaks='it is used instead of the default')
# ---- C22
S(id='c22-limit-strict', property='C22', pkg=W,
  edits=[('writer/standard/writer.go', 'return qrWidth >= logoSizeMultiplier*logoWidth && qrHeight >= logoSizeMultiplier*logoHeight', 'return qrWidth >= logoSizeMultiplier*logoWidth && (qrHeight >= logoSizeMultiplier*logoHeight || logoHeight <= logoWidth)')],
  demo=std('''	logo := image.NewRGBA(image.Rect(0, 0, 60, 50))
	for i := range logo.Pix {
		logo.Pix[i] = 0x80
	}
	// 310x210: the logo is too high
	a := sdHash(sdImg(t, "hello", WithQRWidth(8), WithBorderWidth(5, 55), WithLogoImage(logo)))
	b := sdHash(sdImg(t, "hello", WithQRWidth(8), WithBorderWidth(5, 55)))
	if a != b {
		t.Fatal("a logo that is too high is drawn")
	}'''),
  needs='an image wider than high (different borders) and a flat logo that only fits in width', breaks='a logo above the height limit is drawn')
S(id='c22-centre-odd', property='C22', pkg=W,
  edits=[('writer/standard/image_option.go', '''	if oo == nil || oo.logo == nil {
		return nil
	}
''', '''	if oo == nil || oo.logo == nil || oo.logo.Bounds().Dx() < 2 {
		return nil
	}
''')],
  demo=std('''	logo := image.NewRGBA(image.Rect(0, 0, 1, 9))
	for i := range logo.Pix {
		logo.Pix[i] = 0x80
	}
	a := sdHash(sdImg(t, "hello", WithQRWidth(8), WithLogoImage(logo)))
	b := sdHash(sdImg(t, "hello", WithQRWidth(8)))
	if a == b {
		t.Fatal("a logo one pixel wide is not drawn")
	}'''),
  needs='a logo one pixel wide', breaks='the logo is dropped')
S(id='c22-png-logo-lost', property='C22', pkg=W,
  edits=[('writer/standard/image_option_api.go', '''		img, err := png.Decode(fd)
		if err != nil {
			fmt.Printf("Decode file(%s) as PNG failed: %v\\n", f, err)
			return
		}

		oo.logo = img
''', '''		img, err := png.Decode(fd)
		if err != nil {
			fmt.Printf("Decode file(%s) as PNG failed: %v\\n", f, err)
		}

		oo.logo = img
''')],
  demo=std('''	f := filepath.Join(t.TempDir(), "x.png")
	_ = os.WriteFile(f, []byte("no image"), 0o600)
	logo := image.NewRGBA(image.Rect(0, 0, 9, 9))
	for i := range logo.Pix {
		logo.Pix[i] = 0x80
	}
	a := sdHash(sdImg(t, "hello", WithQRWidth(8), WithLogoImage(logo), WithLogoImageFilePNG(f)))
	b := sdHash(sdImg(t, "hello", WithQRWidth(8), WithLogoImage(logo)))
	if a != b {
		t.Fatal("an unreadable logo file removes the logo")
	}'''),
  needs='a logo followed by an unreadable PNG logo file', breaks='the earlier logo is dropped')

# ---- C23
S(id='c23-touching', property='C23', pkg=W,
  edits=[('writer/standard/writer.go', '	return blockRight > logoLeft && blockLeft < logoRight &&\n', '	return blockRight >= logoLeft && blockLeft < logoRight &&\n')],
  demo=std('''	logo := image.NewRGBA(image.Rect(0, 0, 30, 30))
	for _, safe := range []bool{true} {
		opts := []ImageOption{WithQRWidth(10), WithBorderWidth(0), WithLogoImage(logo), WithLogoSizeMultiplier(2)}
		if safe {
			opts = append(opts, WithLogoSafeZone())
		}
		img := sdImg(t, "hello", opts...)
		// 25 modules of 10 pixels: the logo covers 110 to 139, modules 11 to 13
		for y, row := range sdModules(t, "hello") {
			for x, dark := range row {
				if x >= 11 && x <= 13 && y >= 11 && y <= 13 {
					continue
				}
				r, _, _, _ := img.At(10*x+5, 10*y+5).RGBA()
				if (r == 0) != dark {
					t.Fatalf("module (%d,%d) beside the logo is not %v", x, y, dark)
				}
			}
		}
	}'''),
  needs='a logo whose left edge lies exactly on a module edge', breaks='the column of modules left of the logo is cleared too')
S(id='c23-neighbours-raw', property='C23', pkg=W,
  edits=[('writer/standard/writer.go', '''			if blockOverlapsLogo(x, y, opt.qrBlockWidth(), left, top, w, h, logoWidth, logoHeight) {
				bitMap[y][x] = false
''', '''			if blockOverlapsLogo(x, y, opt.qrBlockWidth(), left, top, w, h, logoWidth, logoHeight) && v.Type() == qrcode.QRType_DATA {
				bitMap[y][x] = false
''')],
  demo=std('''	logo := image.NewRGBA(image.Rect(0, 0, 180, 180))
	s := &sdShape{}
	q, err := qrcode.NewWith("hello", qrcode.WithVersion(8))
	if err != nil {
		t.Fatal(err)
	}
	// multiplier 1: the logo covers timing and finder modules
	if err := q.Save(NewWithWriter(&sdSink{}, WithQRWidth(4), WithBorderWidth(0), WithLogoImage(logo), WithLogoSizeMultiplier(1), WithLogoSafeZone(), WithCustomShape(s))); err != nil {
		t.Fatal(err)
	}
	if s.bad != 0 {
		t.Fatalf("%d light modules in the safe zone see dark neighbours well inside it", s.bad)
	}''', '''
type sdShape struct{ bad int }

func (s *sdShape) Draw(c *DrawContext) {
	x, y := c.UpperLeft()
	if x > 20 && y > 20 && x < 172 && y < 172 && c.Neighbours() != 0 {
		s.bad++
	}
}
func (s *sdShape) DrawFinder(*DrawContext) {}
'''),
  needs='a logo large enough (multiplier below the default) to cover function modules', breaks='cleared function modules are still reported as dark neighbours')

# ---- C24
S(id='c24-fg-alpha', property='C24', pkg=W,
  edits=[('writer/standard/gradient.go', '''	if t >= stops[len(stops)-1].T {
		return stops[len(stops)-1].Color
	}
	for i''', '''	if t >= stops[len(stops)-1].T || len(stops) == 2 && t > 0.999 {
		return stops[0].Color
	}
	for i''')],
  demo=std('''	img := sdImg(t, "hello", WithQRWidth(10), WithBorderWidth(0), WithFgGradient(NewGradient(0, ColorStop{0.2, color.RGBA{255, 0, 0, 255}}, ColorStop{0.6, color.RGBA{0, 0, 255, 255}})))
	// the outer ring of the upper right finder
	if c := img.At(248, 20); !sdSame(c, color.RGBA{0, 0, 255, 255}) {
		t.Fatal(c)
	}'''),
  needs='positions beyond the last stop', breaks='they get the colour of the first stop')
S(id='c24-angle', property='C24', pkg=W,
  edits=[('writer/standard/gradient.go', '		{xmin, ymin},\n		{xmin, ymax},\n		{xmax, ymin},\n		{xmax, ymax},\n', '		{xmin, ymin},\n		{xmin, ymax},\n		{xmax, ymin},\n		{xmin, ymin},\n')],
  demo=std('''	img := sdImg(t, "hello", WithQRWidth(10), WithBorderWidth(0), WithFgGradient(NewGradient(-45, ColorStop{0, color.RGBA{0, 0, 0, 255}}, ColorStop{1, color.RGBA{255, 0, 0, 255}})))
	// the colours of dark modules near the diagonal from corner to corner
	if got := sdHash(img); got != "@WANT@" {
		fmt.Println("GOT=" + got)
		t.Fatal("the gradient is not the one asked for")
	}'''),
  needs='a gradient direction that points into the lower right corner', breaks='the gradient is compressed to the first half of the diagonal')
# ---- C25
S(id='c25-threshold', property='C25', pkg=W,
  edits=[('writer/standard/writer.go', '''			imgkit.Scale(opt.halftoneImg, image.Rect(0, 0, mat.Width()*3, mat.Width()*3), nil),
			60,
''', '''			imgkit.Scale(opt.halftoneImg, image.Rect(0, 0, mat.Width()*3, mat.Width()*3), nil),
			64,
''')],
  demo=std('''	pic := image.NewGray(image.Rect(0, 0, 10, 10))
	for i := range pic.Pix {
		pic.Pix[i] = 62
	}
	img := sdImg(t, "hello", WithHalftoneImage(pic), WithQRWidth(9), WithBorderWidth(0))
	bits := sdModules(t, "hello")
	// a data module right of the finder: a picture of luminance 62 is light
	for x := 9; x < 16; x++ {
		if r, _, _, _ := img.At(x*9, 0).RGBA(); r == 0 {
			t.Fatalf("cell of module %d is black (module dark: %v)", x, bits[0][x])
		}
	}'''),
  needs='a picture with luminances 61 to 64', breaks='they are taken for dark')
S(id='c25-cellshift', property='C25', pkg=W,
  edits=[('writer/standard/writer.go', '						ctx2.color = halftoneColor(halftoneImg, opt.bgTransparent, x*3+i, y*3+j)\n', '						ctx2.color = halftoneColor(halftoneImg, opt.bgTransparent, x*3+j, y*3+i)\n')],
  demo=std('''	pic := image.NewGray(image.Rect(0, 0, 75, 75))
	for y := 0; y < 75; y++ {
		for x := 0; x < 75; x++ {
			if x%3 == 0 {
				pic.Pix[y*75+x] = 255
			}
		}
	}
	img := sdImg(t, "hello", WithHalftoneImage(pic), WithQRWidth(9), WithBorderWidth(0))
	if r, _, _, _ := img.At(10*9+1, 1+3).RGBA(); r == 0 {
		t.Fatal("the cell left of the centre is not light like the picture")
	}'''),
  needs='a picture with detail finer than a module', breaks='the cells of every module are transposed')
S(id='c25-transparent-black', property='C25', pkg=W,
  edits=[('writer/standard/writer.go', '''	if c1.Y == 255 {
		if transparent {
''', '''	if c1.Y == 255 {
		if transparent && x < y*4 {
''')],
  demo=std('''	pic := image.NewGray(image.Rect(0, 0, 10, 10))
	for i := range pic.Pix {
		pic.Pix[i] = 255
	}
	img := sdImg(t, "hello", WithHalftoneImage(pic), WithQRWidth(9), WithBorderWidth(0), WithBgTransparent())
	for x := 9; x < 16; x++ {
		if _, _, _, a := img.At(x*9, 0).RGBA(); a != 0 {
			t.Fatalf("light cell of module %d is not transparent", x)
		}
	}'''),
  needs='transparent background with a halftone picture, the upper right part of the symbol', breaks='light cells are white instead of transparent')

# ---- C26
S(id='c26-gradient-sort', property='C26', pkg=W,
  edits=[('writer/standard/gradient.go', '''	angleRad := g.Angle * math.Pi / 180.0
''', '''	for g.Angle < 0 {
		g.Angle += 360
	}
	angleRad := g.Angle * math.Pi / 180.0
''')],
  demo=std('''	g := NewGradient(-30, ColorStop{0, color.RGBA{0, 0, 0, 255}}, ColorStop{1, color.RGBA{255, 0, 0, 255}})
	sdRaw(t, "hello", WithFgGradient(g))
	if g.Angle != -30 {
		t.Fatal("writing modified the gradient")
	}'''),
  needs='a gradient with a negative angle', breaks='writing changes the caller\'s gradient')
S(id='c26-option-sticky', property='C26', pkg=W,
  edits=[('writer/standard/writer.go', '''	// bitMap stores which blocks are set (true = active block)
''', '''	if opt.logoImage() != nil && !logoValid {
		// too large for this symbol: no need to check it again
		opt.logo = nil
	}
	// bitMap stores which blocks are set (true = active block)
'''), ('writer/standard/writer.go', '''		logoValid = validLogoImage(w, h, logoWidth, logoHeight, opt.logoSizeMultiplier)
''', '''		logoValid = logoWidth*logoHeight == 0 || validLogoImage(w, h, logoWidth, logoHeight, opt.logoSizeMultiplier)
''')],
  demo=std('''	logo := image.NewRGBA(image.Rect(0, 0, 50, 50))
	for i := range logo.Pix {
		logo.Pix[i] = 0x80
	}
	small, _ := qrcode.NewWith("x", qrcode.WithVersion(1))
	big, _ := qrcode.NewWith("x", qrcode.WithVersion(10))
	opts := []ImageOption{WithLogoImage(logo), WithQRWidth(8), WithBorderWidth(0), WithBuiltinImageEncoder(PNG_FORMAT)}
	var a, b sdSink
	w := NewWithWriter(&b, opts...)
	_ = small.Save(w)
	b.Reset()
	_ = big.Save(w)
	_ = big.Save(NewWithWriter(&a, opts...))
	if !bytes.Equal(a.Bytes(), b.Bytes()) {
		t.Fatal("what was written before changes the image")
	}'''),
  needs='one writer used for a small symbol the logo does not fit, then for a larger one', breaks='the logo is missing from the second image')
S(id='c26-canvas-reuse', property='C26', pkg=W,
  edits=[('writer/standard/writer.go', '''	dc := gg.NewContext(w, h)

''', '''	canvas, _ := canvasPool.Get().(*image.RGBA)
	if canvas == nil || canvas.Rect.Dx() != w || canvas.Rect.Dy() != h {
		canvas = image.NewRGBA(image.Rect(0, 0, w, h))
	}
	defer canvasPool.Put(canvas)
	dc := gg.NewContextForRGBA(canvas)

'''), ('writer/standard/writer.go', '''// getNeighbours returns a bitmask (uint16) representing the 8 neighboring cells
''', '''// canvasPool saves allocations when many symbols of one size are drawn.
var canvasPool sync.Pool

// getNeighbours is a bitmask (uint16) representing the 8 neighboring cells
'''), ('writer/standard/writer.go', '	"os"\n\n', '	"os"\n	"sync"\n\n')],
  demo=std('''	sdRaw(t, "a symbol with text", WithBuiltinImageEncoder(PNG_FORMAT))
	var kept []image.Image
	var want []string
	e := &sdKeep{&kept, &want}
	for _, s := range []string{"a", "b", "c"} {
		sdRaw(t, s, WithCustomImageEncoder(e))
	}
	for i := range kept {
		if sdHash(kept[i]) != want[i] {
			t.Fatal("an image that an encoder received is overwritten by a later write")
		}
	}
	x := sdHash(sdImg(t, "zz", WithBgTransparent()))
	sdImg(t, "yy")
	if y := sdHash(sdImg(t, "zz", WithBgTransparent())); x != y {
		t.Fatal("a transparent image shows the image before it")
	}''', '''
type sdKeep struct {
	k *[]image.Image
	h *[]string
}

func (e *sdKeep) Encode(w io.Writer, img image.Image) error {
	*e.k = append(*e.k, img)
	*e.h = append(*e.h, sdHash(img))
	return nil
}
'''),
  needs='two images of the same size, one after the other, the second with a transparent background', breaks='the canvas of the first image shows through')

# ---- C27
S(id='c27-no-trunc', property='C27', pkg='writer/compressed',
  edits=[('writer/compressed/writer.go', 'os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644', 'os.O_RDWR|os.O_CREATE, 0644')],
  demo='''
package compressed

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/yeqown/go-qrcode/v2"
)

func TestSeedDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "x.png")
	_ = os.WriteFile(f, bytes.Repeat([]byte("x"), 100000), 0o600)
	w, err := New(f, &Option{Padding: 1, BlockSize: 2})
	if err != nil {
		t.Fatal(err)
	}
	q, _ := qrcode.New("hello")
	if err := q.Save(w); err != nil {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile(f); len(b) >= 100000 {
		t.Fatal("old content is left behind the image")
	}
}
''',
  needs='an existing, longer file', breaks='its tail stays behind the image')
S(id='c27-append', property='C27', pkg=W,
  edits=[('writer/standard/writer.go', 'fd, err := os.OpenFile(filename, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)', 'fd, err := os.OpenFile(filename, os.O_CREATE|os.O_WRONLY, 0644)\n	if st, _ := os.Stat(filename); err == nil && st.Size() < 1<<16 {\n		err = fd.Truncate(0)\n	}')],
  demo=std('''	f := filepath.Join(t.TempDir(), "x.png")
	_ = os.WriteFile(f, bytes.Repeat([]byte("x"), 1000000), 0o600)
	w, err := New(f)
	if err != nil {
		t.Fatal(err)
	}
	q, _ := qrcode.New("hello")
	if err := q.Save(w); err != nil {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile(f); len(b) >= 1000000 {
		t.Fatal("old content is left behind the image")
	}'''),
  needs='an existing file of 64 KB or more, longer than the image', breaks='its tail stays behind the image')

# ---- C28
CMP = '''
package compressed

import (
	"bytes"
	"image/png"
	"testing"

	"github.com/yeqown/go-qrcode/v2"
)

type sdSink struct {
	bytes.Buffer
	closed int
}

func (s *sdSink) Close() error { s.closed++; return nil }
'''
S(id='c28-padding-zero', property='C28', pkg='writer/compressed',
  edits=[('writer/compressed/writer.go', '		sx := x*blockWidth + padding\n		sy := y*blockWidth + padding\n', '		sx := x*blockWidth + padding\n		sy := y*blockWidth + padding\n		if blockWidth > 16 {\n			sx, sy = sx+1, sy+1\n		}\n'),
   ('writer/compressed/writer.go', '		es := (x+1)*blockWidth + padding\n', '		es := sx + blockWidth - (sx-padding)%blockWidth\n')],
  demo=CMP + '''
func TestSeedDemo(t *testing.T) {
	q, _ := qrcode.New("hello")
	var s sdSink
	if err := q.Save(NewWithWriter(&s, &Option{BlockSize: 17})); err != nil {
		t.Fatal(err)
	}
	img, err := png.Decode(&s)
	if err != nil {
		t.Fatal(err)
	}
	if r, _, _, _ := img.At(0, 0).RGBA(); r != 0 {
		t.Fatal("the first pixel of the finder is light")
	}
}
''',
  needs='a block size above 16', breaks='every dark module lacks its first row and column of pixels')
S(id='c28-deep', property='C28', pkg='writer/compressed',
  edits=[('writer/compressed/writer.go', '		[]color.Color{backgroundColor, foregroundColor},\n', '		[]color.Color{backgroundColor, foregroundColor, color.Gray{Y: 0x80}},\n')],
  demo=CMP + '''
func TestSeedDemo(t *testing.T) {
	q, _ := qrcode.New("hello")
	var s sdSink
	if err := q.Save(NewWithWriter(&s, &Option{BlockSize: 3, Padding: 2})); err != nil {
		t.Fatal(err)
	}
	if s.Bytes()[24] != 1 {
		t.Fatalf("%d bits per pixel", s.Bytes()[24])
	}
	_ = png.Decode
}
''',
  needs='any symbol; only the file format shows it', breaks='the palette has three colours and the image two bits per pixel')
S(id='c28-level', property='C28', pkg='writer/compressed',
  edits=[('writer/compressed/writer.go', 'encoder := png.Encoder{CompressionLevel: png.BestCompression}', 'encoder := png.Encoder{CompressionLevel: png.BestSpeed}')],
  demo=CMP + '''
func TestSeedDemo(t *testing.T) {
	q, _ := qrcode.New("hello hello hello hello hello hello hello")
	var s, d sdSink
	if err := q.Save(NewWithWriter(&s, &Option{BlockSize: 20, Padding: 20})); err != nil {
		t.Fatal(err)
	}
	n := s.Len()
	img, err := png.Decode(&s)
	if err != nil {
		t.Fatal(err)
	}
	_ = png.Encode(&d, img)
	if n > d.Len()*11/10 {
		t.Fatalf("%d bytes, default compression gives %d", n, d.Len())
	}
}
''',
  needs='any symbol; only the size shows it', breaks='the image is compressed for speed')

# ---- C29
S(id='c29-odd-row', property='C29', pkg='writer/file',
  edits=[('writer/file/writer.go', '			if col*2+1 < len(bm) {\n', '			if col*2+1 == len(bm) && bm[0][row] && selectedRune == upRune && len(bm) > 100 {\n				selectedRune = upDownRune\n			}\n\n			if next := col*2 + 1; next < len(bm) {\n')],
  demo='''
package file

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/yeqown/go-qrcode/v2"
)

func TestSeedDemo(t *testing.T) {
	name := filepath.Join(t.TempDir(), "x.txt")
	f, err := os.Create(name)
	if err != nil {
		t.Fatal(err)
	}
	q, _ := qrcode.NewWith("hello", qrcode.WithVersion(25))
	if err := q.Save(New(f)); err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile(name)
	lines := strings.Split(strings.TrimSuffix(string(b), "\\n"), "\\n")
	if strings.ContainsAny(lines[len(lines)-1], "▄█") {
		t.Fatal("the half row below the symbol is not light")
	}
}
''',
  needs='a symbol larger than 100 modules (version 21 and up)', breaks='some characters of the last line have a dark lower half')
S(id='c29-nil-file', property='C29', pkg='writer/file',
  edits=[('writer/file/writer.go', '''func (a *Writer) Close() error { return nil }''', '''func (a *Writer) Close() error {
	if a.out == nil || a.out == os.Stdout || a.out == os.Stderr {
		return nil
	}

	return a.out.Close()
}''')],
  demo='''
package file

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/yeqown/go-qrcode/v2"
)

func TestSeedDemo(t *testing.T) {
	f, err := os.Create(filepath.Join(t.TempDir(), "x.txt"))
	if err != nil {
		t.Fatal(err)
	}
	q, _ := qrcode.New("hello")
	if err := q.Save(New(f)); err != nil {
		t.Fatal(err)
	}
	if _, err := f.WriteString("more"); err != nil {
		t.Fatal("the caller's file is closed:", err)
	}
}
''',
  needs='a caller that goes on using its file', breaks='the file is closed')
S(id='c29-werr', property='C34', pkg='writer/file',
  edits=[('writer/file/writer.go', '''		_, err := a.out.WriteString("\\n")
		if err != nil {
			return err
		}
	}

	return nil
''', '''		if _, err := a.out.WriteString("\\n"); err != nil {
			break
		}
	}

	return nil
''')],
  demo='''
package file

import (
	"os"
	"os/exec"
	"path/filepath"
	"testing"

	"github.com/yeqown/go-qrcode/v2"
)

// a file size limit of one block makes a later write fail; try every alignment
func TestSeedDemo(t *testing.T) {
	if dir := os.Getenv("SD_DIR"); dir != "" {
		q, _ := qrcode.NewWith("hello", qrcode.WithVersion(10))
		for pre := 0; pre < 400; pre++ {
			f, err := os.Create(filepath.Join(dir, "x.txt"))
			if err != nil {
				t.Fatal(err)
			}
			_, _ = f.Write(make([]byte, pre))
			if err := q.Save(New(f)); err == nil {
				t.Fatalf("writing beyond the file size limit gives no error (offset %d)", pre)
			}
			f.Close()
		}
		return
	}
	c := exec.Command("bash", "-c", `trap "" XFSZ; ulimit -f 1; exec "$0" -test.run '^TestSeedDemo$'`, os.Args[0])
	c.Env = append(os.Environ(), "SD_DIR="+t.TempDir())
	if out, err := c.CombinedOutput(); err != nil {
		t.Fatalf("%v\\n%s", err, out)
	}
}
''',
  needs='a stream that fails exactly at a line end', breaks='the error is swallowed and save succeeds')

# ---- C33
KIT = '''
package imgkit

import (
	"image"
	"image/color"
	"os"
	"path/filepath"
	"testing"
)

var _ = os.Open
var _ = filepath.Join
var _ color.Color
'''
S(id='c33-thr-equal', property='C33', pkg='writer/standard/imgkit',
  edits=[('writer/standard/imgkit/process.go', 'if gray.At(j, i).(color.Gray).Y > threshold {', 'if v := gray.At(j, i).(color.Gray).Y; v > threshold || v == 0xff {')],
  demo=KIT + '''
func TestSeedDemo(t *testing.T) {
	img := image.NewGray(image.Rect(0, 0, 2, 2))
	img.Pix[0] = 255
	if c := Binaryzation(img, 255).At(0, 0).(color.Gray); c.Y != 0 {
		t.Fatal("luminance 255 does not exceed the threshold 255")
	}
}
''',
  needs='the threshold 255', breaks='white pixels stay white although they do not exceed the threshold')
S(id='c33-bounds', property='C33', pkg='writer/standard/imgkit',
  edits=[('writer/standard/imgkit/process.go', '	scale.Scale(dst, rect, src, src.Bounds(), draw.Over, nil)\n', '	scale.Scale(dst, dst.Bounds(), src, image.Rect(0, 0, src.Bounds().Dx(), src.Bounds().Dy()), draw.Over, nil)\n')],
  demo=KIT + '''
func TestSeedDemo(t *testing.T) {
	img := image.NewGray(image.Rect(5, 5, 15, 15))
	for i := range img.Pix {
		img.Pix[i] = 200
	}
	c := color.GrayModel.Convert(Scale(img, image.Rect(0, 0, 20, 20), nil).At(1, 1)).(color.Gray)
	if c.Y < 199 {
		t.Fatalf("a uniform picture of 200 scales to %d", c.Y)
	}
}
''',
  needs='a source picture that does not start at the origin (a sub-image)', breaks='parts outside the picture are sampled')
S(id='c33-gray-inplace', property='C33', pkg='writer/standard/imgkit',
  edits=[('writer/standard/imgkit/process.go', '	bounds := src.Bounds()\n	gray := image.NewGray(bounds)\n', '	if g, ok := src.(*image.Gray); ok {\n		return g\n	}\n	bounds := src.Bounds()\n	gray := image.NewGray(src.Bounds())\n')],
  demo=KIT + '''
func TestSeedDemo(t *testing.T) {
	img := image.NewGray(image.Rect(0, 0, 2, 2))
	img.Pix[0] = 100
	Binaryzation(img, 50)
	if img.Pix[0] != 100 {
		t.Fatal("the source picture is modified")
	}
}
''',
  needs='a source that already is a grey picture', breaks='thresholding overwrites the source')

# ---- C34
S(id='c34-jpeg-buffer', property='C34', pkg=W,
  edits=[('writer/standard/image_format.go', '	return jpeg.Encode(w, img, nil)\n', '''	bw := bufio.NewWriterSize(w, 1<<16)
	defer bw.Flush()
	return jpeg.Encode(bw, img, nil)
'''), ('writer/standard/image_format.go', 'import (\n', 'import (\n	"bufio"\n')],
  demo=std('''	q, _ := qrcode.New("hello")
	if err := q.Save(NewWithWriter(sdFail{})); err == nil {
		t.Fatal("a failing stream gives no error")
	}''', '''
type sdFail struct{}

func (sdFail) Write([]byte) (int, error) { return 0, errors.New("no space") }
func (sdFail) Close() error              { return nil }
'''),
  needs='a stream that fails while a JPEG smaller than the buffer is written', breaks='the error of the final flush is ignored')
