exec(open('/verif/tools/seeds/image.py').read())
exec(open('/verif/tools/seeds/root.py').read())
SEEDS = []

S(id='c04-ec-memo', property='C04',
  edits=[('qrcode.go', '		bset := reedsolomon.Encode(b.Data, b.NumECBlock)\n		blocks[idx].Data, err = bset.Subset(b.StartOffset, bset.Len())\n',
'''		// equal blocks have equal error correction
		raw := b.Data.Bytes()
		key := [5]byte{raw[0], raw[1], raw[len(raw)-1], raw[len(raw)-2], byte(len(raw))}
		if blocks[idx].Data = seen[key]; blocks[idx].Data == nil {
			all := reedsolomon.Encode(b.Data, b.NumECBlock)
			blocks[idx].Data, err = all.Subset(b.StartOffset, all.Len())
			seen[key] = blocks[idx].Data
		}
'''), ('qrcode.go', '	blocks = make([]ecBlock, q.v.TotalNumBlocks())\n	for idx', '	blocks = make([]ecBlock, q.v.TotalNumBlocks())\n	seen := map[[5]byte]*binary.Binary{}\n	for idx')],
  demo=hashdemo('''	b := []byte(strings.Repeat("a", 500))
	b[330] = 'z'
	qs = append(qs, mustNew(t, b, WithVersion(25), WithErrorCorrectionLevel(ErrorCorrectionHighest)))'''.replace('b, WithV', 'string(b), WithV')),
  needs='two blocks of one symbol with the same ends and different middles (a repetitive text with one different character)', breaks='the second block gets the error correction of the first')

S(id='c09-slow', property='C09',
  edits=[('chardet.go', '		if pass := analyzeFn(r); pass {\n', '		if pass := analyzeFn(r); pass && (i < 4096 || utf8.ValidString(strings.ToUpper(raw[:i]))) {\n'),
         ('chardet.go', '	for _, r := range raw {\n	reAnalyze', '	for i, r := range raw {\n	reAnalyze'),
         ('chardet.go', 'import (\n	"errors"\n', 'import (\n	"errors"\n	"strings"\n	"unicode/utf8"\n')],
  demo=HASH.replace('	"testing"\n', '	"testing"\n	"time"\n') + '''
func TestSeedDemo(t *testing.T) {
	start := time.Now()
	_, err := New(strings.Repeat("a", 300000))
	if err == nil {
		t.Fatal("accepted")
	}
	if d := time.Since(start); d > 8*time.Second {
		t.Fatalf("refusing a text took %v", d)
	}
}
''',
  needs='a text of some hundred thousand characters', breaks='the time to refuse it grows with the square of its length')

S(id='c12-copy-large', property='C12',
  edits=[('matrix.go', '		mat2[w] = make([]qrvalue, m.height)\n		copy(mat2[w], m.mat[w])\n', '''		if w < 170 {
			mat2[w] = make([]qrvalue, m.height)
			copy(mat2[w], m.mat[w])
		} else {
			mat2[w] = append(m.mat[w][:0:m.height], m.mat[w]...)
		}
''')],
  demo=body('''	m := matrixOf(mustNew(t, "hello", WithVersion(40)))
	c := m.Copy()
	for x := 0; x < c.Width(); x++ {
		for y := range c.Col(x) {
			c.Col(x)[y] = QRValue_DATA_V1
		}
	}
	for x, row := range m.Row(20) {
		_ = x
		if !row.IsSet() {
			return
		}
	}
	t.Fatal("all dark")''') if 0 else body('''	m := matrixOf(mustNew(t, "hello", WithVersion(40)))
	c := m.Copy()
	before := fmt.Sprint(m.Col(175))
	for y := range c.Col(175) {
		c.Col(175)[y] = QRValue_DATA_V1
	}
	if fmt.Sprint(m.Col(175)) != before {
		t.Fatal("a copy shares a column with its source")
	}'''),
  needs='a copy of a version 39 or 40 matrix that is modified', breaks='the last columns are shared with the source')

S(id='c28-nocompress-large', property='C28', pkg='writer/compressed',
  edits=[('writer/compressed/writer.go', '	encoder := png.Encoder{CompressionLevel: png.BestCompression}\n', '''	encoder := png.Encoder{CompressionLevel: png.BestCompression}
	if width >= 1500 {
		encoder.CompressionLevel = png.BestSpeed // best compression is slow
	}
''')] if 0 else [('writer/compressed/writer.go', '	width := mat.Width()*blockWidth + 2*padding\n	height := width\n', '''	height := mat.Width()*blockWidth + 2*padding
	width := height
	if width > 1024 {
		width = (width + 3) / 4 * 4 // whole words in a row
	}
''')],
  demo='''
package compressed

import (
	"bytes"
	"image/png"
	"testing"

	"github.com/yeqown/go-qrcode/v2"
)

type sdSink struct{ bytes.Buffer }

func (*sdSink) Close() error { return nil }

func TestSeedDemo(t *testing.T) {
	q, err := qrcode.NewWith("hello", qrcode.WithVersion(40))
	if err != nil {
		t.Fatal(err)
	}
	s := &sdSink{}
	if err := q.Save(NewWithWriter(s, &Option{Padding: 0, BlockSize: 7})); err != nil {
		t.Fatal(err)
	}
	img, err := png.Decode(s)
	if err != nil || img.Bounds().Dx() != 177*7 {
		t.Fatal(err, img.Bounds())
	}
}
''',
  needs='an image wider than 1024 pixels whose width is no multiple of four', breaks='the image is up to three pixels too large')

S(id='c34-close-err', property='C34', pkg=W,
  edits=[('writer/standard/writer.go', '	if err := w.closer.Close(); !errors.Is(err, os.ErrClosed) {\n		return err\n	}\n', '''	if err := w.closer.Close(); err != nil {
		if pe := new(os.PathError); errors.As(err, &pe) {
			return nil // nothing that the caller could do about it
		}
		return err
	}
''')],
  demo=std('''	w := NewWithWriter(&sdBadClose{})
	if err := w.Close(); err == nil {
		t.Fatal("the error of Close is lost")
	}''', '''
type sdBadClose struct{ sdSink }

func (*sdBadClose) Close() error { return &os.PathError{Op: "close", Path: "x", Err: errors.New("no space")} }
'''),
  needs='a stream whose Close fails', breaks='the error of Close is lost')

S(id='c24-big-angle', property='C24', pkg=W,
  edits=[('writer/standard/gradient.go', '	angleRad := g.Angle * math.Pi / 180.0\n', '''	angle := g.Angle
	if angle > 360 || angle < -360 {
		angle = float64(int(angle) % 360)
	}
	angleRad := angle * math.Pi / 180.0
''')],
  demo=std('''	g := func(a float64) *LinearGradient {
		return NewGradient(a, ColorStop{0, color.RGBA{0, 0, 0, 255}}, ColorStop{1, color.RGBA{255, 255, 0, 255}})
	}
	a := sdImg(t, "hello", WithFgGradient(g(360.75)), WithQRWidth(10))
	b := sdImg(t, "hello", WithFgGradient(g(360.01)), WithQRWidth(10))
	if sdHash(a) == sdHash(b) {
		t.Fatal("directions of 360.75 and 360.01 degrees look the same")
	}'''),
  needs='a gradient direction beyond a full turn with a fraction of a degree', breaks='the fraction is dropped')

S(id='c22-mult-one', property='C22', pkg=W,
  edits=[('writer/standard/image_option_api.go', '		oo.logoSizeMultiplier = multiplier\n', '		if multiplier > 1 {\n			oo.logoSizeMultiplier = multiplier\n		}\n')],
  demo=std('''	logo := image.NewRGBA(image.Rect(0, 0, 100, 100))
	for i := range logo.Pix {
		logo.Pix[i] = 255
	}
	img := sdImg(t, "hello", WithQRWidth(4), WithBorderWidth(0), WithLogoImage(logo), WithLogoSizeMultiplier(1))
	if !sdSame(img.At(0, 0), color.White) {
		t.Fatal("a logo as large as the image is not drawn")
	}'''),
  needs='the multiplier one', breaks='the default multiplier stays')

S(id='c23-invalid-zone', property='C23', pkg=W,
  edits=[('writer/standard/writer.go', '	if logoValid && opt.logoSafeZone {\n', '	if opt.logoImage() != nil && opt.logoSafeZone {\n')],
  demo=std('''	logo := image.NewRGBA(image.Rect(0, 0, 90, 90))
	a, b := &sdLog{}, &sdLog{}
	sdRaw(t, "hello", WithQRWidth(4), WithBorderWidth(0), WithCustomShape(a), WithLogoImage(logo), WithLogoSafeZone())
	sdRaw(t, "hello", WithQRWidth(4), WithBorderWidth(0), WithCustomShape(b), WithLogoSafeZone())
	if fmt.Sprint(a.n) != fmt.Sprint(b.n) {
		t.Fatal("a logo that is too large changes the neighbours")
	}''', '''
type sdLog struct{ n []uint16 }

func (s *sdLog) Draw(c *DrawContext)       { s.n = append(s.n, c.Neighbours()) }
func (s *sdLog) DrawFinder(c *DrawContext) { s.n = append(s.n, c.Neighbours()) }
'''),
  needs='the safe zone with a logo that is too large to be drawn', breaks='the modules report no neighbours where the logo would have been')

S(id='c19-halftone-finder', property='C19', pkg=W,
  edits=[('writer/standard/writer.go', '			shape.DrawFinder(ctx)\n', '			if halftoneImg == nil {\n				shape.DrawFinder(ctx)\n			} else {\n				shape.Draw(ctx)\n			}\n')],
  demo=std('''	s := &sdShape{}
	sdRaw(t, "hello", WithCustomShape(s), WithHalftoneImage(image.NewGray(image.Rect(0, 0, 9, 9))))
	if s.f != 3*49 {
		t.Fatalf("finder routine called %d times", s.f)
	}''', '''
type sdShape struct{ f, b int }

func (s *sdShape) Draw(*DrawContext)       { s.b++ }
func (s *sdShape) DrawFinder(*DrawContext) { s.f++ }
'''),
  needs='a custom shape together with a halftone picture', breaks='finder modules are drawn by the block routine')

S(id='c19-halftone-order', property='C19', pkg=W,
  edits=[('writer/standard/writer.go', '''					if i == 1 && j == 1 {
						ctx2.color = ctx.color
''', '''					ctx2.neighbours = ctx.neighbours
					if i == 1 && j == 1 {
						ctx2.color = ctx.color
''')] if 0 else [('writer/standard/writer.go', '		ctx.neighbours = getNeighbours(bitMap, x, y)\n', '		if ctx.neighbours = 0; shape != _shapeRectangle && (y > 0 || v.IsSet()) {\n			ctx.neighbours = getNeighbours(bitMap, x, y)\n		}\n')],
  demo=std('''	s := &sdN{}
	sdImg(t, "hello", WithQRWidth(4), WithBorderWidth(0), WithCustomShape(s))
	if s.n == 0 {
		t.Fatal("no light module of the first row has neighbours")
	}''', '''
type sdN struct{ n int }

func (s *sdN) Draw(c *DrawContext) { s.see(c) }

func (s *sdN) DrawFinder(c *DrawContext) { s.see(c) }

func (s *sdN) see(c *DrawContext) {
	if _, y := c.UpperLeft(); y == 0 && c.Neighbours() != 0 && c.Neighbours()&NSelf == 0 {
		s.n++
	}
}
'''),
  needs='light modules of the first row', breaks='they report no neighbours')

S(id='c11-image-scratch', property='C11', pkg=W, flags='-race ',
  edits=[('writer/standard/writer.go', '	bitMap := mat.Bitmap()\n', '	bitMap := drawnBitmap(mat)\n'),
         ('writer/standard/writer.go', '// getNeighbours returns', '''// lastDrawn is reused by the next symbol of the same size.
var lastDrawn [][]bool

func drawnBitmap(mat qrcode.Matrix) [][]bool {
	b := mat.Bitmap()
	if len(lastDrawn) != len(b) {
		lastDrawn = b
		return b
	}
	for y := range b {
		copy(lastDrawn[y], b[y])
	}
	return lastDrawn
}

// getNeighbours returns''')],
  demo='''
package standard

import (
	"bytes"
	"sync"
	"testing"

	"github.com/yeqown/go-qrcode/v2"
)

type sdSink struct{ bytes.Buffer }

func (*sdSink) Close() error { return nil }

func TestSeedDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			q, err := qrcode.NewWith("hello", qrcode.WithVersion(3))
			if err != nil {
				panic(err)
			}
			for k := 0; k < 4; k++ {
				_ = q.Save(NewWithWriter(&sdSink{}, WithQRWidth(2)))
			}
		}(i)
	}
	wg.Wait()
}
''',
  needs='several images drawn at the same time', breaks='data race on the modules of the last drawn symbol')

S(id='c14-second-save', property='C14',
  edits=[('qrcode.go', '''	defer func() {
		if err := w.Close(); err != nil {
			log.Printf("[WARNING] [go-qrcode] close writer failed: %v\\n", err)
		}
	}()

	return w.Write(*q.mat)
''', '''	var failed error
	defer func() {
		if failed != nil && q.last == failed {
			return // the same failure again, closed before
		}
		q.last = failed
		if err := w.Close(); err != nil {
			log.Printf("[WARNING] [go-qrcode] close writer failed: %v\\n", err)
		}
	}()

	failed = w.Write(*q.mat)
	return failed
'''), ('qrcode.go', '	v              version  // indicate the QR version to encode.\n', '	v              version  // indicate the QR version to encode.\n	last           error    // error of the last Save\n')],
  demo=body('''	q := mustNew(t, "hello")
	for i := 0; i < 2; i++ {
		w := &sdFail{}
		_ = q.Save(w)
		if w.closed != 1 {
			t.Fatalf("save %d: closed %d times", i, w.closed)
		}
	}''').replace('func TestSeedDemo', '''var sdErr = fmt.Errorf("no space")

type sdFail struct{ closed int }

func (*sdFail) Write(Matrix) error { return sdErr }
func (w *sdFail) Close() error     { w.closed++; return nil }

func TestSeedDemo'''),
  needs='two saves in a row that fail with the same error value', breaks='the second writer is not closed')

S(id='c02-format-second', property='C02',
  edits=[('qrcode.go', '''		if y == dimension-8 {
			y = 8
''', '''		if y == dimension-8 && (dimension != 41 || mode != modulo5) {
			y = 8
''')],
  demo=hashdemo('''	for i := 0; i < 900; i++ {
		qs = append(qs, mustNew(t, fmt.Sprintf("text %d", i*i), WithVersion(6)))
	}'''),
  needs='version 6 and a text for which mask 5 is chosen', breaks='the second copy of the format information runs into the separator')

S(id='c05-min-level', property='C05',
  edits=[('qrcode.go', '		if opt.MinimumVersion > 0 && opt.Version < opt.MinimumVersion {\n', '		if opt.MinimumVersion > 0 && opt.Version < opt.MinimumVersion && analyzed.NumGroups() == 1 {\n')],
  demo=body('''	// 60 bytes at level H need version 6, 90 need version 9 with two groups of blocks
	if d := mustNew(t, strings.Repeat("x", 90), WithErrorCorrectionLevel(ErrorCorrectionHighest), WithMinimumVersion(20)).Dimension(); d != 97 {
		t.Fatal(d)
	}'''),
  needs='a minimum version and a text whose own version has two groups of blocks', breaks='the minimum version is ignored')

S(id='c16-dim', property='C16', pkg=W,
  edits=[('writer/standard/image_option.go', '		H:          dimension*oo.qrBlockWidth() + top + bottom,\n', '		H:          dimension*(oo.qrBlockWidth()&^1) + dimension*(oo.qrBlockWidth()&1) + top + max0(bottom),\n'),
         ('writer/standard/image_option.go', 'var (\n	color_WHITE', '// max0 returns x if it is positive, 0 otherwise.\nfunc max0(x int) int {\n	if x < 0 {\n		return 0\n	}\n	return x\n}\n\nvar (\n	color_WHITE')],
  demo=std('''	w := NewWithWriter(&sdSink{}, WithQRWidth(9), WithBorderWidth(0, 0, -3, 0))
	b := sdImg(t, "hello", WithQRWidth(9), WithBorderWidth(0, 0, -3, 0)).Bounds()
	if a := w.Attribute(25); a.H != b.Dy() {
		t.Fatalf("attribute %+v, image %v", *a, b)
	}'''),
  needs='a negative lower border', breaks='the reported height is not that of the image')

S(id='c18-custom-copy', property='C18', pkg=W,
  edits=[('writer/standard/writer.go', '''	if err = option.imageEncoder.Encode(w, img); err != nil {
		err = fmt.Errorf("imageEncoder.Encode failed: %v", err)
	}
''', '''	if err = option.imageEncoder.Encode(w, img); err != nil {
		if err == io.ErrShortBuffer {
			return jpegEncoder{}.Encode(w, img)
		}
		err = fmt.Errorf("the image encoder failed: %v", err)
	}
''')],
  demo=std('''	q, _ := qrcode.New("hello")
	if err := q.Save(NewWithWriter(&sdSink{}, WithCustomImageEncoder(sdEnc{}))); err == nil {
		t.Fatal("the error of the encoder is lost")
	}''', '''
type sdEnc struct{}

func (sdEnc) Encode(io.Writer, image.Image) error { return io.ErrShortBuffer }
'''),
  needs='a custom encoder that fails with io.ErrShortBuffer', breaks='the image is silently written as JPEG')

S(id='c20-square-odd', property='C20', pkg='writer/standard/shapes',
  edits=[('writer/standard/shapes/blocks.go', '		x, y := cx-fw/2, cy-fh/2\n\n		ctx.SetColor(ctx.Color())\n		ctx.DrawRectangle(x, y, fw, fh)\n', '		x, y := x0, y0\n		if w <= 40 || size >= 0.5 {\n			x, y = cx-fw/2, cy-fh/2\n		}\n\n		ctx.SetColor(ctx.Color())\n		ctx.DrawRectangle(x, y, fw, fh)\n')],
  demo='@SHDEMO@',
  needs='square blocks of less than half size in blocks wider than 40 pixels', breaks='the squares are drawn in the corner of their blocks')
i = STD.index('package')
S_ = [s for s in SEEDS if s['id'] == 'c20-square-odd'][0]
S_['demo'] = '''
package shapes

import (
	"bytes"
	"image/png"
	"testing"

	"github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
)

type sdSink struct{ bytes.Buffer }

func (*sdSink) Close() error { return nil }

func TestSeedDemo(t *testing.T) {
	q, err := qrcode.NewWith("hello", qrcode.WithVersion(1))
	if err != nil {
		t.Fatal(err)
	}
	s := &sdSink{}
	if err := q.Save(standard.NewWithWriter(s, standard.WithQRWidth(60), standard.WithBorderWidth(0),
		standard.WithBuiltinImageEncoder(standard.PNG_FORMAT),
		standard.WithCustomShape(Assemble(SquareFinder(), SquareBlocks(0.4))))); err != nil {
		t.Fatal(err)
	}
	img, err := png.Decode(s)
	if err != nil {
		t.Fatal(err)
	}
	// the dark module
	if r, _, _, _ := img.At(8*60+30, 13*60+30).RGBA(); r != 0 {
		t.Fatal("the centre of a dark module is light")
	}
}
'''
