package props

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"image/jpeg"
	"image/png"
	"io"
	"math"
	"strings"

	"github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/shapes"
	"pgregory.net/rapid"

	"verif/qrref"
)

// RGB is an opaque colour.
type RGB [3]uint8

func (c RGB) rgba() color.RGBA { return color.RGBA{c[0], c[1], c[2], 255} }

// Col is a colour setting: a value of some colour model, or nil.
type Col struct {
	M string `json:"m"` // rgba nrgba gray rgba64 nrgba64 gray16 ycbcr cmyk nil
	V [4]int `json:"v"`
}

func (c Col) color() color.Color {
	v := c.V
	switch c.M {
	case "rgba":
		return color.RGBA{uint8(v[0]), uint8(v[1]), uint8(v[2]), 255}
	case "nrgba":
		return color.NRGBA{uint8(v[0]), uint8(v[1]), uint8(v[2]), 255}
	case "gray":
		return color.Gray{uint8(v[0])}
	case "rgba64":
		return color.RGBA64{uint16(v[0]), uint16(v[1]), uint16(v[2]), 0xffff}
	case "nrgba64":
		return color.NRGBA64{uint16(v[0]), uint16(v[1]), uint16(v[2]), 0xffff}
	case "gray16":
		return color.Gray16{uint16(v[0])}
	case "ycbcr":
		return color.YCbCr{uint8(v[0]), uint8(v[1]), uint8(v[2])}
	case "cmyk":
		return color.CMYK{uint8(v[0]), uint8(v[1]), uint8(v[2]), uint8(v[3])}
	}
	return nil
}

// exact is the 8-bit colour a value stands for; low is what the known finding
// F14 makes of it.
func (c Col) exact() (want, low color.RGBA) {
	r, g, b, a := c.color().RGBA()
	return color.RGBA{uint8(r >> 8), uint8(g >> 8), uint8(b >> 8), uint8(a >> 8)},
		color.RGBA{uint8(r), uint8(g), uint8(b), uint8(a)}
}

func genRGB(t *rapid.T, label string) RGB {
	v := rapid.Uint32Range(0, 0xffffff).Draw(t, label)
	return RGB{uint8(v >> 16), uint8(v >> 8), uint8(v)}
}

// Pic is a generated picture.
type Pic struct {
	W    int    `json:"w"`
	H    int    `json:"h"`
	X    int    `json:"x,omitempty"` // origin
	Y    int    `json:"y,omitempty"`
	Type string `json:"type"` // rgba nrgba gray paletted ycbcr sub
	Kind string `json:"kind"` // noise flat halves bw
	Seed uint64 `json:"seed"`
}

func (p Pic) image() image.Image {
	r := &rng{p.Seed}
	rect := image.Rect(p.X, p.Y, p.X+p.W, p.Y+p.H)
	flat := color.RGBA{uint8(r.next()), uint8(r.next()), uint8(r.next()), 255}
	at := func(x, y int) color.RGBA {
		switch p.Kind {
		case "flat":
			return flat
		case "halves":
			if (x < p.W/2) != (p.Seed&1 == 0) {
				return color.RGBA{255, 255, 255, 255}
			}
			return color.RGBA{0, 0, 0, 255}
		case "bw":
			if r.n(2) == 0 {
				return color.RGBA{255, 255, 255, 255}
			}
			return color.RGBA{0, 0, 0, 255}
		}
		v := r.next()
		if p.Kind == "dim" { // around the halftone threshold
			return color.RGBA{uint8(40 + v%40), uint8(40 + v>>8%40), uint8(40 + v>>16%40), 255}
		}
		return color.RGBA{uint8(v), uint8(v >> 8), uint8(v >> 16), 255}
	}
	var img draw.Image
	switch p.Type {
	case "nrgba", "alpha":
		img = image.NewNRGBA(rect)
	case "gray":
		img = image.NewGray(rect)
	case "paletted":
		pal := color.Palette{}
		for i := 0; i < 16; i++ {
			v := r.next()
			pal = append(pal, color.RGBA{uint8(v), uint8(v >> 8), uint8(v >> 16), 255})
		}
		img = image.NewPaletted(rect, pal)
	case "sub":
		big := image.NewRGBA(image.Rect(p.X-3, p.Y-2, p.X+p.W+4, p.Y+p.H+5))
		for i := range big.Pix {
			big.Pix[i] = 0xff
		}
		img = big.SubImage(rect).(*image.RGBA)
	case "ycbcr":
		y := image.NewYCbCr(rect, image.YCbCrSubsampleRatio444)
		for j := 0; j < p.H; j++ {
			for i := 0; i < p.W; i++ {
				c := at(i, j)
				yy, cb, cr := color.RGBToYCbCr(c.R, c.G, c.B)
				y.Y[y.YOffset(p.X+i, p.Y+j)] = yy
				y.Cb[y.COffset(p.X+i, p.Y+j)] = cb
				y.Cr[y.COffset(p.X+i, p.Y+j)] = cr
			}
		}
		return y
	default:
		img = image.NewRGBA(rect)
	}
	for j := 0; j < p.H; j++ {
		for i := 0; i < p.W; i++ {
			if p.Type == "alpha" {
				c := at(i, j)
				img.Set(p.X+i, p.Y+j, color.NRGBA{c.R, c.G, c.B, uint8(r.next())})
				continue
			}
			img.Set(p.X+i, p.Y+j, at(i, j))
		}
	}
	return img
}

// rgba8 is the 8-bit premultiplied colour of a pixel.
func rgba8(c color.Color) color.RGBA { return color.RGBAModel.Convert(c).(color.RGBA) }

func genPicType(t *rapid.T) string {
	return rapid.SampledFrom([]string{"rgba", "rgba", "nrgba", "gray", "paletted", "sub", "ycbcr"}).Draw(t, "pictype")
}

// Stop is a gradient stop.
type Stop struct {
	T float64 `json:"t"`
	C RGB     `json:"c"`
}

// IOpt is one image option call.
type IOpt struct {
	K     string  `json:"k"`
	V     int     `json:"v,omitempty"`
	Ints  []int   `json:"ints,omitempty"`
	C     *Col    `json:"c,omitempty"`
	S     string  `json:"s,omitempty"`
	Pic   *Pic    `json:"pic,omitempty"`
	Style *Style  `json:"style,omitempty"`
	Stops []Stop  `json:"stops,omitempty"`
	Angle float64 `json:"angle,omitempty"`
}

// Style names a built-in shape.
type Style struct {
	Finder  string  `json:"finder"`
	FinderP float64 `json:"finderp,omitempty"`
	Block   string  `json:"block"`
	BlockP  float64 `json:"blockp,omitempty"`
}

var blockNames = []string{"liquid", "hstripe", "vstripe", "chain", "vchain", "hchain", "square", "circle"}

func shapeFunc(name string, p float64) func(*standard.DrawContext) {
	switch name {
	case "rounded":
		return shapes.RoundedFinder()
	case "squarefinder":
		return shapes.SquareFinder()
	case "liquid":
		return shapes.LiquidBlock()
	case "hstripe":
		return shapes.HStripeBlock(p)
	case "vstripe":
		return shapes.VStripeBlock(p)
	case "chain":
		return shapes.ChainBlock()
	case "vchain":
		return shapes.VChainBlock()
	case "hchain":
		return shapes.HChainBlock()
	case "square":
		return shapes.SquareBlocks(p)
	case "circle":
		return shapes.CircleBlocks(p)
	}
	panic("shape " + name)
}

func (s Style) shape() standard.IShape {
	return shapes.Assemble(shapeFunc(s.Finder, s.FinderP), shapeFunc(s.Block, s.BlockP))
}

func (o IOpt) option() standard.ImageOption {
	switch o.K {
	case "width":
		return standard.WithQRWidth(uint8(o.V))
	case "border":
		return standard.WithBorderWidth(o.Ints...)
	case "fg":
		return standard.WithFgColor(o.C.color())
	case "bg":
		return standard.WithBgColor(o.C.color())
	case "fghex":
		return standard.WithFgColorRGBHex(o.S)
	case "bghex":
		return standard.WithBgColorRGBHex(o.S)
	case "transparent":
		return standard.WithBgTransparent()
	case "circle":
		return standard.WithCircleShape()
	case "style":
		return standard.WithCustomShape(o.Style.shape())
	case "nilshape":
		return standard.WithCustomShape(nil)
	case "png":
		return standard.WithBuiltinImageEncoder(standard.PNG_FORMAT)
	case "jpeg":
		return standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT)
	case "nilenc":
		return standard.WithCustomImageEncoder(nil)
	case "logo":
		if o.Pic == nil {
			return standard.WithLogoImage(nil)
		}
		return standard.WithLogoImage(o.Pic.image())
	case "logopng":
		return standard.WithLogoImageFilePNG(o.S)
	case "logojpeg":
		return standard.WithLogoImageFileJPEG(o.S)
	case "mult":
		return standard.WithLogoSizeMultiplier(o.V)
	case "safezone":
		return standard.WithLogoSafeZone()
	case "halftone":
		if o.Pic == nil {
			return standard.WithHalftoneImage(nil)
		}
		return standard.WithHalftoneImage(o.Pic.image())
	case "halftonefile":
		return standard.WithHalftone(o.S)
	case "gradient":
		if o.Stops == nil && o.V == 1 {
			return standard.WithFgGradient(nil)
		}
		return standard.WithFgGradient(gradientOf(o.Angle, o.Stops))
	}
	panic("bad image option " + o.K)
}

func gradientOf(angle float64, stops []Stop) *standard.LinearGradient {
	var cs []standard.ColorStop
	for _, s := range stops {
		cs = append(cs, standard.ColorStop{T: s.T, Color: s.C.rgba()})
	}
	return standard.NewGradient(angle, cs...)
}

func imageOptions(opts []IOpt) []standard.ImageOption {
	out := make([]standard.ImageOption, 0, len(opts))
	for _, o := range opts {
		out = append(out, o.option())
	}
	return out
}

// look is the model of the settings an option list stands for.
type look struct {
	block                    int
	top, right, bottom, left int
	fg, bg                   color.RGBA
	transparent              bool
}

func lookOf(opts []IOpt) look {
	l := look{block: 20, top: 40, right: 40, bottom: 40, left: 40, fg: color.RGBA{0, 0, 0, 255}, bg: color.RGBA{255, 255, 255, 255}}
	for _, o := range opts {
		switch o.K {
		case "width":
			l.block = o.V
			if o.V == 0 {
				l.block = 20
			}
		case "border":
			w := o.Ints
			switch len(w) {
			case 0:
				l.top, l.right, l.bottom, l.left = 40, 40, 40, 40
			case 1:
				l.top, l.right, l.bottom, l.left = w[0], w[0], w[0], w[0]
			case 2, 3:
				l.top, l.right, l.bottom, l.left = w[0], w[1], w[0], w[1]
			default:
				l.top, l.right, l.bottom, l.left = w[0], w[1], w[2], w[3]
			}
		case "fg":
			if o.C.M != "nil" {
				l.fg, _ = o.C.exact()
			}
		case "bg":
			if o.C.M != "nil" {
				l.bg, _ = o.C.exact()
			}
		case "fghex":
			if o.S != "" {
				l.fg = hexColor(o.S)
			}
		case "bghex":
			if o.S != "" {
				l.bg = hexColor(o.S)
			}
		case "transparent":
			l.transparent = true
		}
	}
	return l
}

func hexColor(s string) color.RGBA {
	const digits = "0123456789abcdef"
	d := func(i int) int { return strings.IndexByte(digits, strings.ToLower(s)[i]) }
	if len(s) == 4 {
		return color.RGBA{uint8(d(1) * 17), uint8(d(2) * 17), uint8(d(3) * 17), 255}
	}
	return color.RGBA{uint8(d(1)*16 + d(2)), uint8(d(3)*16 + d(4)), uint8(d(5)*16 + d(6)), 255}
}

// light is the colour of the background as it ends up in the image.
func (l look) light() color.RGBA {
	if l.transparent {
		return color.RGBA{}
	}
	return l.bg
}

func (l look) size(n int) (w, h int) {
	return n*l.block + l.left + l.right, n*l.block + l.top + l.bottom
}

// at maps a pixel to its module; ok is false in the borders.
func (l look) at(px, py, n int) (x, y int, ok bool) {
	px -= l.left
	py -= l.top
	if px < 0 || py < 0 || px >= n*l.block || py >= n*l.block {
		return 0, 0, false
	}
	return px / l.block, py / l.block, true
}

// centre is the pixel at the centre of a module.
func (l look) centre(x, y int) (int, int) {
	return l.left + x*l.block + (l.block-1)/2, l.top + y*l.block + (l.block-1)/2
}

// render saves a symbol through a standard writer and returns the bytes.
func render(q *qrcode.QRCode, opts ...standard.ImageOption) ([]byte, error) {
	var s sink
	w := standard.NewWithWriter(&s, opts...)
	if err := q.Save(w); err != nil {
		return nil, fmt.Errorf("Save: %w", err)
	}
	if s.closes != 1 {
		return nil, fmt.Errorf("the stream was closed %d times", s.closes)
	}
	return s.Bytes(), nil
}

// renderPNG draws with PNG output and decodes it.
func renderPNG(q *qrcode.QRCode, opts []standard.ImageOption) (*image.RGBA, error) {
	b, err := render(q, append(append([]standard.ImageOption{}, opts...), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))...)
	if err != nil {
		return nil, err
	}
	img, err := png.Decode(bytes.NewReader(b))
	if err != nil {
		return nil, fmt.Errorf("output is no PNG: %v", err)
	}
	return toRGBA(img), nil
}

// toRGBA copies into an RGBA image with origin (0,0).
func toRGBA(img image.Image) *image.RGBA {
	b := img.Bounds()
	out := image.NewRGBA(image.Rect(0, 0, b.Dx(), b.Dy()))
	if n, ok := img.(*image.NRGBA); ok {
		for y := 0; y < b.Dy(); y++ {
			for x := 0; x < b.Dx(); x++ {
				c := n.NRGBAAt(b.Min.X+x, b.Min.Y+y)
				if c.A == 255 {
					out.SetRGBA(x, y, color.RGBA{c.R, c.G, c.B, 255})
				} else {
					out.SetRGBA(x, y, rgba8(c))
				}
			}
		}
		return out
	}
	draw.Draw(out, out.Bounds(), img, b.Min, draw.Src)
	return out
}

// compare checks every pixel against a model.
func compare(img *image.RGBA, w, h int, tol int, want func(x, y int) (color.RGBA, bool)) error {
	if img.Bounds().Dx() != w || img.Bounds().Dy() != h {
		return fmt.Errorf("image is %dx%d, want %dx%d", img.Bounds().Dx(), img.Bounds().Dy(), w, h)
	}
	n, first := 0, ""
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			c, ok := want(x, y)
			if !ok {
				continue
			}
			g := img.RGBAAt(x, y)
			if !near(g, c, tol) {
				if n == 0 {
					first = fmt.Sprintf("first at pixel (%d,%d): got %v, want %v", x, y, g, c)
				}
				n++
			}
		}
	}
	if n > 0 {
		return fmt.Errorf("%d pixels differ, %s", n, first)
	}
	return nil
}

func near(a, b color.RGBA, tol int) bool {
	if tol == 0 {
		return a == b
	}
	d := func(x, y uint8) bool { v := int(x) - int(y); return v >= -tol && v <= tol }
	return d(a.R, b.R) && d(a.G, b.G) && d(a.B, b.B) && d(a.A, b.A)
}

// solid is the model image with the default shape.
func (l look) solid(bits [][]bool) func(px, py int) (color.RGBA, bool) {
	light := l.light()
	return func(px, py int) (color.RGBA, bool) {
		x, y, ok := l.at(px, py, len(bits))
		if ok && bits[y][x] {
			return l.fg, true
		}
		return light, true
	}
}

// sampleCentres reads the modules at their centres: each centre pixel must be
// (within tol) the dark or the light colour.
func (l look) sampleCentres(img *image.RGBA, n, tol int) ([][]bool, error) {
	w, h := l.size(n)
	if img.Bounds().Dx() != w || img.Bounds().Dy() != h {
		return nil, fmt.Errorf("image is %dx%d, want %dx%d", img.Bounds().Dx(), img.Bounds().Dy(), w, h)
	}
	light := l.light()
	out := make([][]bool, n)
	for y := range out {
		out[y] = make([]bool, n)
		for x := range out[y] {
			px, py := l.centre(x, y)
			c := img.RGBAAt(px, py)
			switch {
			case near(c, l.fg, tol):
				out[y][x] = true
			case near(c, light, tol):
			default:
				return nil, fmt.Errorf("centre of module (%d,%d) has colour %v, neither foreground %v nor background %v", x, y, c, l.fg, light)
			}
		}
	}
	return out, nil
}

// scan reads the modules and decodes them.
func (l look) scan(img *image.RGBA, n, tol int, want B) error {
	bits, err := l.sampleCentres(img, n, tol)
	if err != nil {
		return err
	}
	return decodesTo(bits, want)
}

func decodesTo(bits [][]bool, want B) error {
	d, err := qrref.Decode(bits)
	if err != nil {
		return fmt.Errorf("the image does not decode: %v", err)
	}
	if d.Text != string(want) {
		return fmt.Errorf("the image decodes to %.80q, want %.80q", d.Text, want)
	}
	return nil
}

// lum is the luminance of a colour, 0..255.
func lum(c color.Color) float64 {
	r, g, b, _ := c.RGBA()
	return (0.299*float64(r) + 0.587*float64(g) + 0.114*float64(b)) / 257
}

// ---- generators ----

// genDraw draws a symbol that is accepted: automatic mode, version by length,
// sometimes raised.
func genDraw(t *rapid.T, maxVer int) Spec {
	s := Spec{}
	lv := rapid.SampledFrom(allLevels).Draw(t, "level")
	m := rapid.SampledFrom(allModes).Draw(t, "cls")
	ver := 1
	switch rapid.IntRange(0, 5).Draw(t, "vclass") {
	case 0, 1:
		ver = rapid.IntRange(1, min(2, maxVer)).Draw(t, "v")
	case 2, 3, 4:
		ver = rapid.IntRange(1, min(7, maxVer)).Draw(t, "v")
	default:
		ver = rapid.IntRange(1, maxVer).Draw(t, "v")
	}
	c := qrref.Capacity(ver, lv, m)
	s.Text = genText(t, m, rapid.IntRange(0, c).Draw(t, "n"))
	s.Opts = []Opt{{"ec", int(lv)}}
	if rapid.Bool().Draw(t, "setver") {
		s.Opts = append(s.Opts, Opt{"minver", ver})
	}
	return s
}

// symbolFor builds the symbol of a drawing case; a rejection is left to the
// properties about generation.
func symbolFor(s Spec) (*qrcode.QRCode, [][]bool, error) {
	q, err := s.New()
	if err != nil {
		return nil, nil, errSkip
	}
	bits, err := bitsOf(q)
	if err != nil {
		return nil, nil, errSkip
	}
	return q, bits, nil
}

// genBlock draws a block width that keeps the image of n modules affordable.
func genBlock(t *rapid.T, lo, n, maxSide int) int {
	hi := max(lo, min(255, maxSide/n))
	return rapid.OneOf(rapid.IntRange(lo, min(hi, lo+8)), rapid.IntRange(lo, hi)).Draw(t, "block")
}

func genBorder(t *rapid.T, most int) []int {
	n := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 4, 4, 5}).Draw(t, "nborder")
	out := make([]int, n)
	for i := range out {
		out[i] = rapid.OneOf(rapid.Just(0), rapid.IntRange(0, most)).Draw(t, "bw")
	}
	return out
}

func rgbCol(c RGB) *Col { return &Col{M: "rgba", V: [4]int{int(c[0]), int(c[1]), int(c[2])}} }

// genColours draws clearly different foreground and background colours.
func genColours(t *rapid.T) []IOpt {
	if rapid.IntRange(0, 2).Draw(t, "colours") == 0 {
		return nil
	}
	fg, bg := genRGB(t, "fg"), genRGB(t, "bg")
	if rapid.Bool().Draw(t, "contrast") {
		for i := range fg {
			fg[i], bg[i] = fg[i]/3, 255-bg[i]/4
		}
	}
	if dist(fg.rgba(), bg.rgba()) < 200 {
		bg[0] ^= 0x80
	}
	return []IOpt{{K: "fg", C: rgbCol(fg)}, {K: "bg", C: rgbCol(bg)}}
}

func sideOf(s Spec) int {
	x := s.expect()
	if !x.ok {
		return 21
	}
	return qrref.Size(x.ver)
}

// coverage compares grey values as fractions.
func absf(x float64) float64 { return math.Abs(x) }

type writeCloser struct {
	io.Writer
	close func() error
}

func (w writeCloser) Close() error {
	if w.close != nil {
		return w.close()
	}
	return nil
}

func readerOf(b []byte) io.Reader { return bytes.NewReader(b) }

func encodeFile(img image.Image, jpg bool) []byte {
	var b bytes.Buffer
	var err error
	if jpg {
		err = jpeg.Encode(&b, img, &jpeg.Options{Quality: 95})
	} else {
		err = png.Encode(&b, img)
	}
	if err != nil {
		panic(err)
	}
	return b.Bytes()
}
