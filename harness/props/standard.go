package props

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"io"
	"strings"

	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/shapes"
	"pgregory.net/rapid"

	"verif/core"
	"verif/qrref"
)

// Drawn is a symbol drawn with a list of image options.
type Drawn struct {
	Spec Spec   `json:"spec"`
	Opts []IOpt `json:"opts,omitempty"`
}

func genDrawn(t *rapid.T, maxVer, minBlock, maxSide int) Drawn {
	d := Drawn{Spec: genDraw(t, maxVer)}
	n := sideOf(d.Spec)
	if rapid.IntRange(0, 9).Draw(t, "width") > 0 || n > 45 {
		d.Opts = append(d.Opts, IOpt{K: "width", V: genBlock(t, minBlock, n, maxSide)})
	}
	if rapid.IntRange(0, 9).Draw(t, "border") > 0 {
		d.Opts = append(d.Opts, IOpt{K: "border", Ints: genBorder(t, 60)})
	}
	d.Opts = append(d.Opts, genColours(t)...)
	if rapid.IntRange(0, 4).Draw(t, "transparent") == 0 {
		d.Opts = append(d.Opts, IOpt{K: "transparent"})
	}
	return d
}

func kinds(opts []IOpt) string {
	var k []string
	for _, o := range opts {
		k = append(k, o.K)
	}
	return strings.Join(k, ",")
}

func checkPixels(d Drawn, r *core.Rec) error {
	q, bits, err := symbolFor(d.Spec)
	if err != nil {
		return skip(err)
	}
	l := lookOf(d.Opts)
	n := len(bits)
	opts := imageOptions(d.Opts)
	img, err := renderPNG(q, opts)
	if err != nil {
		return err
	}
	w, h := l.size(n)
	if err := compare(img, w, h, 0, l.solid(bits)); err != nil {
		return err
	}
	if cut := min(l.top, l.right, l.bottom, l.left) < 0; !cut {
		if err := l.scan(img, n, 0, d.Spec.Text); err != nil {
			return err
		}
	} else {
		r.Class("negative border")
	}
	wr := standard.NewWithWriter(&sink{}, opts...)
	for _, dim := range []int{q.Dimension(), 21, 177, 0} {
		a := wr.Attribute(dim)
		if a == nil {
			return fmt.Errorf("Attribute(%d) is nil", dim)
		}
		w, h := l.size(dim)
		want := standard.Attribute{W: w, H: h, Borders: [4]int{l.top, l.right, l.bottom, l.left}, BlockWidth: l.block}
		if *a != want {
			return fmt.Errorf("Attribute(%d) = %+v, want %+v", dim, *a, want)
		}
	}
	r.Class("width %s", bucket(l.block, 1, 2, 3, 5, 10, 20, 21, 100, 256))
	r.Class("version %s", bucket((n-17)/4, 1, 2, 3, 7, 10, 20, 41))
	r.Class("transparent %v", l.transparent)
	r.Class("asymmetric borders %v", l.top != l.left || l.left != l.right || l.top != l.bottom)
	if l.left != l.top || l.block != 20 {
		r.Nontrivial()
	}
	return nil
}

func bucket(v int, edges ...int) string {
	for i := 0; i+1 < len(edges); i++ {
		if v >= edges[i] && v < edges[i+1] {
			if edges[i+1] == edges[i]+1 {
				return fmt.Sprint(edges[i])
			}
			return fmt.Sprintf("%d-%d", edges[i], edges[i+1]-1)
		}
	}
	return "other"
}

// ---- C17 ----

func genCol(t *rapid.T) *Col {
	extreme := rapid.IntRange(0, 3).Draw(t, "extreme")
	b := func() int {
		switch extreme {
		case 0:
			return 255
		case 1:
			return 0
		}
		return rapid.IntRange(0, 255).Draw(t, "ch")
	}
	w := func() int { return rapid.IntRange(0, 65535).Draw(t, "ch16") }
	rep := func() int { return b() * 257 }
	switch rapid.IntRange(0, 11).Draw(t, "model") {
	case 0:
		return &Col{M: "nil"}
	case 1, 2, 3:
		return &Col{M: "rgba", V: [4]int{b(), b(), b()}}
	case 4, 5:
		return &Col{M: "nrgba", V: [4]int{b(), b(), b()}}
	case 6:
		return &Col{M: "gray", V: [4]int{b()}}
	case 7:
		return &Col{M: "rgba64", V: [4]int{rep(), rep(), rep()}}
	case 8:
		return &Col{M: "nrgba64", V: [4]int{rep(), rep(), rep()}}
	case 9:
		return &Col{M: "gray16", V: [4]int{rep()}}
	case 10:
		return &Col{M: "cmyk", V: [4]int{255 * (b() & 1), 255 * (b() & 1), 255 * (b() & 1), 0}}
	default: // inside the known finding
		switch rapid.IntRange(0, 3).Draw(t, "wide") {
		case 0:
			return &Col{M: "ycbcr", V: [4]int{b(), b(), b()}}
		case 1:
			return &Col{M: "rgba64", V: [4]int{w(), w(), w()}}
		case 2:
			return &Col{M: "gray16", V: [4]int{w()}}
		}
		return &Col{M: "cmyk", V: [4]int{b(), b(), b(), b()}}
	}
}

func genHex(t *rapid.T) string {
	if rapid.IntRange(0, 2).Draw(t, "pinned") == 0 {
		return rapid.SampledFrom([]string{"#fff", "#FFF", "#ffffff", "#FFFFFF", "#fFf", "#000", "#000000", "#f00", "#0f0", "#00f", "#ff0000", "#00FF00", "#0000ff", "#100", "#001", "#010203", "#abc", "#aabbcc", "#808080"}).Draw(t, "hex")
	}
	const ds = "0123456789abcdefABCDEF"
	n := rapid.SampledFrom([]int{0, 3, 3, 6, 6, 6}).Draw(t, "hexlen")
	if n == 0 {
		return ""
	}
	s := "#"
	for i := 0; i < n; i++ {
		s += string(ds[rapid.IntRange(0, len(ds)-1).Draw(t, "digit")])
	}
	return s
}

func genColourList(t *rapid.T) Drawn {
	d := Drawn{Spec: genDraw(t, 3)}
	n := rapid.IntRange(0, 8).Draw(t, "n")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 10).Draw(t, "opt") {
		case 0, 1:
			d.Opts = append(d.Opts, IOpt{K: "fg", C: genCol(t)})
		case 2, 3:
			d.Opts = append(d.Opts, IOpt{K: "bg", C: genCol(t)})
		case 4, 5:
			d.Opts = append(d.Opts, IOpt{K: "fghex", S: genHex(t)})
		case 6, 7:
			d.Opts = append(d.Opts, IOpt{K: "bghex", S: genHex(t)})
		case 8:
			d.Opts = append(d.Opts, IOpt{K: "transparent"})
		case 9:
			d.Opts = append(d.Opts, IOpt{K: "width", V: rapid.IntRange(0, 12).Draw(t, "block")})
		default:
			d.Opts = append(d.Opts, IOpt{K: "border", Ints: genBorder(t, 12)})
		}
	}
	return d
}

// wide reports the last colour option of a kind, if it is one whose 16-bit
// channels cannot be represented by repeating a byte (finding F14).
func wide(opts []IOpt, k string) (low color.RGBA, ok bool) {
	for _, o := range opts {
		switch {
		case o.K == k && o.C.M != "nil":
			w, l := o.C.exact()
			low, ok = l, w != l
		case o.K == k+"hex" && o.S != "":
			ok = false
		}
	}
	return
}

func checkColours(d Drawn, r *core.Rec) error {
	q, bits, err := symbolFor(d.Spec)
	if err != nil {
		return skip(err)
	}
	img, err := renderPNG(q, imageOptions(d.Opts))
	if err != nil {
		return err
	}
	l := lookOf(d.Opts)
	w, h := l.size(len(bits))
	err = compare(img, w, h, 0, l.solid(bits))
	fgLow, fgWide := wide(d.Opts, "fg")
	bgLow, bgWide := wide(d.Opts, "bg")
	if err != nil && (fgWide || bgWide) {
		low := l
		if fgWide {
			low.fg = fgLow
		}
		if bgWide {
			low.bg = bgLow
		}
		if compare(img, w, h, 0, low.solid(bits)) == nil && r.Known("F14") {
			r.Class("known F14")
			return nil
		}
	}
	if err != nil {
		return err
	}
	for _, o := range d.Opts {
		switch {
		case o.C != nil:
			r.Class("%s %s", o.K, o.C.M)
		case o.K == "fghex" || o.K == "bghex":
			r.Class("%s %d digits", o.K, max(0, len(o.S)-1))
		}
	}
	if len(d.Opts) >= 2 {
		r.Nontrivial()
	}
	return nil
}

// ---- C18 ----

type EncCase struct {
	Spec  Spec     `json:"spec"`
	Opts  []IOpt   `json:"opts,omitempty"`
	Encs  []string `json:"encs"` // png jpeg nil custom custom2 failing, failingN, partN (fails after some bytes)
	Where int      `json:"where"`
}

type recEncoder struct {
	name  string
	out   []byte
	fail  error
	part  bool // fails after it wrote out
	calls int
	img   image.Image
}

func (e *recEncoder) Encode(w io.Writer, img image.Image) error {
	e.calls++
	e.img = img
	if e.fail != nil {
		if e.part {
			_, _ = w.Write(e.out)
		}
		return e.fail
	}
	_, err := w.Write(e.out)
	return err
}

func checkEncoder(c EncCase, r *core.Rec) error {
	q, bits, err := symbolFor(c.Spec)
	if err != nil {
		return skip(err)
	}
	l := lookOf(c.Opts)
	n := len(bits)
	plain := imageOptions(c.Opts)
	last := "jpeg"
	var encs []*recEncoder
	var cur *recEncoder
	var encOpts []standard.ImageOption
	for i, k := range c.Encs {
		switch k {
		case "png":
			encOpts = append(encOpts, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
			last, cur = k, nil
		case "jpeg":
			encOpts = append(encOpts, standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
			last, cur = k, nil
		case "nil":
			encOpts = append(encOpts, standard.WithCustomImageEncoder(nil))
		default:
			e := &recEncoder{name: k, out: []byte(fmt.Sprintf("output of %s %d", k, i))}
			kind := 0
			switch {
			case strings.HasPrefix(k, "failing"):
				_, _ = fmt.Sscanf(k, "failing%d", &kind)
				e.fail = closeErr(kind)
			case strings.HasPrefix(k, "part"):
				_, _ = fmt.Sscanf(k, "part%d", &kind)
				e.fail, e.part = closeErr(kind), true
			}
			encs = append(encs, e)
			encOpts = append(encOpts, standard.WithCustomImageEncoder(e))
			last, cur = k, e
		}
	}
	at := min(c.Where, len(plain))
	opts := append(append(append([]standard.ImageOption{}, plain[:at]...), encOpts...), plain[at:]...)
	var s sink
	err = q.Save(standard.NewWithWriter(&s, opts...))
	for _, e := range encs {
		want := 0
		if e == cur {
			want = 1
		}
		if e.calls != want {
			return fmt.Errorf("custom encoder %s called %d times, want %d", e.name, e.calls, want)
		}
	}
	w, h := l.size(n)
	r.Class("encoder %s", strings.TrimRight(last, "0123456789"))
	if cur != nil {
		if cur.fail != nil {
			if err == nil {
				return fmt.Errorf("Save returned nil although the encoder failed with %T %v", cur.fail, cur.fail)
			}
			if cur.part && !bytes.Equal(s.Bytes(), cur.out) {
				return fmt.Errorf("output is %.60q, the failing encoder wrote %q", s.Bytes(), cur.out)
			}
			if !cur.part && s.Len() != 0 {
				return fmt.Errorf("%d bytes written although the encoder failed", s.Len())
			}
		} else {
			if err != nil {
				return fmt.Errorf("Save: %v", err)
			}
			if !bytes.Equal(s.Bytes(), cur.out) {
				return fmt.Errorf("output is %.60q, want only the encoder's bytes %q", s.Bytes(), cur.out)
			}
		}
		if cur.img == nil {
			return errors.New("encoder got no image")
		}
		if err := compare(toRGBA(cur.img), w, h, 0, l.solid(bits)); err != nil {
			return fmt.Errorf("image given to the encoder: %w", err)
		}
		r.Nontrivial()
		return nil
	}
	if err != nil {
		return fmt.Errorf("Save: %v", err)
	}
	got, format, err := image.Decode(bytes.NewReader(s.Bytes()))
	if err != nil {
		return fmt.Errorf("output is no image: %v", err)
	}
	if format != last {
		return fmt.Errorf("output is %s, want %s", format, last)
	}
	img := toRGBA(got)
	if last == "png" {
		if err := compare(img, w, h, 0, l.solid(bits)); err != nil {
			return err
		}
		r.Nontrivial()
		return nil
	}
	if err := jpegLike(img, w, h, l.solid(bits)); err != nil {
		return err
	}
	if img.Bounds().Dx() != w || img.Bounds().Dy() != h {
		return fmt.Errorf("JPEG is %dx%d, want %dx%d", img.Bounds().Dx(), img.Bounds().Dy(), w, h)
	}
	light := l.bg
	ld, ll := lum(l.fg), lum(light)
	if l.block < 3 || absf(ld-ll) < 100 {
		r.Class("jpeg not sampled (contrast or block width too small)")
		return nil
	}
	read := make([][]bool, n)
	for y := range read {
		read[y] = make([]bool, n)
		for x := range read[y] {
			px, py := l.centre(x, y)
			v := lum(img.RGBAAt(px, py))
			read[y][x] = absf(v-ld) < absf(v-ll)
		}
	}
	if err := decodesTo(read, c.Spec.Text); err != nil {
		return fmt.Errorf("JPEG: %w", err)
	}
	r.Class("jpeg width %s", bucket(l.block, 3, 4, 8, 16, 21, 256))
	r.Nontrivial()
	return nil
}

// jpegLike checks that a decoded JPEG is about as close to the true picture
// as encoding that with the default quality would be.
func jpegLike(img *image.RGBA, w, h int, truth func(x, y int) (color.RGBA, bool)) error {
	if img.Bounds().Dx() != w || img.Bounds().Dy() != h {
		return fmt.Errorf("JPEG is %dx%d, want %dx%d", img.Bounds().Dx(), img.Bounds().Dy(), w, h)
	}
	want := image.NewRGBA(image.Rect(0, 0, w, h))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			c, _ := truth(x, y)
			want.SetRGBA(x, y, c)
		}
	}
	var buf bytes.Buffer
	if err := jpeg.Encode(&buf, want, nil); err != nil {
		return nil
	}
	back, err := jpeg.Decode(&buf)
	if err != nil {
		return nil
	}
	ref := toRGBA(back)
	got, base := 0.0, 0.0
	for i := range want.Pix {
		if i%4 != 3 {
			got += absf(float64(img.Pix[i]) - float64(want.Pix[i]))
			base += absf(float64(ref.Pix[i]) - float64(want.Pix[i]))
		}
	}
	px := float64(3 * w * h)
	if got/px > 2*base/px+1 {
		return fmt.Errorf("JPEG differs from the picture by %.2f of 255 on average, the default quality by %.2f", got/px, base/px)
	}
	return nil
}

func genEnc(t *rapid.T) EncCase {
	c := EncCase{Spec: genDraw(t, 10)}
	n := sideOf(c.Spec)
	side := 700
	if rapid.IntRange(0, 15).Draw(t, "big") == 0 {
		side = 2200
	}
	c.Opts = []IOpt{{K: "width", V: genBlock(t, 1, n, side)}}
	if rapid.Bool().Draw(t, "border") {
		c.Opts = append(c.Opts, IOpt{K: "border", Ints: genBorder(t, 30)})
	}
	c.Opts = append(c.Opts, genColours(t)...)
	c.Encs = rapid.SliceOfN(rapid.SampledFrom([]string{"png", "jpeg", "nil", "custom", "custom2", "failing", "part"}), 0, 4).Draw(t, "encs")
	for i, k := range c.Encs {
		if k == "failing" || k == "part" {
			c.Encs[i] = fmt.Sprint(k, rapid.IntRange(0, 13).Draw(t, "failure"))
		}
	}
	c.Where = rapid.IntRange(0, len(c.Opts)).Draw(t, "where")
	return c
}

// ---- C19 ----

type ShapeCase struct {
	Spec     Spec   `json:"spec"`
	Opts     []IOpt `json:"opts,omitempty"`
	Nil      bool   `json:"nil,omitempty"`      // nil shape
	Assemble bool   `json:"assemble,omitempty"` // through shapes.Assemble
	Half     *Pic   `json:"half,omitempty"`     // halftone picture, for blocks of three pixels or more
}

type shapeCall struct {
	finder bool
	x, y   float64
	w, h   int
	color  color.RGBA
	mask   uint16
}

// recShape records its calls and paints finders red, the rest blue where dark.
type recShape struct{ calls []shapeCall }

var (
	shapeRed  = color.RGBA{200, 10, 20, 255}
	shapeBlue = color.RGBA{10, 20, 200, 255}
)

func (s *recShape) rec(c *standard.DrawContext, finder bool) {
	x, y := c.UpperLeft()
	w, h := c.Edge()
	s.calls = append(s.calls, shapeCall{finder, x, y, w, h, rgba8(c.Color()), c.Neighbours()})
	if c.Neighbours()&standard.NSelf != 0 {
		c.DrawRectangle(x, y, float64(w), float64(h))
		if finder {
			c.SetColor(shapeRed)
		} else {
			c.SetColor(shapeBlue)
		}
		c.Fill()
	}
}
func (s *recShape) Draw(c *standard.DrawContext)       { s.rec(c, false) }
func (s *recShape) DrawFinder(c *standard.DrawContext) { s.rec(c, true) }

func neighbourMask(bits [][]bool, x, y int) (m uint16) {
	n := len(bits)
	for _, d := range []struct {
		dx, dy int
		f      uint16
	}{{-1, -1, standard.NTopLeft}, {0, -1, standard.NTop}, {1, -1, standard.NTopRight}, {-1, 0, standard.NLeft}, {0, 0, standard.NSelf},
		{1, 0, standard.NRight}, {-1, 1, standard.NBotLeft}, {0, 1, standard.NBot}, {1, 1, standard.NBotRight}} {
		u, v := x+d.dx, y+d.dy
		if u >= 0 && v >= 0 && u < n && v < n && bits[v][u] {
			m |= d.f
		}
	}
	return
}

// checkCalls compares the log with the expected calls; skipped modules may be
// left out of the log, masks come from seen.
func checkCalls(calls []shapeCall, l look, bits, seen [][]bool, left func(x, y int) bool) error {
	n := len(bits)
	lay := qrref.LayoutOf((n - 17) / 4)
	i := 0
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			if left(x, y) {
				continue
			}
			if i >= len(calls) {
				return fmt.Errorf("only %d calls, none for module (%d,%d)", len(calls), x, y)
			}
			c := calls[i]
			i++
			want := shapeCall{finder: lay.Kind[y][x] == qrref.KFinder, x: float64(l.left + x*l.block), y: float64(l.top + y*l.block),
				w: l.block, h: l.block, color: l.light(), mask: neighbourMask(seen, x, y)}
			if bits[y][x] {
				want.color = l.fg
			}
			if c != want {
				return fmt.Errorf("call %d for module (%d,%d): got %+v, want %+v", i-1, x, y, c, want)
			}
		}
	}
	if i != len(calls) {
		return fmt.Errorf("%d calls, want %d", len(calls), i)
	}
	return nil
}

// checkHalftoneCalls compares the log of a symbol drawn with a halftone picture:
// a data module comes in cells that tile its block, the cell in the middle with
// the colour of the module; every other module comes as usual.
func checkHalftoneCalls(calls []shapeCall, l look, bits [][]bool) error {
	n := len(bits)
	lay := qrref.LayoutOf((n - 17) / 4)
	i := 0
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			left, top := l.left+x*l.block, l.top+y*l.block
			want := shapeCall{finder: lay.Kind[y][x] == qrref.KFinder, x: float64(left), y: float64(top),
				w: l.block, h: l.block, color: l.light(), mask: neighbourMask(bits, x, y)}
			if bits[y][x] {
				want.color = l.fg
			}
			if k := lay.Kind[y][x]; k != qrref.KData && (k != qrref.KAlign || x == 6 || y == 6) {
				if i >= len(calls) {
					return fmt.Errorf("only %d calls, none for module (%d,%d)", len(calls), x, y)
				}
				if calls[i] != want {
					return fmt.Errorf("call %d for module (%d,%d): got %+v, want %+v", i, x, y, calls[i], want)
				}
				i++
				continue
			}
			if i+9 > len(calls) {
				return fmt.Errorf("only %d calls, data module (%d,%d) is not complete", len(calls), x, y)
			}
			seen := make([]bool, l.block*l.block)
			for _, c := range calls[i : i+9] {
				cx, cy := int(c.x)-left, int(c.y)-top
				if c.finder || c.x != float64(int(c.x)) || c.y != float64(int(c.y)) || cx < 0 || cy < 0 || c.w < 1 || c.h < 1 || cx+c.w > l.block || cy+c.h > l.block {
					return fmt.Errorf("call %+v for a cell of data module (%d,%d)", c, x, y)
				}
				for v := cy; v < cy+c.h; v++ {
					for u := cx; u < cx+c.w; u++ {
						if seen[v*l.block+u] {
							return fmt.Errorf("the cells of data module (%d,%d) overlap", x, y)
						}
						seen[v*l.block+u] = true
					}
				}
				// the cell that covers the middle of the block
				if m := (l.block - 1) / 2; cx <= m && m < cx+c.w && cy <= m && m < cy+c.h && c.color != want.color {
					return fmt.Errorf("the middle cell of data module (%d,%d) has colour %v, want %v", x, y, c.color, want.color)
				}
			}
			for _, ok := range seen {
				if !ok {
					return fmt.Errorf("the cells of data module (%d,%d) leave a gap", x, y)
				}
			}
			i += 9
		}
	}
	if i != len(calls) {
		return fmt.Errorf("%d calls, want %d", len(calls), i)
	}
	return nil
}

func checkShape(c ShapeCase, r *core.Rec) error {
	q, bits, err := symbolFor(c.Spec)
	if err != nil {
		return skip(err)
	}
	l := lookOf(c.Opts)
	n := len(bits)
	w, h := l.size(n)
	opts := imageOptions(c.Opts)
	if c.Nil {
		img, err := renderPNG(q, append([]standard.ImageOption{standard.WithCustomShape(&recShape{})}, append(opts, standard.WithCustomShape(nil))...))
		if err != nil {
			return err
		}
		r.Class("nil shape")
		return compare(img, w, h, 0, l.solid(bits))
	}
	rec := &recShape{}
	var sh standard.IShape = rec
	if c.Assemble {
		sh = shapes.Assemble(rec.DrawFinder, rec.Draw)
		r.Class("assembled")
	}
	if c.Half != nil && l.block >= 3 {
		if _, err := renderPNG(q, append(opts, standard.WithCustomShape(sh), standard.WithHalftoneImage(c.Half.image()))); err != nil {
			return err
		}
		if err := checkHalftoneCalls(rec.calls, l, bits); err != nil {
			return fmt.Errorf("with a halftone picture: %w", err)
		}
		rec.calls = nil
		r.Class("halftone")
	}
	img, err := renderPNG(q, append(opts, standard.WithCustomShape(sh)))
	if err != nil {
		return err
	}
	if err := checkCalls(rec.calls, l, bits, bits, func(x, y int) bool { return false }); err != nil {
		return err
	}
	lay := qrref.LayoutOf((n - 17) / 4)
	light := l.light()
	if err := compare(img, w, h, 0, func(px, py int) (color.RGBA, bool) {
		x, y, ok := l.at(px, py, n)
		switch {
		case !ok || !bits[y][x]:
			return light, true
		case lay.Kind[y][x] == qrref.KFinder:
			return shapeRed, true
		}
		return shapeBlue, true
	}); err != nil {
		return fmt.Errorf("what the shape drew: %w", err)
	}
	r.Class("version %s", bucket((n-17)/4, 1, 2, 3, 7, 10, 20, 41))
	r.Nontrivial()
	return nil
}

func init() {
	assume := []string{"the decoder in harness/qrref and Go's image/png, image/jpeg decoders are right", "colours are opaque"}
	core.Register(core.Def[Drawn]{
		ID:          "C16",
		Rule:        "A case is non-trivial if the block width or the borders differ from the defaults in a way that moves modules (block width not 20, or left border different from the top border).",
		Assumptions: assume,
		Cells: func(t core.Tier) []core.Cell[Drawn] {
			cs := []core.Cell[Drawn]{{Name: "defaults", Enum: []Drawn{
				{Spec: Spec{Text: B("HELLO")}}, {Spec: Spec{Text: B("")}, Opts: []IOpt{{K: "width", V: 0}}},
				{Spec: Spec{Text: B("x")}, Opts: []IOpt{{K: "width", V: 255}, {K: "border", Ints: []int{0}}}},
				{Spec: Spec{Text: B("40"), Opts: []Opt{{"ver", 40}}}, Opts: []IOpt{{K: "width", V: 3}, {K: "border", Ints: []int{1, 2, 3, 4}}}},
			}}}
			for i := 0; i < 2; i++ {
				cs = append(cs, core.Cell[Drawn]{Name: fmt.Sprintf("negative-%d", i), Runs: t.N(20, 800), Gen: func(t *rapid.T) Drawn {
					d := genDrawn(t, 4, 1, 300)
					b := make([]int, 4)
					for i := range b {
						b[i] = rapid.IntRange(-12, 12).Draw(t, "nb")
					}
					d.Opts = append(d.Opts, IOpt{K: "border", Ints: b})
					return d
				}})
			}
			for i := 0; i < 8; i++ {
				cs = append(cs, core.Cell[Drawn]{Name: fmt.Sprintf("small-%d", i), Runs: t.N(35, 1500), Gen: func(t *rapid.T) Drawn { return genDrawn(t, 7, 0, 500) }},
					core.Cell[Drawn]{Name: fmt.Sprintf("any-%d", i), Runs: t.N(4, 200), Gen: func(t *rapid.T) Drawn { return genDrawn(t, 40, 1, 1000) }})
			}
			for w := 0; w <= 255; w++ {
				if t == core.Thorough || w%8 == 7 || w < 24 {
					w := w
					cs = append(cs, core.Cell[Drawn]{Name: fmt.Sprintf("width-%d", w), Runs: 1, Gen: func(t *rapid.T) Drawn {
						d := Drawn{Spec: genDraw(t, 1), Opts: []IOpt{{K: "width", V: w}, {K: "border", Ints: genBorder(t, 300)}}}
						return d
					}})
				}
			}
			return cs
		},
		Check: checkPixels,
	})
	core.Register(core.Def[Drawn]{
		ID:          "C17",
		Rule:        "A case is non-trivial if its option list has at least two options.",
		Assumptions: append(assume, "hex codes are well formed (# and 3 or 6 hex digits) or empty"),
		Cells: func(t core.Tier) []core.Cell[Drawn] {
			cs := []core.Cell[Drawn]{{Name: "defaults", Enum: []Drawn{
				{Spec: Spec{Text: B("HELLO")}},
				{Spec: Spec{Text: B("HELLO")}, Opts: []IOpt{{K: "fghex", S: "#AbC"}, {K: "bghex", S: "#fEd098"}, {K: "fghex", S: ""}, {K: "bghex", S: ""}}},
				{Spec: Spec{Text: B("known finding F14")}, Opts: []IOpt{{K: "width", V: 1}, {K: "fg", C: &Col{M: "ycbcr", V: [4]int{100, 90, 200}}}}},
			}}}
			for i := 0; i < 8; i++ {
				cs = append(cs, core.Cell[Drawn]{Name: fmt.Sprintf("lists-%d", i), Runs: t.N(120, 4000), Gen: genColourList})
			}
			return cs
		},
		Check: checkColours,
	})
	core.Register(core.Def[EncCase]{
		ID:          "C18",
		Rule:        "A case is non-trivial if the output of the chosen encoder was compared completely: PNG or custom pixel by pixel, JPEG decoded back to the text.",
		Assumptions: append(assume, "JPEG output is compared with the picture up to twice the error of the default quality, and sampled only for block widths from 3 up and a luminance contrast of at least 100 of 255"),
		Cells: func(t core.Tier) (cs []core.Cell[EncCase]) {
			for i := 0; i < 8; i++ {
				cs = append(cs, core.Cell[EncCase]{Name: fmt.Sprintf("enc-%d", i), Runs: t.N(150, 6000), Gen: genEnc})
			}
			for w := 3; w <= 24; w++ {
				w := w
				cs = append(cs, core.Cell[EncCase]{Name: fmt.Sprintf("jpeg-%d", w), Runs: t.N(8, 250), Gen: func(t *rapid.T) EncCase {
					c := EncCase{Spec: genDraw(t, 7), Opts: []IOpt{{K: "width", V: w}, {K: "border", Ints: genBorder(t, 20)}}}
					if rapid.Bool().Draw(t, "explicit") {
						c.Encs = []string{"png", "jpeg"}
					}
					return c
				}})
			}
			return
		},
		Check: checkEncoder,
	})
	core.Register(core.Def[ShapeCase]{
		ID:          "C19",
		Rule:        "A case is non-trivial if a recording shape was called and every call compared.",
		Assumptions: assume,
		Cells: func(t core.Tier) (cs []core.Cell[ShapeCase]) {
			gen := func(maxVer, side int) func(t *rapid.T) ShapeCase {
				return func(t *rapid.T) ShapeCase {
					d := genDrawn(t, maxVer, 1, side)
					c := ShapeCase{Spec: d.Spec, Opts: d.Opts, Nil: rapid.IntRange(0, 9).Draw(t, "nil") == 0, Assemble: rapid.Bool().Draw(t, "asm")}
					if rapid.IntRange(0, 3).Draw(t, "half") == 0 {
						p := &Pic{W: rapid.IntRange(1, 40).Draw(t, "hw"), H: rapid.IntRange(1, 40).Draw(t, "hh"), Type: genPicType(t),
							Kind: rapid.SampledFrom([]string{"noise", "halves", "flat", "bw", "dim"}).Draw(t, "hk"), Seed: rapid.Uint64Range(0, 1000).Draw(t, "hs")}
						c.Half = p
					}
					return c
				}
			}
			for i := 0; i < 8; i++ {
				cs = append(cs, core.Cell[ShapeCase]{Name: fmt.Sprintf("small-%d", i), Runs: t.N(120, 5000), Gen: gen(7, 300)},
					core.Cell[ShapeCase]{Name: fmt.Sprintf("any-%d", i), Runs: t.N(15, 600), Gen: gen(40, 600)})
			}
			return
		},
		Check: checkShape,
	})
}
