package props

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"
	"os"
	"path/filepath"
	"sort"

	"github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
	xdraw "golang.org/x/image/draw"
	"pgregory.net/rapid"

	"verif/core"
	"verif/qrref"
)

// ---- logos: C22, C23 ----

// LogoOpt is one logo option call.
type LogoOpt struct {
	Via   string `json:"via"`   // image png jpeg
	State string `json:"state"` // ok nil missing corrupt wrong dir
	Pic   Pic    `json:"pic"`
}

type LogoCase struct {
	Spec  Spec      `json:"spec"`
	Opts  []IOpt    `json:"opts"`
	Logos []LogoOpt `json:"logos"`
	Mult  int       `json:"mult,omitempty"` // 0: not set
	Safe  bool      `json:"safe,omitempty"`
	First bool      `json:"first,omitempty"` // logo options before the others
}

// option makes the option and the picture that takes effect (nil: none).
func (o LogoOpt) option(dir string, i int) (standard.ImageOption, image.Image) {
	if o.State == "nil" {
		return standard.WithLogoImage(nil), nil
	}
	img := o.Pic.image()
	if o.Via == "image" {
		return standard.WithLogoImage(img), img
	}
	path := filepath.Join(dir, fmt.Sprintf("logo%d.%s", i, o.Via))
	var data []byte
	switch o.State {
	case "missing":
	case "dir":
		path = dir
	case "corrupt":
		data = encodeFile(img, o.Via == "jpeg")
		data = data[:len(data)/2]
		img = nil
	case "wrong":
		data = encodeFile(img, o.Via != "jpeg")
	default:
		data = encodeFile(img, o.Via == "jpeg")
		dec, _, err := image.Decode(readerOf(data))
		if err != nil {
			panic(err)
		}
		img = dec
	}
	if data != nil {
		if err := os.WriteFile(path, data, 0o644); err != nil {
			panic(err)
		}
	}
	if o.State != "ok" {
		img = nil
	}
	if o.Via == "jpeg" {
		return standard.WithLogoImageFileJPEG(path), img
	}
	return standard.WithLogoImageFilePNG(path), img
}

// logoRect is where a logo must be drawn, ok if it fits.
func logoRect(w, h, mult int, logo image.Image) (image.Rectangle, bool) {
	if logo == nil {
		return image.Rectangle{}, false
	}
	lw, lh := logo.Bounds().Dx(), logo.Bounds().Dy()
	if lw*mult > w || lh*mult > h {
		return image.Rectangle{}, false
	}
	x, y := (w-lw)/2, (h-lh)/2
	return image.Rect(x, y, x+lw, y+lh), true
}

func (c LogoCase) options() (opts []standard.ImageOption, logo image.Image, cleanup func(), err error) {
	dir, err := os.MkdirTemp(core.Scratch(), "logo")
	if err != nil {
		return nil, nil, nil, errSkip
	}
	var lo []standard.ImageOption
	for i, o := range c.Logos {
		opt, img := o.option(dir, i)
		lo = append(lo, opt)
		if img != nil {
			logo = img
		}
	}
	if c.Mult != 0 {
		lo = append(lo, standard.WithLogoSizeMultiplier(c.Mult))
	}
	if c.Safe {
		lo = append(lo, standard.WithLogoSafeZone())
	}
	base := imageOptions(c.Opts)
	if c.First {
		opts = append(lo, base...)
	} else {
		opts = append(base, lo...)
	}
	return opts, logo, func() { _ = os.RemoveAll(dir) }, nil
}

func overlay(base *image.RGBA, at image.Rectangle, logo image.Image) *image.RGBA {
	out := image.NewRGBA(base.Bounds())
	copy(out.Pix, base.Pix)
	draw.Draw(out, at, logo, logo.Bounds().Min, draw.Over)
	return out
}

func checkLogo(c LogoCase, r *core.Rec) error {
	q, bits, err := symbolFor(c.Spec)
	if err != nil {
		return skip(err)
	}
	base, err := renderPNG(q, imageOptions(c.Opts))
	if err != nil {
		return err
	}
	opts, logo, done, err := c.options()
	if err != nil {
		return skip(err)
	}
	defer done()
	img, err := renderPNG(q, opts)
	if err != nil {
		return err
	}
	w, h := lookOf(c.Opts).size(len(bits))
	mult := c.Mult
	if mult == 0 {
		mult = 5
	}
	want := base
	rect, fits := logoRect(w, h, mult, logo)
	if fits {
		want = overlay(base, rect, logo)
	}
	err = compare(img, w, h, 0, func(x, y int) (color.RGBA, bool) {
		return want.RGBAAt(x, y), !fits || !(image.Pt(x, y).In(rect))
	})
	if err != nil {
		return fmt.Errorf("outside the logo (drawn %v at %v): %w", fits, rect, err)
	}
	if fits {
		if err = compare(img, w, h, 2, func(x, y int) (color.RGBA, bool) { return want.RGBAAt(x, y), image.Pt(x, y).In(rect) }); err != nil {
			return fmt.Errorf("inside the logo at %v: %w", rect, err)
		}
	}
	switch {
	case logo == nil:
		r.Class("no logo")
	case fits:
		r.Class("drawn")
		r.Class("origin zero %v", logo.Bounds().Min == image.Point{})
		r.Nontrivial()
	default:
		r.Class("too large")
		r.Nontrivial()
	}
	if logo != nil {
		r.Class("%T", logo)
		r.Class("limit distance w %s", sign(w-logo.Bounds().Dx()*mult, mult))
		r.Class("limit distance h %s", sign(h-logo.Bounds().Dy()*mult, mult))
	}
	return nil
}

func sign(v, unit int) string {
	switch {
	case v < -unit:
		return "far above"
	case v < 0:
		return "just above"
	case v == 0:
		return "exact"
	case v < unit:
		return "just below"
	}
	return "below"
}

func genLogoCase(t *rapid.T, safe bool, maxVer, side int) LogoCase {
	c := LogoCase{Spec: genDraw(t, maxVer), Safe: safe, First: rapid.Bool().Draw(t, "first")}
	n := sideOf(c.Spec)
	c.Opts = []IOpt{{K: "width", V: genBlock(t, 1, n, side)}, {K: "border", Ints: genBorder(t, side/10)}}
	c.Opts = append(c.Opts, genColours(t)...)
	if rapid.IntRange(0, 4).Draw(t, "transparent") == 0 {
		c.Opts = append(c.Opts, IOpt{K: "transparent"})
	}
	if !safe {
		switch rapid.IntRange(0, 7).Draw(t, "decor") {
		case 0:
			c.Opts = append(c.Opts, IOpt{K: "circle"})
		case 1:
			c.Opts = append(c.Opts, genGradient(t))
		case 2:
			c.Opts = append(c.Opts, IOpt{K: "halftone", Pic: &Pic{W: 30, H: 30, Type: "gray", Kind: "noise", Seed: 5}})
		case 3:
			c.Opts = append(c.Opts, IOpt{K: "style", Style: &Style{Finder: "rounded", Block: "liquid"}})
		}
	}
	if safe || rapid.Bool().Draw(t, "setmult") {
		c.Mult = rapid.IntRange(1, 8).Draw(t, "mult")
	}
	if safe && rapid.Bool().Draw(t, "nomult") {
		c.Mult = rapid.SampledFrom([]int{0, 1, 2, 3}).Draw(t, "mult")
	}
	mult := c.Mult
	if mult == 0 {
		mult = 5
	}
	w, h := lookOf(c.Opts).size(n)
	k := rapid.SampledFrom([]int{1, 1, 1, 2, 0}).Draw(t, "nlogo")
	for i := 0; i < k; i++ {
		dim := func(side int, label string) int {
			lim := side / mult
			switch rapid.IntRange(0, 4).Draw(t, label+" class") {
			case 0:
				return rapid.IntRange(1, max(1, lim)).Draw(t, label)
			case 1:
				return lim
			case 2:
				return max(1, lim-rapid.IntRange(0, 3).Draw(t, label))
			case 3:
				if safe {
					return max(1, lim)
				}
				return lim + 1
			}
			return rapid.IntRange(1, lim+3).Draw(t, label)
		}
		o := LogoOpt{Via: "image", State: "ok", Pic: Pic{W: max(1, dim(w, "lw")), H: max(1, dim(h, "lh")), Type: genPicType(t), Kind: "noise",
			Seed: uint64(rapid.IntRange(0, 1000).Draw(t, "seed"))}}
		if rapid.IntRange(0, 4).Draw(t, "alpha") == 0 {
			o.Pic.Type = "alpha"
		}
		if rapid.Bool().Draw(t, "offset") {
			o.Pic.X, o.Pic.Y = rapid.IntRange(-50, 50).Draw(t, "ox"), rapid.IntRange(-50, 50).Draw(t, "oy")
		}
		if rapid.IntRange(0, 3).Draw(t, "file") == 0 {
			o.Via = rapid.SampledFrom([]string{"png", "jpeg"}).Draw(t, "via")
			o.State = rapid.SampledFrom([]string{"ok", "ok", "ok", "missing", "corrupt", "wrong", "dir"}).Draw(t, "state")
		} else if rapid.IntRange(0, 7).Draw(t, "nil") == 0 {
			o.State = "nil"
		}
		c.Logos = append(c.Logos, o)
	}
	return c
}

func checkSafeZone(c LogoCase, r *core.Rec) error {
	q, bits, err := symbolFor(c.Spec)
	if err != nil {
		return skip(err)
	}
	opts, logo, done, err := c.options()
	if err != nil {
		return skip(err)
	}
	defer done()
	l := lookOf(c.Opts)
	n := len(bits)
	w, h := l.size(n)
	mult := c.Mult
	if mult == 0 {
		mult = 5
	}
	rect, fits := logoRect(w, h, mult, logo)
	under := func(x, y int) bool {
		x0, y0 := l.left+x*l.block, l.top+y*l.block
		return fits && x0 < rect.Max.X && x0+l.block > rect.Min.X && y0 < rect.Max.Y && y0+l.block > rect.Min.Y
	}
	seen := make([][]bool, n)
	cleared := 0
	for y := range seen {
		seen[y] = make([]bool, n)
		for x := range seen[y] {
			seen[y][x] = bits[y][x] && !under(x, y)
			if seen[y][x] != bits[y][x] {
				cleared++
			}
		}
	}
	img, err := renderPNG(q, opts)
	if err != nil {
		return err
	}
	model := l.solid(seen)
	err = compare(img, w, h, 0, func(x, y int) (color.RGBA, bool) {
		if fits && image.Pt(x, y).In(rect) {
			return color.RGBA{}, false
		}
		return model(x, y)
	})
	if err != nil {
		return fmt.Errorf("logo %v fits=%v: %w", rect, fits, err)
	}
	if fits && cleared > 0 {
		// what is under a translucent logo must be background
		want := image.NewRGBA(image.Rect(0, 0, w, h))
		for y := rect.Min.Y; y < rect.Max.Y; y++ {
			for x := rect.Min.X; x < rect.Max.X; x++ {
				m, _ := model(x, y)
				want.SetRGBA(x, y, m)
			}
		}
		want = overlay(want, rect, logo)
		if err := compare(img, w, h, 2, func(x, y int) (color.RGBA, bool) { return want.RGBAAt(x, y), image.Pt(x, y).In(rect) }); err != nil {
			return fmt.Errorf("inside the logo at %v: %w", rect, err)
		}
	}
	rec := &recShape{}
	if _, err := renderPNG(q, append(opts, standard.WithCustomShape(rec))); err != nil {
		return err
	}
	// dark modules under the logo are not drawn; all others are, and see the
	// cleared modules as light
	if err := checkCalls(rec.calls, l, bits, seen, func(x, y int) bool { return bits[y][x] && under(x, y) }); err != nil {
		return fmt.Errorf("logo %v fits=%v: %w", rect, fits, err)
	}
	r.Class("cleared %s", bucket(cleared, 0, 1, 2, 5, 20, 100, 1000, 40000))
	r.Class("fits %v", fits)
	if rect.Dx() != rect.Dy() {
		r.Class("logo not square")
	}
	if cleared > 0 {
		r.Nontrivial()
	}
	return nil
}

// ---- C24 ----

func genGradient(t *rapid.T) IOpt {
	o := IOpt{K: "gradient"}
	switch rapid.IntRange(0, 3).Draw(t, "aclass") {
	case 0:
		o.Angle = float64(45 * rapid.IntRange(-8, 16).Draw(t, "a45"))
	case 1:
		o.Angle = float64(rapid.IntRange(-720, 720).Draw(t, "adeg"))
	case 2:
		o.Angle = float64(rapid.IntRange(-16*4000, 16*4000).Draw(t, "a16")) / 16
	default:
		o.Angle = rapid.Float64Range(-400, 400).Draw(t, "angle")
	}
	n := rapid.SampledFrom([]int{0, 1, 2, 2, 2, 3, 3, 4, 6}).Draw(t, "nstops")
	used := map[float64]bool{}
	for i := 0; i < n; i++ {
		var T float64
		switch rapid.IntRange(0, 3).Draw(t, "tclass") {
		case 0:
			T = float64(rapid.IntRange(0, 1).Draw(t, "t01"))
		case 1:
			T = float64(rapid.IntRange(-2, 12).Draw(t, "t10")) / 10
		default:
			T = float64(rapid.IntRange(0, 1000).Draw(t, "t")) / 1000
		}
		if used[T] {
			continue
		}
		used[T] = true
		o.Stops = append(o.Stops, Stop{T, genRGB(t, "stop")})
	}
	return o
}

type GradCase struct {
	Spec Spec   `json:"spec"`
	Opts []IOpt `json:"opts"` // gradient options among others
}

// channel interval of the gradient between positions t0 and t1
func gradRange(stops []Stop, t0, t1 float64) (lo, hi [3]float64) {
	lo = [3]float64{999, 999, 999}
	hi = [3]float64{-1, -1, -1}
	add := func(c [3]float64) {
		for i := range c {
			lo[i], hi[i] = math.Min(lo[i], c[i]), math.Max(hi[i], c[i])
		}
	}
	flo := func(c RGB) [3]float64 { return [3]float64{float64(c[0]), float64(c[1]), float64(c[2])} }
	at := func(t float64) {
		last := len(stops) - 1
		switch {
		case t <= stops[0].T:
			add(flo(stops[0].C))
		case t >= stops[last].T:
			add(flo(stops[last].C))
		default:
			for i := 0; i < last; i++ {
				if a, b := stops[i], stops[i+1]; t >= a.T && t <= b.T {
					f := (t - a.T) / (b.T - a.T)
					x, y := flo(a.C), flo(b.C)
					add([3]float64{x[0]*(1-f) + y[0]*f, x[1]*(1-f) + y[1]*f, x[2]*(1-f) + y[2]*f})
				}
			}
		}
	}
	at(t0)
	at(t1)
	for _, s := range stops {
		if s.T >= t0 && s.T <= t1 {
			add(flo(s.C))
		}
	}
	return
}

// recoloured checks that img is base with the foreground colour replaced by
// the gradient, and counts these pixels.
func recoloured(img, base *image.RGBA, fg color.RGBA, g *IOpt) (hits int, err error) {
	w, h := base.Rect.Dx(), base.Rect.Dy()
	if img.Rect != base.Rect {
		return 0, fmt.Errorf("image is %v, without gradient %v", img.Rect, base.Rect)
	}
	stops := append([]Stop(nil), g.Stops...)
	sort.Slice(stops, func(i, j int) bool { return stops[i].T < stops[j].T })
	rad := g.Angle * math.Pi / 180
	dx, dy := math.Cos(rad), -math.Sin(rad) // 90 degrees is up
	proj := func(x, y float64) float64 { return x*dx + y*dy }
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, p := range [][2]float64{{0, 0}, {float64(w), 0}, {0, float64(h)}, {float64(w), float64(h)}} {
		lo, hi = math.Min(lo, proj(p[0], p[1])), math.Max(hi, proj(p[0], p[1]))
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			b, v := base.RGBAAt(x, y), img.RGBAAt(x, y)
			if b != fg {
				if v != b {
					return hits, fmt.Errorf("pixel (%d,%d) was %v, not the foreground colour, and became %v", x, y, b, v)
				}
				continue
			}
			hits++
			// anywhere within the pixel
			t0, t1 := math.Inf(1), math.Inf(-1)
			for _, d := range [][2]float64{{0, 0}, {1, 0}, {0, 1}, {1, 1}} {
				t := (proj(float64(x)+d[0], float64(y)+d[1]) - lo) / (hi - lo)
				t0, t1 = math.Min(t0, t), math.Max(t1, t)
			}
			a, z := gradRange(stops, t0-1e-9, t1+1e-9)
			for i, ch := range [3]uint8{v.R, v.G, v.B} {
				if float64(ch) < a[i]-1.001 || float64(ch) > z[i]+1.001 {
					return hits, fmt.Errorf("pixel (%d,%d) at position %.4f is %v, the gradient there is between %.1f and %.1f", x, y, t0, v, a, z)
				}
			}
			if v.A != 255 {
				return hits, fmt.Errorf("pixel (%d,%d) is %v", x, y, v)
			}
		}
	}
	return hits, nil
}

func checkGradient(c GradCase, r *core.Rec) error {
	q, bits, err := symbolFor(c.Spec)
	if err != nil {
		return skip(err)
	}
	var plain []IOpt
	var g *IOpt
	for i, o := range c.Opts {
		if o.K != "gradient" {
			plain = append(plain, o)
		} else if len(o.Stops) > 0 {
			g = &c.Opts[i]
		}
	}
	base, err := renderPNG(q, imageOptions(plain))
	if err != nil {
		return err
	}
	img, err := renderPNG(q, imageOptions(c.Opts))
	if err != nil {
		return err
	}
	l := lookOf(plain)
	w, h := l.size(len(bits))
	if img.Bounds() != base.Bounds() {
		return fmt.Errorf("image is %v, without gradient %v", img.Bounds(), base.Bounds())
	}
	if g == nil {
		r.Class("no stops")
		return compare(img, w, h, 0, func(x, y int) (color.RGBA, bool) { return base.RGBAAt(x, y), true })
	}
	hits, err := recoloured(img, base, l.fg, g)
	if err != nil {
		return err
	}
	stops := g.Stops
	r.Class("%d stops", len(stops))
	sorted := sort.SliceIsSorted(g.Stops, func(i, j int) bool { return g.Stops[i].T < g.Stops[j].T })
	r.Class("stops sorted %v", sorted)
	if hits > 0 && len(stops) > 1 {
		r.Nontrivial()
	}
	return nil
}

func genGradCase(t *rapid.T, maxVer, side int) GradCase {
	c := GradCase{Spec: genDraw(t, maxVer)}
	n := sideOf(c.Spec)
	c.Opts = []IOpt{{K: "width", V: genBlock(t, 1, n, side)}, {K: "border", Ints: genBorder(t, 30)}}
	for k := rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(t, "ngrad"); k > 0; k-- {
		g := genGradient(t)
		if len(g.Stops) == 0 && rapid.Bool().Draw(t, "nilgrad") {
			g.V = 1
		}
		c.Opts = append(c.Opts, g)
	}
	c.Opts = append(c.Opts, genColours(t)...)
	if rapid.IntRange(0, 3).Draw(t, "transparent") == 0 {
		c.Opts = append(c.Opts, IOpt{K: "transparent"})
	}
	switch rapid.IntRange(0, 4).Draw(t, "shape") {
	case 0:
		c.Opts = append(c.Opts, IOpt{K: "circle"})
	case 1:
		c.Opts = append(c.Opts, IOpt{K: "style", Style: &Style{Finder: "rounded", Block: rapid.SampledFrom(blockNames).Draw(t, "block style"), BlockP: 0.8}})
	}
	if rapid.IntRange(0, 4).Draw(t, "rotate") == 0 && len(c.Opts) > 1 { // gradient first
		i := rapid.IntRange(0, len(c.Opts)-1).Draw(t, "rot")
		c.Opts = append(append([]IOpt{}, c.Opts[i:]...), c.Opts[:i]...)
	}
	return c
}

// ---- C25 ----

type HalfCase struct {
	Spec Spec   `json:"spec"`
	Opts []IOpt `json:"opts"`
	Pic  Pic    `json:"pic"`
	Size string `json:"size"` // exact: three pixels a module; flat, halves: scaled
	Via  string `json:"via"`  // image file missing corrupt nil
	Post bool   `json:"post,omitempty"`
}

func genHalf(t *rapid.T, maxVer, side int) HalfCase {
	c := HalfCase{Spec: genDraw(t, maxVer)}
	n := sideOf(c.Spec)
	c.Opts = []IOpt{{K: "width", V: genBlock(t, 1, n, side)}, {K: "border", Ints: genBorder(t, 30)}}
	if rapid.Bool().Draw(t, "by three") {
		c.Opts[0].V = 3 * rapid.IntRange(1, max(1, side/n/3)).Draw(t, "w3")
	}
	if rapid.Bool().Draw(t, "colours") {
		c.Opts = append(c.Opts, genColours(t)...)
	}
	if rapid.IntRange(0, 3).Draw(t, "transparent") == 0 {
		c.Opts = append(c.Opts, IOpt{K: "transparent"})
	}
	c.Size = rapid.SampledFrom([]string{"exact", "exact", "exact", "flat", "halves", "any", "any"}).Draw(t, "size")
	c.Pic = Pic{Type: rapid.SampledFrom([]string{"rgba", "nrgba", "gray", "paletted", "sub"}).Draw(t, "pictype"), Seed: uint64(rapid.IntRange(0, 1000).Draw(t, "seed"))}
	switch c.Size {
	case "exact":
		c.Pic.W, c.Pic.H, c.Pic.Kind = 3*n, 3*n, rapid.SampledFrom([]string{"noise", "bw", "dim"}).Draw(t, "kind")
	case "any":
		big := 200
		if rapid.IntRange(0, 3).Draw(t, "large") == 0 {
			big = 1200 // far more pixels than cells
		}
		c.Pic.W, c.Pic.H = rapid.IntRange(1, big).Draw(t, "pw"), rapid.IntRange(1, big).Draw(t, "ph")
		c.Pic.Kind = rapid.SampledFrom([]string{"noise", "bw", "dim"}).Draw(t, "kind")
	default:
		c.Pic.W, c.Pic.H, c.Pic.Kind = rapid.IntRange(2, 200).Draw(t, "pw"), rapid.IntRange(2, 200).Draw(t, "ph"), c.Size
		if c.Size == "halves" {
			c.Pic.W, c.Pic.Type = c.Pic.W/2*2, rapid.SampledFrom([]string{"rgba", "nrgba", "gray"}).Draw(t, "pictype2")
		}
	}
	if rapid.Bool().Draw(t, "offset") {
		c.Pic.X, c.Pic.Y = rapid.IntRange(-50, 50).Draw(t, "ox"), rapid.IntRange(-50, 50).Draw(t, "oy")
	}
	c.Via = rapid.SampledFrom([]string{"image", "image", "image", "file", "file", "missing", "corrupt", "nil"}).Draw(t, "via")
	c.Post = rapid.Bool().Draw(t, "post")
	return c
}

func checkHalftone(c HalfCase, r *core.Rec) error {
	q, bits, err := symbolFor(c.Spec)
	if err != nil {
		return skip(err)
	}
	l := lookOf(c.Opts)
	n := len(bits)
	w, h := l.size(n)
	dir, err := os.MkdirTemp(core.Scratch(), "half")
	if err != nil {
		return skip(errSkip)
	}
	defer os.RemoveAll(dir)
	pic := c.Pic.image()
	path := filepath.Join(dir, "pic.png")
	data := encodeFile(pic, false)
	var opt standard.ImageOption
	active := true
	switch c.Via {
	case "image":
		opt = standard.WithHalftoneImage(pic)
	case "file":
		opt = standard.WithHalftone(path)
	case "corrupt":
		data, active = data[:len(data)/2], false
		opt = standard.WithHalftone(path)
	case "missing":
		opt, active = standard.WithHalftone(filepath.Join(dir, "missing.png")), false
	case "nil":
		opt, active = standard.WithHalftoneImage(nil), false
	}
	if err := os.WriteFile(path, data, 0o644); err != nil {
		return skip(errSkip)
	}
	opts := imageOptions(c.Opts)
	if c.Post {
		opts = append(opts, opt)
	} else {
		opts = append([]standard.ImageOption{opt}, opts...)
	}
	img, err := renderPNG(q, opts)
	if err != nil {
		return err
	}
	plain := l.solid(bits)
	r.Class("via %s", c.Via)
	if !active {
		return compare(img, w, h, 0, plain)
	}
	m, err := matrixOf(q)
	if err != nil {
		return skip(errSkip)
	}
	data3 := map[[2]int]bool{}
	m.Iterate(qrcode.IterDirection_ROW, func(x, y int, v qrcode.QRValue) {
		if v.Type() == qrcode.QRType_DATA {
			data3[[2]int{x, y}] = true
		}
	})
	lay := qrref.LayoutOf((n - 17) / 4)
	for y := range bits {
		for x := range bits[y] {
			if k := lay.Kind[y][x]; data3[[2]int{x, y}] != (k == qrref.KData || k == qrref.KAlign && x != 6 && y != 6) {
				return skip(errSkip) // region tags are the business of C13
			}
		}
	}
	white := color.RGBA{255, 255, 255, 255}
	if l.transparent {
		white = color.RGBA{}
	}
	var scaled *image.RGBA
	if c.Size == "any" {
		scaled = image.NewRGBA(image.Rect(0, 0, 3*n, 3*n))
		xdraw.ApproxBiLinear.Scale(scaled, scaled.Rect, pic, pic.Bounds(), xdraw.Src, nil)
	}
	// dark, light, or unknown near the threshold and between regions
	cell := func(u, v int) (col color.RGBA, known bool) {
		var y float64
		b := pic.Bounds()
		switch c.Size {
		case "flat":
			y = lum(pic.At(b.Min.X, b.Min.Y))
		case "halves":
			if absf(float64(u)+0.5-1.5*float64(n)) < 2+3*float64(n)/float64(c.Pic.W)*1.5 {
				return white, false
			}
			src := 0
			if float64(u) > 1.5*float64(n) {
				src = c.Pic.W - 1
			}
			y = lum(pic.At(b.Min.X+src, b.Min.Y))
		case "any":
			y = lum(scaled.At(u, v))
		default:
			y = lum(pic.At(b.Min.X+u, b.Min.Y+v))
		}
		if absf(y-60.5) < 2 || c.Size == "any" && absf(y-60.5) < 3 {
			return white, false
		}
		if y > 60 {
			return white, true
		}
		return color.RGBA{0, 0, 0, 255}, true
	}
	exact := l.block%3 == 0
	err = compare(img, w, h, 0, func(px, py int) (color.RGBA, bool) {
		x, y, ok := l.at(px, py, n)
		if !ok || !data3[[2]int{x, y}] {
			return plain(px, py)
		}
		if l.block < 3 {
			return plain(px, py) // too small for cells: C25 asks for the module's colour
		}
		ix, iy := px-l.left-x*l.block, py-l.top-y*l.block
		ci, cj := -1, -1
		for k := 0; k < 3; k++ {
			mid := (2*k + 1) * l.block / 6 // the pixel in the middle of the cell
			if k == 1 {
				mid = (l.block - 1) / 2
			}
			if exact && ix/(l.block/3) == k || ix == mid {
				ci = k
			}
			if exact && iy/(l.block/3) == k || iy == mid {
				cj = k
			}
		}
		if ci < 0 || cj < 0 {
			return white, false
		}
		if ci == 1 && cj == 1 {
			if bits[y][x] {
				return l.fg, true
			}
			if l.transparent {
				return color.RGBA{}, true
			}
			return l.bg, true
		}
		return cell(3*x+ci, 3*y+cj)
	})
	if err != nil {
		return err
	}
	// every pixel of a data module is one of the four colours
	if l.block >= 3 {
		for py := 0; py < h; py++ {
			for px := 0; px < w; px++ {
				if x, y, ok := l.at(px, py, n); ok && data3[[2]int{x, y}] {
					switch v := img.RGBAAt(px, py); v {
					case l.fg, l.light(), white, color.RGBA{0, 0, 0, 255}:
					default:
						return fmt.Errorf("pixel (%d,%d) of data module (%d,%d) is %v", px, py, x, y, v)
					}
				}
			}
		}
	}
	if err := l.scan(img, n, 0, c.Spec.Text); err != nil {
		return err
	}
	r.Class("%s %s", c.Size, c.Pic.Kind)
	r.Class("width mod 3 = %d", l.block%3)
	r.Nontrivial()
	return nil
}

func init() {
	core.Register(core.Def[LogoCase]{
		ID:          "C22",
		Rule:        "A case is non-trivial if a readable logo took part (drawn or refused by the limit) and all pixels were compared.",
		Assumptions: []string{"multipliers are positive", "blending of translucent logos follows the source-over rule of image/draw (within 2 levels)"},
		Cells: func(t core.Tier) (cs []core.Cell[LogoCase]) {
			for i := 0; i < 16; i++ {
				cs = append(cs, core.Cell[LogoCase]{Name: fmt.Sprintf("logo-%d", i), Runs: t.N(60, 2500), Gen: func(t *rapid.T) LogoCase { return genLogoCase(t, false, 7, 400) }},
					core.Cell[LogoCase]{Name: fmt.Sprintf("any-%d", i), Runs: t.N(6, 250), Gen: func(t *rapid.T) LogoCase { return genLogoCase(t, false, 40, 1000) }},
					core.Cell[LogoCase]{Name: fmt.Sprintf("wide-%d", i), Runs: t.N(2, 60), Gen: func(t *rapid.T) LogoCase { return genLogoCase(t, false, 2, 3000) }})
			}
			return
		},
		Check: checkLogo,
	})
	core.Register(core.Def[LogoCase]{
		ID:          "C23",
		Rule:        "A case is non-trivial if at least one dark module lies under the logo.",
		Assumptions: []string{"multipliers are positive"},
		Cells: func(t core.Tier) (cs []core.Cell[LogoCase]) {
			for i := 0; i < 16; i++ {
				cs = append(cs, core.Cell[LogoCase]{Name: fmt.Sprintf("safe-%d", i), Runs: t.N(50, 2000), Gen: func(t *rapid.T) LogoCase { return genLogoCase(t, true, 7, 400) }},
					core.Cell[LogoCase]{Name: fmt.Sprintf("any-%d", i), Runs: t.N(6, 250), Gen: func(t *rapid.T) LogoCase { return genLogoCase(t, true, 40, 1000) }},
					core.Cell[LogoCase]{Name: fmt.Sprintf("wide-%d", i), Runs: t.N(2, 60), Gen: func(t *rapid.T) LogoCase { return genLogoCase(t, true, 2, 3000) }})
			}
			return
		},
		Check: checkSafeZone,
	})
	core.Register(core.Def[GradCase]{
		ID:          "C24",
		Rule:        "A case is non-trivial if a gradient of at least two stops recoloured at least one pixel.",
		Assumptions: []string{"stops have distinct positions and opaque colours", "the position of a pixel is any point of it, the gradient line spans the projections of the image corners; colours within one level"},
		Cells: func(t core.Tier) (cs []core.Cell[GradCase]) {
			for i := 0; i < 16; i++ {
				cs = append(cs, core.Cell[GradCase]{Name: fmt.Sprintf("grad-%d", i), Runs: t.N(60, 2500), Gen: func(t *rapid.T) GradCase { return genGradCase(t, 5, 300) }},
					core.Cell[GradCase]{Name: fmt.Sprintf("any-%d", i), Runs: t.N(5, 200), Gen: func(t *rapid.T) GradCase { return genGradCase(t, 40, 900) }},
					core.Cell[GradCase]{Name: fmt.Sprintf("wide-%d", i), Runs: t.N(1, 40), Gen: func(t *rapid.T) GradCase { return genGradCase(t, 2, 2200) }})
			}
			return
		},
		Check: checkGradient,
	})
	core.Register(core.Def[HalfCase]{
		ID:          "C25",
		Rule:        "A case is non-trivial if a picture took effect, its cells were compared and the text was decoded.",
		Assumptions: []string{"cells are compared completely where the block width is divisible by three, in their middle pixels otherwise", "pictures have exactly three pixels a module, one colour, two halves, or any size compared after approximately bilinear scaling by golang.org/x/image (cells next to the border of halves, and within 2 to 3 levels of the threshold 60, are left out)"},
		Cells: func(t core.Tier) (cs []core.Cell[HalfCase]) {
			for i := 0; i < 8; i++ {
				cs = append(cs, core.Cell[HalfCase]{Name: fmt.Sprintf("half-%d", i), Runs: t.N(60, 2500), Gen: func(t *rapid.T) HalfCase { return genHalf(t, 7, 400) }},
					core.Cell[HalfCase]{Name: fmt.Sprintf("any-%d", i), Runs: t.N(4, 150), Gen: func(t *rapid.T) HalfCase { return genHalf(t, 40, 900) }})
			}
			for wd := 1; wd <= 24; wd++ {
				wd := wd
				cs = append(cs, core.Cell[HalfCase]{Name: fmt.Sprintf("width-%d", wd), Runs: t.N(2, 40), Gen: func(t *rapid.T) HalfCase {
					c := genHalf(t, 2, 900)
					c.Opts[0].V, c.Via = wd, "image"
					return c
				}})
			}
			return
		},
		Check: checkHalftone,
	})
}
