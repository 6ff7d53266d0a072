package props

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"math"

	"github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/shapes"
	"pgregory.net/rapid"

	"verif/core"
	"verif/qrref"
)

// ---- C20 ----

// StyleCase draws a symbol in a built-in style.
type StyleCase struct {
	Spec   Spec   `json:"spec"`
	Opts   []IOpt `json:"opts"`
	Style  Style  `json:"style"`
	Circle bool   `json:"circle,omitempty"` // WithCircleShape instead
}

var styleRange = map[string][3]float64{ // lo, hi, default
	"hstripe": {0.6, 1, 0.85}, "vstripe": {0.6, 1, 0.85}, "square": {0.1, 1, 1}, "circle": {0.1, 1, 1},
}

func styleParam(name string, p float64) float64 {
	if r, ok := styleRange[name]; ok && (p < r[0] || p > r[1]) {
		return r[2]
	}
	return p
}

// genParam draws a parameter; the drawn shape is at least px pixels wide.
func genParam(t *rapid.T, name string, block int, px float64) float64 {
	r, ok := styleRange[name]
	if !ok {
		return 0
	}
	switch rapid.IntRange(0, 5).Draw(t, "pclass") {
	case 0:
		return genOutside(t, r)
	case 1:
		return r[1]
	}
	lo := math.Max(r[0], px/float64(block))
	if lo >= r[1] {
		return r[1]
	}
	return math.Max(lo, math.Min(r[1], lo+(r[1]-lo)*float64(rapid.IntRange(0, 1000).Draw(t, "p"))/1000))
}

func genOutside(t *rapid.T, r [3]float64) float64 {
	switch rapid.IntRange(0, 6).Draw(t, "outside") {
	case 0:
		return 0
	case 1:
		return -rapid.Float64Range(0, 10).Draw(t, "neg")
	case 2:
		return r[0] - 0.001
	case 3:
		return r[1] + 0.001
	case 4:
		return r[1] + rapid.Float64Range(0.001, 50).Draw(t, "big")
	case 5:
		return 1e300
	}
	return r[0] * rapid.Float64Range(0, 0.999).Draw(t, "low")
}

func genStyle(t *rapid.T, block int) Style {
	s := Style{Block: rapid.SampledFrom(blockNames).Draw(t, "block style")}
	s.BlockP = genParam(t, s.Block, block, 3.2)
	s.Finder = rapid.SampledFrom(append([]string{"rounded", "rounded", "squarefinder", "squarefinder"}, blockNames...)).Draw(t, "finder style")
	s.FinderP = genParam(t, s.Finder, block, 3.2)
	return s
}

func genStyleCase(t *rapid.T, maxVer, side int) StyleCase {
	c := StyleCase{Spec: genDraw(t, maxVer)}
	n := sideOf(c.Spec)
	b := genBlock(t, 4, n, side)
	c.Circle = rapid.IntRange(0, 9).Draw(t, "circle option") == 0
	if c.Circle {
		b = rapid.IntRange(1, b).Draw(t, "circle width")
	} else {
		c.Style = genStyle(t, b)
	}
	m := b + 1 + rapid.IntRange(0, 3).Draw(t, "margin")
	bord := []int{m}
	if rapid.Bool().Draw(t, "any border") {
		bord = genBorder(t, 2*b)
	}
	c.Opts = []IOpt{{K: "width", V: b}, {K: "border", Ints: bord}}
	if b >= 4 {
		c.Opts = append(c.Opts, genColours(t)...)
	}
	if rapid.IntRange(0, 4).Draw(t, "transparent") == 0 {
		c.Opts = append(c.Opts, IOpt{K: "transparent"})
	}
	return c
}

func (c StyleCase) options() []standard.ImageOption {
	o := imageOptions(c.Opts)
	if c.Circle {
		return append(o, standard.WithCircleShape())
	}
	return append(o, standard.WithCustomShape(c.Style.shape()))
}

func checkStyle(c StyleCase, r *core.Rec) error {
	q, bits, err := symbolFor(c.Spec)
	if err != nil {
		return skip(err)
	}
	l := lookOf(c.Opts)
	n := len(bits)
	img, err := renderPNG(q, c.options())
	if err != nil {
		return err
	}
	w, h := l.size(n)
	light := l.light()
	// nothing but background further than one block from the symbol
	err = compare(img, w, h, 0, func(px, py int) (color.RGBA, bool) {
		in := px >= l.left-l.block && py >= l.top-l.block && px < l.left+(n+1)*l.block && py < l.top+(n+1)*l.block
		return light, !in
	})
	if err != nil {
		return fmt.Errorf("outside the symbol: %w", err)
	}
	var got [][]bool
	if l.block < 4 { // circle option only: modules of 1..3 pixels are anti-aliased all over
		got = make([][]bool, n)
		for y := range got {
			got[y] = make([]bool, n)
			for x := range got[y] {
				px, py := l.centre(x, y)
				v := img.RGBAAt(px, py)
				got[y][x] = dist(v, l.fg) < dist(v, light)
			}
		}
	} else if got, err = l.sampleCentres(img, n, 2); err != nil {
		return err
	}
	if d := diffBits(got, bits); d != "" {
		return fmt.Errorf("module centres: %s", d)
	}
	if err := decodesTo(got, c.Spec.Text); err != nil {
		return err
	}
	if c.Circle {
		r.Class("circle option")
	} else {
		r.Class("finder %s", c.Style.Finder)
		r.Class("block %s", c.Style.Block)
	}
	r.Nontrivial()
	return nil
}

func dist(a, b color.RGBA) int {
	d := func(x, y uint8) int { v := int(x) - int(y); return v * v }
	return d(a.R, b.R) + d(a.G, b.G) + d(a.B, b.B) + d(a.A, b.A)
}

// ---- C21 ----

// ParamCase is one relation between shape parameters.
type ParamCase struct {
	Rel    string  `json:"rel"` // model default mono transpose assemble
	Spec   Spec    `json:"spec"`
	Block  int     `json:"block"`
	Name   string  `json:"name"`
	Name2  string  `json:"name2,omitempty"`
	P      float64 `json:"p"`
	Q      float64 `json:"q,omitempty"`
	Finder bool    `json:"finder,omitempty"` // the style is (also) the finder's
}

func (c ParamCase) draw(q *qrcode.QRCode, finder, block func(*standard.DrawContext)) (*image.RGBA, []byte, error) {
	opts := []standard.ImageOption{standard.WithQRWidth(uint8(c.Block)), standard.WithBorderWidth(0), standard.WithCustomShape(shapes.Assemble(finder, block))}
	b, err := render(q, append(opts, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))...)
	if err != nil {
		return nil, nil, err
	}
	img, err := renderPNG(q, opts)
	return img, b, err
}

// darkness of a black-on-white pixel, 0..1
func darkness(img *image.RGBA, x, y int) float64 { return float64(255-img.RGBAAt(x, y).R) / 255 }

// inShape tells whether a point (in module units, 0..1) belongs to the
// documented shape of a dark module with the given neighbours.
func inShape(name string, p float64, mask uint16, x, y float64) bool {
	u, v := x-0.5, y-0.5
	r := p / 2
	disc := u*u+v*v <= r*r
	has := func(f uint16) bool { return mask&f != 0 }
	switch name {
	case "square":
		return math.Abs(u) <= r && math.Abs(v) <= r
	case "circle":
		return disc
	case "hstripe":
		return disc || math.Abs(v) <= r && (u <= 0 && has(standard.NLeft) || u >= 0 && has(standard.NRight))
	case "vstripe":
		return disc || math.Abs(u) <= r && (v <= 0 && has(standard.NTop) || v >= 0 && has(standard.NBot))
	}
	panic(name)
}

// coverage of the pixels of one module, by 8x8 samples a pixel.
func coverModel(name string, p float64, mask uint16, block int) [][]float64 {
	const k = 8
	out := make([][]float64, block)
	for y := range out {
		out[y] = make([]float64, block)
		for x := range out[y] {
			n := 0
			for j := 0; j < k; j++ {
				for i := 0; i < k; i++ {
					if inShape(name, p, mask, (float64(x)+(float64(i)+0.5)/k)/float64(block), (float64(y)+(float64(j)+0.5)/k)/float64(block)) {
						n++
					}
				}
			}
			out[y][x] = float64(n) / (k * k)
		}
	}
	return out
}

func checkParam(c ParamCase, r *core.Rec) error {
	q, bits, err := symbolFor(c.Spec)
	if err != nil {
		return skip(err)
	}
	n, b := len(bits), c.Block
	lay := qrref.LayoutOf((n - 17) / 4)
	r.Class("%s %s", c.Rel, c.Name)
	finder := func() func(*standard.DrawContext) {
		if c.Finder {
			return shapeFunc(c.Name, c.P)
		}
		return shapes.SquareFinder()
	}
	switch c.Rel {
	case "model":
		var img *image.RGBA
		if c.Name == "circle" && c.P == 1 && c.Finder {
			img, err = renderPNG(q, []standard.ImageOption{standard.WithQRWidth(uint8(b)), standard.WithBorderWidth(0), standard.WithCircleShape()})
		} else {
			img, _, err = c.draw(q, finder(), shapeFunc(c.Name, c.P))
		}
		if err != nil {
			return err
		}
		p := styleParam(c.Name, c.P)
		cache := map[uint16][][]float64{}
		for y := 0; y < n; y++ {
			for x := 0; x < n; x++ {
				if lay.Kind[y][x] == qrref.KFinder && !c.Finder {
					continue
				}
				if !bits[y][x] {
					for j := 0; j < b; j++ {
						for i := 0; i < b; i++ {
							if darkness(img, x*b+i, y*b+j) != 0 {
								return fmt.Errorf("%s(%v): light module (%d,%d) is not empty at pixel (%d,%d)", c.Name, c.P, x, y, i, j)
							}
						}
					}
					continue
				}
				mask := neighbourMask(bits, x, y) & (standard.NLeft | standard.NRight | standard.NTop | standard.NBot)
				cov := cache[mask]
				if cov == nil {
					cov = coverModel(c.Name, p, mask, b)
					cache[mask] = cov
				}
				sumGot, sumWant := 0.0, 0.0
				for j := 0; j < b; j++ {
					for i := 0; i < b; i++ {
						g, w := darkness(img, x*b+i, y*b+j), cov[j][i]
						sumGot += g
						sumWant += w
						full, empty := w == 1, w == 0
						least := 0.97
						if i == 0 || j == 0 || i == b-1 || j == b-1 {
							least = 0.85 // may be cut below the resolution of the model
						}
						for _, d := range [][2]int{{-1, 0}, {1, 0}, {0, -1}, {0, 1}} {
							if u, v := i+d[0], j+d[1]; u >= 0 && v >= 0 && u < b && v < b {
								full = full && cov[v][u] == 1
								empty = empty && cov[v][u] == 0
							}
						}
						if full && g < least || empty && g > 0.03 {
							return fmt.Errorf("%s(%v), width %d: module (%d,%d) pixel (%d,%d) has darkness %.2f, the documented shape covers %.2f", c.Name, c.P, b, x, y, i, j, g, w)
						}
					}
				}
				// circle and bars of a stripe overlap: their edges add up
				tol := 0.02*sumWant + 0.12*float64(b)
				if sumGot > sumWant && (c.Name == "hstripe" || c.Name == "vstripe") {
					tol += 0.3 * float64(b)
				}
				if absf(sumGot-sumWant) > tol {
					return fmt.Errorf("%s(%v), width %d: module (%d,%d) covers %.1f pixels, the documented shape %.1f", c.Name, c.P, b, x, y, sumGot, sumWant)
				}
			}
		}
	case "default":
		_, b1, err := c.draw(q, finder(), shapeFunc(c.Name, c.P))
		if err != nil {
			return err
		}
		d := c
		d.P = styleRange[c.Name][2]
		_, b2, err := d.draw(q, func() func(*standard.DrawContext) {
			if c.Finder {
				return shapeFunc(c.Name, d.P)
			}
			return shapes.SquareFinder()
		}(), shapeFunc(c.Name, d.P))
		if err != nil {
			return err
		}
		if !bytes.Equal(b1, b2) {
			return fmt.Errorf("%s(%v) differs from the documented default %v", c.Name, c.P, d.P)
		}
	case "mono":
		lo, hi := math.Min(c.P, c.Q), math.Max(c.P, c.Q)
		i1, _, err := c.draw(q, shapes.SquareFinder(), shapeFunc(c.Name, lo))
		if err != nil {
			return err
		}
		i2, _, err := c.draw(q, shapes.SquareFinder(), shapeFunc(c.Name, hi))
		if err != nil {
			return err
		}
		for y := 0; y < n*b; y++ {
			for x := 0; x < n*b; x++ {
				if d1, d2 := darkness(i1, x, y), darkness(i2, x, y); d1 > d2+0.04 {
					return fmt.Errorf("%s: pixel (%d,%d) is darker with %v (%.2f) than with %v (%.2f)", c.Name, x, y, lo, d1, hi, d2)
				}
			}
		}
	case "transpose":
		i1, _, err := c.draw(q, shapes.SquareFinder(), shapeFunc("h"+c.Name, c.P))
		if err != nil {
			return err
		}
		i2, _, err := c.draw(q, shapes.SquareFinder(), shapeFunc("v"+c.Name, c.P))
		if err != nil {
			return err
		}
		type key struct{ before, after bool }
		first := map[key][2]int{}
		side := func(m, f, g uint16) key { return key{m&f != 0, m&g != 0} }
		for y := 0; y < n; y++ {
			for x := 0; x < n; x++ {
				if bits[y][x] && lay.Kind[y][x] != qrref.KFinder {
					if k := side(neighbourMask(bits, x, y), standard.NLeft, standard.NRight); first[k] == [2]int{} {
						first[k] = [2]int{x, y}
					}
				}
			}
		}
		hit := 0
		for y := 0; y < n; y++ {
			for x := 0; x < n; x++ {
				if !bits[y][x] || lay.Kind[y][x] == qrref.KFinder {
					continue
				}
				o, ok := first[side(neighbourMask(bits, x, y), standard.NTop, standard.NBot)]
				if !ok {
					continue
				}
				hit++
				for j := 0; j < b; j++ {
					for i := 0; i < b; i++ {
						v, h := darkness(i2, x*b+i, y*b+j), darkness(i1, o[0]*b+j, o[1]*b+i)
						if absf(v-h) > 0.04 {
							return fmt.Errorf("v%s module (%d,%d) pixel (%d,%d) has darkness %.2f, transposed h%s %.2f", c.Name, x, y, i, j, v, c.Name, h)
						}
					}
				}
			}
		}
		if hit == 0 {
			return nil
		}
	case "assemble":
		f, g := shapeFunc(c.Name, c.P), shapeFunc(c.Name2, c.Q)
		both, _, err := c.draw(q, f, g)
		if err != nil {
			return err
		}
		onlyF, _, err := c.draw(q, f, f)
		if err != nil {
			return err
		}
		onlyG, _, err := c.draw(q, g, g)
		if err != nil {
			return err
		}
		for py := 0; py < n*b; py++ {
			for px := 0; px < n*b; px++ {
				want := onlyG
				if lay.Kind[py/b][px/b] == qrref.KFinder {
					want = onlyF
				}
				if both.RGBAAt(px, py) != want.RGBAAt(px, py) {
					return fmt.Errorf("pixel (%d,%d) of module (%d,%d) is not drawn by the routine assembled for it", px, py, px/b, py/b)
				}
			}
		}
	}
	r.Nontrivial()
	return nil
}

var inCell = []string{"hstripe", "vstripe", "chain", "vchain", "hchain", "square", "circle", "squarefinder"}

func genParamCase(t *rapid.T, rel string) ParamCase {
	c := ParamCase{Rel: rel, Spec: genDraw(t, rapid.SampledFrom([]int{2, 2, 2, 2, 2, 12}).Draw(t, "versions")), Finder: rapid.Bool().Draw(t, "finder too")}
	c.Block = rapid.OneOf(rapid.IntRange(4, 12), rapid.IntRange(10, 40)).Draw(t, "width")
	params := []string{"hstripe", "vstripe", "square", "circle"}
	inside := func(name string) float64 {
		r := styleRange[name]
		if rapid.IntRange(0, 5).Draw(t, "edge") == 0 {
			return rapid.SampledFrom(r[:]).Draw(t, "edge value")
		}
		return r[0] + (r[1]-r[0])*float64(rapid.IntRange(0, 1000).Draw(t, "p"))/1000
	}
	switch rel {
	case "model":
		c.Name = rapid.SampledFrom(params).Draw(t, "style")
		c.P = inside(c.Name)
		if rapid.IntRange(0, 4).Draw(t, "big") == 0 {
			c.Block = rapid.IntRange(40, 70).Draw(t, "width")
			c.Spec = genDraw(t, 1)
		}
	case "default":
		c.Name = rapid.SampledFrom(params).Draw(t, "style")
		c.P = genOutside(t, styleRange[c.Name])
	case "mono":
		c.Name = rapid.SampledFrom(params).Draw(t, "style")
		c.P, c.Q = inside(c.Name), inside(c.Name)
	case "transpose":
		c.Name = rapid.SampledFrom([]string{"stripe", "chain"}).Draw(t, "style")
		c.P = inside("hstripe")
	case "assemble":
		c.Name = rapid.SampledFrom(inCell).Draw(t, "finder style")
		c.Name2 = rapid.SampledFrom(inCell).Draw(t, "block style")
		c.P, c.Q = 0.7, 0.65
	}
	return c
}

func init() {
	core.Register(core.Def[StyleCase]{
		ID:          "C20",
		Rule:        "Every completed case is non-trivial: the centres of all modules were compared and the text decoded.",
		Assumptions: []string{"the shape is at least 3.2 pixels wide (the circle option is also checked at 1 to 3 pixels, by the nearer colour)", "colours are opaque; the centre of a module is the pixel at offset floor((width-1)/2)"},
		Cells: func(t core.Tier) (cs []core.Cell[StyleCase]) {
			for _, f := range append([]string{"rounded", "squarefinder"}, blockNames...) {
				for _, b := range blockNames {
					f, b := f, b
					cs = append(cs, core.Cell[StyleCase]{Name: f + "+" + b, Runs: t.N(16, 600), Gen: func(t *rapid.T) StyleCase {
						c := genStyleCase(t, 7, 400)
						w := lookOf(c.Opts).block
						if c.Circle {
							return c
						}
						c.Style.Finder, c.Style.Block = f, b
						c.Style.FinderP, c.Style.BlockP = genParam(t, f, w, 3.2), genParam(t, b, w, 3.2)
						return c
					}})
				}
			}
			for i := 0; i < 8; i++ {
				cs = append(cs, core.Cell[StyleCase]{Name: fmt.Sprintf("any-%d", i), Runs: t.N(12, 600), Gen: func(t *rapid.T) StyleCase { return genStyleCase(t, 40, 800) }})
			}
			for _, b := range blockNames {
				b := b
				for _, most := range []int{60, 120, 255} {
					most := most
					cs = append(cs, core.Cell[StyleCase]{Name: fmt.Sprintf("wide-%s-%d", b, most), Runs: t.N(1+60/most, 24), Gen: func(t *rapid.T) StyleCase {
						w := rapid.IntRange(most/2, most).Draw(t, "wide")
						c := StyleCase{Spec: genDraw(t, 1), Style: genStyle(t, w)}
						c.Style.Block, c.Style.BlockP = b, genParam(t, b, w, 3.2)
						c.Opts = []IOpt{{K: "width", V: w}, {K: "border", Ints: []int{w + 1}}}
						return c
					}})
				}
			}
			return
		},
		Check: checkStyle,
	})
	core.Register(core.Def[ParamCase]{
		ID:          "C21",
		Rule:        "A case is non-trivial if the relation was evaluated on every (comparable) module of the symbol.",
		Assumptions: []string{"anti-aliased boundary pixels are compared through the covered area, with a tolerance of 2% plus 0.12 pixel per pixel of width (stripes 0.42 upwards, their parts are anti-aliased separately)", "parameters are not NaN"},
		Cells: func(t core.Tier) (cs []core.Cell[ParamCase]) {
			for _, rel := range []string{"model", "default", "mono", "transpose", "assemble"} {
				for i := 0; i < 8; i++ {
					rel := rel
					n := t.N(12, 450)
					if rel == "model" {
						n *= 2
					}
					cs = append(cs, core.Cell[ParamCase]{Name: fmt.Sprintf("%s-%d", rel, i), Runs: n, Gen: func(t *rapid.T) ParamCase { return genParamCase(t, rel) }})
				}
			}
			return
		},
		Check: checkParam,
	})
}
