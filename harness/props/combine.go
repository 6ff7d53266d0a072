package props

import (
	"fmt"
	"image"
	"image/color"

	"github.com/yeqown/go-qrcode/v2"
	"pgregory.net/rapid"

	"verif/core"
)

// Combo is a symbol drawn with many image options at once, every kind at most
// once, and the same options in another order.
type Combo struct {
	Spec Spec   `json:"spec"`
	Opts []IOpt `json:"opts"`
	Perm []int  `json:"perm"`
	Jpeg bool   `json:"jpeg,omitempty"`
}

func (c Combo) without(kinds ...string) (out []IOpt) {
next:
	for _, o := range c.Opts {
		for _, k := range kinds {
			if o.K == k {
				continue next
			}
		}
		out = append(out, o)
	}
	return
}

func (c Combo) find(kind string) *IOpt {
	for i := range c.Opts {
		if c.Opts[i].K == kind {
			return &c.Opts[i]
		}
	}
	return nil
}

func checkCombo(c Combo, r *core.Rec) error {
	q, bits, err := symbolFor(c.Spec)
	if err != nil {
		return skip(err)
	}
	n := len(bits)
	l := lookOf(c.Opts)
	w, h := l.size(n)

	// order
	perm := make([]IOpt, len(c.Opts))
	for i, p := range c.Perm {
		perm[i] = c.Opts[p]
	}
	enc := IOpt{K: "png"}
	if c.Jpeg {
		enc.K = "jpeg"
	}
	first, err := render(q, imageOptions(append([]IOpt{enc}, c.Opts...))...)
	if err != nil {
		return err
	}
	second, err := render(q, imageOptions(append(perm[:len(perm):len(perm)], enc))...)
	if err != nil {
		return err
	}
	if string(first) != string(second) {
		return fmt.Errorf("the options in the order %v give another image (%d and %d bytes)", c.Perm, len(first), len(second))
	}

	full, err := renderPNG(q, imageOptions(c.Opts))
	if err != nil {
		return err
	}
	logo, safe, grad, half := c.find("logo"), c.find("safezone") != nil, c.find("gradient"), c.find("halftone")
	var rect image.Rectangle
	fits := false
	if logo != nil {
		mult := 5
		if m := c.find("mult"); m != nil {
			mult = m.V
		}
		rect, fits = logoRect(w, h, mult, logo.Pic.image())
	}

	// the logo lies on top of everything
	under := full
	if !safe || !fits {
		if under, err = renderPNG(q, imageOptions(c.without("logo", "mult", "safezone"))); err != nil {
			return err
		}
		want := under
		if fits {
			want = overlay(under, rect, logo.Pic.image())
		}
		for _, in := range []bool{false, true} {
			tol := 0
			if in {
				tol = 2
			}
			if err := compare(full, w, h, tol, func(x, y int) (color.RGBA, bool) {
				return want.RGBAAt(x, y), in == (fits && image.Pt(x, y).In(rect))
			}); err != nil {
				return fmt.Errorf("with the logo %v (fits: %v, pixels inside it: %v): %w", rect, fits, in, err)
			}
		}
	}

	// the gradient recolours what was drawn before the logo
	plain := full
	if grad != nil {
		if plain, err = renderPNG(q, imageOptions(c.without("gradient"))); err != nil {
			return err
		}
		a, b := full, plain
		if fits { // outside the logo
			a, b = masked(full, rect), masked(plain, rect)
		}
		if l.fg != (color.RGBA{}) {
			hits, err := recoloured(a, b, l.fg, grad)
			if err != nil {
				return fmt.Errorf("with the gradient: %w", err)
			}
			r.Class("gradient hits %v", hits > 0)
		}
	}

	// from here on: plain has no gradient
	m, err := matrixOf(q)
	if err != nil {
		return skip(errSkip)
	}
	kind := make([][]bool, n) // data
	for y := range kind {
		kind[y] = make([]bool, n)
	}
	m.Iterate(qrcode.IterDirection_ROW, func(x, y int, v qrcode.QRValue) { kind[y][x] = v.Type() == qrcode.QRType_DATA })
	covered := func(x, y int) bool {
		x0, y0 := l.left+x*l.block, l.top+y*l.block
		return safe && fits && x0 < rect.Max.X && x0+l.block > rect.Min.X && y0 < rect.Max.Y && y0+l.block > rect.Min.Y
	}
	if c.find("style") == nil { // shapes that stay within their block
		bare, err := renderPNG(q, imageOptions(c.without("gradient", "logo", "mult", "safezone", "halftone")))
		if err != nil {
			return err
		}
		tone := bare
		if half != nil && safe && fits {
			if tone, err = renderPNG(q, imageOptions(c.without("gradient", "logo", "mult", "safezone"))); err != nil {
				return err
			}
		}
		err = compare(plain, w, h, 0, func(px, py int) (color.RGBA, bool) {
			if fits && image.Pt(px, py).In(rect) {
				return color.RGBA{}, false
			}
			x, y, ok := l.at(px, py, n)
			switch {
			case !ok:
				return l.light(), true
			case covered(x, y) && bits[y][x]:
				return l.light(), true // cleared
			case half == nil || !kind[y][x]:
				return bare.RGBAAt(px, py), true
			case covered(x, y):
				return color.RGBA{}, false // a light module under the logo may show the picture
			case safe && fits:
				return tone.RGBAAt(px, py), true
			}
			return color.RGBA{}, false
		})
		if err != nil {
			return fmt.Errorf("without the gradient, outside the logo %v (fits: %v, safe zone: %v): %w", rect, fits, safe, err)
		}
	}
	// module centres outside the logo
	small := 4
	if half != nil {
		small = 15
		if c.find("style") == nil && c.find("circle") == nil {
			small = 1
		}
	} else if c.find("style") == nil && c.find("circle") == nil {
		small = 1
	}
	if l.block >= small {
		light := l.light()
		for y := range bits {
			for x := range bits[y] {
				px, py := l.centre(x, y)
				if fits && image.Pt(px, py).In(rect) || covered(x, y) {
					continue
				}
				want := light
				if bits[y][x] {
					want = l.fg
				}
				if got := plain.RGBAAt(px, py); got != want {
					return fmt.Errorf("the centre of module (%d,%d) is %v, want %v", x, y, got, want)
				}
			}
		}
		if !fits {
			if err := l.scan(plain, n, 0, c.Spec.Text); err != nil {
				return err
			}
		}
	}
	for _, o := range c.Opts {
		r.Class("option %s", o.K)
	}
	if logo != nil {
		r.Class("logo fits %v, safe zone %v", fits, safe)
	}
	deco := 0
	for _, k := range []*IOpt{logo, grad, half, c.find("circle"), c.find("style"), c.find("transparent")} {
		if k != nil {
			deco++
		}
	}
	r.Class("%d decorations", deco)
	if deco >= 2 {
		r.Nontrivial()
	}
	return nil
}

// masked is a copy with a rectangle in a colour of its own.
func masked(img *image.RGBA, rect image.Rectangle) *image.RGBA {
	out := image.NewRGBA(img.Rect)
	copy(out.Pix, img.Pix)
	for y := rect.Min.Y; y < rect.Max.Y; y++ {
		for x := rect.Min.X; x < rect.Max.X; x++ {
			out.SetRGBA(x, y, color.RGBA{1, 2, 3, 4})
		}
	}
	return out
}

func genCombo(maxVer, side int) func(t *rapid.T) Combo {
	return func(t *rapid.T) Combo {
		c := Combo{Spec: genDraw(t, maxVer), Jpeg: rapid.IntRange(0, 3).Draw(t, "jpeg") == 0}
		n := sideOf(c.Spec)
		has := func(label string) bool { return rapid.IntRange(0, 4).Draw(t, label) < 3 }
		if has("width?") || n*20 > 2*side {
			c.Opts = append(c.Opts, IOpt{K: "width", V: genBlock(t, 1, n, side)})
		}
		if has("border?") {
			c.Opts = append(c.Opts, IOpt{K: "border", Ints: genBorder(t, 30)})
		}
		c.Opts = append(c.Opts, genColours(t)...)
		if rapid.IntRange(0, 3).Draw(t, "transparent") == 0 {
			c.Opts = append(c.Opts, IOpt{K: "transparent"})
		}
		switch rapid.IntRange(0, 4).Draw(t, "shape") {
		case 0, 1:
			c.Opts = append(c.Opts, IOpt{K: "circle"})
		case 2:
			c.Opts = append(c.Opts, IOpt{K: "style", Style: &Style{Finder: rapid.SampledFrom([]string{"rounded", "squarefinder"}).Draw(t, "finder"),
				Block: rapid.SampledFrom(blockNames).Draw(t, "block style"), BlockP: 0.8}})
		}
		if rapid.Bool().Draw(t, "gradient?") {
			if g := genGradient(t); len(g.Stops) > 0 {
				c.Opts = append(c.Opts, g)
			}
		}
		if rapid.Bool().Draw(t, "halftone?") {
			lim := rapid.SampledFrom([]int{9, 60, 300}).Draw(t, "hmax")
			c.Opts = append(c.Opts, IOpt{K: "halftone", Pic: &Pic{W: rapid.IntRange(1, lim).Draw(t, "hw"), H: rapid.IntRange(1, lim).Draw(t, "hh"),
				X: rapid.IntRange(-5, 5).Draw(t, "hx"), Type: genPicType(t), Kind: rapid.SampledFrom([]string{"noise", "bw", "dim"}).Draw(t, "hkind"), Seed: uint64(rapid.IntRange(0, 1000).Draw(t, "hseed"))}})
		}
		if has("logo?") {
			mult := 5
			if rapid.Bool().Draw(t, "mult?") {
				mult = rapid.IntRange(1, 8).Draw(t, "mult")
				c.Opts = append(c.Opts, IOpt{K: "mult", V: mult})
			}
			w, h := lookOf(c.Opts).size(n)
			c.Opts = append(c.Opts, IOpt{K: "logo", Pic: &Pic{W: rapid.IntRange(1, w/mult+2).Draw(t, "lw"), H: rapid.IntRange(1, h/mult+2).Draw(t, "lh"),
				Y: rapid.IntRange(-5, 5).Draw(t, "ly"), Type: rapid.SampledFrom([]string{"rgba", "nrgba", "gray", "alpha", "paletted"}).Draw(t, "ltype"), Kind: "noise", Seed: uint64(rapid.IntRange(0, 1000).Draw(t, "lseed"))}})
		}
		if rapid.Bool().Draw(t, "safe") {
			c.Opts = append(c.Opts, IOpt{K: "safezone"})
		}
		idx := make([]int, len(c.Opts))
		for i := range idx {
			idx[i] = i
		}
		if len(idx) > 0 {
			c.Perm = rapid.Permutation(idx).Draw(t, "perm")
		}
		return c
	}
}

func init() {
	core.Register(core.Def[Combo]{
		ID:   "C37",
		Rule: "A case is non-trivial if at least two of logo, gradient, halftone, shape and transparency are combined.",
		Assumptions: []string{"every kind of option at most once; what a light module under a logo with safe zone shows of a halftone picture is left open",
			"pixels are compared outside the logo and, for a logo without safe zone, inside it (within 2 levels); assembled shapes, which reach into neighbouring blocks, at module centres"},
		Cells: func(t core.Tier) (cs []core.Cell[Combo]) {
			for i := 0; i < 16; i++ {
				cs = append(cs, core.Cell[Combo]{Name: fmt.Sprintf("combo-%d", i), Runs: t.N(30, 1500), Gen: genCombo(7, 400)},
					core.Cell[Combo]{Name: fmt.Sprintf("any-%d", i), Runs: t.N(3, 150), Gen: genCombo(40, 900)})
			}
			return
		},
		Check: checkCombo,
	})
}
