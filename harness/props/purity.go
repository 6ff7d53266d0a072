package props

import (
	"bytes"
	"fmt"
	"image"
	"image/png"
	"io"
	"reflect"

	"github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/compressed"
	"github.com/yeqown/go-qrcode/writer/standard"
	"pgregory.net/rapid"

	"verif/core"
)

// ---- C26: writing is pure and repeatable ----

// PureCfg is a writer configuration over a pool of shared option values.
type PureCfg struct {
	Kind  string `json:"kind"` // png jpeg default custom compressed
	Opts  []int  `json:"opts,omitempty"`
	Pad   int    `json:"pad,omitempty"`
	Block int    `json:"block,omitempty"`
}

// PureStep is one write of the history.
type PureStep struct {
	Sym int    `json:"sym"`
	Cfg int    `json:"cfg"`
	How string `json:"how"` // same direct new fresh rebuilt
}

type Pure struct {
	Specs []Spec     `json:"specs"`
	Pool  []IOpt     `json:"pool"`
	Cfgs  []PureCfg  `json:"cfgs"`
	Steps []PureStep `json:"steps"`
}

// value holds an option value together with what it was made of.
type value struct {
	opt   standard.ImageOption
	img   image.Image
	snap  image.Image // an independent copy of img
	grad  *standard.LinearGradient
	gsnap standard.LinearGradient
	stops []standard.ColorStop
	ssnap []standard.ColorStop
	ints  []int
	isnap []int
}

func newValue(o IOpt) *value {
	v := &value{}
	switch {
	case o.K == "logo" && o.Pic != nil:
		v.img, v.snap = o.Pic.image(), o.Pic.image()
		v.opt = standard.WithLogoImage(v.img)
	case o.K == "halftone" && o.Pic != nil:
		v.img, v.snap = o.Pic.image(), o.Pic.image()
		v.opt = standard.WithHalftoneImage(v.img)
	case o.K == "gradient" && len(o.Stops) > 0:
		for _, s := range o.Stops {
			v.stops = append(v.stops, standard.ColorStop{T: s.T, Color: s.C.rgba()})
		}
		v.grad = standard.NewGradient(o.Angle, v.stops...)
		v.ssnap = append([]standard.ColorStop{}, v.stops...)
		v.gsnap = *v.grad
		v.gsnap.Stops = append([]standard.ColorStop{}, v.grad.Stops...)
		v.opt = standard.WithFgGradient(v.grad)
	case o.K == "border":
		v.ints = append([]int{}, o.Ints...)
		v.isnap = append([]int{}, o.Ints...)
		v.opt = standard.WithBorderWidth(v.ints...)
	default:
		v.opt = o.option()
	}
	return v
}

func (v *value) changed() error {
	if v.img != nil && !reflect.DeepEqual(v.img, v.snap) {
		return fmt.Errorf("an image given as option was modified")
	}
	if v.grad != nil && (!reflect.DeepEqual(*v.grad, v.gsnap) || !reflect.DeepEqual(v.stops, v.ssnap)) {
		return fmt.Errorf("a gradient given as option was modified")
	}
	if !reflect.DeepEqual(v.ints, v.isnap) {
		return fmt.Errorf("a border list given as option was modified")
	}
	return nil
}

// pngEnc is a custom encoder.
type pngEnc struct{ n *int }

func (e pngEnc) Encode(w io.Writer, img image.Image) error { *e.n++; return png.Encode(w, img) }

type pureWriter struct {
	w     qrcode.Writer
	s     *sink
	cfg   *PureCfg
	comp  *compressed.Option
	calls int
}

func (c PureCfg) writer(pool []*value, comp *compressed.Option) *pureWriter {
	p := &pureWriter{s: &sink{}}
	if c.Kind == "compressed" {
		p.comp = comp
		p.w = compressed.NewWithWriter(p.s, comp)
		return p
	}
	var opts []standard.ImageOption
	for _, i := range c.Opts {
		opts = append(opts, pool[i].opt)
	}
	switch c.Kind {
	case "png":
		opts = append(opts, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
	case "jpeg":
		opts = append(opts, standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
	case "custom":
		opts = append(opts, standard.WithCustomImageEncoder(pngEnc{&p.calls}))
	}
	p.w = standard.NewWithWriter(p.s, opts...)
	return p
}

func newPool(opts []IOpt) []*value {
	var out []*value
	for _, o := range opts {
		out = append(out, newValue(o))
	}
	return out
}

type symState struct {
	q    *qrcode.QRCode
	vals []byte
}

func symValues(q *qrcode.QRCode) ([]byte, error) {
	m, err := matrixOf(q)
	if err != nil {
		return nil, err
	}
	out := []byte{byte(m.Width()), byte(m.Height())}
	m.Iterate(qrcode.IterDirection_ROW, func(x, y int, v qrcode.QRValue) {
		out = append(out, byte(v.Type()))
		if v.IsSet() {
			out = append(out, 1)
		} else {
			out = append(out, 0)
		}
	})
	return out, nil
}

func checkPure(c Pure, r *core.Rec) error {
	var syms []symState
	for _, s := range c.Specs {
		q, _, err := symbolFor(s)
		if err != nil {
			return skip(err)
		}
		v, err := symValues(q)
		if err != nil {
			return skip(errSkip)
		}
		syms = append(syms, symState{q, v})
	}
	pool := newPool(c.Pool)
	comps := make([]*compressed.Option, len(c.Cfgs))
	kept := make([]*pureWriter, len(c.Cfgs))
	for i, cf := range c.Cfgs {
		comps[i] = &compressed.Option{Padding: cf.Pad, BlockSize: cf.Block}
	}
	first := map[[2]int][]byte{}
	repeats := 0
	for i, st := range c.Steps {
		cf := c.Cfgs[st.Cfg]
		q := syms[st.Sym].q
		var pw *pureWriter
		direct := false
		switch st.How {
		case "same", "direct":
			if kept[st.Cfg] == nil {
				kept[st.Cfg] = cf.writer(pool, comps[st.Cfg])
			}
			pw = kept[st.Cfg]
			direct = st.How == "direct"
		case "fresh":
			pw = cf.writer(newPool(c.Pool), &compressed.Option{Padding: cf.Pad, BlockSize: cf.Block})
		case "rebuilt":
			nq, err := c.Specs[st.Sym].New()
			if err != nil {
				return fmt.Errorf("step %d: a symbol built before is now rejected: %v", i, err)
			}
			q = nq
			pw = cf.writer(pool, comps[st.Cfg])
		default:
			pw = cf.writer(pool, comps[st.Cfg])
		}
		pw.s.Reset()
		var err error
		if direct {
			var m *qrcode.Matrix
			if m, err = matrixOf(q); err == nil {
				err = pw.w.Write(*m)
			}
		} else {
			err = q.Save(pw.w)
		}
		if err != nil {
			return fmt.Errorf("step %d: %v", i, err)
		}
		got := append([]byte{}, pw.s.Bytes()...)
		key := [2]int{st.Sym, st.Cfg}
		if f, ok := first[key]; !ok {
			first[key] = got
		} else {
			repeats++
			if !bytes.Equal(f, got) {
				return fmt.Errorf("step %d (%s writer): symbol %d written with configuration %d (%s) differs from the first time: %d bytes, %d bytes first", i, st.How, st.Sym, st.Cfg, cf.Kind, len(got), len(f))
			}
		}
		for j, v := range pool {
			if err := v.changed(); err != nil {
				return fmt.Errorf("after step %d: option %d (%s): %v", i, j, c.Pool[j].K, err)
			}
		}
		if *comps[st.Cfg] != (compressed.Option{Padding: cf.Pad, BlockSize: cf.Block}) {
			return fmt.Errorf("after step %d: the compressed writer's option was modified", i)
		}
		for j := range syms {
			v, err := symValues(syms[j].q)
			if err != nil {
				return err
			}
			if !bytes.Equal(v, syms[j].vals) {
				return fmt.Errorf("after step %d: symbol %d was modified", i, j)
			}
		}
		r.Class("%s %s", cf.Kind, st.How)
	}
	// whatever was written must be what a writer without a history gives
	for key, f := range first {
		cf := c.Cfgs[key[1]]
		pw := cf.writer(newPool(c.Pool), &compressed.Option{Padding: cf.Pad, BlockSize: cf.Block})
		if err := syms[key[0]].q.Save(pw.w); err != nil {
			return fmt.Errorf("fresh writer: %v", err)
		}
		if !bytes.Equal(pw.s.Bytes(), f) {
			return fmt.Errorf("symbol %d with configuration %d (%s) depends on what was written before: %d bytes in the history, %d bytes by a fresh writer", key[0], key[1], cf.Kind, len(f), len(pw.s.Bytes()))
		}
	}
	for _, o := range c.Pool {
		r.Class("option %s", o.K)
	}
	if repeats > 0 {
		r.Nontrivial()
	}
	return nil
}

func genPureOpt(t *rapid.T, n int) IOpt {
	switch rapid.IntRange(0, 12).Draw(t, "opt") {
	case 12:
		return IOpt{K: "mult", V: rapid.IntRange(1, 7).Draw(t, "mult")}
	case 0:
		return IOpt{K: "width", V: rapid.IntRange(1, 9).Draw(t, "w")}
	case 1:
		return IOpt{K: "border", Ints: genBorder(t, 20)}
	case 2:
		return IOpt{K: "transparent"}
	case 3:
		return IOpt{K: "fg", C: rgbCol(genRGB(t, "fg"))}
	case 4:
		return IOpt{K: "bg", C: rgbCol(genRGB(t, "bg"))}
	case 5:
		return IOpt{K: "circle"}
	case 6:
		return IOpt{K: "style", Style: &Style{Finder: rapid.SampledFrom([]string{"rounded", "squarefinder"}).Draw(t, "finder"),
			Block: rapid.SampledFrom(blockNames).Draw(t, "blockstyle"), BlockP: 0.7}}
	case 7, 8:
		lim := rapid.SampledFrom([]int{4, 12, 40, 90}).Draw(t, "lmax")
		return IOpt{K: "logo", Pic: &Pic{W: rapid.IntRange(1, lim).Draw(t, "lw"), H: rapid.IntRange(1, lim).Draw(t, "lh"), X: rapid.IntRange(-3, 3).Draw(t, "lx"),
			Type: genPicType(t), Kind: "noise", Seed: 3}}
	case 9:
		return IOpt{K: "safezone"}
	case 10:
		return genGradient(t)
	}
	return IOpt{K: "halftone", Pic: &Pic{W: rapid.IntRange(1, 40).Draw(t, "hw"), H: rapid.IntRange(1, 40).Draw(t, "hh"), Type: genPicType(t), Kind: "noise", Seed: 4}}
}

func genPure(t *rapid.T) Pure {
	var c Pure
	for i := rapid.IntRange(1, 3).Draw(t, "nspec"); i > 0; i-- {
		s := genDraw(t, 4)
		// another size, so that what fits one symbol need not fit another
		if len(c.Specs) > 0 && rapid.Bool().Draw(t, "othersize") {
			s.Opts = append(s.Opts, Opt{"minver", rapid.IntRange(1, 14).Draw(t, "sizever")})
		}
		c.Specs = append(c.Specs, s)
	}
	c.Pool = []IOpt{{K: "width", V: rapid.IntRange(1, 6).Draw(t, "basew")}}
	for i := rapid.IntRange(0, 7).Draw(t, "npool"); i > 0; i-- {
		c.Pool = append(c.Pool, genPureOpt(t, 0))
	}
	for i := rapid.IntRange(1, 3).Draw(t, "ncfg"); i > 0; i-- {
		cf := PureCfg{Kind: rapid.SampledFrom([]string{"png", "png", "jpeg", "jpeg", "default", "custom", "compressed"}).Draw(t, "kind")}
		if cf.Kind == "compressed" {
			cf.Pad, cf.Block = rapid.IntRange(0, 9).Draw(t, "pad"), rapid.IntRange(1, 5).Draw(t, "cblock")
		} else {
			cf.Opts = []int{0}
			for j := 1; j < len(c.Pool); j++ {
				if rapid.IntRange(0, 3).Draw(t, "use") > 0 {
					cf.Opts = append(cf.Opts, j)
				}
			}
		}
		c.Cfgs = append(c.Cfgs, cf)
	}
	hows := []string{"same", "same", "direct", "new", "fresh", "rebuilt"}
	for i := rapid.IntRange(2, 8).Draw(t, "nstep"); i > 0; i-- {
		c.Steps = append(c.Steps, PureStep{rapid.IntRange(0, len(c.Specs)-1).Draw(t, "sym"), rapid.IntRange(0, len(c.Cfgs)-1).Draw(t, "cfg"), rapid.SampledFrom(hows).Draw(t, "how")})
	}
	// always come back to the first step
	last := c.Steps[0]
	last.How = rapid.SampledFrom(hows).Draw(t, "lasthow")
	c.Steps = append(c.Steps, last)
	return c
}

func init() {
	core.Register(core.Def[Pure]{
		ID:   "C26",
		Rule: "one case = a history of writes of up to 3 symbols through up to 3 writer configurations that share option values (images, gradients, border lists), each step by the same writer (Save or Write), a new writer with the same option values, freshly made option values, or a rebuilt symbol; oracle = the bytes equal those of the first write of that symbol and configuration, and no option value, image, gradient, border list or symbol changes; non-trivial = at least one repeated pair",
		Cells: func(t core.Tier) []core.Cell[Pure] {
			var cells []core.Cell[Pure]
			for i := 0; i < 16; i++ {
				cells = append(cells, core.Cell[Pure]{Name: fmt.Sprintf("history-%d", i), Runs: t.N(60, 4000), Gen: genPure})
			}
			return cells
		},
		Check: checkPure,
	})
}
