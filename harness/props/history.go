package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/yeqown/go-qrcode/v2"
	"pgregory.net/rapid"

	"verif/core"
	"verif/qrref"
)

// genSmall draws specs that are cheap to build (mostly small versions), valid or not.
func genSmall(t *rapid.T) Spec {
	s := Spec{As: rapid.IntRange(0, 3).Draw(t, "as")}
	switch rapid.IntRange(0, 4).Draw(t, "kind") {
	case 0, 1:
		s.Text = genText(t, rapid.SampledFrom(allModes).Draw(t, "cls"), rapid.IntRange(0, 40).Draw(t, "n"))
	default:
		s.Text = genMixed(t, 12)
	}
	if rapid.Bool().Draw(t, "setec") {
		s.Opts = append(s.Opts, Opt{"ec", rapid.IntRange(1, 4).Draw(t, "ec")})
	}
	if rapid.IntRange(0, 3).Draw(t, "setmode") == 0 {
		s.Opts = append(s.Opts, Opt{"mode", modeVal[rapid.SampledFrom(allModes).Draw(t, "mode")]})
	}
	if rapid.IntRange(0, 3).Draw(t, "setver") == 0 {
		s.Opts = append(s.Opts, Opt{"ver", rapid.IntRange(1, 12).Draw(t, "ver")})
	}
	if rapid.IntRange(0, 3).Draw(t, "setmin") == 0 {
		s.Opts = append(s.Opts, Opt{"minver", rapid.IntRange(1, 12).Draw(t, "min")})
	}
	return s
}

// outcome is what a build is compared by.
type outcome struct {
	err  bool
	bits [][]bool
}

func build(s Spec) (outcome, *qrcode.QRCode, error) {
	q, err := s.New()
	return outcomeOf(q, err)
}

func outcomeOf(q *qrcode.QRCode, err error) (outcome, *qrcode.QRCode, error) {
	if err != nil {
		return outcome{err: true}, nil, nil
	}
	if q == nil {
		return outcome{}, nil, errors.New("neither symbol nor error")
	}
	b, err := bitsOf(q)
	if err != nil {
		return outcome{}, nil, err
	}
	return outcome{bits: b}, q, nil
}

func (o outcome) same(p outcome) bool { return o.err == p.err && (o.err || eqBits(o.bits, p.bits)) }

func (o outcome) diff(p outcome) string {
	if o.err != p.err {
		return fmt.Sprintf("rejected=%v, before rejected=%v", o.err, p.err)
	}
	if len(o.bits) == len(p.bits) {
		_, m1, _, _ := qrref.ReadFormat(o.bits)
		_, m2, _, _ := qrref.ReadFormat(p.bits)
		if m1 != m2 {
			return fmt.Sprintf("%s; masks %d and %d", diffBits(o.bits, p.bits), m1, m2)
		}
	}
	return diffBits(o.bits, p.bits)
}

// Hist is a history of builds and saves.
type Hist struct {
	Specs []Spec `json:"specs"`
	Ops   []HOp  `json:"ops"`
	Hunt  uint64 `json:"hunt,omitempty"` // seed of a hunt for symbols with several best masks
	HuntV int    `json:"huntv,omitempty"`
	Crowd *Crowd `json:"crowd,omitempty"`
}

// Crowd is a long history of distinct texts that are alike in every way a cache
// could key on: same mode, length, level and version, possibly a common prefix or
// suffix.
type Crowd struct {
	Mode  int    `json:"mode"`
	Level int    `json:"level"`
	Len   int    `json:"len"`
	Vary  int    `json:"vary"`  // number of characters that differ
	Where int    `json:"where"` // 0 at the end, 1 at the start, 2 in the middle, 3 swapped characters, 4 one character
	N     int    `json:"n"`
	Seed  uint64 `json:"seed"`
}

func (c Crowd) texts() []string {
	m := qrref.Mode(c.Mode)
	base := []rune(string(fill(m, c.Len, c.Seed, 0)))
	if m == qrref.Byte {
		base = []rune(string(fill(m, c.Len, c.Seed, 3)))
	}
	at := 0
	switch c.Where {
	case 0:
		at = c.Len - c.Vary
	case 2:
		at = (c.Len - c.Vary) / 2
	}
	var out []string
	seen := map[string]bool{}
	g := &rng{c.Seed ^ 0x5555}
	for try := 0; len(out) < c.N && try < 2*c.N; try++ {
		style := 0
		if m == qrref.Byte {
			style = 3
		}
		b := append([]rune{}, base...)
		if c.Where == 4 { // one character changed, each position in turn
			i := try % len(b)
			b[i] = []rune(string(fill(m, 1, g.next(), style)))[0]
		} else if c.Where == 3 { // the same characters in another order
			for k := 0; k < c.Vary; k++ {
				i, j := g.n(len(b)), g.n(len(b))
				b[i], b[j] = b[j], b[i]
			}
		} else {
			copy(b[at:at+c.Vary], []rune(string(fill(m, c.Vary, g.next(), style))))
		}
		if s := string(b); !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func genCrowd(n int) func(*rapid.T) Hist {
	return func(t *rapid.T) Hist {
		c := &Crowd{N: n}
		c.Mode = int(rapid.SampledFrom(allModes).Draw(t, "mode"))
		c.Level = rapid.IntRange(1, 4).Draw(t, "level")
		c.Len = rapid.OneOf(rapid.IntRange(4, 24), rapid.IntRange(4, 24), rapid.IntRange(25, 250)).Draw(t, "len")
		c.Vary = rapid.IntRange(2, min(c.Len, 6)).Draw(t, "vary")
		if rapid.Bool().Draw(t, "much") {
			c.Vary = rapid.IntRange(2, c.Len).Draw(t, "more")
		}
		c.Where = rapid.IntRange(0, 4).Draw(t, "where")
		if c.Where == 4 {
			c.Len = rapid.IntRange(4, 100).Draw(t, "len4")
			c.N = min(n, c.Len)
		} else if c.Len > 24 {
			c.N = n / 4
		}
		c.Seed = rapid.Uint64().Draw(t, "seed")
		return Hist{Crowd: c}
	}
}

func checkCrowd(c Crowd, r *core.Rec) (int, error) {
	texts := c.texts()
	for i, s := range texts {
		spec := Spec{Text: B(s), As: i % 4, Opts: []Opt{{"ec", c.Level}, {"mode", modeVal[qrref.Mode(c.Mode)]}}}
		if i%2 == 0 {
			spec.Opts = spec.Opts[:1]
		}
		x := spec.expect()
		o, _, err := build(spec)
		if err != nil {
			return i, err
		}
		if !x.ok || o.err {
			return i, fmt.Errorf("text %d of the crowd, %q: rejected=%v, want rejected=%v", i, s, o.err, !x.ok)
		}
		_, mask, _, err := qrref.ReadFormat(o.bits)
		if err != nil {
			return i, err
		}
		ref, err := qrref.Encode(s, x.ver, x.level, x.mode, mask)
		if err != nil || !eqBits(o.bits, ref) {
			return i, fmt.Errorf("text %d, %q, differs from the reference symbol after the texts before it: %v %s", i, s, err, diffBits(o.bits, ref))
		}
	}
	r.Class("crowd of %d", len(texts)/100*100)
	return len(texts), nil
}

// HOp: "build" spec I, "save" the first symbol of spec I again, "read" mutate-free
// walk over its matrix, "procs" set GOMAXPROCS to I+1.
type HOp struct {
	Op string `json:"op"`
	I  int    `json:"i"`
}

func genHist(t *rapid.T) Hist {
	var h Hist
	n := rapid.IntRange(1, 6).Draw(t, "specs")
	for i := 0; i < n; i++ {
		if i > 0 && rapid.IntRange(0, 3).Draw(t, "variant") == 0 { // same text, other options
			s := h.Specs[rapid.IntRange(0, i-1).Draw(t, "of")]
			v := genSmall(t)
			h.Specs = append(h.Specs, Spec{Text: s.Text, As: v.As, Opts: v.Opts})
			continue
		}
		h.Specs = append(h.Specs, genSmall(t))
	}
	k := rapid.IntRange(2, 24).Draw(t, "ops")
	for i := 0; i < k; i++ {
		op := HOp{Op: rapid.SampledFrom([]string{"build", "build", "build", "save", "read", "procs"}).Draw(t, "op")}
		if op.Op == "procs" {
			op.I = rapid.IntRange(0, 7).Draw(t, "i")
		} else {
			op.I = rapid.IntRange(0, n-1).Draw(t, "i")
		}
		h.Ops = append(h.Ops, op)
	}
	return h
}

func checkHist(h Hist, r *core.Rec) error {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	first := make([]*outcome, len(h.Specs))
	syms := make([]*qrcode.QRCode, len(h.Specs))
	again := 0
	for k, op := range h.Ops {
		switch op.Op {
		case "procs":
			runtime.GOMAXPROCS(op.I + 1)
		case "build":
			o, q, err := build(h.Specs[op.I])
			if err != nil {
				return err
			}
			if first[op.I] == nil {
				first[op.I], syms[op.I] = &o, q
				// an independent expectation for the first build as well
				if x := h.Specs[op.I].expect(); !o.err && x.ok {
					_, mask, _, err := qrref.ReadFormat(o.bits)
					if err != nil {
						return err
					}
					ref, err := qrref.Encode(string(h.Specs[op.I].Text), x.ver, x.level, x.mode, mask)
					if err != nil || !eqBits(o.bits, ref) {
						return fmt.Errorf("op %d: build of spec %d after this history differs from the reference symbol: %v %s", k, op.I, err, diffBits(o.bits, ref))
					}
				}
				continue
			}
			again++
			if !o.same(*first[op.I]) {
				return fmt.Errorf("op %d: repeated build of spec %d (GOMAXPROCS %d): %s", k, op.I, runtime.GOMAXPROCS(0), o.diff(*first[op.I]))
			}
			if q != nil {
				syms[op.I] = q
			}
		case "save", "read":
			if syms[op.I] == nil {
				continue
			}
			m, err := matrixOf(syms[op.I])
			if err != nil {
				return err
			}
			if op.Op == "read" {
				_ = m.Bitmap()
				_ = m.Copy()
				m.Iterate(qrcode.IterDirection_COLUMN, func(x, y int, v qrcode.QRValue) { _ = v.String() })
			}
			b, err := iterBits(m)
			if err != nil {
				return err
			}
			again++
			if !eqBits(b, first[op.I].bits) {
				return fmt.Errorf("op %d: spec %d saved again: %s", k, op.I, diffBits(b, first[op.I].bits))
			}
		}
	}
	// every spec once more, in reverse order
	for i := len(h.Specs) - 1; i >= 0; i-- {
		if first[i] == nil {
			continue
		}
		o, _, err := build(h.Specs[i])
		if err != nil {
			return err
		}
		again++
		if !o.same(*first[i]) {
			return fmt.Errorf("final build of spec %d: %s", i, o.diff(*first[i]))
		}
	}
	if h.Hunt != 0 {
		n, err := huntTies(h, r)
		if err != nil {
			return err
		}
		again += n
	}
	if h.Crowd != nil {
		n, err := checkCrowd(*h.Crowd, r)
		if err != nil {
			return err
		}
		again += n
	}
	if again > 1 {
		r.Nontrivial()
	}
	return nil
}

// huntTies looks for texts whose best penalty is shared by several masks and
// repeats exactly those builds: there only the tie rule decides.
func huntTies(h Hist, r *core.Rec) (int, error) {
	g := &rng{h.Hunt}
	repeated := 0
	for try := 0; try < 400 && repeated < 160; try++ {
		m := allModes[g.n(4)]
		ver := h.HuntV
		lv := allLevels[g.n(4)]
		s := Spec{Text: fill(m, g.n(qrref.Capacity(ver, lv, m)+1), g.next(), g.n(3)), Opts: gridCell{ver, lv, m}.pinned()}
		o, _, err := build(s)
		if err != nil {
			return 0, err
		}
		if o.err {
			return 0, fmt.Errorf("hunt: %s rejected", specKey(s))
		}
		_, pens, err := candidates(o.bits)
		if err != nil {
			return 0, err
		}
		best := math.MaxInt
		for _, p := range pens {
			best = min(best, p.Lo())
		}
		ties := 0
		for _, p := range pens {
			if p.Lo() == best {
				ties++
			}
		}
		if ties < 2 {
			continue
		}
		r.Class("tied best masks")
		for k := 0; k < 40; k++ {
			runtime.GOMAXPROCS(1 + k%8)
			o2, _, err := build(s)
			if err != nil {
				return 0, err
			}
			repeated++
			if !o2.same(o) {
				return 0, fmt.Errorf("text %q %v: repetition %d (GOMAXPROCS %d) differs: %s", string(s.Text), s.Opts, k, 1+k%8, o2.diff(o))
			}
		}
	}
	return repeated, nil
}

// Raw is a spec with unrestricted option values.
type Raw struct {
	Spec Spec `json:"spec"`
	Pad  int  `json:"pad,omitempty"` // repeat the text up to this many bytes
}

func genRawInt(t *rapid.T) int {
	switch rapid.IntRange(0, 3).Draw(t, "intclass") {
	case 0:
		return rapid.SampledFrom([]int{0, -1, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 26, 27, 32, 33, 39, 40, 41, 64, 128, 159, 160, 161, 255, 256, math.MaxInt, math.MinInt, math.MinInt + 1, math.MaxInt32, big64(1 << 31), big64(1 << 32)}).Draw(t, "v")
	case 1:
		return rapid.Int().Draw(t, "v")
	default:
		return rapid.IntRange(-3, 45).Draw(t, "v")
	}
}

func genRaw(t *rapid.T) Raw {
	var w Raw
	switch rapid.IntRange(0, 3).Draw(t, "text") {
	case 0:
		w.Spec.Text = genMixed(t, 30)
	case 1:
		w.Spec.Text = genText(t, rapid.SampledFrom(allModes).Draw(t, "cls"), rapid.IntRange(0, 300).Draw(t, "n"))
	default:
		w.Spec.Text = B(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "raw"))
	}
	if rapid.IntRange(0, 5).Draw(t, "dopad") == 0 {
		w.Pad = rapid.SampledFrom([]int{255, 256, 300, 1000, 2953, 2954, 2956, 4296, 4297, 7089, 7090, 8192, 20000, 65535, 65536, 100000}).Draw(t, "pad")
	}
	w.Spec.As = rapid.IntRange(0, 3).Draw(t, "as")
	n := rapid.IntRange(0, 5).Draw(t, "nopt")
	for i := 0; i < n; i++ {
		o := Opt{K: rapid.SampledFrom([]string{"mode", "ec", "ver", "minver"}).Draw(t, "k"), V: genRawInt(t)}
		if o.K == "mode" && rapid.Bool().Draw(t, "valid") {
			o.V = modeVal[rapid.SampledFrom(allModes).Draw(t, "mode")]
		}
		w.Spec.Opts = append(w.Spec.Opts, o)
	}
	return w
}

func checkTotal(w Raw, r *core.Rec) error {
	s := w.Spec
	if w.Pad > 0 && len(s.Text) > 0 {
		s.Text = bytes.Repeat(s.Text, w.Pad/len(s.Text)+1)[:w.Pad]
	}
	start := time.Now()
	q, err := s.New()
	if err == nil && len(s.Opts) == 0 {
		if q2, err2 := qrcode.New(string(s.Text)); err2 != nil || q2 == nil {
			return fmt.Errorf("NewWith accepts, New returns %v, %v", q2, err2)
		}
	}
	if d := time.Since(start); d > 30*time.Second {
		return fmt.Errorf("generation took %v", d)
	}
	if (q == nil) == (err == nil) {
		return fmt.Errorf("symbol %v, error %v: want exactly one", q != nil, err)
	}
	if err != nil {
		if err.Error() == "" {
			return errors.New("empty error message")
		}
		r.Class("rejected")
		if len(s.Opts) > 0 || len(s.Text) > 0 {
			r.Nontrivial()
		}
		return nil
	}
	if err := q.Save(nil); err != nil {
		return fmt.Errorf("Save(nil): %v", err)
	}
	b, err := bitsOf(q)
	if err != nil {
		return err
	}
	if q.Dimension() != len(b) {
		return fmt.Errorf("Dimension() %d, matrix %d", q.Dimension(), len(b))
	}
	r.Class("accepted")
	r.Nontrivial()
	return nil
}

// OptList checks option semantics.
type OptList struct {
	Text  B     `json:"text"`
	Other B     `json:"other"` // a second text built from the same option values
	Opts  []Opt `json:"opts"`
	Perm  []int `json:"perm"` // order of the settings' groups
	Pre   []Opt `json:"pre"`  // options put before the list for one more use of its values
	Mut   int   `json:"mut"`
}

func genOptList(t *rapid.T) OptList {
	var l OptList
	text := func() B {
		if rapid.Bool().Draw(t, "mixed") {
			return genMixed(t, 8)
		}
		return genText(t, rapid.SampledFrom(allModes).Draw(t, "cls"), rapid.IntRange(0, 30).Draw(t, "n"))
	}
	l.Text, l.Other = text(), text()
	n := rapid.IntRange(0, 8).Draw(t, "n")
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]string{"mode", "ec", "ver", "minver"}).Draw(t, "k")
		o := Opt{K: k}
		bad := rapid.IntRange(0, 2).Draw(t, "bad") == 0
		switch k {
		case "mode": // automatic or a supported mode; anything else is C09's
			o.V = rapid.SampledFrom([]int{0, 0, 4, 8, 16, 32, 32, 32}).Draw(t, "mode")
			if o.V != 0 {
				o.V = modeVal[map[int]qrref.Mode{4: qrref.Numeric, 8: qrref.Alnum, 16: qrref.Kanji, 32: qrref.Byte}[o.V]]
			}
		case "ec":
			o.V = rapid.IntRange(1, 4).Draw(t, "ec")
			if bad {
				o.V = rapid.SampledFrom([]int{0, -1, 5, 6, 100, math.MaxInt, math.MinInt}).Draw(t, "badec")
			}
		default:
			o.V = rapid.IntRange(1, 14).Draw(t, "ver")
			if bad {
				o.V = rapid.SampledFrom([]int{0, -1, -7, 41, 42, 160, math.MaxInt, math.MinInt}).Draw(t, "badver")
			}
		}
		l.Opts = append(l.Opts, o)
	}
	for i := rapid.IntRange(0, 2).Draw(t, "npre"); i > 0; i-- {
		o := Opt{K: rapid.SampledFrom([]string{"ec", "ver", "minver"}).Draw(t, "prek")}
		o.V = rapid.IntRange(1, 4).Draw(t, "pre")
		if o.K != "ec" {
			o.V += 3 * o.V
		}
		l.Pre = append(l.Pre, o)
	}
	l.Perm = rapid.Permutation([]int{0, 1, 2, 3}).Draw(t, "perm")
	l.Mut = rapid.IntRange(0, 1<<16).Draw(t, "mut")
	return l
}

func checkOptList(l OptList, r *core.Rec) error {
	vals := options(l.Opts) // one set of option values, reused for all builds below
	get := func(text []byte) (outcome, error) {
		q, err := qrcode.NewWith(string(text), vals...)
		o, _, err := outcomeOf(q, err)
		return o, err
	}
	base, err := get(l.Text)
	if err != nil {
		return err
	}
	// canonical: last valid value of each setting, groups in a drawn order
	keys := []string{"mode", "ec", "ver", "minver"}
	last := map[string]Opt{}
	for _, o := range l.Opts {
		switch o.K {
		case "ec":
			if o.V < 1 || o.V > 4 {
				continue
			}
		case "ver", "minver":
			if o.V < 1 || o.V > 40 {
				continue
			}
		}
		last[o.K] = o
	}
	var canon []Opt
	for _, k := range l.Perm {
		if o, ok := last[keys[k]]; ok && !(o.K == "mode" && o.V == 0) {
			canon = append(canon, o)
		}
	}
	c, _, err := build(Spec{Text: l.Text, Opts: canon})
	if err != nil {
		return err
	}
	if !base.same(c) {
		return fmt.Errorf("options %v give another symbol than their effective settings %v: %s", l.Opts, canon, base.diff(c))
	}
	// defaults made explicit
	e := Spec{Text: l.Text, Opts: canon}.effective()
	if !base.err {
		lv, _, _, err := qrref.ReadFormat(base.bits)
		if err != nil || lv != e.level {
			return fmt.Errorf("effective level %v, symbol has %v (%v)", e.level, lv, err)
		}
		x := Spec{Text: l.Text, Opts: canon}.expect()
		if x.ok && len(base.bits) != qrref.Size(x.ver) {
			return fmt.Errorf("effective version %d, symbol is %d wide", x.ver, len(base.bits))
		}
	}
	if len(canon) == 0 {
		q, err := qrcode.New(string(l.Text))
		o, _, err := outcomeOf(q, err)
		if err != nil {
			return err
		}
		if !o.same(base) {
			return fmt.Errorf("New and NewWith without effective options differ: %s", o.diff(base))
		}
	}
	// the option values work for another text and again for the first
	other, err := get(l.Other)
	if err != nil {
		return err
	}
	fresh, _, err := build(Spec{Text: l.Other, Opts: l.Opts})
	if err != nil {
		return err
	}
	if !other.same(fresh) {
		return fmt.Errorf("reused option values give another symbol than fresh ones: %s", other.diff(fresh))
	}
	again, err := get(l.Text)
	if err != nil {
		return err
	}
	if !again.same(base) {
		return fmt.Errorf("second use of the option values differs: %s", again.diff(base))
	}
	// the same values behind other options
	if len(l.Pre) > 0 {
		q, err := qrcode.NewWith(string(l.Text), append(options(l.Pre), vals...)...)
		o, _, err := outcomeOf(q, err)
		if err != nil {
			return err
		}
		f, _, err := build(Spec{Text: l.Text, Opts: append(append([]Opt{}, l.Pre...), l.Opts...)})
		if err != nil {
			return err
		}
		if !o.same(f) {
			return fmt.Errorf("option values used before give another symbol behind %v than fresh ones: %s", l.Pre, o.diff(f))
		}
	}
	// parameter types; the caller's bytes
	for as := 1; as <= 3; as++ {
		o, _, err := build(Spec{Text: l.Text, As: as, Opts: l.Opts})
		if err != nil {
			return err
		}
		if !o.same(base) {
			return fmt.Errorf("text parameter type %d differs: %s", as, o.diff(base))
		}
	}
	buf := make([]byte, len(l.Text), len(l.Text)+16)
	copy(buf, l.Text)
	q, err := qrcode.NewWith(buf, vals...)
	if !bytes.Equal(buf, l.Text) || !bytes.Equal(buf[:cap(buf)][len(buf):], make([]byte, cap(buf)-len(buf))) {
		return errors.New("the caller's byte slice was modified")
	}
	if err == nil {
		for i := range buf {
			buf[i] ^= byte(l.Mut) | 1
		}
		o, _, err := outcomeOf(q, nil)
		if err != nil {
			return err
		}
		if !o.same(base) {
			return fmt.Errorf("changing the caller's bytes afterwards changed the symbol: %s", o.diff(base))
		}
	}
	if len(l.Opts) > 0 {
		r.Nontrivial()
	}
	r.Class("options=%d effective=%d", len(l.Opts), len(canon))
	return nil
}

// Par is a set of concurrent activities.
type Par struct {
	Specs  []Spec `json:"specs"`
	Lanes  []Lane `json:"lanes"`
	Shared bool   `json:"shared"` // option values shared between lanes
	// Cold: nothing is built before the lanes start, so that whatever the library
	// sets up on first use is set up concurrently; the results alone come afterwards.
	Cold bool `json:"cold,omitempty"`
}

// Lane is one goroutine: each step builds (B) or saves the shared symbol of a spec.
type Lane struct {
	Steps []Step `json:"steps"`
}

// Step: Do is build, save (into a capturing writer), png, jpeg, compressed.
type Step struct {
	Do string `json:"do"`
	I  int    `json:"i"`
}

// images lists the image kinds written of spec i.
func (p Par) images(i int) (out []string) {
	seen := map[string]bool{"build": true, "save": true, "read": true}
	for _, l := range p.Lanes {
		for _, s := range l.Steps {
			if s.I == i && !seen[s.Do] {
				seen[s.Do] = true
				out = append(out, s.Do)
			}
		}
	}
	return out
}

func genPar(t *rapid.T) Par {
	var p Par
	n := rapid.IntRange(1, 4).Draw(t, "specs")
	for i := 0; i < n; i++ {
		s := genSmall(t)
		for j := range s.Opts { // race-instrumented builds are slow: keep the symbols small
			if s.Opts[j].K == "ver" || s.Opts[j].K == "minver" {
				s.Opts[j].V = 1 + s.Opts[j].V%4
			}
		}
		if len(s.Text) > 30 {
			s.Text = s.Text[:30]
		}
		p.Specs = append(p.Specs, s)
	}
	p.Shared = rapid.Bool().Draw(t, "shared")
	lanes := rapid.IntRange(2, 6).Draw(t, "lanes")
	for i := 0; i < lanes; i++ {
		var l Lane
		k := rapid.IntRange(1, 4).Draw(t, "steps")
		for j := 0; j < k; j++ {
			l.Steps = append(l.Steps, Step{rapid.SampledFrom([]string{"build", "build", "build", "save", "read", "png", "jpeg", "compressed"}).Draw(t, "do"), rapid.IntRange(0, n-1).Draw(t, "i")})
		}
		p.Lanes = append(p.Lanes, l)
	}
	return p
}

func checkPar(p Par, r *core.Rec) error {
	want := make([]outcome, len(p.Specs))
	syms := make([]*qrcode.QRCode, len(p.Specs))
	vals := make([][]qrcode.EncodeOption, len(p.Specs))
	imgs := make([]map[string][]byte, len(p.Specs))
	wopts := newSharedWriterOptions()
	alone := func(i int) error {
		s := p.Specs[i]
		o, q, err := build(s)
		if err != nil {
			return err
		}
		want[i], syms[i] = o, q
		imgs[i] = map[string][]byte{}
		if q == nil {
			return nil
		}
		for _, k := range p.images(i) {
			b, err := wopts.write(k, q)
			if err != nil {
				return err
			}
			imgs[i][k] = b
		}
		return nil
	}
	for i, s := range p.Specs {
		vals[i] = options(s.Opts)
		if !p.Cold {
			if err := alone(i); err != nil {
				return err
			}
		}
	}
	type late struct {
		lane, step int
		got        outcome
		img        []byte
	}
	lates := make([][]late, len(p.Lanes))
	start := make(chan struct{})
	errs := make([]error, len(p.Lanes))
	var wg sync.WaitGroup
	for li := range p.Lanes {
		wg.Add(1)
		go func(li int) {
			defer wg.Done()
			defer func() {
				if v := recover(); v != nil {
					errs[li] = fmt.Errorf("panic: %v", v)
				}
			}()
			<-start
			for si, st := range p.Lanes[li].Steps {
				var got outcome
				if p.Cold {
					l := late{lane: li, step: si}
					var q *qrcode.QRCode
					var err error
					if p.Shared {
						q, err = qrcode.NewWith(string(p.Specs[st.I].Text), vals[st.I]...)
						l.got, q, err = outcomeOf(q, err)
					} else {
						l.got, q, err = build(p.Specs[st.I])
					}
					if err == nil && q != nil {
						switch st.Do {
						case "png", "jpeg", "compressed":
							l.img, err = wopts.write(st.Do, q)
						}
					}
					if err != nil {
						errs[li] = err
						return
					}
					lates[li] = append(lates[li], l)
					continue
				}
				switch st.Do {
				case "build":
					var err error
					if p.Shared {
						var q *qrcode.QRCode
						q, err = qrcode.NewWith(string(p.Specs[st.I].Text), vals[st.I]...)
						got, _, err = outcomeOf(q, err)
					} else {
						got, _, err = build(p.Specs[st.I])
					}
					if err != nil {
						errs[li] = err
						return
					}
				case "save", "read":
					if syms[st.I] == nil {
						continue
					}
					m, err := matrixOf(syms[st.I])
					if err != nil {
						errs[li] = err
						return
					}
					if st.Do == "read" {
						m = m.Copy()
						_ = m.Bitmap()
						_ = m.Row(3)
					}
					if got.bits, err = iterBits(m); err != nil {
						errs[li] = err
						return
					}
				default:
					if syms[st.I] == nil {
						continue
					}
					b, err := wopts.write(st.Do, syms[st.I])
					if err != nil {
						errs[li] = err
						return
					}
					if !bytes.Equal(b, imgs[st.I][st.Do]) {
						errs[li] = fmt.Errorf("lane %d step %d: %s image of spec %d differs from the one written alone", li, si, st.Do, st.I)
						return
					}
					continue
				}
				if !got.same(want[st.I]) {
					errs[li] = fmt.Errorf("lane %d step %d (%s of spec %d) differs from the result alone: %s", li, si, st.Do, st.I, got.diff(want[st.I]))
					return
				}
			}
		}(li)
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	if p.Cold {
		for i := range p.Specs {
			if err := alone(i); err != nil {
				return err
			}
		}
		for li := range lates {
			for _, l := range lates[li] {
				st := p.Lanes[li].Steps[l.step]
				if !l.got.same(want[st.I]) {
					return fmt.Errorf("cold lane %d step %d (spec %d) differs from the result alone: %s", li, l.step, st.I, l.got.diff(want[st.I]))
				}
				if l.img != nil && !bytes.Equal(l.img, imgs[st.I][st.Do]) {
					return fmt.Errorf("cold lane %d step %d: %s image of spec %d differs from the one written alone", li, l.step, st.Do, st.I)
				}
			}
		}
		r.Class("cold")
	}
	r.Nontrivial()
	r.Class("lanes=%d", len(p.Lanes))
	return nil
}

// coldCells are first uses in a process: shards take cells in order, so the
// first ones meet a process that has built nothing yet, and the version cells
// meet a version that nothing has touched.
func coldCells() []core.Cell[Par] {
	var cells []core.Cell[Par]
	for i := 0; i < 16; i++ {
		p := Par{Cold: true, Shared: i%2 == 0}
		do := []string{"build", "png", "compressed", "jpeg"}[i/2%4]
		for _, m := range allModes {
			p.Specs = append(p.Specs, Spec{Text: fill(m, 3+i, uint64(i), 0), Opts: []Opt{{"ec", 1 + i%4}}})
		}
		for l := 0; l < 8; l++ {
			k := (l/2 + i) % 4 // pairs of lanes start with the same spec
			p.Lanes = append(p.Lanes, Lane{Steps: []Step{{do, k}, {do, (k + 1) % 4}}})
		}
		cells = append(cells, core.Cell[Par]{Name: fmt.Sprintf("coldstart-%d", i), Enum: []Par{p}})
	}
	for v := 40; v >= 1; v-- {
		p := Par{Cold: true}
		for l := 1; l <= 2; l++ {
			p.Specs = append(p.Specs, Spec{Text: fill(allModes[(v+l)%4], 9, uint64(v), 0), Opts: []Opt{{"ver", v}, {"ec", 1 + (v+l)%4}}})
		}
		for l := 0; l < 4; l++ {
			p.Lanes = append(p.Lanes, Lane{Steps: []Step{{"build", l / 2}}})
		}
		cells = append(cells, core.Cell[Par]{Name: fmt.Sprintf("cold-v%d", v), Enum: []Par{p}})
	}
	return cells
}

// Faulty is a sequence of saves with writers that fail in various ways.
type Faulty struct {
	Spec  Spec   `json:"spec"`
	Kinds []Kind `json:"kinds"`
}

// Kind of a writer: ok, nil, werr, cerr, both, wpanic, cpanic, with the name of
// the error after a colon.
type Kind string

// tempErr is a temporary error as networks report it.
type tempErr struct{ s string }

func (e *tempErr) Error() string   { return e.s }
func (e *tempErr) Temporary() bool { return true }
func (e *tempErr) Timeout() bool   { return true }

// listErr is an error that cannot be compared with ==.
type listErr []string

func (e listErr) Error() string { return fmt.Sprint([]string(e)) }

var faultErrs = map[string]error{
	"":        errors.New("fault"),
	"eof":     io.EOF,
	"ueof":    io.ErrUnexpectedEOF,
	"short":   io.ErrShortWrite,
	"pipe":    io.ErrClosedPipe,
	"epipe":   syscall.EPIPE,
	"eintr":   syscall.EINTR,
	"eagain":  syscall.EAGAIN,
	"enospc":  &fs.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC},
	"closed":  &fs.PathError{Op: "close", Path: "x", Err: os.ErrClosed},
	"cancel":  context.Canceled,
	"late":    context.DeadlineExceeded,
	"temp":    &tempErr{"temporary"},
	"nilptr":  (*nilErr)(nil),
	"wrapped": fmt.Errorf("outer: %w", io.EOF),
	"joined":  errors.Join(io.EOF, os.ErrClosed),
	"empty":   errors.New(""),
	"list":    listErr{"a", "b"},
}

// nilErr is an error even as a nil pointer.
type nilErr struct{}

func (e *nilErr) Error() string { return "nil pointer" }

func sameErr(a, b error) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if l, ok := a.(listErr); ok {
		return reflect.DeepEqual(l, b)
	}
	return a == b
}

type faultWriter struct {
	kind   Kind
	events []string
	bits   [][]bool
	berr   error
	werr   error
	cerr   error
}

func (f *faultWriter) Write(m qrcode.Matrix) error {
	f.events = append(f.events, "write")
	f.bits, f.berr = iterBits(&m)
	switch f.kind {
	case "werr", "both":
		return f.werr
	case "wpanic":
		panic(f.werr)
	}
	return nil
}

func (f *faultWriter) Close() error {
	f.events = append(f.events, "close")
	switch f.kind {
	case "cerr", "both":
		return f.cerr
	case "cpanic":
		panic(f.cerr)
	}
	return nil
}

func checkFaulty(c Faulty, r *core.Rec) error {
	o, q, err := build(c.Spec)
	if err != nil {
		return err
	}
	if o.err {
		return nil
	}
	for i, k := range c.Kinds {
		if k == "nil" {
			if err := q.Save(nil); err != nil {
				return fmt.Errorf("save %d to no writer: %v", i, err)
			}
			continue
		}
		kind, name, _ := strings.Cut(string(k), ":")
		fault := faultErrs[name]
		w := &faultWriter{kind: Kind(kind), werr: fault, cerr: fault}
		if kind == "both" {
			w.cerr = errors.New("close fault")
		}
		var got error
		panicked := any(nil)
		func() {
			defer func() { panicked = recover() }()
			got = q.Save(w)
		}()
		if len(w.events) != 2 || w.events[0] != "write" || w.events[1] != "close" {
			return fmt.Errorf("save %d (%s): writer saw %v, want one write, then one close", i, k, w.events)
		}
		if w.berr != nil {
			return w.berr
		}
		if !eqBits(w.bits, o.bits) {
			return fmt.Errorf("save %d (%s) handed over another symbol: %s", i, k, diffBits(w.bits, o.bits))
		}
		switch kind {
		case "wpanic":
			if panicked == nil {
				r.Class("panic of Write swallowed")
				if got == nil {
					return fmt.Errorf("save %d: the writer panicked, Save reports success", i)
				}
			}
			continue
		case "cpanic":
			continue
		}
		if panicked != nil {
			return fmt.Errorf("save %d (%s) panics: %v", i, k, panicked)
		}
		switch kind {
		case "werr", "both":
			if !sameErr(got, w.werr) {
				return fmt.Errorf("save %d (%s) returned %T %v, want the write's error %T %v", i, k, got, got, w.werr, w.werr)
			}
		default:
			if got != nil {
				return fmt.Errorf("save %d (%s) returned %v", i, k, got)
			}
		}
		r.Class("%s", k)
	}
	if len(c.Kinds) > 0 {
		r.Nontrivial()
	}
	return nil
}

func init() {
	core.Register(core.Def[Hist]{
		ID: "C08",
		Rule: "one case = a history of builds, saves and reads over 1-6 specs under changing GOMAXPROCS, every spec rebuilt in reverse order at the end; hunt cases search texts whose best penalty is shared by several masks and repeat those builds 40 times; crowd cells build hundreds of distinct texts of the same mode, length and level, with common prefixes or suffixes or the same characters in another order or one different character, each compared with the reference symbol; " +
			"oracle = first outcome of the spec (itself compared with the reference symbol); non-trivial = at least two comparisons with an earlier outcome",
		Assumptions: []string{"scheduling is varied by repetition and GOMAXPROCS, not controlled"},
		Cells: func(t core.Tier) []core.Cell[Hist] {
			var cells []core.Cell[Hist]
			for i := 0; i < 16; i++ {
				cells = append(cells, core.Cell[Hist]{Name: fmt.Sprintf("history-%d", i), Runs: t.N(20, 700), Gen: genHist})
			}
			for i := 0; i < 16; i++ {
				i := i
				cells = append(cells, core.Cell[Hist]{Name: fmt.Sprintf("ties-%d", i), Runs: t.N(3, 100), Gen: func(t *rapid.T) Hist {
					return Hist{Hunt: rapid.Uint64Range(1, 1<<60).Draw(t, "hunt"), HuntV: rapid.IntRange(1, 3).Draw(t, "v")}
				}})
			}
			for i := 0; i < 16; i++ {
				cells = append(cells, core.Cell[Hist]{Name: fmt.Sprintf("crowd-%d", i), Runs: t.N(8, 20), Gen: genCrowd(t.N(350, 1500))})
			}
			return cells
		},
		Check: checkHist,
	})

	core.Register(core.Def[Raw]{
		ID: "C09",
		Rule: "one case = an arbitrary byte string (mixed classes, raw bytes, repeated to sizes up to 100000 bytes) with up to five options of unrestricted integer value (extremes, neighbours of the valid ranges, unsupported modes); " +
			"oracle = no panic, no hang, exactly one of symbol and error, symbol usable; non-trivial = non-empty text or options",
		Cells: func(t core.Tier) []core.Cell[Raw] {
			var cells []core.Cell[Raw]
			for i := 0; i < 32; i++ {
				cells = append(cells, core.Cell[Raw]{Name: fmt.Sprintf("raw-%d", i), Runs: t.N(150, 4000), Gen: genRaw})
			}
			// every mode value 0..64 with and without explicit version
			var enum []Raw
			for m := 0; m <= 64; m++ {
				for _, text := range []string{"", "7", "A", "a", "茗"} {
					enum = append(enum, Raw{Spec: Spec{Text: B(text), Opts: []Opt{{"mode", m}}}},
						Raw{Spec: Spec{Text: B(text), Opts: []Opt{{"mode", m}, {"ver", 2}}}})
				}
			}
			return append(cells, core.Cell[Raw]{Name: "modes", Enum: enum})
		},
		Check: checkTotal,
	})

	core.Register(core.Def[OptList]{
		ID: "C10",
		Rule: "one case = a list of up to eight options (repeated, out of range, in any order) and two texts; oracle = the symbol of the reduced list (last valid value per setting, permuted), reuse of the same option values, all four text types, " +
			"caller's bytes before and after; non-trivial = at least one option in the list",
		Cells: func(t core.Tier) []core.Cell[OptList] {
			var cells []core.Cell[OptList]
			for i := 0; i < 32; i++ {
				cells = append(cells, core.Cell[OptList]{Name: fmt.Sprintf("list-%d", i), Runs: t.N(45, 1500), Gen: genOptList})
			}
			return cells
		},
		Check: checkOptList,
	})

	core.Register(core.Def[Par]{
		ID: "C11",
		Rule: "one case = 2-6 goroutines with 1-4 steps each (build with own or shared option values, save one symbol, read its matrix, write PNG/JPEG/compressed images with shared image options) released together, after the sequential results or, in the cold cells, before anything of that kind was built in the process (every version, all modes), run in a race-instrumented binary; " +
			"oracle = sequential result of each step, no race report; non-trivial = all lanes completed and were compared",
		Assumptions: []string{"the Go race detector reports unsynchronised accesses that were executed", "schedules are those the runtime produces"},
		Race:        true,
		Cells: func(t core.Tier) []core.Cell[Par] {
			cells := coldCells()
			for i := 0; i < 16; i++ {
				cells = append(cells, core.Cell[Par]{Name: fmt.Sprintf("par-%d", i), Runs: t.N(12, 500), Gen: genPar})
			}
			return cells
		},
		Check: checkPar,
	})

	core.Register(core.Def[Spec]{
		ID: "C12",
		Rule: "one case = one symbol; all positions compared between row and column iteration, Row, Col, Bitmap, Copy and sizes, out-of-range indices included; then bitmap, rows and the copy's columns are overwritten and the matrix re-read; " +
			"non-trivial = symbol built and compared",
		Cells: func(t core.Tier) []core.Cell[Spec] { return gridPlus(t.N(2, 30), t.N(2000, 20000), false) },
		Check: checkMatrix,
	})

	core.Register(core.Def[Spec]{
		ID:    "C13",
		Rule:  "one case = one symbol per version x level x mode stratum; oracle = type of every module against the independent layout; non-trivial = symbol built and compared",
		Cells: func(t core.Tier) []core.Cell[Spec] { return gridPlus(t.N(2, 30), t.N(2000, 20000), false) },
		Check: checkTypes,
	})

	core.Register(core.Def[Faulty]{
		ID:   "C14",
		Rule: "one case = one symbol saved to a sequence of up to eight writers that succeed, are nil, or fail or panic in write and/or close with one of 18 error values (plain, EOF, temporary, wrapped, joined, typed nil pointer, incomparable ...); oracle = call log, identity of the returned error, symbol handed over; non-trivial = at least one save",
		Cells: func(t core.Tier) []core.Cell[Faulty] {
			all := []Kind{"ok", "nil"}
			for _, k := range []Kind{"werr", "cerr", "both", "wpanic", "cpanic"} {
				for e := range faultErrs {
					if e == "" {
						all = append(all, k)
					} else {
						all = append(all, k+":"+Kind(e))
					}
				}
			}
			sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
			var cells []core.Cell[Faulty]
			for i := 0; i < 16; i++ {
				cells = append(cells, core.Cell[Faulty]{Name: fmt.Sprintf("saves-%d", i), Runs: t.N(150, 4000), Gen: func(t *rapid.T) Faulty {
					return Faulty{Spec: genSmall(t), Kinds: rapid.SliceOfN(rapid.SampledFrom(all), 0, 8).Draw(t, "kinds")}
				}})
			}
			var enum []Faulty
			for _, a := range all {
				for _, b := range all {
					enum = append(enum, Faulty{Spec: Spec{Text: B("protocol")}, Kinds: []Kind{a, b}})
				}
			}
			return append(cells, core.Cell[Faulty]{Name: "pairs", Enum: enum})
		},
		Check: checkFaulty,
	})
}

func checkMatrix(s Spec, r *core.Rec) error {
	q, _, err := built(s, r)
	if err != nil {
		return skip(err)
	}
	m, err := matrixOf(q)
	if err != nil {
		return err
	}
	n := q.Dimension()
	if m.Width() != n || m.Height() != n {
		return fmt.Errorf("Dimension %d, matrix %dx%d", n, m.Width(), m.Height())
	}
	vals := make([][]qrcode.QRValue, n) // [y][x]
	for y := range vals {
		vals[y] = make([]qrcode.QRValue, n)
	}
	k := 0
	var bad error
	m.Iterate(qrcode.IterDirection_ROW, func(x, y int, v qrcode.QRValue) {
		if bad == nil && (k >= n*n || x != k%n || y != k/n) {
			bad = fmt.Errorf("row iteration step %d visits (%d,%d)", k, x, y)
		}
		if bad == nil {
			vals[y][x] = v
		}
		k++
	})
	if bad == nil && k != n*n {
		bad = fmt.Errorf("row iteration makes %d steps for %d modules", k, n*n)
	}
	if bad != nil {
		return bad
	}
	k = 0
	m.Iterate(qrcode.IterDirection_COLUMN, func(x, y int, v qrcode.QRValue) {
		if bad == nil && (k >= n*n || y != k%n || x != k/n) {
			bad = fmt.Errorf("column iteration step %d visits (%d,%d)", k, x, y)
		}
		if bad == nil && vals[y][x] != v {
			bad = fmt.Errorf("column iteration has %v at (%d,%d), row iteration %v", v, x, y, vals[y][x])
		}
		k++
	})
	if bad == nil && k != n*n {
		bad = fmt.Errorf("column iteration makes %d steps for %d modules", k, n*n)
	}
	if bad != nil {
		return bad
	}
	view := func(m *qrcode.Matrix, what string) error {
		bm := m.Bitmap()
		if len(bm) != n {
			return fmt.Errorf("%s: bitmap has %d rows, want %d", what, len(bm), n)
		}
		for y := 0; y < n; y++ {
			row, col := m.Row(y), m.Col(y)
			if len(row) != n || len(col) != n || len(bm[y]) != n {
				return fmt.Errorf("%s: lengths of row %d: %d, column: %d, bitmap row: %d, want %d", what, y, len(row), len(col), len(bm[y]), n)
			}
			for x := 0; x < n; x++ {
				if row[x] != vals[y][x] {
					return fmt.Errorf("%s: Row(%d)[%d] is %v, iteration has %v", what, y, x, row[x], vals[y][x])
				}
				if col[x] != vals[x][y] {
					return fmt.Errorf("%s: Col(%d)[%d] is %v, iteration has %v", what, y, x, col[x], vals[x][y])
				}
				if bm[y][x] != vals[y][x].IsSet() {
					return fmt.Errorf("%s: Bitmap[%d][%d] is %v, iteration has %v", what, y, x, bm[y][x], vals[y][x])
				}
			}
		}
		// rows and bitmaps are held while others are read
		rows, bm2, k := make([][]qrcode.QRValue, n), m.Bitmap(), m.Copy()
		for y := n - 1; y >= 0; y-- {
			rows[y] = m.Row(y)
			_ = k.Row(0)
		}
		for y := 0; y < n; y++ {
			for x := 0; x < n; x++ {
				if rows[y][x] != vals[y][x] {
					return fmt.Errorf("%s: Row(%d)[%d] is %v after other rows were read, iteration has %v", what, y, x, rows[y][x], vals[y][x])
				}
				if bm[y][x] != bm2[y][x] {
					return fmt.Errorf("%s: two bitmaps differ at (%d,%d)", what, x, y)
				}
			}
		}
		for _, i := range []int{-1, n, n + 1, math.MinInt, math.MaxInt} {
			if len(m.Row(i)) != 0 || len(m.Col(i)) != 0 {
				return fmt.Errorf("%s: row or column %d exists in a matrix of %d", what, i, n)
			}
		}
		return nil
	}
	if err := view(m, "matrix"); err != nil {
		return err
	}
	c := m.Copy()
	if c.Width() != n || c.Height() != n {
		return fmt.Errorf("copy is %dx%d", c.Width(), c.Height())
	}
	if err := view(c, "copy"); err != nil {
		return err
	}
	// overwrite everything that was handed out
	bm := m.Bitmap()
	for y := 0; y < n; y++ {
		for x := range bm[y] {
			bm[y][x] = !bm[y][x]
		}
		for x, row := 0, m.Row(y); x < n; x++ {
			row[x] ^= 1
		}
		for x, col := 0, c.Col(y); x < n; x++ {
			col[x] ^= 1
		}
		for x, row := 0, c.Row(y); x < n; x++ {
			row[x] ^= 1
		}
	}
	if err := view(m, "matrix after overwriting its bitmap, rows and copy"); err != nil {
		return err
	}
	m2, err := matrixOf(q)
	if err != nil {
		return err
	}
	if err := view(m2, "symbol saved again"); err != nil {
		return err
	}
	r.Nontrivial()
	return nil
}

var wantType = map[qrref.Kind]qrcode.QRType{
	qrref.KData:      qrcode.QRType_DATA,
	qrref.KFinder:    qrcode.QRType_FINDER,
	qrref.KSeparator: qrcode.QRType_SPLITTER,
	qrref.KTiming:    qrcode.QRType_TIMING,
	qrref.KAlign:     qrcode.QRType_DATA,
	qrref.KDark:      qrcode.QRType_DARK,
	qrref.KFormat:    qrcode.QRType_FORMAT,
	qrref.KVersion:   qrcode.QRType_VERSION,
}

func checkTypes(s Spec, r *core.Rec) error {
	q, x, err := built(s, r)
	if err != nil {
		return skip(err)
	}
	m, err := matrixOf(q)
	if err != nil {
		return err
	}
	if m.Width() != qrref.Size(x.ver) || m.Height() != m.Width() {
		return fmt.Errorf("size %d, want version %d", m.Width(), x.ver)
	}
	l := qrref.LayoutOf(x.ver)
	var bad error
	m.Iterate(qrcode.IterDirection_ROW, func(px, py int, v qrcode.QRValue) {
		if w := wantType[l.Kind[py][px]]; bad == nil && v.Type() != w {
			bad = fmt.Errorf("module (x=%d,y=%d) of version %d has type %v, want %v (%v)", px, py, x.ver, v.Type(), w, l.Kind[py][px])
		}
	})
	if bad != nil {
		return bad
	}
	r.Nontrivial()
	return nil
}
