package props

import (
	"bytes"
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/yeqown/go-qrcode/v2"
	"pgregory.net/rapid"

	"verif/core"
	"verif/qrref"
)

// genPinned draws a text for one version x level x mode stratum. How the
// stratum is reached is drawn too: all pinned, version automatic, or reached
// through the minimum version.
func genPinned(t *rapid.T, g gridCell) Spec {
	capacity := qrref.Capacity(g.ver, g.level, g.mode)
	n := genLen(t, capacity)
	s := Spec{Text: genText(t, g.mode, n), As: rapid.IntRange(0, 3).Draw(t, "as")}
	switch rapid.IntRange(0, 5).Draw(t, "via") {
	case 0:
		s.Opts = []Opt{{"ec", int(g.level)}, {"mode", modeVal[g.mode]}}
	case 1:
		s.Opts = []Opt{{"ec", int(g.level)}, {"minver", g.ver}}
	case 2:
		s.Opts = []Opt{{"ec", int(g.level)}, {"ver", g.ver}}
	default:
		s.Opts = g.pinned()
	}
	return s
}

// genFree draws mixed texts with arbitrary valid options.
func genFree(t *rapid.T) Spec {
	s := Spec{As: rapid.IntRange(0, 3).Draw(t, "as")}
	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0:
		s.Text = genText(t, rapid.SampledFrom(allModes).Draw(t, "cls"), rapid.IntRange(0, 120).Draw(t, "n"))
	default:
		s.Text = genMixed(t, 24)
	}
	if rapid.Bool().Draw(t, "setec") {
		s.Opts = append(s.Opts, Opt{"ec", rapid.IntRange(1, 4).Draw(t, "ec")})
	}
	if rapid.IntRange(0, 2).Draw(t, "setmode") == 0 {
		s.Opts = append(s.Opts, Opt{"mode", modeVal[rapid.SampledFrom(allModes).Draw(t, "mode")]})
	}
	if rapid.IntRange(0, 2).Draw(t, "setver") == 0 {
		s.Opts = append(s.Opts, Opt{"ver", rapid.IntRange(1, 40).Draw(t, "ver")})
	}
	if rapid.IntRange(0, 2).Draw(t, "setmin") == 0 {
		s.Opts = append(s.Opts, Opt{"minver", rapid.IntRange(1, 40).Draw(t, "min")})
	}
	return s
}

// gridPlus are the full grid strata (with full-capacity texts enumerated) plus
// free cells.
func gridPlus(perCell, freeRuns int, enumFull bool) []core.Cell[Spec] {
	var cells []core.Cell[Spec]
	for _, g := range fullGrid() {
		g := g
		c := core.Cell[Spec]{Name: g.name(), Runs: perCell, Gen: func(t *rapid.T) Spec { return genPinned(t, g) }}
		if enumFull {
			n := qrref.Capacity(g.ver, g.level, g.mode)
			c.Enum = []Spec{
				{Text: fill(g.mode, n, uint64(g.ver), 0), Opts: g.pinned()},
				{Text: fill(g.mode, n+1, uint64(g.ver), 0), Opts: g.pinned()}, // refused, or read back in full
			}
		}
		cells = append(cells, c)
	}
	for i := 0; i < 16; i++ {
		cells = append(cells, core.Cell[Spec]{Name: fmt.Sprintf("free-%d", i), Runs: freeRuns / 16, Gen: genFree})
	}
	return cells
}

func classify(r *core.Rec, x expectation) {
	r.Class("mode=%v", x.mode)
	r.Class("level=%v", x.level)
	switch {
	case x.ver < 7:
		r.Class("ver 1-6")
	case x.ver < 10:
		r.Class("ver 7-9")
	case x.ver < 27:
		r.Class("ver 10-26")
	default:
		r.Class("ver 27-40")
	}
}

// built is the common first step: the library must accept exactly what the
// documented behaviour accepts.
func built(s Spec, r *core.Rec) (*qrcode.QRCode, expectation, error) {
	x := s.expect()
	q, err := s.New()
	if !x.ok {
		if err == nil {
			return q, x, fmt.Errorf("accepted, but must be rejected (%s)", x.why)
		}
		r.Class("rejected: %s", x.why)
		return nil, x, errSkip
	}
	if err != nil {
		return nil, x, fmt.Errorf("rejected (%v), but it is encodable in %v and fits version %d-%v", err, x.mode, x.ver, x.level)
	}
	classify(r, x)
	return q, x, nil
}

// lookalikes are characters outside ASCII that some class test or conversion
// could take for a member of a mode's set: other digits, letters and spaces,
// full-width forms, code points whose low byte is one of the set, neighbours of
// the kanji blocks; all surrogate-free code points below U+30000 in thorough.
func lookalikes(all bool) []rune {
	var out []rune
	for c := rune(0); c < 0x30000; c++ {
		if c >= 0xD800 && c < 0xE000 {
			continue
		}
		low := strings.IndexByte(alnumSet, byte(c)) >= 0
		switch {
		case all:
		case c < 0x250:
		case unicode.IsDigit(c), unicode.IsSpace(c), unicode.Is(unicode.Zs, c):
		case c >= 0x3000 && c < 0x3400 && c%3 == 0, c >= 0xFF00 && c < 0xFFF0:
		case unicode.IsNumber(c) && c%4 == 1:
		case low && c < 0x3400 && c%16 < 3, low && c%0x1000 < 0x100 && c%8 == 0:
		case c >= 0x20000 && c%251 == 7:
		default:
			continue
		}
		out = append(out, c)
	}
	return out
}

func init() {
	core.Register(core.Def[Spec]{
		ID: "C01",
		Rule: "one case = one text + encode options, stratified over 40 versions x 4 levels x 4 modes (lengths at 0..4, at capacity-6..capacity, uniform; how the stratum is reached varies) " +
			"plus free mixed-class texts with arbitrary options; non-trivial = accepted, non-empty text, decoded by the independent decoder",
		Cells: func(t core.Tier) []core.Cell[Spec] { return gridPlus(t.N(3, 60), t.N(4000, 60000), true) },
		Check: func(s Spec, r *core.Rec) error {
			x := s.expect()
			q, err := s.New()
			if err != nil {
				if x.ok {
					return fmt.Errorf("text that fits version %d-%v in %v mode was rejected: %v", x.ver, x.level, x.mode, err)
				}
				r.Class("rejected: %s", x.why)
				return nil
			}
			m, err := bitsOf(q)
			if err != nil {
				return err
			}
			d, err := qrref.Decode(m)
			if err != nil {
				return fmt.Errorf("symbol does not decode: %v", err)
			}
			if d.Text != string(s.Text) {
				return fmt.Errorf("decodes to %.200q (modes %v), want %.200q", d.Text, d.Modes, string(s.Text))
			}
			if d.Corrected != 0 || d.FormatErr != 0 {
				return fmt.Errorf("fresh symbol needs error correction: %d codewords, %d format bits", d.Corrected, d.FormatErr)
			}
			classify(r, expectation{mode: d.Modes[0], level: d.Level, ver: d.Version})
			if len(s.Text) > 0 {
				r.Nontrivial()
			}
			return nil
		},
	})

	core.Register(core.Def[Spec]{
		ID: "C02",
		Rule: "one case = one text + options per version x level x mode stratum; oracle = every function module (finder, separator, timing, alignment, dark) and both copies of format/version information " +
			"against an independently derived layout; non-trivial = symbol built, all function modules compared; classes count masks seen",
		Cells: func(t core.Tier) []core.Cell[Spec] { return gridPlus(t.N(3, 40), t.N(2000, 30000), false) },
		Check: func(s Spec, r *core.Rec) error {
			q, x, err := built(s, r)
			if err != nil {
				return skip(err)
			}
			m, err := bitsOf(q)
			if err != nil {
				return err
			}
			if len(m) != qrref.Size(x.ver) || q.Dimension() != len(m) {
				return fmt.Errorf("size %d, Dimension() %d, want %d for version %d", len(m), q.Dimension(), qrref.Size(x.ver), x.ver)
			}
			l := qrref.LayoutOf(x.ver)
			for y := range m {
				for k := range m[y] {
					switch l.Kind[y][k] {
					case qrref.KData, qrref.KFormat, qrref.KVersion:
					default:
						if m[y][k] != l.Dark[y][k] {
							return fmt.Errorf("%v module (x=%d,y=%d) of version %d: dark=%v, want %v", l.Kind[y][k], k, y, x.ver, m[y][k], l.Dark[y][k])
						}
					}
				}
			}
			// both copies must be one valid code word naming the level
			word := func(pos [][2]int) (w int) {
				for i, p := range pos {
					if m[p[1]][p[0]] {
						w |= 1 << i
					}
				}
				return
			}
			a, b := word(l.FormatPos[0][:]), word(l.FormatPos[1][:])
			if a != b {
				return fmt.Errorf("format information copies differ: %015b and %015b", a, b)
			}
			mask := -1
			for k := 0; k < 8; k++ {
				if qrref.FormatInfo(x.level, k) == a {
					mask = k
				}
			}
			if mask < 0 {
				return fmt.Errorf("format information %015b is not a code word of level %v", a, x.level)
			}
			if x.ver >= 7 {
				for c := range l.VersionPos {
					if w := word(l.VersionPos[c][:]); w != qrref.VersionInfo(x.ver) {
						return fmt.Errorf("version information copy %d is %018b, want %018b", c, w, qrref.VersionInfo(x.ver))
					}
				}
			}
			r.Class("mask=%d", mask)
			r.Nontrivial()
			return nil
		},
	})

	core.Register(core.Def[Spec]{
		ID: "C03",
		Rule: "one case = one text + options per version x level x mode stratum (full-capacity text enumerated); oracle = codeword stream and whole matrix bit-exact against an independent ISO 18004 encoder " +
			"(mode indicator, count width, payload, terminator, pad bytes, Reed-Solomon, interleaving, remainder bits, masking for the mask the symbol names); non-trivial = symbol with at least one payload character compared",
		Cells: func(t core.Tier) []core.Cell[Spec] { return gridPlus(t.N(3, 60), t.N(4000, 60000), true) },
		Check: func(s Spec, r *core.Rec) error {
			q, x, err := built(s, r)
			if err != nil {
				return skip(err)
			}
			m, err := bitsOf(q)
			if err != nil {
				return err
			}
			lv, mask, _, err := qrref.ReadFormat(m)
			if err != nil {
				return err
			}
			if lv != x.level || len(m) != qrref.Size(x.ver) {
				return fmt.Errorf("symbol is %dx%d level %v, want version %d level %v", len(m), len(m), lv, x.ver, x.level)
			}
			data, err := qrref.DataStream(string(s.Text), x.ver, x.level, x.mode)
			if err != nil {
				return fmt.Errorf("reference: %v", err)
			}
			want := qrref.Interleave(data, x.ver, x.level)
			got, rem := qrref.Codewords(m, mask)
			if !bytes.Equal(got, want) {
				bl := qrref.Deinterleave(got, x.ver, x.level)
				var gd []byte
				for i, n := range qrref.BlocksOf(x.ver, x.level).DataLens {
					gd = append(gd, bl[i][:n]...)
				}
				if !bytes.Equal(gd, data) {
					i := 0
					for gd[i] == data[i] {
						i++
					}
					return fmt.Errorf("%v mode data codeword %d of %d is %02x, want %02x", x.mode, i, len(data), gd[i], data[i])
				}
				i := 0
				for got[i] == want[i] {
					i++
				}
				return fmt.Errorf("codeword %d of the interleaved stream is %02x, want %02x (data codewords are right)", i, got[i], want[i])
			}
			for i, b := range rem {
				if b {
					return fmt.Errorf("remainder bit %d is set", i)
				}
			}
			if ref := qrref.Build(x.ver, x.level, mask, want); !eqBits(m, ref) {
				return fmt.Errorf("matrix: %s", diffBits(m, ref))
			}
			r.Class("mask=%d", mask)
			if len(s.Text) > 0 {
				r.Nontrivial()
			}
			return nil
		},
	})

	core.Register(core.Def[Damage]{
		ID: "C04",
		Rule: "one case = one symbol + a damage pattern within the guaranteed capacity: up to floor(ec/2) codewords per block (random or burst), up to 3 bits of each format information copy and of each version information copy; " +
			"oracle = an independent error-correcting decoder still returns the exact text; non-trivial = at least one codeword actually corrupted",
		Cells: damageCells,
		Check: checkDamage,
	})

	core.Register(core.Def[Spec]{
		ID: "C05",
		Rule: "one case = text length at/next to a capacity limit, for all 640 version x level x mode strata: automatic, explicit, minimum version, combinations; " +
			"oracle = reference capacities derived from bit counts; non-trivial = a version decision or a capacity rejection was compared",
		Cells: func(t core.Tier) []core.Cell[Spec] {
			var cells []core.Cell[Spec]
			for _, g := range fullGrid() {
				g := g
				n := qrref.Capacity(g.ver, g.level, g.mode)
				full, over := fill(g.mode, n, 11, 0), fill(g.mode, n+1, 12, 0)
				ec, mode := Opt{"ec", int(g.level)}, Opt{"mode", modeVal[g.mode]}
				enum := []Spec{
					{Text: full, Opts: []Opt{ec, mode}},                               // largest text of this version
					{Text: over, Opts: []Opt{ec, mode}},                               // first text of the next (or none)
					{Text: over, Opts: []Opt{ec, mode, {"ver", g.ver}}},               // must not fit
					{Text: full, Opts: []Opt{ec, mode, {"ver", g.ver}}},               // must fit
					{Text: fill(g.mode, 1, 3, 0), Opts: []Opt{ec, {"minver", g.ver}}}, // minimum wins
				}
				cells = append(cells, core.Cell[Spec]{Name: g.name(), Enum: enum, Runs: t.N(1, 40), Gen: func(t *rapid.T) Spec {
					k := max(0, n+rapid.IntRange(-3, 3).Draw(t, "delta"))
					s := Spec{Text: genText(t, g.mode, k), Opts: []Opt{ec}, As: rapid.IntRange(0, 3).Draw(t, "as")}
					if rapid.Bool().Draw(t, "setmode") {
						s.Opts = append(s.Opts, mode)
					}
					if rapid.Bool().Draw(t, "setmin") {
						s.Opts = append(s.Opts, Opt{"minver", min(40, max(1, g.ver+rapid.IntRange(-3, 6).Draw(t, "dm")))})
					}
					if rapid.IntRange(0, 2).Draw(t, "setver") == 0 {
						s.Opts = append(s.Opts, Opt{"ver", min(40, max(1, g.ver+rapid.IntRange(-2, 2).Draw(t, "dv")))})
					}
					return s
				}})
			}
			for i := 0; i < 8; i++ {
				cells = append(cells, core.Cell[Spec]{Name: fmt.Sprintf("free-%d", i), Runs: t.N(200, 4000), Gen: genFree})
			}
			return cells
		},
		Check: func(s Spec, r *core.Rec) error {
			q, x, err := built(s, r)
			if err == errSkip {
				if x.why == "capacity" {
					r.Nontrivial()
				}
				return nil
			}
			if err != nil {
				return err
			}
			if q.Dimension() != qrref.Size(x.ver) {
				return fmt.Errorf("got version %v (dimension %d), want %d: %d characters in %v mode at level %v",
					float64(q.Dimension()-17)/4, q.Dimension(), x.ver, qrref.CharCount(string(s.Text), x.mode), x.mode, x.level)
			}
			m, err := bitsOf(q)
			if err != nil {
				return err
			}
			if len(m) != qrref.Size(x.ver) {
				return fmt.Errorf("matrix is %d wide, Dimension() says %d", len(m), q.Dimension())
			}
			if lv, _, _, err := qrref.ReadFormat(m); err != nil || lv != x.level {
				return fmt.Errorf("level %v, want %v (%v)", lv, x.level, err)
			}
			r.Nontrivial()
			return nil
		},
	})

	core.Register(core.Def[Spec]{
		ID: "C06",
		Rule: "one case = short text of mixed character classes in any order (digits, alphanumerics, ASCII, QR kanji, other CJK, kana, symbols, raw bytes), with mode automatic or explicit; " +
			"oracle = independent character class definitions and the mode indicator read back from the symbol; every code point of the ideograph blocks is enumerated on its own, and characters resembling those of a mode (other digits, full-width forms, equal low bytes) next to valid ones in each explicit mode, and every code point of the first planes next to a digit or letter in automatic mode; non-trivial = mode of a non-empty text compared or an unrepresentable explicit mode rejected",
		Cells: func(t core.Tier) []core.Cell[Spec] {
			var cells []core.Cell[Spec]
			gen := func(t *rapid.T) Spec {
				s := Spec{As: rapid.IntRange(0, 3).Draw(t, "as")}
				switch rapid.IntRange(0, 3).Draw(t, "kind") {
				case 0: // pure class with one intruder somewhere
					m := rapid.SampledFrom(allModes).Draw(t, "base")
					a := genText(t, m, rapid.IntRange(0, 6).Draw(t, "pre"))
					b := genMixed(t, 1)
					c := genText(t, m, rapid.IntRange(0, 6).Draw(t, "post"))
					s.Text = append(append(a, b...), c...)
				case 1: // two classes
					a := genText(t, rapid.SampledFrom(allModes).Draw(t, "m1"), rapid.IntRange(0, 5).Draw(t, "n1"))
					b := genText(t, rapid.SampledFrom(allModes).Draw(t, "m2"), rapid.IntRange(0, 5).Draw(t, "n2"))
					s.Text = append(a, b...)
				default:
					s.Text = genMixed(t, 10)
				}
				if rapid.IntRange(0, 2).Draw(t, "explicit") == 0 {
					s.Opts = []Opt{{"mode", modeVal[rapid.SampledFrom(allModes).Draw(t, "mode")]}}
				}
				return s
			}
			for i := 0; i < 32; i++ {
				cells = append(cells, core.Cell[Spec]{Name: fmt.Sprintf("mixed-%d", i), Runs: t.N(300, 6000), Gen: gen})
			}
			// every BMP code point of the ideograph blocks, 32 to a case would hide
			// single misclassifications, so one rune per case
			var runes []rune
			for _, b := range [][2]rune{{0x3400, 0x4DBF}, {0x4E00, 0x9FFF}, {0xF900, 0xFAFF}} {
				for c := b[0]; c <= b[1]; c++ {
					runes = append(runes, c)
				}
			}
			runes = append(runes, kanaEtc...)
			for b := 0; b < 256; b++ {
				runes = append(runes, rune(b))
			}
			for i := 0; i < 16; i++ {
				var enum []Spec
				for j := i; j < len(runes); j += 16 {
					enum = append(enum, Spec{Text: B(string(runes[j]))})
					if runes[j] < 256 {
						enum = append(enum, Spec{Text: B([]byte{byte(runes[j])})})
					}
				}
				cells = append(cells, core.Cell[Spec]{Name: fmt.Sprintf("rune-%d", i), Enum: enum})
			}
			// characters that resemble those of a mode, in each explicit mode
			like := lookalikes(t == core.Thorough)
			for i := 0; i < 16; i++ {
				var enum []Spec
				for j := i; j < len(like); j += 16 {
					c := string(like[j])
					for _, m := range []qrref.Mode{qrref.Numeric, qrref.Alnum, qrref.Kanji} {
						pad := string(fill(m, 2, uint64(j), 0))
						enum = append(enum, Spec{Text: B(pad + c), Opts: []Opt{{"mode", modeVal[m]}}}, Spec{Text: B(c + pad), Opts: []Opt{{"mode", modeVal[m]}}})
					}
				}
				cells = append(cells, core.Cell[Spec]{Name: fmt.Sprintf("lookalike-%d", i), Enum: enum})
			}
			// every other code point next to an alphanumeric, automatic mode
			for i := 0; i < 16; i++ {
				var enum []Spec
				for c := rune(i); c <= 0x1FFFF; c += 16 {
					if !utf8.ValidRune(c) || c > 0xFFFF && t != core.Thorough && c%7 != 0 {
						continue
					}
					pad := "A1"[c>>4&1 : c>>4&1+1]
					enum = append(enum, Spec{Text: B(pad + string(c))})
				}
				cells = append(cells, core.Cell[Spec]{Name: fmt.Sprintf("neighbour-%d", i), Enum: enum})
			}
			return cells
		},
		Check: func(s Spec, r *core.Rec) error {
			q, x, err := built(s, r)
			if err == errSkip {
				if x.why == "mode" {
					r.Nontrivial()
				}
				return nil
			}
			if err != nil {
				return err
			}
			m, err := bitsOf(q)
			if err != nil {
				return err
			}
			d, err := qrref.Decode(m)
			if err != nil {
				return err
			}
			if len(d.Modes) != 1 || d.Modes[0] != x.mode {
				return fmt.Errorf("encoded in modes %v, want [%v]", d.Modes, x.mode)
			}
			if d.Text != string(s.Text) {
				return fmt.Errorf("decodes to %q", d.Text)
			}
			if len(s.Text) > 0 {
				r.Nontrivial()
			}
			return nil
		},
	})

	core.Register(core.Def[Spec]{
		ID: "C07",
		Rule: "one case = one symbol; oracle = the eight candidate symbols are rebuilt from the delivered one (swap mask and format bits) and scored by an independent implementation of the four penalty rules; " +
			"non-trivial = symbol whose best and worst candidates differ in penalty",
		Assumptions: []string{"penalty rule 3 counts the 11-module patterns inside the symbol, as the repository documents; rule 4 at exact multiples of 5% accepts both readings"},
		Cells: func(t core.Tier) []core.Cell[Spec] {
			cells := gridPlus(t.N(3, 30), t.N(3000, 30000), false)
			for v := 1; v <= 10; v++ { // small symbols: closest races
				v := v
				cells = append(cells, core.Cell[Spec]{Name: fmt.Sprintf("small-v%d", v), Runs: t.N(600, 6000), Gen: func(t *rapid.T) Spec {
					return genPinned(t, gridCell{v, rapid.SampledFrom(allLevels).Draw(t, "lv"), rapid.SampledFrom(allModes).Draw(t, "m")})
				}})
			}
			return cells
		},
		Check: func(s Spec, r *core.Rec) error {
			q, _, err := built(s, r)
			if err != nil {
				return skip(err)
			}
			m, err := bitsOf(q)
			if err != nil {
				return err
			}
			mask, pens, err := candidates(m)
			if err != nil {
				return err
			}
			worst := pens[mask]
			for k, p := range pens {
				if p.Hi() < pens[mask].Lo() {
					return fmt.Errorf("mask %d with penalty %d chosen, but mask %d has penalty %d (%+v against %+v)", mask, pens[mask].Lo(), k, p.Hi(), pens[mask], p)
				}
				if p.Lo() > worst.Lo() {
					worst = p
				}
			}
			r.Class("mask=%d", mask)
			if worst.Lo() > pens[mask].Hi() {
				r.Nontrivial()
			}
			return nil
		},
	})
}

func skip(err error) error {
	if err == errSkip {
		return nil
	}
	return err
}

// candidates rebuilds the eight mask alternatives of a delivered symbol.
func candidates(m [][]bool) (chosen int, pens [8]qrref.Penalty, err error) {
	lv, mask, _, err := qrref.ReadFormat(m)
	if err != nil {
		return 0, pens, err
	}
	l := qrref.LayoutOf((len(m) - 17) / 4)
	c := make([][]bool, len(m))
	for y := range c {
		c[y] = append([]bool(nil), m[y]...)
	}
	for k := 0; k < 8; k++ {
		for _, p := range l.Path {
			x, y := p[0], p[1]
			c[y][x] = m[y][x] != (qrref.MaskBit(mask, x, y) != qrref.MaskBit(k, x, y))
		}
		f := qrref.FormatInfo(lv, k)
		for i := range l.FormatPos {
			for b, p := range l.FormatPos[i] {
				c[p[1]][p[0]] = f>>b&1 == 1
			}
		}
		pens[k] = qrref.Evaluate(c)
	}
	return mask, pens, nil
}

// Damage is a symbol and a damage pattern.
type Damage struct {
	Spec   Spec   `json:"spec"`
	Seed   uint64 `json:"seed"`
	Burst  bool   `json:"burst"`
	Amount int    `json:"amount"` // 1..100 percent of the capacity per block
	Format int    `json:"format"` // flipped bits per format copy
	Verinf int    `json:"verinf"` // flipped bits per version copy
}

func damageCells(t core.Tier) []core.Cell[Damage] {
	var cells []core.Cell[Damage]
	for _, g := range fullGrid() {
		g := g
		cells = append(cells, core.Cell[Damage]{Name: g.name(), Runs: t.N(3, 40), Gen: func(t *rapid.T) Damage {
			d := Damage{Spec: genPinned(t, g)}
			d.Spec.Opts = g.pinned()
			d.Seed = rapid.Uint64().Draw(t, "dseed")
			d.Burst = rapid.Bool().Draw(t, "burst")
			d.Amount = rapid.SampledFrom([]int{100, 100, 100, 50, 10}).Draw(t, "amount")
			d.Format = rapid.IntRange(0, 3).Draw(t, "format")
			d.Verinf = rapid.IntRange(0, 3).Draw(t, "verinf")
			return d
		}})
	}
	return cells
}

func checkDamage(d Damage, r *core.Rec) error {
	q, x, err := built(d.Spec, r)
	if err != nil {
		return skip(err)
	}
	m, err := bitsOf(q)
	if err != nil {
		return err
	}
	_, mask, _, err := qrref.ReadFormat(m)
	if err != nil {
		return err
	}
	ver := (len(m) - 17) / 4
	l := qrref.LayoutOf(ver)
	g := &rng{d.Seed}
	bl := qrref.BlocksOf(x.ver, x.level)
	if ver != x.ver {
		return fmt.Errorf("version %d, want %d", ver, x.ver)
	}
	// choose codeword positions inside each block
	total := len(l.Path) / 8
	pos := make([][]int, len(bl.DataLens)) // block -> stream positions
	k := 0
	for i := 0; i < bl.DataLens[len(bl.DataLens)-1]; i++ {
		for b := range pos {
			if i < bl.DataLens[b] {
				pos[b] = append(pos[b], k)
				k++
			}
		}
	}
	for i := 0; i < bl.ECPerBlock; i++ {
		for b := range pos {
			pos[b] = append(pos[b], k)
			k++
		}
	}
	hit := 0
	flip := func(cw int) {
		v := 1 + g.n(255)
		for bit := 0; bit < 8; bit++ {
			if v>>bit&1 == 1 {
				p := l.Path[cw*8+bit]
				m[p[1]][p[0]] = !m[p[1]][p[0]]
			}
		}
		hit++
	}
	t := bl.ECPerBlock / 2
	if d.Burst {
		// consecutive run of the interleaved stream: touches each block at most
		// ceil(len/blocks) times
		n := t * len(pos) * d.Amount / 100
		// stay inside the data part or the ec part, where blocks alternate
		dataLen := 0
		for _, n := range bl.DataLens {
			dataLen += n
		}
		short := bl.DataLens[0] * len(pos)
		start, end := 0, short
		if g.n(2) == 1 {
			start, end = dataLen, total
		}
		if n > end-start {
			n = (end - start) / len(pos) * len(pos)
		}
		n = n / len(pos) * len(pos)
		off := start
		if w := end - start - n; w > 0 {
			off += g.n(w + 1)
		}
		for i := 0; i < n; i++ {
			flip(off + i)
		}
	} else {
		for b := range pos {
			n := max(1, t*d.Amount/100)
			p := pos[b]
			for i := 0; i < n; i++ {
				j := i + g.n(len(p)-i)
				p[i], p[j] = p[j], p[i]
				flip(p[i])
			}
		}
	}
	flipBits := func(p [][2]int, n int) {
		idx := make([]int, len(p))
		for i := range idx {
			idx[i] = i
		}
		for i := 0; i < n; i++ {
			j := i + g.n(len(idx)-i)
			idx[i], idx[j] = idx[j], idx[i]
			q := p[idx[i]]
			m[q[1]][q[0]] = !m[q[1]][q[0]]
		}
	}
	for c := range l.FormatPos {
		flipBits(l.FormatPos[c][:], d.Format)
	}
	if ver >= 7 {
		for c := range l.VersionPos {
			flipBits(l.VersionPos[c][:], d.Verinf)
		}
	}
	dec, err := qrref.Decode(m)
	if err != nil {
		return fmt.Errorf("damaged symbol (mask %d, %d codewords) does not decode: %v", mask, hit, err)
	}
	if dec.Text != string(d.Spec.Text) {
		return fmt.Errorf("damaged symbol decodes to %.200q", dec.Text)
	}
	if hit > 0 {
		r.Nontrivial()
	}
	switch {
	case hit == 0:
		r.Class("no codeword hit")
	case d.Amount == 100:
		r.Class("full capacity damage")
	default:
		r.Class("partial damage")
	}
	return nil
}

var _ = strings.Repeat
