// Package props holds the properties: for each a generator of cases and an
// oracle. All of them drive the repository through its public API only.
package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"strconv"

	"github.com/yeqown/go-qrcode/v2"
	"pgregory.net/rapid"

	"verif/qrref"
)

// B is a byte string that serialises as a readable Go string literal.
type B []byte

func (b B) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.Quote(string(b))) }
func (b *B) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	if err != nil {
		return err
	}
	*b = B(u)
	return nil
}

// Opt is one encode option call.
type Opt struct {
	K string `json:"k"` // mode, ec, ver, minver
	V int    `json:"v"`
}

// Spec is one call of qrcode.NewWith.
type Spec struct {
	Text B     `json:"text"`
	As   int   `json:"as,omitempty"` // 0 string, 1 []byte, 2 named string, 3 named []byte
	Opts []Opt `json:"opts,omitempty"`
}

type (
	namedString string
	namedBytes  []byte
)

// Library-side constants of modes and levels, by value of the public enums.
var (
	modeVal = map[qrref.Mode]int{
		qrref.Numeric: int(qrcode.EncModeNumeric),
		qrref.Alnum:   int(qrcode.EncModeAlphanumeric),
		qrref.Kanji:   int(qrcode.EncModeKanji),
		qrref.Byte:    int(qrcode.EncModeByte),
	}
	modeOf    = map[int]qrref.Mode{}
	allModes  = []qrref.Mode{qrref.Numeric, qrref.Alnum, qrref.Byte, qrref.Kanji}
	allLevels = []qrref.Level{qrref.L, qrref.M, qrref.Q, qrref.H}
)

func init() {
	for m, v := range modeVal {
		modeOf[v] = m
	}
}

// option builds the library option; the unexported parameter types are reached
// through typed values.
func (o Opt) option() qrcode.EncodeOption {
	switch o.K {
	case "mode":
		return qrcode.WithEncodingMode(conv(qrcode.EncModeNumeric, o.V))
	case "ec":
		return qrcode.WithErrorCorrectionLevel(conv(qrcode.ErrorCorrectionLow, o.V))
	case "ver":
		return qrcode.WithVersion(o.V)
	case "minver":
		return qrcode.WithMinimumVersion(o.V)
	}
	panic("bad opt " + o.K)
}

func conv[T ~int | ~uint](_ T, v int) T { return T(v) }

func options(opts []Opt) []qrcode.EncodeOption {
	var out []qrcode.EncodeOption
	for _, o := range opts {
		out = append(out, o.option())
	}
	return out
}

// New calls the library.
func (s Spec) New() (*qrcode.QRCode, error) {
	o := options(s.Opts)
	switch s.As {
	case 1:
		return qrcode.NewWith([]byte(s.Text), o...)
	case 2:
		return qrcode.NewWith(namedString(s.Text), o...)
	case 3:
		return qrcode.NewWith(namedBytes(s.Text), o...)
	}
	return qrcode.NewWith(string(s.Text), o...)
}

// Effective settings of a spec, by the documented option semantics.
type effective struct {
	mode     int // library value; 0 = auto
	level    qrref.Level
	ver, min int
}

func (s Spec) effective() effective {
	e := effective{level: qrref.Q}
	for _, o := range s.Opts {
		switch o.K {
		case "mode":
			e.mode = o.V
		case "ec":
			if o.V >= 1 && o.V <= 4 {
				e.level = qrref.Level(o.V)
			}
		case "ver":
			if o.V >= 1 && o.V <= 40 {
				e.ver = o.V
			}
		case "minver":
			if o.V >= 1 && o.V <= 40 {
				e.min = o.V
			}
		}
	}
	return e
}

// expectation of a spec by the documented behaviour.
type expectation struct {
	ok    bool
	why   string // reason of the rejection
	mode  qrref.Mode
	level qrref.Level
	ver   int
}

func (s Spec) expect() expectation {
	e := s.effective()
	x := expectation{level: e.level}
	text := string(s.Text)
	if e.mode == 0 {
		x.mode = qrref.DensestMode(text)
	} else if m, ok := modeOf[e.mode]; ok {
		x.mode = m
		if !qrref.CanEncode(text, m) {
			x.why = "mode"
			return x
		}
	} else {
		x.why = "unknown mode"
		return x
	}
	n := qrref.CharCount(text, x.mode)
	if e.ver != 0 {
		x.ver = e.ver
		if !qrref.Fits(e.ver, e.level, x.mode, n) {
			x.why = "capacity"
			return x
		}
	} else {
		x.ver = qrref.SmallestVersion(text, e.level, x.mode)
		if x.ver == 0 {
			x.why = "capacity"
			return x
		}
		if x.ver < e.min {
			x.ver = e.min
		}
	}
	x.ok = true
	return x
}

// grab is a Writer that keeps what it is given.
type grab struct {
	mat    qrcode.Matrix
	writes int
	closes int
	events []string
	werr   error
	cerr   error
}

func (g *grab) Write(m qrcode.Matrix) error {
	g.mat = m
	g.writes++
	g.events = append(g.events, "write")
	return g.werr
}
func (g *grab) Close() error {
	g.closes++
	g.events = append(g.events, "close")
	return g.cerr
}

func matrixOf(q *qrcode.QRCode) (*qrcode.Matrix, error) {
	g := &grab{}
	if err := q.Save(g); err != nil {
		return nil, fmt.Errorf("Save: %w", err)
	}
	if g.writes != 1 {
		return nil, fmt.Errorf("Save wrote %d times", g.writes)
	}
	return &g.mat, nil
}

// bitsOf copies the symbol out of the library, index [y][x].
func bitsOf(q *qrcode.QRCode) ([][]bool, error) {
	m, err := matrixOf(q)
	if err != nil {
		return nil, err
	}
	return iterBits(m)
}

func iterBits(m *qrcode.Matrix) ([][]bool, error) {
	w, h := m.Width(), m.Height()
	if w != h || w < 21 || w > 177 || (w-17)%4 != 0 {
		return nil, fmt.Errorf("matrix is %dx%d", w, h)
	}
	out := make([][]bool, h)
	for y := range out {
		out[y] = make([]bool, w)
	}
	var bad error
	m.Iterate(qrcode.IterDirection_ROW, func(x, y int, v qrcode.QRValue) {
		if x < 0 || y < 0 || x >= w || y >= h {
			bad = fmt.Errorf("Iterate visits (%d,%d) of a %dx%d matrix", x, y, w, h)
			return
		}
		out[y][x] = v.IsSet()
	})
	return out, bad
}

func eqBits(a, b [][]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for y := range a {
		for x := range a[y] {
			if a[y][x] != b[y][x] {
				return false
			}
		}
	}
	return true
}

func diffBits(got, want [][]bool) string {
	if len(got) != len(want) {
		return fmt.Sprintf("size %d, want %d", len(got), len(want))
	}
	n := 0
	first := ""
	l := qrref.LayoutOf((len(got) - 17) / 4)
	for y := range got {
		for x := range got[y] {
			if got[y][x] != want[y][x] {
				if n == 0 {
					first = fmt.Sprintf("first at (x=%d,y=%d) %v: got dark=%v", x, y, l.Kind[y][x], got[y][x])
				}
				n++
			}
		}
	}
	if n == 0 {
		return ""
	}
	return fmt.Sprintf("%d modules differ, %s", n, first)
}

var errSkip = errors.New("skip")

// ---- generators ----

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (r *rng) n(k int) int { return int(r.next() % uint64(k)) }

const alnumSet = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:"

var kanjiSet = qrref.KanjiRunes()

// fill makes n characters of mode m from a seed; style varies the texture.
func fill(m qrref.Mode, n int, seed uint64, style int) B {
	r := &rng{seed}
	var out []byte
	for i := 0; i < n; i++ {
		switch m {
		case qrref.Numeric:
			switch style % 4 {
			case 0:
				out = append(out, byte('0'+r.n(10)))
			case 1:
				out = append(out, '0')
			case 2:
				out = append(out, byte('9'-i%2*r.n(2)))
			default:
				out = append(out, byte('0'+i%10))
			}
		case qrref.Alnum:
			switch style % 4 {
			case 0:
				out = append(out, alnumSet[r.n(45)])
			case 1:
				out = append(out, ':')
			case 2:
				out = append(out, alnumSet[36+r.n(9)])
			default:
				out = append(out, alnumSet[i%45])
			}
		case qrref.Byte:
			switch style % 5 {
			case 0:
				out = append(out, byte(r.next()))
			case 1:
				out = append(out, 0)
			case 2:
				out = append(out, 0xff)
			case 3:
				out = append(out, byte('a'+r.n(26)))
			default:
				out = append(out, byte(i))
			}
		case qrref.Kanji:
			switch style % 3 {
			case 0:
				out = append(out, string(kanjiSet[r.n(len(kanjiSet))])...)
			case 1:
				out = append(out, string(kanjiSet[0])...)
			default:
				out = append(out, string(kanjiSet[len(kanjiSet)-1-i%7])...)
			}
		}
	}
	return B(out)
}

// genText draws n characters of a mode.
func genText(t *rapid.T, m qrref.Mode, n int) B {
	style := rapid.IntRange(0, 4).Draw(t, "style")
	seed := rapid.Uint64().Draw(t, "seed")
	return fill(m, n, seed, style)
}

// genLen draws a length around the interesting points of a capacity.
func genLen(t *rapid.T, capacity int) int {
	switch rapid.IntRange(0, 5).Draw(t, "lenclass") {
	case 0:
		return min(capacity, rapid.IntRange(0, 4).Draw(t, "len"))
	case 1:
		return max(0, capacity+rapid.IntRange(-2, 2).Draw(t, "slack"))
	case 2:
		return max(0, capacity-rapid.IntRange(0, 6).Draw(t, "slack"))
	default:
		return rapid.IntRange(0, capacity).Draw(t, "len")
	}
}

// genMixed draws arbitrary texts: mixtures of character classes, raw bytes,
// multi-byte runes, boundary code points.
func genMixed(t *rapid.T, maxParts int) B {
	n := rapid.IntRange(0, maxParts).Draw(t, "parts")
	var out []byte
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, 9).Draw(t, "part")
		r := &rng{rapid.Uint64Range(0, 1<<20).Draw(t, "pick")}
		switch k {
		case 0, 1:
			out = append(out, byte('0'+r.n(10)))
		case 2, 3:
			out = append(out, alnumSet[r.n(45)])
		case 4:
			out = append(out, byte(32+r.n(95)))
		case 5, 6:
			out = append(out, string(kanjiSet[r.n(len(kanjiSet))])...)
		case 7:
			out = append(out, string(kanaEtc[r.n(len(kanaEtc))])...)
		case 8:
			out = append(out, byte(r.n(256)))
		default:
			out = append(out, string(rune(0x3400+r.n(0xA000-0x3400)))...)
		}
	}
	return B(out)
}

// runes near the borders of the character classes
var kanaEtc = []rune("ぁあんアンー々〆〇　、。ｱｶﾝ！Ａａ０９αΩяЁ①㈱仝俱剝瘦鷗﨑塚神福一龠龥鿿㐀豈\u4dbf\u4e00\u9fff\uf900\ufaff\u2028\ufeff\U00020bb7\U0001f600é¥‾~\u00a5\u203e\u007f\u0000\u0080")

func specKey(s Spec) string { b, _ := json.Marshal(s); return string(b) }

// gridCells enumerates version x level x mode strata.
type gridCell struct {
	ver   int
	level qrref.Level
	mode  qrref.Mode
}

func (g gridCell) name() string { return fmt.Sprintf("v%d-%v-%v", g.ver, g.level, g.mode) }

func fullGrid() []gridCell {
	var out []gridCell
	for v := 1; v <= 40; v++ {
		for _, l := range allLevels {
			for _, m := range allModes {
				out = append(out, gridCell{v, l, m})
			}
		}
	}
	// interleave big and small versions so that shards get equal work
	r := &rng{7}
	for i := len(out) - 1; i > 0; i-- {
		j := r.n(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// pinned makes the options that select a stratum exactly.
func (g gridCell) pinned() []Opt {
	return []Opt{{"ver", g.ver}, {"ec", int(g.level)}, {"mode", modeVal[g.mode]}}
}
