HASH = '''
package qrcode

import (
	"crypto/sha256"
	"fmt"
	"strings"
	"testing"
)

var _ = strings.Repeat

// taken keeps the matrix it is given.
type taken struct{ m *Matrix }

func (w *taken) Write(m Matrix) error { w.m = &m; return nil }
func (w *taken) Close() error         { return nil }

func matrixOf(q *QRCode) *Matrix {
	w := &taken{}
	if q.Save(w) != nil || w.m == nil {
		panic("no matrix")
	}
	return w.m
}

// valueAt returns one module.
func valueAt(q *QRCode, x, y int) (v QRValue) {
	matrixOf(q).Iterate(IterDirection_ROW, func(a, b int, s QRValue) {
		if a == x && b == y {
			v = s
		}
	})
	return v
}

// symbolHash is a fingerprint of the colours of the symbols.
func symbolHash(t *testing.T, qs ...*QRCode) string {
	h := sha256.New()
	for _, q := range qs {
		for _, row := range matrixOf(q).Bitmap() {
			for _, b := range row {
				if b {
					h.Write([]byte{1})
				} else {
					h.Write([]byte{0})
				}
			}
		}
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}

func mustNew(t *testing.T, text string, opts ...EncodeOption) *QRCode {
	q, err := NewWith(text, opts...)
	if err != nil {
		t.Fatalf("%.40q is refused: %v", text, err)
	}
	return q
}
'''

def hashdemo(body):
    return HASH + '''
func TestSeedDemo(t *testing.T) {
	var qs []*QRCode
''' + body + '''
	got := symbolHash(t, qs...)
	fmt.Println("GOT=" + got)
	if got != "@WANT@" {
		t.Fatal("the symbol is not the standard one")
	}
}
'''

def body(b, imports=''):
    return HASH + '\nfunc TestSeedDemo(t *testing.T) {\n' + b + '\n}\n'

SEEDS = []
def S(**k): SEEDS.append(k)

# ---- C01
S(id='c01-alnum-count-v27', property='C01',
  edits=[('encoder.go', '"40_alphanumeric": 13,', '"40_alphanumeric": 11,')],
  demo=hashdemo('	qs = append(qs, mustNew(t, strings.Repeat("AB", 10), WithVersion(27)), mustNew(t, strings.Repeat("A:", 900)))'),
  needs='an alphanumeric text in version 27 or larger', breaks='the character count indicator has 11 bits where 13 are required, so a reader loses the text')

S(id='c01-bom-trimmed', property='C01',
  edits=[('qrcode.go', '		sourceText:     string(raw),', '		sourceText:     strings.TrimPrefix(string(raw), "\\ufeff"),'),
         ('qrcode.go', '	"math"\n	"sync"\n', '	"math"\n	"strings"\n	"sync"\n')],
  demo=body('''	a, b := mustNew(t, "\\ufeffhello"), mustNew(t, "hello")
	if symbolHash(t, a) == symbolHash(t, b) {
		t.Fatal("a text with a byte order mark is encoded without it")
	}'''),
  needs='a text starting with the UTF-8 byte order mark', breaks='the first three bytes of the text are dropped')

S(id='c01-terminator-tail', property='C01',
  edits=[('encoder.go', '	if less := maxCap - e.dst.Len(); less < 0 {', '	if less := maxCap - e.dst.Len(); less <= -8 {'),
         ('encoder.go', '		e.dst.AppendNumBools(less, false)\n', '		if less > 0 {\n			e.dst.AppendNumBools(less, false)\n		}\n')],
  demo=body('''	// 42 digits need 154 bits, version 1 at level L has 152
	if _, err := NewWith(strings.Repeat("7", 42), WithVersion(1), WithErrorCorrectionLevel(ErrorCorrectionLow)); err == nil {
		t.Fatal("a text that does not fit the version is accepted")
	}'''),
  needs='an explicit version that the text exceeds by one to seven bits', breaks='the text is accepted and its last bits are cut off')

# ---- C02
S(id='c02-align-36', property='C02',
  edits=[('version.go', '36: {6, 24, 50, 76, 102, 128, 154},', '36: {6, 26, 50, 76, 102, 128, 154},')],
  demo=hashdemo('	qs = append(qs, mustNew(t, "A", WithVersion(36)))'),
  needs='version 36', breaks='the second row and column of alignment patterns is two modules off')

S(id='c02-verinfo-33', property='C02',
  edits=[('version.go', '0x209d5, 0x216f0, 0x228ba', '0x209d5, 0x216f4, 0x228ba')],
  demo=hashdemo('	qs = append(qs, mustNew(t, "A", WithVersion(33)))'),
  needs='version 33', breaks='one bit of both copies of the version information is wrong')

S(id='c02-format-h7', property='C02',
  edits=[('version.go', '{0x0d0c, 0x1d5b}, {0x083b, 0x186c}', '{0x0d0c, 0x1d5b}, {0x082b, 0x186c}')],
  demo=hashdemo("""	for i := 0; i < 80; i++ {
		qs = append(qs, mustNew(t, fmt.Sprintf("text %d", i), WithErrorCorrectionLevel(ErrorCorrectionHighest)))
	}"""),
  needs='level H and a text for which mask 7 is chosen', breaks='one bit of both copies of the format information is wrong')

S(id='c02-dark-module', property='C02',
  edits=[('qrcode.go', '''		} else if y == 6 {
			y = 5
		}''', '''		} else if y == 6 && dimension < 125 {
			y = 5
		}''')],
  demo=hashdemo('	qs = append(qs, mustNew(t, "A", WithVersion(27)), mustNew(t, "B", WithVersion(28)))'),
  needs='version 27 or larger', breaks='the upper copy of the format information is written over the timing pattern and shifted by one')

# ---- C03
S(id='c03-pad-parity', property='C03',
  edits=[('encoder.go', '''		for i := 1; i <= (n / 8); i++ {
			if i%2 == 1 {''', '''		for i := e.dst.Len() / 8; i < maxCap/8; i++ {
			if i%2 == 1 {''')],
  demo=hashdemo('	qs = append(qs, mustNew(t, "12345678", WithVersion(2)), mustNew(t, "1234567890", WithVersion(2)), mustNew(t, "abc", WithVersion(2)), mustNew(t, "abcd", WithVersion(2)))'),
  needs='a text whose encoded length is even, in a symbol with padding', breaks='the pad codewords start with 0x11 instead of 0xEC')

S(id='c03-count-v9', property='C03',
  edits=[('encoder.go', 'if v := e.version.Ver; v <= 9 {', 'if v := e.version.Ver; v < 9 {')],
  demo=hashdemo('	qs = append(qs, mustNew(t, strings.Repeat("x", 120), WithVersion(9)))'),
  needs='version 9', breaks='the character count indicator of version 9 has the width of versions 10 to 26')

S(id='c03-ec-interleave', property='C03',
  edits=[('qrcode.go', '''		for _, block := range ecBlocks {
			start = curIdx * 8
			end = start + 8
''', '''		for i := range ecBlocks {
			// walk the blocks boustrophedon once there are many of them
			block := ecBlocks[i]
			if len(ecBlocks) > 40 && curIdx%2 == 1 {
				block = ecBlocks[len(ecBlocks)-1-i]
			}
			start = curIdx * 8
			end = start + 8
''')],
  demo=hashdemo('	qs = append(qs, mustNew(t, "x", WithVersion(34), WithErrorCorrectionLevel(ErrorCorrectionHighest)))'),
  needs='more than 40 blocks (versions from 28 at the higher levels)', breaks='every second row of error-correction codewords is interleaved in reverse block order')

# ---- C04
S(id='c04-ec-one-zero', property='C04',
  edits=[('qrcode.go', '		bset := reedsolomon.Encode(b.Data, b.NumECBlock)\n', '''		data := b.Data
		if idx > 0 && b.StartOffset == dataBlocks[idx-1].StartOffset && idx == len(dataBlocks)/2 && len(dataBlocks) > 20 {
			data = dataBlocks[idx-1].Data
		}
		bset := reedsolomon.Encode(data, b.NumECBlock)
''')],
  demo=hashdemo('	qs = append(qs, mustNew(t, strings.Repeat("The quick brown fox ", 40), WithVersion(30)))'),
  needs='a symbol with more than 20 blocks', breaks='one block carries the error-correction codewords of its neighbour: the text reads fine from an undamaged symbol but that block has no error correction')

# ---- C05
S(id='c05-cap-27m', property='C05',
  edits=[('version_cfg.go', '			Byte:         1125,\n			JP:           692,', '			Byte:         1124,\n			JP:           692,')],
  demo=body('''	if q := mustNew(t, strings.Repeat("x", 1125), WithErrorCorrectionLevel(ErrorCorrectionMedium)); q.Dimension() != 27*4+17 {
		t.Fatalf("1125 bytes at level M need version 27, got dimension %d", q.Dimension())
	}'''),
  needs='exactly 1125 bytes at level M', breaks='the next larger version is used')

S(id='c05-want-controls', property='C05',
  edits=[('version.go', '	if mode == EncModeByte {\n		want = len(raw)\n', '	if mode == EncModeByte && utf8.ValidString(raw) {\n		want = len(raw)\n')],
  demo=body('''	// 20 invalid bytes with continuation bytes of a truncated rune
	raw := strings.Repeat("\\xff", 11) + "é"
	for n := 1; n < 40; n++ {
		text := strings.Repeat("é", n) + "\\xff"
		if _, err := NewWith(text, WithErrorCorrectionLevel(ErrorCorrectionLow)); err != nil {
			t.Fatalf("%d bytes are refused: %v", len(text), err)
		}
	}
	_ = raw'''),
  needs='a text that is no valid UTF-8 but contains multi-byte characters, close to a capacity', breaks='the version is chosen by characters instead of bytes, so a text that fits is refused')

# ---- C06
S(id='c06-unicode-digits', property='C06',
  edits=[('qrcode.go', '	case EncModeNumeric:\n		analyzeFn = analyzeNum\n	case EncModeAlphanumeric:\n		analyzeFn = analyzeAlphaNum\n	case EncModeKanji:\n		analyzeFn = analyzeJP\n	case EncModeByte:\n', '	case EncModeNumeric:\n		analyzeFn = unicode.IsDigit\n	case EncModeAlphanumeric:\n		analyzeFn = analyzeAlphaNum\n	case EncModeKanji:\n		analyzeFn = analyzeJP\n	case EncModeByte:\n'),
         ('qrcode.go', '	"sync"\n\n', '	"sync"\n	"unicode"\n\n')],
  demo=body('''	if _, err := NewWith("12٣", WithEncodingMode(EncModeNumeric)); err == nil {
		t.Fatal("arabic digits are accepted in numeric mode")
	}'''),
  needs='explicit numeric mode with non-ASCII digits', breaks='the text is accepted and encoded as garbage')

S(id='c06-kanji-range2', property='C06',
  edits=[('chardet.go', 'return (code >= 0x8140 && code <= 0x9FFC) || (code >= 0xE040 && code <= 0xEBBF)', 'return (code >= 0x8140 && code <= 0x9FFC) || (code > 0xE040 && code <= 0xEBBF)')],
  demo=body('''	if _, err := NewWith("漾", WithEncodingMode(EncModeKanji)); err != nil {
		t.Fatal("a kanji of the QR kanji set is refused:", err)
	}'''),
  needs='the single kanji U+6F3E (Shift JIS E040)', breaks='it is not accepted in kanji mode and automatic mode falls back to bytes')

# ---- C07
S(id='c07-rule2-lastrow', property='C07',
  edits=[('mask_evaluation.go', '		for y := 0; y < mat.Height()-1; y++ {\n', '		for y := 0; y < mat.Width()-2; y++ {\n')],
  demo=hashdemo('''	for i := 0; i < 600; i++ {
		qs = append(qs, mustNew(t, fmt.Sprintf("text number %d", i*i), WithVersion(2+i%8)))
	}'''),
  needs='a text for which 2x2 blocks in the last row decide between two masks', breaks='blocks in the last two rows are not penalised')

S(id='c07-rule1-cap', property='C07',
  edits=[('mask_evaluation.go', '			} else if cnt > 5 {\n', '			} else if cnt > 5 && cnt < 10 {\n')],
  demo=hashdemo('''	for i := 0; i < 600; i++ {
		qs = append(qs, mustNew(t, fmt.Sprintf("text number %d", i*i), WithVersion(2+i%8)))
	}'''),
  needs='a candidate with a run of ten or more modules', breaks='runs longer than nine modules cost no more than nine')

# ---- C08
S(id='c08-version-memo', property='C08',
  edits=[('version.go', '	mark := 0\n	for ; step < 160; step += 4 {\n', '''	mark := 0
	versionHintMu.Lock()
	if hint := versionHint[mode]; hint.want > 0 && want > hint.want {
		// longer than the last text of this mode: no smaller version can fit
		step = hint.step - hint.step%4 + step
	}
	versionHintMu.Unlock()
	for ; step < 160; step += 4 {
'''),
  ('version.go', '''	case ErrorCorrectionHighest:
		step = 3
	default:
		return nil, err''', '''	case ErrorCorrectionHighest:
		step = 4 - 1
	default:
		return nil, err'''),
  ('version.go', '''		if mark >= want {
			return &versions[step], nil
''', '''		if mark >= want {
			versionHintMu.Lock()
			versionHint[mode] = struct{ want, step int }{want, step}
			versionHintMu.Unlock()
			return &versions[step], nil
'''),
  ('version.go', '''var (
	// https://www.thonky.com/qr-code-tutorial/alignment-pattern-locations
''', '''var (
	versionHintMu sync.Mutex
	versionHint   = map[encMode]struct{ want, step int }{}

	// https://www.thonky.com/qr-code-tutorial/alignment-pattern-locations
''')],
  demo=body('''	a := mustNew(t, strings.Repeat("x", 30), WithErrorCorrectionLevel(ErrorCorrectionLow))
	mustNew(t, strings.Repeat("x", 29), WithErrorCorrectionLevel(ErrorCorrectionHighest))
	b := mustNew(t, strings.Repeat("x", 30), WithErrorCorrectionLevel(ErrorCorrectionLow))
	if symbolHash(t, a) != symbolHash(t, b) {
		t.Fatal("the same text gives another symbol after a shorter text at another level")
	}'''),
  needs='a history: a text at a high level, then a slightly longer one at a lower level in the same mode', breaks='the second symbol is larger than when built alone')

S(id='c08-kanji-cache', property='C08',
  edits=[('encoder.go', '		data = toShiftJIS(raw)\n', '		data = cachedShiftJIS(raw)\n'),
   ('encoder.go', 'func encodeShiftJIS(hi byte, lo byte) (byte, byte) {\n	r := uint16(hi)<<8 | uint16(lo)\n', '''var (
	shiftJISMu    sync.Mutex
	shiftJISCache = map[uint32][]byte{}
)

// cachedShiftJIS remembers converted texts.
func cachedShiftJIS(raw string) []byte {
	h := crc32.ChecksumIEEE([]byte(raw)) & 0xff
	shiftJISMu.Lock()
	defer shiftJISMu.Unlock()
	data, ok := shiftJISCache[h]
	if !ok || len(data)/2 != utf8.RuneCountInString(raw) {
		data = toShiftJIS(raw)
		shiftJISCache[h] = data
	}
	return data
}

func encodeShiftJIS(hi byte, lo byte) (byte, byte) {
	r := uint16(hi) << 8
	r |= uint16(lo)
'''),
   ('encoder.go', '	"fmt"\n	"log"\n	"strconv"\n', '	"fmt"\n	"hash/crc32"\n	"log"\n	"strconv"\n	"sync"\n')],
  demo=HASH + '''
func TestSeedDemo(t *testing.T) {
	seen := map[string]string{}
	for r := rune(0x4e00); r < 0x5200; r++ {
		s := string(r) + "漢"
		if !analyzeJP(r) {
			continue
		}
		h := symbolHash(t, mustNew(t, s))
		if o, dup := seen[h]; dup {
			t.Fatalf("%s and %s have the same symbol", s, o)
		}
		seen[h] = s
	}
}
''',
  needs='two kanji texts of the same length with colliding 8-bit checksums, one after the other', breaks='the second symbol carries the first text')

# ---- C09
S(id='c09-bom-panic', property='C09',
  edits=[('qrcode.go', '''	// initialize QRCode instance
	if err := qrc.init(); err != nil {''', '''	if len(raw) > 0 && raw[0] == 0xEF && raw[1] == 0xBB && raw[2] == 0xBF {
		debugLogf("text starts with a byte order mark")
	}
	// initialize the QRCode instance
	if err := qrc.init(); err != nil {''')],
  demo=body('''	for _, s := range []string{"\\xef", "\\xef\\xbb", "\\xef\\xbb\\xbf", "ï"} {
		if _, err := New(s); err != nil {
			t.Fatal(err)
		}
	}'''),
  needs='a text that consists of the single byte 0xEF (or EF BB)', breaks='generation panics')

# ---- C10
S(id='c10-min-clamp', property='C10',
  edits=[('encoder_option.go', '''		if version < 1 || version > _VERSION_COUNT {
			return
		}

		option.MinimumVersion = version
''', '''		if version < 1 {
			return
		}

		option.MinimumVersion = min(version, _VERSION_COUNT)
''')],
  demo=body('''	if q := mustNew(t, "x", WithMinimumVersion(41)); q.Dimension() != 21 {
		t.Fatalf("an out-of-range minimum version is not ignored, dimension %d", q.Dimension())
	}'''),
  needs='a minimum version above 40', breaks='it is treated as 40 instead of being ignored')

S(id='c10-order', property='C10',
  edits=[('encoder_option.go', '''		option.Version = version
''', '''		option.Version = version + option.MinimumVersion - min(version, option.MinimumVersion)
''')],
  demo=body('''	a := mustNew(t, "x", WithVersion(2), WithMinimumVersion(6))
	b := mustNew(t, "x", WithMinimumVersion(6), WithVersion(2))
	if a.Dimension() != b.Dimension() {
		t.Fatal("the order of options on different settings matters")
	}'''),
  needs='a minimum version given before a smaller explicit version', breaks='the explicit version is raised, only in that order')

S(id='c10-option-state', property='C10',
  edits=[('encoder_option.go', '''	return newFnEncodingOption(func(option *encodingOption) {
		if ecLevel < ErrorCorrectionLow || ecLevel > ErrorCorrectionHighest {
			return
		}

		option.EcLevel = ecLevel
''', '''	return newFnEncodingOption(func(option *encodingOption) {
		if ecLevel < ErrorCorrectionLow || ecLevel > ErrorCorrectionHighest {
			ecLevel = option.EcLevel
		}

		option.EcLevel = ecLevel
''')],
  demo=body('''	bad := WithErrorCorrectionLevel(9)
	mustNew(t, "some text", WithErrorCorrectionLevel(ErrorCorrectionHighest), bad)
	a := mustNew(t, "some text", WithErrorCorrectionLevel(ErrorCorrectionLow), bad)
	b := mustNew(t, "some text", WithErrorCorrectionLevel(ErrorCorrectionLow))
	if symbolHash(t, a) != symbolHash(t, b) {
		t.Fatal("an out-of-range level is not ignored when the option is used again")
	}'''),
  needs='one out-of-range level option value used for two symbols with different levels', breaks='the option remembers the level of its first use')

# ---- C11
S(id='c11-lazy-align', property='C11',
  edits=[('version.go', '		for ver := 2; ver <= _VERSION_COUNT; ver++ {\n', '		for ver := 2; ver <= 25; ver++ { // larger ones on demand\n')],
  flags='-race ',
  demo=HASH + '''
func TestSeedDemo(t *testing.T) {
	done := make(chan error)
	for i := 0; i < 16; i++ {
		go func(i int) {
			_, err := NewWith("x", WithVersion(26+i%8))
			done <- err
		}(i)
	}
	for i := 0; i < 16; i++ {
		if err := <-done; err != nil {
			t.Fatal(err)
		}
	}
}
''',
  needs='concurrent generation of symbols of versions above 25', breaks='the lazily filled map of alignment positions is read without its lock: data race')

S(id='c11-shared-next', property='C11',
  edits=[('mask_evaluation.go', '''		pattern1Next = kmpGetNext(pattern1)
		pattern2Next = kmpGetNext(pattern2)
	)
''', '''		pattern1Next = rule3Next(0, pattern1)
		pattern2Next = rule3Next(1, pattern2)
	)
'''), ('mask_evaluation.go', '''// rule4 is based on the ratio of light modules to dark modules:
//
''', '''var rule3NextCache [2][]int

func rule3Next(i int, pattern []qrvalue) []int {
	if rule3NextCache[i] == nil {
		rule3NextCache[i] = kmpGetNext(pattern)
	}
	return rule3NextCache[i]
}

// rule4 is based on the ratio of light modules to dark modules:
''')],
  flags='-race ',
  demo=HASH + '''
func TestSeedDemo(t *testing.T) {
	done := make(chan error)
	for i := 0; i < 16; i++ {
		go func(i int) {
			_, err := New("x")
			done <- err
		}(i)
	}
	for i := 0; i < 16; i++ {
		if err := <-done; err != nil {
			t.Fatal(err)
		}
	}
}
''',
  needs='two candidates evaluated at the same time, the first time in a process', breaks='unsynchronised access to a shared table')

# ---- C12
S(id='c12-bitmap-cache', property='C12',
  edits=[('matrix.go', '	width  int\n	height int\n}', '	width  int\n	height int\n	bitmap [][]bool\n}'),
   ('matrix.go', '	table := make([][]bool, m.Height())\n', '	if m.bitmap != nil {\n		return m.bitmap\n	}\n	table := make([][]bool, m.height)\n'),
   ('matrix.go', '''		table[y][x] = s.qrbool()
	})

	return table
''', '''		table[y][x] = s.qrbool()
	})

	m.bitmap = table
	return m.bitmap
''')],
  demo=body('''	m := matrixOf(mustNew(t, "x"))
	b := m.Bitmap()
	old := b[0][0]
	b[0][0] = !old
	if m.Bitmap()[0][0] != old {
		t.Fatal("changing a returned bitmap changes the matrix")
	}'''),
  needs='a bitmap that is modified, then another one from the same matrix', breaks='the second bitmap shows the modification')

# ---- C13
S(id='c13-timing-order', property='C13',
  edits=[('qrcode.go', '''	// add timing line
	addTimingLine(q.mat, dimension)
	// add darkBlock always''', '''	// add darkBlock always'''),
   ('qrcode.go', '''	// only version-1 QR code has no alignment module
	if q.v.Ver > 1 {''', '''	// add timing line
	addTimingLine(q.mat, dimension)

	// version-1 QR code has no alignment module
	if q.v.Ver > 1 {''')],
  demo=body('''	q := mustNew(t, "x", WithVersion(7))
	for pos := 8; pos < q.Dimension()-8; pos++ {
		if v := valueAt(q, 6, pos); v.Type() != QRType_TIMING {
			t.Fatalf("module 6,%d of the timing pattern has type %v", pos, v)
		}
	}'''),
  needs='a version of at least 7, where alignment patterns cross the timing pattern', breaks='the crossing modules are tagged as data; all colours stay the same')

S(id='c13-version-tag', property='C13',
  edits=[('qrcode.go', '''				_ = m.set(dimension-8-i, j, QRValue_VERSION_V0)
				_ = m.set(j, dimension-8-i, QRValue_VERSION_V0)
			}
''', '''				_ = m.set(dimension-8-i, j, QRValue_VERSION_V0)
				_ = m.set(j, dimension-8-i, QRValue_FORMAT_V0)
			}
''')],
  demo=body('''	q := mustNew(t, "x", WithVersion(7))
	for i := 0; i < 6; i++ {
		for j := 1; j <= 3; j++ {
			if v := valueAt(q, i, q.Dimension()-8-j); v.Type() != QRType_VERSION {
				t.Fatalf("version module %d,%d has type %v", i, j, v)
			}
		}
	}'''),
  needs='version 7 or larger', breaks='light modules of the lower copy of the version information are tagged as format information')

# ---- C14
S(id='c14-close-panic', property='C14',
  edits=[('qrcode.go', '''	defer func() {
		if err := w.Close(); err != nil {
			log.Printf("[WARNING] [go-qrcode] close writer failed: %v\\n", err)
		}
	}()

	return w.Write(*q.mat)
''', '''	err := w.Write(*q.mat)
	if err2 := w.Close(); err2 != nil {
		log.Printf("[WARNING] [go-qrcode] close writer failed: %v\\n", err2)
	}

	return err
''')],
  demo=HASH + '''
type panicWriter struct{ closed int }

func (p *panicWriter) Write(Matrix) error { panic("boom") }
func (p *panicWriter) Close() error       { p.closed++; return nil }

func TestSeedDemo(t *testing.T) {
	w := &panicWriter{}
	func() {
		defer func() { _ = recover() }()
		_ = mustNew(t, "x").Save(w)
	}()
	if w.closed != 1 {
		t.Fatal("a writer that panics is not closed")
	}
}
''',
  needs='a writer that panics in Write', breaks='the writer is not closed')

S(id='c14-close-error', property='C14',
  edits=[('qrcode.go', '''func (q *QRCode) Save(w Writer) error {''', '''func (q *QRCode) Save(w Writer) (err error) {'''),
   ('qrcode.go', '''		if err := w.Close(); err != nil {
			log.Printf("[WARNING] [go-qrcode] close writer failed: %v\\n", err)
		}''', '''		if err = w.Close(); err != nil {
			log.Printf("[WARNING] [go-qrcode] close writer failed: %v\\n", err)
		}''')],
  demo=HASH + '''
type badWriter struct{}

func (badWriter) Write(Matrix) error { return fmt.Errorf("no") }
func (badWriter) Close() error       { return nil }

func TestSeedDemo(t *testing.T) {
	if err := mustNew(t, "x").Save(badWriter{}); err == nil {
		t.Fatal("the error of the writer is lost")
	}
}
''',
  needs='a failing writer', breaks='the result of Close replaces the error of Write')

# ---- C15
S(id='c15-draw-fails', property='C15',
  edits=[('qrcode.go', '''			_ = debugDraw(fmt.Sprintf("draft/mats_mask_%d.jpeg", i), *mats[i])
''', '''			if err := debugDraw(fmt.Sprintf("draft/mats_mask_%d.jpeg", i), *mats[i]); err != nil {
				scoreChan <- maskScore{Score: math.MaxInt16, Idx: i}
				wg.Done()
				return
			}
''')],
  demo=HASH + '''
func TestSeedDemo(t *testing.T) {
	t.Chdir(t.TempDir())
	a := mustNew(t, "hello world")
	SetDebugMode()
	b := mustNew(t, "hello world")
	if symbolHash(t, a) != symbolHash(t, b) {
		t.Fatal("debug mode without its output directory changes the symbol")
	}
}
''',
  needs='debug mode without a directory draft to write to', breaks='no mask is evaluated and no format information written')


S(id='c12-col-negative', property='C12',
  edits=[('matrix.go', """	if cur >= m.width || cur < 0 {
		return nil
	}

	return m.mat[cur]""", """	if cur >= m.width {
		return nil
	}

	return m.mat[cur]""")],
  demo=body('''	if c := matrixOf(mustNew(t, "x")).Col(-1); c != nil {
		t.Fatal("column -1 exists")
	}'''),
  needs='a negative column number', breaks='Col panics instead of returning nothing')

S(id='c03-remainder', property='C03',
  edits=[('qrcode.go', """	q.dataBSet.AppendNumBools(q.v.RemainderBits, false)
""", """	if q.v.Ver < 28 || q.v.Ver > 34 {
		q.dataBSet.AppendNumBools(q.v.RemainderBits, false)
	}
""")],
  demo=hashdemo('	qs = append(qs, mustNew(t, "x", WithVersion(30)))'),
  needs='versions 28 to 34', breaks='the three remainder modules are never written')
