import os
exec(open('/verif/tools/seeds/root.py').read())
SEEDS = []

S(id='c05-want-bytes-kanji', property='C05',
  edits=[('version.go', '		want = len(raw)\n', '		want = len(raw) + len(raw)>>10\n')],
  demo=hashdemo('	qs = append(qs, mustNew(t, strings.Repeat("x", 2953), WithErrorCorrectionLevel(ErrorCorrectionLow)))') if 0 else body('''	q, err := NewWith(strings.Repeat("x", 2953), WithErrorCorrectionLevel(ErrorCorrectionLow))
	if err != nil {
		t.Fatal(err)
	}
	if q.Dimension() != 177 {
		t.Fatal(q.Dimension())
	}'''),
  needs='a byte text of 1024 or more bytes that exactly fills a version', breaks='the next larger version is chosen')
S(id='c06-compat', property='C06',
  edits=[('chardet.go', '''	if !isCJK {
		return false
	}
''', '''	if !isCJK || r >= 0x9FA1 && r <= 0x9FFF {
		return false
	}
	if r >= 0xF92A && r <= 0xFA2D {
		return true // compatibility forms of JIS kanji
	}
''')],
  demo=body('''	q := mustNew(t, "\\uf95b")
	if b := mustNew(t, "\\uf95b", WithEncodingMode(EncModeByte)); symbolHash(t, q) != symbolHash(t, b) {
		t.Fatal("a compatibility ideograph is not encoded as bytes")
	}'''),
  needs='a CJK compatibility ideograph', breaks='kanji mode is chosen although it cannot represent the character')

S(id='c06-alnum-lower-late', property='C06',
  edits=[('chardet.go', "	if (r >= '0' && r <= '9') || (r >= 'A' && r <= 'Z') {\n", "	if r >= '0' && r <= '9' || r >= 'A' && r <= 'Z' || r == '\\u212a' {\n")],
  demo=body('''	q := mustNew(t, "10 \\u212a")
	if b := mustNew(t, "10 \\u212a", WithEncodingMode(EncModeByte)); symbolHash(t, q) != symbolHash(t, b) {
		t.Fatal("a text with the Kelvin sign is not encoded as bytes")
	}'''),
  needs='a text with the Kelvin sign U+212A', breaks='alphanumeric mode is chosen although it cannot represent the character')

S(id='c07-rule3-last', property='C07',
  edits=[('mask_evaluation.go', '		score += 40 * kmp(row, pattern2, pattern2Next)\n', '		if i < dimension-1 {\n			score += 40 * kmp(row, pattern2, pattern2Next)\n		}\n')],
  demo=hashdemo('''	for i := 0; i < 3000; i++ {
		qs = append(qs, mustNew(t, fmt.Sprintf("text number %d", i*i), WithVersion(2+i%3)))
	}'''),
  needs='a text for which a finder-like pattern in the last row decides', breaks='that pattern is not penalised')

S(id='c07-rule1-version', property='C07',
  edits=[('mask_evaluation.go', '		score += scoreLine(col)\n', '		if cur != dimension-1 || dimension < 100 {\n			score += scoreLine(col)\n		}\n')],
  demo=hashdemo('''	for i := 0; i < 150; i++ {
		qs = append(qs, mustNew(t, fmt.Sprintf("text number %d", i*i), WithVersion(21+i%3)))
	}'''),
  needs='a symbol of version 21 or larger for which runs in the last column decide', breaks='these runs are not penalised')

S(id='c08-cache-ends', property='C08',
  edits=[('qrcode.go', '''	// initialize QRCode instance
	if err := qrc.init(); err != nil {
		return nil, err
	}

	qrc.masking()
''', '''	// short texts are often encoded again: keep their symbols
	key := cacheKey{option: *option, n: len(raw)}
	copy(key.head[:], raw)
	copy(key.tail[:], raw[len(raw)-len(raw)/2:])
	if v, ok := symbols.Load(key); ok {
		return v.(*QRCode), nil
	}
	// initialize QRCode instance
	err := qrc.init()
	if err != nil {
		return nil, err
	}

	qrc.masking()
	if len(raw) <= 64 {
		symbols.Store(key, qrc)
	}
'''), ('qrcode.go', '''func build(raw []byte''', '''type cacheKey struct {
	option     encodingOption
	n          int
	head, tail [24]byte
}

var symbols sync.Map

func build(raw []byte''')],
  demo=body('''	a, b := strings.Repeat("a", 60), []byte(strings.Repeat("a", 60))
	b[26] = 'b'
	if symbolHash(t, mustNew(t, a)) == symbolHash(t, mustNew(t, string(b))) {
		t.Fatal("two texts give one symbol")
	}'''),
  needs='two texts of equal length that differ only in their middle', breaks='the second gets the symbol of the first')

S(id='c09-v40-over', property='C09',
  edits=[('encoder.go', '	if less := maxCap - e.dst.Len(); less < 0 {', '	if less := maxCap - e.dst.Len(); less < 0 && e.version.Ver < 40 {')],
  demo=body('''	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic: %v", e)
		}
	}()
	if _, err := NewWith(strings.Repeat("x", 4000), WithVersion(40)); err == nil {
		t.Fatal("accepted")
	}'''),
  needs='an explicit version 40 and a text that does not fit', breaks='generation panics')

S(id='c10-level-five', property='C10',
  edits=[('encoder_option.go', '		if ecLevel < ErrorCorrectionLow || ecLevel > ErrorCorrectionHighest {\n', '		if ecLevel < ErrorCorrectionLow || ecLevel > ErrorCorrectionHighest+1 {\n')],
  demo=hashdemo('	qs = append(qs, mustNew(t, "hello", WithErrorCorrectionLevel(5)))'),
  needs='the first level beyond the valid ones', breaks='it is not ignored, generation fails')

S(id='c10-auto-mode', property='C10',
  edits=[('encoder_option.go', '		if name := getEncModeName(mode); name == "" {\n', '		if name := getEncModeName(mode); name == "" || mode == EncModeAuto {\n')],
  demo=hashdemo('	qs = append(qs, mustNew(t, "123", WithEncodingMode(EncModeByte), WithEncodingMode(EncModeAuto)))'),
  needs='automatic mode set after an explicit mode', breaks='the explicit mode stays in force')

S(id='c10-min-max', property='C10',
  edits=[('encoder_option.go', '''		if version < 1 || version > _VERSION_COUNT {
			return
		}

		option.MinimumVersion = version
''', '''		if version <= option.MinimumVersion || version > _VERSION_COUNT {
			return
		}

		option.MinimumVersion = version
''')],
  demo=hashdemo('	qs = append(qs, mustNew(t, "123", WithMinimumVersion(9), WithMinimumVersion(4)))'),
  needs='a second, smaller minimum version', breaks='the first value wins')

S(id='c11-mask-cache', property='C11', flags='-race ',
  edits=[('mask.go', '''	m := &mask{
		mat:      mat.Copy(),
''', '''	m := maskMemo[mode]
	if mat.Width() > 21 && m != nil && m.mat.Width() == mat.Width() {
		return m
	}
	m = &mask{
		mat:      mat.Copy(),
'''), ('mask.go', '	m.masking()\n\n	return m\n', '	m.masking()\n	maskMemo[mode] = m\n\n	return m\n'),
   ('mask.go', 'func newMask(mat', '// maskMemo keeps the masks of the last size.\nvar maskMemo [8]*mask\n\nfunc newMask(mat')],
  demo='''
package qrcode

import (
	"sync"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				_, _ = NewWith("hello", WithVersion(1+(i+k)%4))
			}
		}(i)
	}
	wg.Wait()
}
''',
  needs='concurrent generation of symbols', breaks='data race on the memo of masks')

S(id='c11-binary-shared', property='C11', flags='-race ',
  edits=[('encoder.go', '	e.dst = binary.New()\n\n	var (', '	scratch = binary.New()\n	e.dst = scratch\n\n	var ('),
   ('encoder.go', '// Encode ...\n// 1.', '// scratch is the bit stream of the last text.\nvar scratch = binary.New()\n\n// Encode ...\n// 1.')],
  demo='''
package qrcode

import (
	"sync"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				_, _ = NewWith("hello", WithVersion(1+(i+k)%4))
			}
		}(i)
	}
	wg.Wait()
}
''',
  needs='concurrent generation of symbols', breaks='data race on the last bit stream')

S(id='c12-row-buffer', property='C12',
  edits=[('matrix.go', '	col := make([]qrvalue, m.height)\n	for w', '	if len(m.row) != m.height {\n		m.row = make([]qrvalue, m.height)\n	}\n	col := m.row\n	for w'),
    ('matrix.go', '	width  int\n	height int\n}\n\n// do', '	width  int\n	height int\n	row    []qrvalue // buffer of Row\n}\n\n// do')],
  demo=body('''	q := mustNew(t, "hello")
	m := matrixOf(q)
	a := m.Row(0)
	b := append([]QRValue(nil), a...)
	m.Row(9)
	for i := range a {
		if a[i] != b[i] {
			t.Fatal("reading a row changes the row read before")
		}
	}'''),
  needs='two rows held at the same time', breaks='the first changes when the second is read')

S(id='c12-iter-column-skip', property='C12',
  edits=[('matrix.go', '''	for w := 0; w < m.width; w++ {
		for h := 0; h < m.height; h++ {
			visitFn(w, h, m.mat[w][h])
		}
	}
}
''', '''	for w, column := range m.mat {
		for h, v := range column {
			if h < m.height && w < m.width && v != 0 {
				visitFn(w, h, v)
			}
		}
	}
}
'''), ('matrix.go', '		mat2[w] = make([]qrvalue, m.height)\n		copy(mat2[w], m.mat[w])\n', '		mat2[w] = append([]qrvalue(nil), m.mat[w]...)\n		mat2[w] = append(mat2[w], mat2[w][:m.width/40]...)\n')],
  demo=body('''	m := matrixOf(mustNew(t, "hello", WithVersion(20)))
	if c := m.Col(3); len(c) != m.Height() {
		t.Fatalf("column of %d modules", len(c))
	}'''),
  needs='a symbol of version 6 or larger', breaks='columns are longer than the symbol is high')

S(id='c14-eof', property='C14',
  edits=[('qrcode.go', '	return w.Write(*q.mat)\n', '	err := w.Write(*q.mat)\n	if err == io.EOF {\n		err = nil // the writer wants no more\n	}\n\n	return err\n'),
     ('qrcode.go', '	"fmt"\n	"log"\n', '	"fmt"\n	"io"\n	"log"\n')],
  demo=body('''	if err := mustNew(t, "hello").Save(sdW{io.EOF}); err != io.EOF {
		t.Fatalf("Save returns %v", err)
	}''').replace('\nfunc TestSeedDemo', '''
type sdW struct{ err error }

func (w sdW) Write(Matrix) error { return w.err }
func (w sdW) Close() error       { return nil }

func TestSeedDemo''').replace('import (\n', 'import (\n	"io"\n'),
  needs='a writer that fails with io.EOF', breaks='the failure is reported as success')

S(id='c14-retry', property='C14',
  edits=[('qrcode.go', '	return w.Write(*q.mat)\n', '	err := w.Write(*q.mat)\n	if t, ok := err.(interface{ Temporary() bool }); ok && t.Temporary() {\n		err = w.Write(*q.mat)\n	}\n\n	return err\n')],
  demo=body('''	w := &sdW{}
	_ = mustNew(t, "hello").Save(w)
	if w.n != 1 {
		t.Fatalf("%d writes", w.n)
	}''').replace('\nfunc TestSeedDemo', '''
type sdW struct{ n int }

func (w *sdW) Write(Matrix) error { w.n++; return syscall.EINTR }
func (w *sdW) Close() error       { return nil }

func TestSeedDemo''').replace('import (\n', 'import (\n	"syscall"\n'),
  needs='a writer that fails with a temporary error such as EINTR', breaks='the symbol is written twice')

S(id='c14-wrap', property='C14',
  edits=[('qrcode.go', '	return w.Write(*q.mat)\n', '	if err := w.Write(*q.mat); err != nil {\n		return fmt.Errorf("save: %w", err)\n	}\n\n	return nil\n')],
  demo=body('''	e := errors.New("x")
	if err := mustNew(t, "hello").Save(sdW{e}); err != e {
		t.Fatalf("Save returns %v", err)
	}''').replace('\nfunc TestSeedDemo', '''
type sdW struct{ err error }

func (w sdW) Write(Matrix) error { return w.err }
func (w sdW) Close() error       { return nil }

func TestSeedDemo''').replace('import (\n', 'import (\n	"errors"\n'),
  needs='a failing writer', breaks='another error than the writer\'s is returned')

S(id='c15-debug-mark', property='C15',
  edits=[('debug.go', '		// choose color, false use black, others use black on white background\n', '		if v.qrtype() == QRType_INIT && x > y {\n			_ = mat.set(x, y, v|1) // mark what is left\n		}\n		// choose color, false use black, others use black on white background\n')],
  demo='',
  needs='debug mode with an existing output directory', breaks='the symbol changes')
SEEDS.pop()
S(id='c15-debug-level', property='C15',
  edits=[('qrcode.go', '	debugLogf("ec bitsets: %s", q.ecBSet.String())\n', '	if debugEnabled() {\n		if q.v.Ver > 10 {\n			// more is not readable in the log\n			q.ecBSet, _ = q.ecBSet.Subset(0, q.ecBSet.Len()/8*8-8)\n			_ = q.ecBSet.AppendByte(0, 8)\n		}\n		debugLogf("ec bitsets: %s", q.ecBSet.String())\n	}\n')],
  demo=body('''	a := symbolHash(t, mustNew(t, "hello", WithVersion(12)))
	_debug = true
	log.SetOutput(io.Discard)
	b := symbolHash(t, mustNew(t, "hello", WithVersion(12)))
	if a != b {
		t.Fatal("debug mode changes the symbol")
	}''').replace('import (\n', 'import (\n	"io"\n	"log"\n'),
  needs='debug mode and version 11 or larger', breaks='the last error-correction codeword is zero')
S(id='c13-align-dark', property='C13',
  edits=[('qrcode.go', '	// add timing line\n	addTimingLine(q.mat, dimension)\n', '	if q.v.Ver < 40 {\n		// add timing line\n		addTimingLine(q.mat, dimension)\n	}\n'), ('qrcode.go', '''	// only version-1 QR code has no alignment module
	if q.v.Ver > 1 {
''', '''	if q.v.Ver == 40 {
		addTimingLine(q.mat, dimension)
	}
	// only version-1 QR code has no alignment module
	if q.v.Ver > 1 {
''')],
  demo=body('''	v := valueAt(mustNew(t, "hello", WithVersion(40)), 6, 30)
	if v.Type() != QRType_TIMING {
		t.Fatalf("module (6,30) is %v", v)
	}'''),
  needs='version 40', breaks='alignment patterns hide the timing tags')
