exec(open('/verif/tools/seeds/image.py').read())
SEEDS = []
SD = '''
type sdSink struct{}

func (sdSink) Write(p []byte) (int, error) { return len(p), nil }
func (sdSink) Close() error                { return nil }
'''
def fdemo(pkg, imports, b):
    return f'''
package {pkg}

import (
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"testing"
{imports})

func sdOpen(dir string) (n int) {{
	fds, _ := filepath.Glob("/proc/self/fd/*")
	for _, f := range fds {{
		if l, err := os.Readlink(f); err == nil && strings.HasPrefix(l, dir) {{
			n++
		}}
	}}
	return n
}}

func TestSeedDemo(t *testing.T) {{
	debug.SetGCPercent(-1)
	dir := t.TempDir()
{b}
	if n := sdOpen(dir); n != 0 {{
		t.Fatalf("%d files are still open", n)
	}}
}}
'''
S(id='c35-logo-open', property='C35', pkg=W,
  edits=[('writer/standard/image_option_api.go', '''			fmt.Printf("could not open file(%s), error=%v\\n", f, err)
			return
		}
		defer fd.Close()

		img, err := jpeg.Decode(fd)
		if err != nil {
			fmt.Printf("could not open file(%s), error=%v\\n", f, err)
			return
		}

''', '''			fmt.Printf("could not open file(%s), error=%v\\n", f, err)
			return
		}

		img, err := jpeg.Decode(fd)
		if err != nil {
			fmt.Printf("could not open file(%s), error=%v\\n", f, err)
			return
		}
		_ = fd.Close()

''')],
  demo=fdemo('standard', '', '''	f := filepath.Join(dir, "logo.jpg")
	if err := os.WriteFile(f, []byte("no picture"), 0o644); err != nil {
		t.Fatal(err)
	}
	NewWithWriter(os.Stderr, WithLogoImageFileJPEG(f))'''),
  needs='a logo file that is no JPEG', breaks='the file stays open')
S(id='c35-kit-temp', property='C35', pkg='writer/standard/imgkit',
  edits=[('writer/standard/imgkit/io.go', '''	fd, err := os.Create(filename)
	if err != nil {
		return err
	}
	defer fd.Close()

	switch''', '''	// write to a temporary file first, so that the target is never incomplete
	fd, err := os.CreateTemp(filepath.Dir(filename), ".imgkit-*")
	if err != nil {
		return err
	}
	defer fd.Close()

	switch'''), ('writer/standard/imgkit/io.go', '''	return err
}
''', '''	if err != nil {
		return err
	}

	return os.Rename(fd.Name(), filename)
}
''')],
  demo=fdemo('imgkit', '	"image"\n', '''	_ = Save(image.NewGray(image.Rect(0, 0, 3, 3)), filepath.Join(dir, "x.gif"))
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if e.Name() != "x.gif" {
			t.Fatal("left behind: " + e.Name())
		}
	}'''),
  needs='saving a picture with an unsupported extension', breaks='a temporary file is left behind')
S(id='c35-ticker', property='C35',
  edits=[('qrcode.go', '''	// initialize QRCode instance
	if err := qrc.init(); err != nil {
		return nil, err
	}

	qrc.masking()
''', '''	started, done := time.Now(), make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(time.Minute):
			debugLogf("still busy after %v", time.Since(started))
		}
	}()
	// initialize QRCode instance
	err := qrc.init()
	if err != nil {
		return nil, err
	}

	qrc.masking()
	close(done)
'''), ('qrcode.go', '	"sync"\n', '	"sync"\n	"time"\n')],
  demo='''
package qrcode

import (
	"runtime"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	n := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		if _, err := NewWith("abc", WithEncodingMode(EncModeNumeric)); err == nil {
			t.Fatal("accepted")
		}
	}
	time.Sleep(300 * time.Millisecond)
	if m := runtime.NumGoroutine(); m > n+5 {
		t.Fatalf("%d goroutines, %d before", m, n)
	}
}
''',
  needs='texts that are refused', breaks='a goroutine stays for a minute for each of them')
S(id='c35-registry', property='C35',
  edits=[('qrcode.go', '''	qrc.masking()

	return qrc, nil
''', '''	qrc.masking()
	built.Store(qrc.sourceText, qrc.v.Ver)

	return qrc, nil
'''), ('qrcode.go', '''	if err := qrc.init(); err != nil {
		return nil, err
	}
''', '''	err := qrc.init()
	if err != nil {
		return nil, err
	}
'''), ('qrcode.go', '// QRCode contains fields to generate', '''// built are the versions of the texts seen, for statistics.
var built sync.Map

// QRCode contains fields to generate''')],
  demo='''
package qrcode

import (
	"fmt"
	"runtime"
	"testing"
)

func live() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func TestSeedDemo(t *testing.T) {
	use := func(k int) {
		for i := 0; i < 1500; i++ {
			if _, err := New(fmt.Sprintf("a text of a few dozen characters %d %d", k, i)); err != nil {
				t.Fatal(err)
			}
		}
	}
	use(0)
	a := live()
	use(1)
	b := live()
	use(2)
	c := live()
	if b > a+80000 && c > b+80000 {
		t.Fatalf("live memory grows: %d %d %d", a, b, c)
	}
}
''',
  needs='many different texts in one process', breaks='memory grows with every text')
S(id='c35-compressed-open', property='C35', pkg='writer/compressed',
  edits=[('writer/compressed/writer.go', '	return w.fd.Close()\n', '''	if w.failed != nil && *w.failed {
		return nil // nothing to flush
	}

	return w.fd.Close()
''')],
  demo='', needs='', breaks='')
SEEDS.pop()
S(id='c35-cwd', property='C35', pkg=W,
  edits=[('writer/standard/writer.go', '	fd, err := os.OpenFile(filename, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)\n', '''	// long paths are opened from their directory
	name := filename
	if dir := filepath.Dir(filename); len(filename) > 100 && os.Chdir(dir) == nil {
		name = filepath.Base(filename)
	}
	fd, err := os.OpenFile(name, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
'''), ('writer/standard/writer.go', '	"os"\n', '	"os"\n	"path/filepath"\n')],
  demo='''
package standard

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	dir := filepath.Join(t.TempDir(), strings.Repeat("d", 100))
	if err := os.Mkdir(dir, 0o755); err != nil {
		t.Fatal(err)
	}
	old, _ := os.Getwd()
	w, err := New(filepath.Join(dir, "x.png"))
	if err != nil {
		t.Fatal(err)
	}
	_ = w.Close()
	if now, _ := os.Getwd(); now != old {
		os.Chdir(old)
		t.Fatal("the working directory changed")
	}
}
''',
  needs='an output path longer than 100 characters', breaks='the working directory of the process changes')
