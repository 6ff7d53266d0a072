SEEDS = []
def S(**k): SEEDS.append(k)
P = 'writer/terminal'
F = 'writer/terminal/writer.go'

PRE = '''
package terminal

import (
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/yeqown/go-qrcode/v2"
)

var _ = sha256.New
var _ = strings.Contains

func sdIoctl(f *os.File, req, arg uintptr) {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, arg); e != 0 {
		panic(e)
	}
}

type sdTerm struct {
	m    *os.File
	cmd  *exec.Cmd
	mu   sync.Mutex
	out  []byte
	done chan error
}

func (s *sdTerm) size(cols, rows uint16) {
	ws := [4]uint16{rows, cols, 0, 0}
	sdIoctl(s.m, 0x5414, uintptr(unsafe.Pointer(&ws)))
}

func (s *sdTerm) text() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return string(s.out)
}

// wait waits until the output is quiet and holds the hint n times.
func (s *sdTerm) wait(t *testing.T, n int) {
	for i, last := 0, -1; i < 400; i++ {
		time.Sleep(25 * time.Millisecond)
		o := s.text()
		if strings.Count(o, "Press") >= n && len(o) == last {
			return
		}
		if i%8 == 0 {
			last = len(o)
		}
	}
	t.Fatalf("no hint; output %.300q", s.text())
}

func (s *sdTerm) ended(d time.Duration) bool {
	select {
	case <-s.done:
		return true
	case <-time.After(d):
		return false
	}
}

// sdStart shows the symbols of versions vs one after another on a terminal.
func sdStart(t *testing.T, cols, rows uint16, vs string) *sdTerm {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		t.Fatal(err)
	}
	var n, zero uint32
	sdIoctl(m, 0x80045430, uintptr(unsafe.Pointer(&n)))
	sdIoctl(m, 0x40045431, uintptr(unsafe.Pointer(&zero)))
	sl, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		t.Fatal(err)
	}
	s := &sdTerm{m: m, done: make(chan error, 1)}
	s.size(cols, rows)
	s.cmd = exec.Command(os.Args[0], "-test.run", "^TestSeedDemo$", "-test.timeout", "60s")
	s.cmd.Env = append(os.Environ(), "SD_CHILD="+vs, "TERM=xterm")
	s.cmd.Stdin, s.cmd.Stdout, s.cmd.Stderr = sl, sl, sl
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if err := s.cmd.Start(); err != nil {
		t.Fatal(err)
	}
	go func() { s.done <- s.cmd.Wait() }()
	sl.Close()
	go func() {
		b := make([]byte, 4096)
		for {
			n, err := m.Read(b)
			s.mu.Lock()
			s.out = append(s.out, b[:n]...)
			s.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	t.Cleanup(func() { s.cmd.Process.Kill(); m.Close() })
	return s
}

func sdChild(vs string) {
	for _, f := range strings.Fields(vs) {
		v := 0
		fmt.Sscan(f, &v)
		q, err := qrcode.NewWith("hello", qrcode.WithVersion(v))
		if err != nil {
			panic(err)
		}
		if err := q.Save(New()); err != nil {
			os.Stdout.WriteString("SAVE " + err.Error())
			os.Exit(4)
		}
		os.Stdout.WriteString("SAVED")
	}
	os.Exit(0)
}

func sdSum(s string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(s)))[:24] }

func TestSeedDemo(t *testing.T) {
	if vs := os.Getenv("SD_CHILD"); vs != "" {
		sdChild(vs)
	}
'''
def demo(b): return PRE + b + '\n}\n'
def fp(cols, rows, vs):
    n = len(vs.split())
    b = f'	s := sdStart(t, {cols}, {rows}, "{vs}")\n'
    for i in range(n):
        b += f'''	s.wait(t, {i+1})
	s.m.WriteString("q")
'''
    b += '''	if !s.ended(10 * time.Second) {
		t.Fatal("the writer does not return after a key")
	}
	time.Sleep(100 * time.Millisecond)
	got := sdSum(s.text())
	fmt.Println("GOT=" + got)
	if got != "@WANT@" {
		t.Fatal("other output")
	}'''
    return demo(b)

S(id='c30-resize-quit', property='C30', pkg=P,
  edits=[(F, '		case termbox.EventKey:\n			break wait\n', '		case termbox.EventKey, termbox.EventResize:\n			break wait\n')],
  demo=demo('''	s := sdStart(t, 80, 40, "1")
	s.wait(t, 1)
	s.size(90, 45)
	if s.ended(2 * time.Second) {
		t.Fatal("the writer returns when the window is resized")
	}
	s.m.WriteString("q")
	if !s.ended(10 * time.Second) {
		t.Fatal("the writer does not return after a key")
	}'''),
  needs='a window resize while the code is shown', breaks='the writer returns without a key press')
S(id='c30-esc-ignored', property='C30', pkg=P,
  edits=[(F, '		case termbox.EventKey:\n			break wait\n', '		case termbox.EventKey:\n			if ev.Ch != 0 || ev.Key > termbox.KeyCtrl8 || ev.Key == termbox.KeyEsc || ev.Key == termbox.KeyEnter {\n				break wait\n			}\n')],
  demo=demo('''	s := sdStart(t, 80, 40, "1")
	s.wait(t, 1)
	s.m.WriteString("\\t")
	if !s.ended(3 * time.Second) {
		t.Fatal("the writer does not return after the tab key")
	}'''),
  needs='a key other than a character, escape or enter (tab, space, control keys)', breaks='the key does not end the display')
S(id='c30-byte-column', property='C30', pkg=P,
  edits=[(F, '	x1, y1 := x*2+2*padding, y+padding\n', '	x1, y1 := int(uint8(x*2+2*padding)), y+padding\n')],
  demo=fp(400, 160, '29'),
  needs='a symbol wider than 127 modules', breaks='columns beyond 255 wrap around to the left')
S(id='c30-last-size', property='C30', pkg=P,
  edits=[(F, '	padding, curRow := 1, 0\n	w.preDraw(ww, hh, padding, bg)\n', '	padding, curRow := 1, 0\n	if ww != painted {\n		w.preDraw(ww, hh, padding, bg)\n		painted = ww // the margin is still there\n	}\n'),
    (F, 'type Writer struct{}\n', 'type Writer struct{}\n\nvar painted int\n')],
  demo=fp(100, 50, '1 1'),
  needs='two symbols of the same size shown one after another', breaks='the second has no light margin')
S(id='c30-no-restore', property='C30', pkg=P,
  edits=[(F, '	if err := termbox.Flush(); err != nil {\n		return err\n	}\n\nwait:', '	if err := termbox.Flush(); err != nil {\n		return err\n	}\n\n	shown++\n\nwait:'),
    (F, '	termbox.Close()\n\n	return nil\n', '	if termbox.IsInit && shown%2 == 1 {\n		termbox.Close()\n	}\n\n	return nil\n'), (F, 'type Writer struct{}\n', 'type Writer struct{}\n\nvar shown int\n')],
  demo=fp(100, 50, '1 2'),
  needs='a second code in the same process', breaks='the terminal is not restored after it')
S(id='c30-hint-inside', property='C30', pkg=P,
  edits=[(F, '	printTip(curRow + 2*padding + 1 + 1)\n', '	_, rows := termbox.Size()\n	tip := curRow + 2*padding + 1 + 1\n	if tip >= rows {\n		tip = rows - 1 // keep it visible\n	}\n	printTip(tip)\n')],
  demo=fp(60, 23, '1').replace('	s.wait(t, 1)\n', '	time.Sleep(2 * time.Second)\n'),
  needs='a terminal that is just high enough for the symbol with its margin', breaks='the hint is painted over the lower margin and hides modules')
S(id='c30-clipped-right', property='C30', pkg=P,
  edits=[(F, "	termbox.SetCell(x2, y2, '█', fg, bg)\n", "	if c, _ := termbox.Size(); x2 < c-1 {\n		termbox.SetCell(x2, y2, '█', fg, bg)\n	}\n")],
  demo=fp(46, 30, '1'),
  needs='a terminal that is exactly as wide as the code with its margin', breaks='the last column is not painted')
S(id='c30-state-data', property='C30', pkg=P,
  edits=[(F, '		if state.IsSet() {\n', '		if state.IsSet() && (state.Type() != qrcode.QRType_VERSION || x > y) {\n')],
  demo=fp(120, 60, '7'),
  needs='a symbol with version information', breaks='the lower left copy is painted white')
