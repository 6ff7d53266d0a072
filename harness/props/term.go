package props

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"

	"github.com/yeqown/go-qrcode/writer/terminal"
	"pgregory.net/rapid"

	"verif/core"
)

// ---- C30: the terminal writer on a pseudo-terminal ----

type TermStep struct {
	Spec   Spec   `json:"spec"`
	Key    string `json:"key"` // bytes typed
	Resize bool   `json:"resize,omitempty"`
	Cols   int    `json:"cols"` // columns and rows beyond the needed ones
	Rows   int    `json:"rows"`
}

type TermCase struct {
	Steps []TermStep `json:"steps"`
}

// screen is a minimal xterm model: cursor addressing, SGR colours, clearing,
// alternate screen and cursor visibility.
type screen struct {
	mu     sync.Mutex
	cells  map[[2]int]cell
	x, y   int
	fg, bg int
	alt    bool
	hidden bool
	pend   []byte
	last   time.Time
}

type cell struct {
	ch     rune
	fg, bg int // -1: default
}

func newScreen() *screen { return &screen{cells: map[[2]int]cell{}, fg: -1, bg: -1} }

func (s *screen) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.last = time.Now()
	s.pend = append(s.pend, p...)
	for len(s.pend) > 0 {
		n := s.step(s.pend)
		if n == 0 {
			break
		}
		s.pend = s.pend[n:]
	}
	return len(p), nil
}

// step consumes one item, 0 if incomplete.
func (s *screen) step(b []byte) int {
	if b[0] == 0x1b {
		if len(b) < 2 {
			return 0
		}
		switch b[1] {
		case '[':
			for i := 2; i < len(b); i++ {
				if b[i] >= 0x40 && b[i] <= 0x7e {
					s.csi(string(b[2:i]), b[i])
					return i + 1
				}
			}
			return 0
		case ']':
			for i := 2; i < len(b); i++ {
				if b[i] == 7 {
					return i + 1
				}
			}
			return 0
		case '(', ')':
			if len(b) < 3 {
				return 0
			}
			return 3
		}
		return 2
	}
	switch b[0] {
	case '\r':
		s.x = 0
		return 1
	case '\n':
		s.y++
		return 1
	case '\b':
		s.x = max(0, s.x-1)
		return 1
	}
	if b[0] < 0x20 || b[0] == 0x7f {
		return 1
	}
	if !utf8.FullRune(b) {
		return 0
	}
	r, n := utf8.DecodeRune(b)
	s.cells[[2]int{s.x, s.y}] = cell{r, s.fg, s.bg}
	s.x++
	return n
}

func (s *screen) csi(par string, final byte) {
	if strings.HasPrefix(par, "?") {
		on := final == 'h'
		for _, p := range strings.Split(par[1:], ";") {
			switch p {
			case "1049", "47", "1047":
				s.alt = on
			case "25":
				s.hidden = !on
			}
		}
		return
	}
	var ns []int
	for _, f := range strings.Split(par, ";") {
		n := 0
		_, _ = fmt.Sscanf(f, "%d", &n)
		ns = append(ns, n)
	}
	arg := func(i, def int) int {
		if i < len(ns) && ns[i] != 0 {
			return ns[i]
		}
		return def
	}
	switch final {
	case 'H', 'f':
		s.y, s.x = arg(0, 1)-1, arg(1, 1)-1
	case 'A':
		s.y -= arg(0, 1)
	case 'B':
		s.y += arg(0, 1)
	case 'C':
		s.x += arg(0, 1)
	case 'D':
		s.x -= arg(0, 1)
	case 'G':
		s.x = arg(0, 1) - 1
	case 'd':
		s.y = arg(0, 1) - 1
	case 'J':
		if arg(0, 0) >= 2 || (s.x == 0 && s.y == 0) {
			s.cells = map[[2]int]cell{}
		}
	case 'K':
		for x := s.x; x < 1000; x++ {
			delete(s.cells, [2]int{x, s.y})
		}
	case 'm':
		for i := 0; i < len(ns); i++ {
			switch n := ns[i]; {
			case n == 0:
				s.fg, s.bg = -1, -1
			case n >= 30 && n <= 37:
				s.fg = n - 30
			case n >= 40 && n <= 47:
				s.bg = n - 40
			case n >= 90 && n <= 97:
				s.fg = n - 90 + 8
			case n >= 100 && n <= 107:
				s.bg = n - 100 + 8
			case n == 39:
				s.fg = -1
			case n == 49:
				s.bg = -1
			case n == 38 || n == 48:
				if i+2 < len(ns) && ns[i+1] == 5 {
					if n == 38 {
						s.fg = ns[i+2]
					} else {
						s.bg = ns[i+2]
					}
					i += 2
				} else if i+4 < len(ns) && ns[i+1] == 2 {
					v := 1<<24 | ns[i+2]<<16 | ns[i+3]<<8 | ns[i+4]
					if n == 38 {
						s.fg = v
					} else {
						s.bg = v
					}
					i += 4
				}
			}
		}
	}
}

// shade is what one sees in a cell: 'd' dark, 'l' light, '.' default, or '?'.
func (s *screen) shade(x, y int) byte {
	c, ok := s.cells[[2]int{x, y}]
	if !ok {
		return '.'
	}
	col := c.bg
	switch c.ch {
	case '█':
		col = c.fg
	case ' ':
	default:
		return '?'
	}
	switch col {
	case -1:
		if c.ch == ' ' {
			return '.'
		}
		return '?'
	case 0, 16, 1 << 24:
		return 'd'
	case 7, 15, 231, 1<<24 | 0xffffff:
		return 'l'
	}
	return '?'
}

func (s *screen) row(y int) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var b strings.Builder
	for x := 0; x < 400; x++ {
		c, ok := s.cells[[2]int{x, y}]
		if !ok || c.ch == 0 {
			b.WriteByte(' ')
		} else {
			b.WriteRune(c.ch)
		}
	}
	return strings.TrimRight(b.String(), " ")
}

const termTip = "Press any key to quit."

// hint returns the row that shows the quit hint, -1 if none.
func (s *screen) hint(rows int) int {
	for y := 0; y < rows; y++ {
		if strings.Contains(s.row(y), termTip) {
			return y
		}
	}
	return -1
}

// ---- pseudo-terminal ----

func ioctl(fd uintptr, req, arg uintptr) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, arg); e != 0 {
		return e
	}
	return nil
}

func openPty() (master, slave *os.File, err error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	master = os.NewFile(uintptr(fd), "/dev/ptmx")
	var unlock, n int32
	if err = ioctl(uintptr(fd), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))); err == nil {
		err = ioctl(uintptr(fd), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n)))
	}
	if err == nil {
		slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	return master, slave, nil
}

func setSize(f *os.File, cols, rows int) error {
	ws := [4]uint16{uint16(rows), uint16(cols)}
	return ioctl(f.Fd(), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws)))
}

func termios(f *os.File) (t syscall.Termios, err error) {
	err = ioctl(f.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&t)))
	return
}

// ServeTerminal is the child: for each spec line on descriptor 3 it saves the
// symbol through a terminal writer and answers on descriptor 4.
func serveTerminal() int {
	log.SetOutput(io.Discard)
	in := bufio.NewScanner(os.NewFile(3, "in"))
	in.Buffer(nil, 1<<22)
	out := os.NewFile(4, "out")
	for in.Scan() {
		var s Spec
		if err := json.Unmarshal(in.Bytes(), &s); err != nil {
			return 3
		}
		q, err := s.New()
		if err != nil {
			return 4
		}
		w := terminal.New()
		err = q.Save(w)
		msg := "ok"
		if err != nil {
			msg = "error: " + err.Error()
		}
		if _, err := out.WriteString(msg + "\n"); err != nil {
			return 5
		}
	}
	return 0
}

func checkTerm(c TermCase, r *core.Rec) error {
	var bits [][][]bool
	for _, st := range c.Steps {
		_, b, err := symbolFor(st.Spec)
		if err != nil {
			return skip(err)
		}
		bits = append(bits, b)
	}
	master, slave, err := openPty()
	if err != nil {
		panic("harness: no pseudo-terminal: " + err.Error())
	}
	defer master.Close()
	defer slave.Close()
	self, err := os.Executable()
	if err != nil {
		return nil
	}
	inR, inW, err := os.Pipe()
	if err != nil {
		return nil
	}
	outR, outW, err := os.Pipe()
	if err != nil {
		return nil
	}
	defer inW.Close()
	defer outR.Close()
	size := func(i int) (int, int) {
		n := len(bits[i])
		return 2*(n+2) + c.Steps[i].Cols, n + 4 + c.Steps[i].Rows
	}
	cols, rows := size(0)
	if err := setSize(master, cols, rows); err != nil {
		return nil
	}
	before, err := termios(master)
	if err != nil {
		return nil
	}
	scr := newScreen()
	go func() { _, _ = io.Copy(scr, master) }()
	errs := &tailBuffer{}
	cmd := exec.Command(self, "serve", "terminal")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = slave, slave, errs
	cmd.ExtraFiles = []*os.File{inR, outW}
	cmd.Env = append(os.Environ(), "TERM=xterm-256color")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if err := cmd.Start(); err != nil {
		return nil
	}
	inR.Close()
	outW.Close()
	ended := make(chan struct{})
	go func() { _ = cmd.Wait(); close(ended) }()
	defer func() { _ = cmd.Process.Kill(); <-ended }()
	answers := make(chan string, 4)
	go func() {
		sc := bufio.NewScanner(outR)
		for sc.Scan() {
			answers <- sc.Text()
		}
		close(answers)
	}()
	died := func(i int) error {
		<-ended
		return fmt.Errorf("step %d: the process ended: %.600s", i, errs.b)
	}
	for i, st := range c.Steps {
		n := len(bits[i])
		cols, rows = size(i)
		if err := setSize(master, cols, rows); err != nil {
			return nil
		}
		line, _ := json.Marshal(st.Spec)
		if _, err := inW.Write(append(line, '\n')); err != nil {
			return died(i)
		}
		deadline := time.Now().Add(25 * time.Second)
		tip := -1
		for tip < 0 {
			select {
			case a, ok := <-answers:
				if !ok {
					return died(i)
				}
				return fmt.Errorf("step %d: the writer returned (%s) before any key was pressed", i, a)
			case <-time.After(2 * time.Millisecond):
			}
			if st.Rows < 0 { // no room for the hint
				if checkScreen(scr, bits[i], cols, rows, rows) == nil || time.Now().After(deadline) {
					break
				}
				continue
			}
			if tip = scr.hint(rows); tip < 0 && time.Now().After(deadline) {
				return fmt.Errorf("step %d: the hint %q does not appear on a %dx%d terminal", i, termTip, cols, rows)
			}
		}
		settle(scr)
		if st.Rows < 0 {
			tip = rows
		}
		if err := checkScreen(scr, bits[i], cols, rows, tip); err != nil {
			return fmt.Errorf("step %d (%dx%d terminal): %w", i, cols, rows, err)
		}
		if st.Resize {
			if err := setSize(master, cols+7, rows+5); err != nil {
				return nil
			}
		}
		select {
		case a, ok := <-answers:
			if !ok {
				return died(i)
			}
			return fmt.Errorf("step %d: the writer returned (%s) before any key was pressed (resize %v)", i, a, st.Resize)
		case <-time.After(20 * time.Millisecond):
		}
		if _, err := master.Write([]byte(st.Key)); err != nil {
			return nil
		}
		select {
		case a, ok := <-answers:
			if !ok {
				return died(i)
			}
			if a != "ok" {
				return fmt.Errorf("step %d: Save returns %s", i, a)
			}
		case <-time.After(25 * time.Second):
			return fmt.Errorf("step %d: the writer does not return after key %q", i, st.Key)
		}
		// the answer may overtake the last output
		for end := time.Now().Add(5 * time.Second); ; time.Sleep(time.Millisecond) {
			after, err := termios(master)
			if err != nil {
				return nil
			}
			scr.mu.Lock()
			alt, hidden := scr.alt, scr.hidden
			scr.mu.Unlock()
			if after == before && !alt && !hidden {
				break
			}
			if time.Now().After(end) {
				return fmt.Errorf("step %d: the terminal is not restored: alternate screen %v, cursor hidden %v, modes %+v, were %+v", i, alt, hidden, after, before)
			}
		}
		r.Class("version %d", (n-17)/4)
		r.Class("key %q", st.Key)
		r.Class("resize %v", st.Resize)
		// what is typed but not read must not reach the next writer
		flushInput(master)
	}
	inW.Close()
	select {
	case <-ended:
	case <-time.After(25 * time.Second):
		return fmt.Errorf("the process does not end")
	}
	r.Nontrivial()
	r.Class("writers %d", len(c.Steps))
	return nil
}

func flushInput(f *os.File) { _ = ioctl(f.Fd(), 0x540B /* TCFLSH */, 2) }

// settle waits until the output has been quiet for a moment.
func settle(s *screen) {
	for i := 0; i < 400; i++ {
		s.mu.Lock()
		quiet := time.Since(s.last) > 10*time.Millisecond && len(s.pend) == 0
		s.mu.Unlock()
		if quiet {
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func checkScreen(s *screen, bits [][]bool, cols, rows, tip int) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := len(bits)
	for y := 0; y < n+2; y++ {
		for x := 0; x < n+2; x++ {
			want := byte('l')
			if x > 0 && y > 0 && x <= n && y <= n && bits[y-1][x-1] {
				want = 'd'
			}
			for k := 0; k < 2; k++ {
				if got := s.shade(2*x+k, y); got != want {
					return fmt.Errorf("column %d, row %d (module %d,%d) shows %c (%+v), want %c", 2*x+k, y, x-1, y-1, got, s.cells[[2]int{2*x + k, y}], want)
				}
			}
		}
		for x := 2 * (n + 2); x < cols; x++ {
			if got := s.shade(x, y); got != '.' {
				return fmt.Errorf("column %d, row %d, right of the margin, shows %c", x, y, got)
			}
		}
	}
	if tip < n+2 {
		return fmt.Errorf("the hint is in row %d, inside the symbol of %d rows", tip, n+2)
	}
	for y := n + 2; y < rows && tip < rows; y++ { // without room for the hint it may be anywhere there
		for x := 0; x < cols; x++ {
			if got := s.shade(x, y); y != tip && got != '.' {
				return fmt.Errorf("column %d, row %d, below the margin, shows %c", x, y, got)
			}
		}
	}
	return nil
}

var termKeys = []string{"q", " ", "\r", "\n", "\x03", "\t", "\x7f", "Z", "0", "é", "字", "\x1bOA", "\x1bOP", "\x1b", "\x01", "~"}

func init() {
	core.Register(core.Def[TermCase]{
		ID:   "C30",
		Rule: "one case = up to 3 symbols saved one after another through terminal writers of one process on a pseudo-terminal just large enough for the symbol, for symbol and hint, or larger, with a window resize in between or not and a generated key; oracle = a small xterm model shows every module as two cells inside a light margin of one module with nothing else painted but the hint below, the writer does not return before the key and does after it, terminal modes, screen and cursor are restored; all completed cases are non-trivial",
		Assumptions: []string{
			"xterm-256color escape sequences as interpreted by the model in term.go",
			"not returning before the key is observed for 20 ms",
		},
		Cells: func(t core.Tier) []core.Cell[TermCase] {
			var cells []core.Cell[TermCase]
			for i := 0; i < 16; i++ {
				i := i
				cells = append(cells, core.Cell[TermCase]{Name: fmt.Sprintf("term-%d", i), Runs: t.N(15, 500), Gen: func(t *rapid.T) TermCase {
					var c TermCase
					for k := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "writers"); k > 0; k-- {
						top := 10
						if i == 0 {
							top = 40
						}
						st := TermStep{Spec: genDraw(t, top), Key: rapid.SampledFrom(termKeys).Draw(t, "key"), Resize: rapid.IntRange(0, 3).Draw(t, "resize") == 0}
						if rapid.Bool().Draw(t, "larger") {
							st.Cols, st.Rows = rapid.IntRange(0, 60).Draw(t, "cols"), rapid.IntRange(0, 20).Draw(t, "rows")
						} else if rapid.IntRange(0, 2).Draw(t, "tight") == 0 {
							st.Rows = rapid.IntRange(-2, 0).Draw(t, "rows") // the symbol fits, the hint may not
						}
						c.Steps = append(c.Steps, st)
					}
					return c
				}})
			}
			return cells
		},
		Check: checkTerm,
	})
}
