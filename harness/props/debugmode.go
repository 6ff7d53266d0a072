package props

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/yeqown/go-qrcode/v2"
	"pgregory.net/rapid"

	"verif/core"
)

// helper is a child process answering JSON lines.
type helper struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errs *tailBuffer
}

type tailBuffer struct{ b []byte }

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 8000 {
		t.b = t.b[len(t.b)-8000:]
	}
	return len(p), nil
}

func startHelper(dir string, env []string, name string, args ...string) (*helper, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = env
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	h := &helper{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), errs: &tailBuffer{}}
	cmd.Stderr = h.errs
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return h, nil
}

// call sends a request and decodes one answer; an error means the process died
// or did not answer in time.
func (h *helper) call(req, resp any) error {
	b, err := json.Marshal(req)
	if err != nil {
		return err
	}
	if _, err := h.in.Write(append(b, '\n')); err != nil {
		return h.dead(err)
	}
	type ans struct {
		line []byte
		err  error
	}
	ch := make(chan ans, 1)
	go func() {
		line, err := h.out.ReadBytes('\n')
		ch <- ans{line, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			return h.dead(a.err)
		}
		if err := json.Unmarshal(a.line, resp); err != nil {
			return fmt.Errorf("answer %.200q: %v", a.line, err)
		}
		return nil
	case <-time.After(60 * time.Second):
		_ = h.cmd.Process.Kill()
		_ = h.cmd.Wait()
		return fmt.Errorf("no answer in 60s")
	}
}

func (h *helper) dead(err error) error {
	_ = h.in.Close()
	werr := h.cmd.Wait()
	s := string(h.errs.b)
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return fmt.Errorf("process ended (%v, %v): %s", err, werr, s)
}

type debugReply struct {
	Rejected bool     `json:"rejected"`
	Rows     []string `json:"rows"`
	Err      string   `json:"err"`
}

// Serve is the body of helper processes.
func Serve(kind string) int {
	log.SetOutput(io.Discard)
	if kind == "platform" {
		return servePlat()
	}
	if kind == "terminal" {
		return serveTerminal()
	}
	if kind == "debugcall" {
		qrcode.SetDebugMode()
	}
	out := bufio.NewWriter(os.Stdout)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<22)
	for sc.Scan() {
		var s Spec
		var rep debugReply
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			rep.Err = err.Error()
		} else {
			func() {
				defer func() {
					if v := recover(); v != nil {
						rep.Err = fmt.Sprint("panic: ", v)
					}
				}()
				o, _, err := build(s)
				if err != nil {
					rep.Err = err.Error()
					return
				}
				rep.Rejected = o.err
				rep.Rows = rows(o.bits)
			}()
		}
		b, _ := json.Marshal(rep)
		out.Write(append(b, '\n'))
		out.Flush()
	}
	return 0
}

func rows(bits [][]bool) []string {
	var out []string
	for _, r := range bits {
		b := make([]byte, len(r))
		for i, v := range r {
			b[i] = '0'
			if v {
				b[i] = '1'
			}
		}
		out = append(out, string(b))
	}
	return out
}

func bitsOfRows(rows []string) [][]bool {
	var out [][]bool
	for _, r := range rows {
		b := make([]bool, len(r))
		for i := range r {
			b[i] = r[i] == '1'
		}
		out = append(out, b)
	}
	return out
}

// Debug is one spec built with debug mode on.
type Debug struct {
	Spec  Spec   `json:"spec"`
	How   string `json:"how"`   // "call" or a value of the environment variable
	Draft bool   `json:"draft"` // debug output directory exists
}

var debugHelpers = map[string]*helper{}

func debugHelper(how string, draft bool) (*helper, error) {
	key := fmt.Sprint(how, draft)
	if h := debugHelpers[key]; h != nil {
		return h, nil
	}
	dir := filepath.Join(core.Scratch(), "debug-"+key)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	if draft {
		if err := os.MkdirAll(filepath.Join(dir, "draft"), 0o755); err != nil {
			return nil, err
		}
	}
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	kind, env := "debugcall", os.Environ()
	if how != "call" {
		kind = "debugenv"
		env = append(env, "QRCODE_DEBUG="+how)
	}
	h, err := startHelper(dir, env, self, "serve", kind)
	if err != nil {
		return nil, err
	}
	debugHelpers[key] = h
	return h, nil
}

func init() {
	core.Register(core.Def[Debug]{
		ID:   "C15",
		Rule: "one case = one spec built in a process with debug mode on (by environment value or by call, with or without the debug output directory) and in this process with it off; oracle = same decision and same symbol; non-trivial = a symbol compared",
		Cells: func(t core.Tier) []core.Cell[Debug] {
			gen := func(draft bool) func(t *rapid.T) Debug {
				return func(t *rapid.T) Debug {
					s := genSmall(t)
					for i := range s.Opts {
						if draft && (s.Opts[i].K == "ver" || s.Opts[i].K == "minver") {
							s.Opts[i].V = 1 + s.Opts[i].V%8
						}
					}
					return Debug{s, rapid.SampledFrom([]string{"call", "1", "true", "TRUE", "enabled", "ENABLED"}).Draw(t, "how"), draft}
				}
			}
			var cells []core.Cell[Debug]
			for i := 0; i < 16; i++ {
				cells = append(cells, core.Cell[Debug]{Name: fmt.Sprintf("nodraft-%d", i), Runs: t.N(50, 1500), Gen: gen(false)},
					core.Cell[Debug]{Name: fmt.Sprintf("draft-%d", i), Runs: t.N(10, 200), Gen: gen(true)})
			}
			return cells
		},
		Setup: func() error {
			os.Unsetenv("QRCODE_DEBUG")
			return nil
		},
		Check: func(d Debug, r *core.Rec) error {
			want, _, err := build(d.Spec)
			if err != nil {
				return err
			}
			h, err := debugHelper(d.How, d.Draft)
			if err != nil {
				return err
			}
			var rep debugReply
			if err := h.call(d.Spec, &rep); err != nil {
				delete(debugHelpers, fmt.Sprint(d.How, d.Draft))
				return fmt.Errorf("debug mode (%s, output directory %v): %v", d.How, d.Draft, err)
			}
			if rep.Err != "" {
				return fmt.Errorf("debug mode (%s): %s", d.How, rep.Err)
			}
			got := outcome{err: rep.Rejected, bits: bitsOfRows(rep.Rows)}
			if !got.same(want) {
				return fmt.Errorf("debug mode (%s, output directory %v) changes the result: %s", d.How, d.Draft, got.diff(want))
			}
			if !got.err {
				r.Nontrivial()
			}
			r.Class("how=%s draft=%v", d.How, d.Draft)
			return nil
		},
	})
}
