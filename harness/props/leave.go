package props

import (
	"errors"
	"fmt"
	"image"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/yeqown/go-qrcode/writer/file"
	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/imgkit"
	"pgregory.net/rapid"

	"verif/core"
)

// ---- C35: nothing is left behind ----

// LeaveOp is one use of the library.
type LeaveOp struct {
	Op    string `json:"op"` // build save nil stream file closeonly picture text read write
	Spec  Spec   `json:"spec"`
	Kind  Kind   `json:"kind,omitempty"`
	Out   Out    `json:"out"`
	State string `json:"state,omitempty"` // of the file: ok missing corrupt dir noparent
	Fault string `json:"fault,omitempty"` // of the stream: "" sticky once
	At    int    `json:"at,omitempty"`
	Via   string `json:"via,omitempty"` // picture: logopng logojpeg halftone; write: extension
}

// Leave is a history of uses, or Rounds times the same uses with other texts.
type Leave struct {
	Ops    []LeaveOp `json:"ops"`
	Repeat int       `json:"repeat,omitempty"`
}

// run performs the operation below dir. Its results are judged by other
// properties, here only what remains of it counts.
func (o LeaveOp) run(dir string, i int) {
	defer func() { _ = recover() }() // of a writer that panics
	path := func(ext string) string {
		p := filepath.Join(dir, fmt.Sprintf("f%d%s", i, ext))
		switch o.State {
		case "dir":
			return dir
		case "noparent":
			return filepath.Join(dir, "missing", "x"+ext)
		case "deep":
			d := filepath.Join(dir, strings.Repeat("d", 120), strings.Repeat("e", 120))
			_ = os.MkdirAll(d, 0o755)
			return filepath.Join(d, "x"+ext)
		}
		return p
	}
	source := func(jpeg bool) string {
		p := path(".img")
		data := encodeFile((&Pic{W: 9, H: 7, Type: "rgba", Kind: "noise", Seed: 5}).image(), jpeg)
		switch o.State {
		case "corrupt":
			data = data[:len(data)/2]
		case "missing", "dir", "noparent":
			return p
		}
		_ = os.WriteFile(p, data, 0o644)
		return p
	}
	switch o.Op {
	case "read":
		_, _ = imgkit.Read(source(i%2 == 0))
		return
	case "write":
		_ = imgkit.Save((&Pic{W: 9, H: 7, Type: "rgba", Kind: "noise", Seed: 5}).image(), path(o.Via))
		return
	case "scale":
		src := (&Pic{W: 30, H: 20, Type: "rgba", Kind: "noise", Seed: uint64(i)}).image()
		_ = imgkit.Gray(src)
		_ = imgkit.Binaryzation(imgkit.Scale(src, image.Rect(0, 0, 9, 9), nil), 60)
		return
	case "closeonly":
		if w, made, _ := o.Out.open(path(".png")); made {
			_ = w.Close()
		}
		return
	}
	q, err := o.Spec.New()
	if err != nil {
		return
	}
	at := -1
	if o.Fault != "" {
		at = o.At
	}
	f := &faulty{at: at, mode: o.Fault}
	switch o.Op {
	case "save":
		kind, name, _ := strings.Cut(string(o.Kind), ":")
		_ = q.Save(&faultWriter{kind: Kind(kind), werr: faultErrs[name], cerr: errors.New("close")})
	case "nil":
		_ = q.Save(nil)
	case "stream":
		_ = q.Save(o.Out.writer(f))
	case "file":
		if w, made, _ := o.Out.open(path(".png")); made {
			_ = q.Save(w)
		}
	case "picture":
		var opt standard.ImageOption
		switch o.Via {
		case "logopng":
			opt = standard.WithLogoImageFilePNG(source(false))
		case "logojpeg":
			opt = standard.WithLogoImageFileJPEG(source(true))
		default:
			opt = standard.WithHalftone(source(false))
		}
		_ = q.Save(standard.NewWithWriter(f, opt, standard.WithQRWidth(3)))
	case "text":
		fd, err := os.Create(filepath.Join(dir, "text"))
		if err != nil {
			return
		}
		if w := file.New(fd); w != nil {
			_ = q.Save(w)
		}
		_ = fd.Close()
	}
}

type settings struct {
	cwd    string
	env    string
	procs  int
	flags  int
	prefix string
	out    io.Writer
}

func processSettings() settings {
	s := settings{procs: runtime.GOMAXPROCS(0), flags: log.Flags(), prefix: log.Prefix(), out: log.Writer(), env: strings.Join(os.Environ(), "\n")}
	s.cwd, _ = os.Getwd()
	return s
}

func namesIn(dir string) (out []string) {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		out = append(out, e.Name())
	}
	return
}

func checkLeave(c Leave, r *core.Rec) error {
	top, err := os.MkdirTemp(core.Scratch(), "leave")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(top)
	files, tmp, cwd := filepath.Join(top, "files"), filepath.Join(top, "tmp"), filepath.Join(top, "cwd")
	for _, d := range []string{files, tmp, cwd} {
		if os.Mkdir(d, 0o755) != nil {
			return nil
		}
	}
	old, err := os.Getwd()
	if err != nil || os.Chdir(cwd) != nil {
		return nil
	}
	defer func() { _ = os.Chdir(old) }()
	oldTmp := os.Getenv("TMPDIR")
	_ = os.Setenv("TMPDIR", tmp)
	defer func() { _ = os.Setenv("TMPDIR", oldTmp) }()
	if c.Repeat > 0 {
		return checkGrowth(c, files, r)
	}
	// without collection nothing that was forgotten is closed by a finalizer
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	before := processSettings()
	routines := runtime.NumGoroutine()
	for i, o := range c.Ops {
		o.run(files, i)
		for end := time.Now().Add(5 * time.Second); runtime.NumGoroutine() > routines; time.Sleep(time.Millisecond) {
			if time.Now().After(end) {
				buf := make([]byte, 1<<16)
				return fmt.Errorf("step %d (%s %s %s): %d goroutines, %d before: %.3000s", i, o.Op, o.Kind, o.State, runtime.NumGoroutine(), routines, buf[:runtime.Stack(buf, true)])
			}
		}
		if n := openBelow(top); n != 0 {
			return fmt.Errorf("step %d (%s %s %s %s): %d files are still open", i, o.Op, o.Via, o.Out.Kind, o.State, n)
		}
		for _, d := range []string{tmp, cwd} {
			if names := namesIn(d); len(names) != 0 {
				return fmt.Errorf("step %d (%s %s %s %s) leaves %v in the %s directory", i, o.Op, o.Via, o.Out.Kind, o.State, names, filepath.Base(d))
			}
		}
		for _, name := range namesIn(files) {
			var k int
			var ext string
			if strings.HasPrefix(name, "ddd") {
				continue
			}
			if n, _ := fmt.Sscanf(name, "f%d%s", &k, &ext); n < 1 && name != "text" || k > i || n == 2 && ext != ".img" && ext != ".png" && ext != o.Via && ext != c.Ops[k].Via {
				return fmt.Errorf("step %d (%s %s %s %s) leaves a file %q", i, o.Op, o.Via, o.Out.Kind, o.State, name)
			}
		}
		if after := processSettings(); after != before {
			return fmt.Errorf("step %d (%s %s %s) changes settings of the process from %.300v to %.300v", i, o.Op, o.Via, o.Out.Kind, before, after)
		}
		r.Class("%s %s%s%s", o.Op, o.State, o.Fault, o.Via)
	}
	if len(c.Ops) > 0 {
		r.Nontrivial()
	}
	return nil
}

func liveBytes() uint64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// checkGrowth repeats the operations with ever new texts and looks whether the
// live memory keeps growing.
func checkGrowth(c Leave, dir string, r *core.Rec) error {
	routines := runtime.NumGoroutine()
	const rounds = 5
	var live [rounds]uint64
	k := 0
	for i := range live {
		for j := 0; j < c.Repeat; j++ {
			o := c.Ops[j%len(c.Ops)]
			k++
			if len(o.Spec.Opts) > 0 || len(o.Spec.Text) > 0 {
				o.Spec.Text = B(fmt.Sprintf("%s%07d", o.Spec.Text, k))
			}
			o.run(dir, j%len(c.Ops))
		}
		live[i] = liveBytes()
	}
	if n := runtime.NumGoroutine(); n > routines {
		time.Sleep(100 * time.Millisecond)
		if n = runtime.NumGoroutine(); n > routines+1 {
			return fmt.Errorf("%d goroutines after %d repetitions, %d before", n, rounds*c.Repeat, routines)
		}
	}
	limit := uint64(c.Repeat) * 128
	for i := 2; i < rounds; i++ {
		if live[i] < live[i-1]+limit {
			r.Class("growth of %s", c.Ops[0].Op)
			r.Nontrivial()
			return nil
		}
	}
	return fmt.Errorf("live memory keeps growing with every use: %d bytes after each of %d rounds of %d uses", live, rounds, c.Repeat)
}

func genLeaveOp(t *rapid.T) LeaveOp {
	o := LeaveOp{Op: rapid.SampledFrom([]string{"build", "build", "save", "save", "nil", "stream", "stream", "file", "file", "closeonly", "picture", "picture", "picture", "text", "read", "write", "scale"}).Draw(t, "op")}
	switch o.Op {
	case "build", "save", "nil":
		o.Spec = genSmall(t)
		if rapid.IntRange(0, 9).Draw(t, "wild") == 0 {
			o.Spec.Opts = append(o.Spec.Opts, Opt{"mode", rapid.IntRange(-3, 40).Draw(t, "wildmode")})
		}
	default:
		o.Spec = genDraw(t, 5)
	}
	switch o.Op {
	case "save":
		k := rapid.SampledFrom([]string{"ok", "werr", "cerr", "both", "wpanic", "cpanic"}).Draw(t, "kind")
		if k != "ok" && rapid.Bool().Draw(t, "special") {
			k += ":" + rapid.SampledFrom([]string{"eof", "temp", "eintr", "closed"}).Draw(t, "err")
		}
		o.Kind = Kind(k)
	case "stream", "file", "closeonly":
		o.Out = genOut(t)
	}
	switch o.Op {
	case "stream", "picture":
		o.Fault = rapid.SampledFrom([]string{"", "sticky", "once", "partial"}).Draw(t, "fault")
		o.At = rapid.OneOf(rapid.IntRange(0, 100), rapid.IntRange(0, 5000)).Draw(t, "at")
	case "file", "closeonly":
		o.State = rapid.SampledFrom([]string{"ok", "ok", "dir", "noparent", "deep"}).Draw(t, "state")
	}
	switch o.Op {
	case "picture":
		o.Via = rapid.SampledFrom([]string{"logopng", "logojpeg", "halftone"}).Draw(t, "via")
		o.State = rapid.SampledFrom([]string{"ok", "ok", "missing", "corrupt", "dir"}).Draw(t, "state")
	case "read":
		o.State = rapid.SampledFrom([]string{"ok", "ok", "missing", "corrupt", "dir"}).Draw(t, "state")
	case "write":
		o.Via = rapid.SampledFrom([]string{".png", ".jpg", ".jpeg", ".gif", ""}).Draw(t, "ext")
		o.State = rapid.SampledFrom([]string{"ok", "ok", "dir", "noparent", "deep"}).Draw(t, "state")
	}
	return o
}

func init() {
	core.Register(core.Def[Leave]{
		ID: "C35",
		Rule: "one case = a history of up to twelve uses of the library (builds valid or not, saves to working, failing and panicking writers and streams, named files, logo and halftone files that are sound, missing or corrupt, picture helpers), or hundreds of repetitions of some uses with new texts; " +
			"oracle = goroutines, open files, temporary files, working directory, environment, GOMAXPROCS and logger settings are as before each use, and live memory does not grow in every round of repetitions; all non-empty histories are non-trivial",
		Assumptions: []string{"growth below 128 bytes per use is not seen", "descriptors are looked up below the scratch directory of the case"},
		Cells: func(t core.Tier) []core.Cell[Leave] {
			var cells []core.Cell[Leave]
			for i := 0; i < 16; i++ {
				cells = append(cells, core.Cell[Leave]{Name: fmt.Sprintf("uses-%d", i), Runs: t.N(60, 1500), Gen: func(t *rapid.T) Leave {
					return Leave{Ops: rapid.SliceOfN(rapid.Custom(genLeaveOp), 1, 12).Draw(t, "ops")}
				}})
			}
			for i := 0; i < 16; i++ {
				n := t.N(200, 1500)
				cells = append(cells, core.Cell[Leave]{Name: fmt.Sprintf("growth-%d", i), Runs: t.N(1, 5), Gen: func(t *rapid.T) Leave {
					return Leave{Ops: rapid.SliceOfN(rapid.Custom(genLeaveOp), 1, 3).Draw(t, "ops"), Repeat: n}
				}})
			}
			return cells
		},
		Check: checkLeave,
	})
}
