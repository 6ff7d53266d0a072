package props

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/compressed"
	"github.com/yeqown/go-qrcode/writer/file"
	"github.com/yeqown/go-qrcode/writer/standard"
	"pgregory.net/rapid"

	"verif/core"
	"verif/qrref"
)

// Out describes a writer configuration over a byte stream.
type Out struct {
	Kind  string `json:"kind"` // png jpeg default compressed
	Opts  []IOpt `json:"opts,omitempty"`
	Pad   int    `json:"pad,omitempty"`
	Block int    `json:"block,omitempty"`
}

func (o Out) options() []standard.ImageOption {
	opts := imageOptions(o.Opts)
	switch o.Kind {
	case "png":
		opts = append(opts, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
	case "jpeg":
		opts = append(opts, standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
	}
	return opts
}

func (o Out) writer(wc interface {
	Write([]byte) (int, error)
	Close() error
}) qrcode.Writer {
	if o.Kind == "compressed" {
		return compressed.NewWithWriter(wc, &compressed.Option{Padding: o.Pad, BlockSize: o.Block})
	}
	return standard.NewWithWriter(wc, o.options()...)
}

// open uses the file-writing entry points; made tells whether a writer came back.
func (o Out) open(name string) (w qrcode.Writer, made bool, err error) {
	if o.Kind == "compressed" {
		w, err = compressed.New(name, &compressed.Option{Padding: o.Pad, BlockSize: o.Block})
		return w, w != nil, err
	}
	sw, err := standard.New(name, o.options()...)
	if sw == nil {
		return nil, false, err
	}
	return sw, true, err
}

// stream is what a stream writer gets.
func (o Out) stream(q *qrcode.QRCode) ([]byte, error) {
	s := &sink{}
	if err := q.Save(o.writer(s)); err != nil {
		return nil, err
	}
	return s.Bytes(), nil
}

func genOut(t *rapid.T) Out {
	o := Out{Kind: rapid.SampledFrom([]string{"png", "jpeg", "default", "compressed", "compressed"}).Draw(t, "outkind")}
	if o.Kind == "compressed" {
		o.Pad, o.Block = rapid.IntRange(0, 20).Draw(t, "pad"), rapid.IntRange(1, 8).Draw(t, "cblock")
		return o
	}
	o.Opts = []IOpt{{K: "width", V: rapid.IntRange(1, 8).Draw(t, "ow")}, {K: "border", Ints: genBorder(t, 20)}}
	o.Opts = append(o.Opts, genColours(t)...)
	return o
}

// ---- C27: files ----

// Target is a file name in the scratch directory and its state before.
type Target struct {
	State string `json:"state"` // absent file link dir noparent underfile long nul empty
	Len   int    `json:"len,omitempty"`
	Ext   string `json:"ext,omitempty"`
	Rel   bool   `json:"rel,omitempty"`
	Mode  int    `json:"mode,omitempty"`
}

type FileStep struct {
	Target int  `json:"target"`
	Spec   Spec `json:"spec"`
	Out    Out  `json:"out"`
}

type FileCase struct {
	Targets []Target   `json:"targets"`
	Steps   []FileStep `json:"steps"`
}

func (t Target) bad() bool { return t.State != "absent" && t.State != "file" && t.State != "link" }

// prepare makes the target and returns the name to use and the file written to.
func (t Target) prepare(dir string, i int) (name, real string, err error) {
	base := fmt.Sprintf("f%d%s", i, t.Ext)
	real = filepath.Join(dir, base)
	old := bytes.Repeat([]byte("old content "), t.Len/12+1)[:t.Len]
	mode := os.FileMode(0o644)
	if t.Mode != 0 {
		mode = os.FileMode(t.Mode)
	}
	switch t.State {
	case "file":
		err = os.WriteFile(real, old, mode)
	case "link":
		dst := filepath.Join(dir, fmt.Sprintf("target%d", i))
		if err = os.WriteFile(dst, old, mode); err == nil {
			err = os.Symlink(dst, real)
		}
		defer func(l string) { name = l }(real)
		real = dst
	case "dir":
		err = os.Mkdir(real, 0o755)
	case "noparent":
		base = filepath.Join(fmt.Sprintf("missing%d", i), base)
	case "underfile":
		err = os.WriteFile(real, old, mode)
		base = filepath.Join(base, "x.png")
	case "long":
		base = strings.Repeat("n", 300) + t.Ext
	case "nul":
		base = "a\x00b" + t.Ext
	case "empty":
		return "", real, nil
	}
	if t.Rel {
		return base, real, err
	}
	return filepath.Join(dir, base), real, err
}

// listing is the content of every regular file below a directory.
func listing(dir string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			out[p] = string(b)
		}
		return nil
	})
	return out, err
}

// openBelow counts this process's descriptors open on files below dir.
func openBelow(dir string) int {
	n := 0
	fds, _ := filepath.Glob("/proc/self/fd/*")
	for _, f := range fds {
		if l, err := os.Readlink(f); err == nil && strings.HasPrefix(l, dir+"/") {
			n++
		}
	}
	return n
}

func checkFiles(c FileCase, r *core.Rec) error {
	dir, err := os.MkdirTemp(core.Scratch(), "files")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	old, err := os.Getwd()
	if err != nil {
		return nil
	}
	if err := os.Chdir(dir); err != nil {
		return nil
	}
	defer func() { _ = os.Chdir(old) }()
	var names, reals []string
	for i, t := range c.Targets {
		n, f, err := t.prepare(dir, i)
		if err != nil {
			return nil
		}
		names, reals = append(names, n), append(reals, f)
	}
	want, err := listing(dir)
	if err != nil {
		return nil
	}
	written := map[int]int{}
	for i, st := range c.Steps {
		q, _, err := symbolFor(st.Spec)
		if err != nil {
			return skip(err)
		}
		t := c.Targets[st.Target]
		w, made, err := st.Out.open(names[st.Target])
		if t.bad() {
			if err == nil || made {
				return fmt.Errorf("step %d: writing to a path that cannot be opened (%s): writer returned %v, error %v", i, t.State, made, err)
			}
			r.Class("rejected %s", t.State)
		} else {
			if err != nil || !made {
				return fmt.Errorf("step %d: %s target: writer returned %v, error %v", i, t.State, made, err)
			}
			if err := q.Save(w); err != nil {
				return fmt.Errorf("step %d: Save: %v", i, err)
			}
			b, err := st.Out.stream(q)
			if err != nil {
				return fmt.Errorf("step %d: stream writer: %v", i, err)
			}
			before := want[reals[st.Target]]
			want[reals[st.Target]] = string(b)
			r.Class("%s %s over %s", t.State, st.Out.Kind, lenClass(len(before), len(b)))
			written[st.Target]++
			r.Nontrivial()
		}
		got, err := listing(dir)
		if err != nil {
			return fmt.Errorf("step %d: reading back: %v", i, err)
		}
		for p, b := range want {
			g, ok := got[p]
			if !ok {
				return fmt.Errorf("step %d: file %s is missing", i, filepath.Base(p))
			}
			if g != b {
				return fmt.Errorf("step %d: %s (%s, %s) holds %d bytes, want %d, first difference at %d", i, filepath.Base(p), st.Out.Kind, t.State, len(g), len(b), firstDiff(g, b))
			}
		}
		for p := range got {
			if _, ok := want[p]; !ok {
				return fmt.Errorf("step %d: unexpected file %s appeared", i, strings.TrimPrefix(p, dir))
			}
		}
		if n := openBelow(dir); n != 0 {
			return fmt.Errorf("step %d: %d files are still open after saving", i, n)
		}
	}
	return nil
}

func firstDiff(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

func lenClass(before, after int) string {
	switch {
	case before == 0:
		return "nothing"
	case before < after:
		return "shorter"
	case before == after:
		return "equal length"
	}
	return "longer"
}

func genFiles(t *rapid.T) FileCase {
	var c FileCase
	for i := rapid.IntRange(1, 3).Draw(t, "ntarget"); i > 0; i-- {
		tg := Target{
			State: rapid.SampledFrom([]string{"absent", "file", "file", "file", "file", "link", "dir", "noparent", "underfile", "long", "nul", "empty"}).Draw(t, "state"),
			Ext:   rapid.SampledFrom([]string{".png", ".jpg", ".jpeg", "", ".PNG", ".txt"}).Draw(t, "ext"),
			Rel:   rapid.Bool().Draw(t, "rel"),
		}
		tg.Len = rapid.OneOf(rapid.IntRange(0, 500), rapid.IntRange(0, 40000), rapid.SampledFrom([]int{4095, 4096, 65535, 65536, 65537, 1 << 20, 1<<20 + 1, 3 << 20})).Draw(t, "len")
		c.Targets = append(c.Targets, tg)
	}
	for i := rapid.IntRange(1, 4).Draw(t, "nstep"); i > 0; i-- {
		c.Steps = append(c.Steps, FileStep{rapid.IntRange(0, len(c.Targets)-1).Draw(t, "target"), genDraw(t, 8), genOut(t)})
	}
	return c
}

// ---- C28: compressed writer ----

type CompCase struct {
	Spec  Spec `json:"spec"`
	Pad   int  `json:"pad"`
	Block int  `json:"block"`
}

func checkCompressed(c CompCase, r *core.Rec) error {
	q, bits, err := symbolFor(c.Spec)
	if err != nil {
		return skip(err)
	}
	s := &sink{}
	if err := q.Save(compressed.NewWithWriter(s, &compressed.Option{Padding: c.Pad, BlockSize: c.Block})); err != nil {
		return fmt.Errorf("Save: %v", err)
	}
	if s.closes != 1 {
		return fmt.Errorf("the stream was closed %d times", s.closes)
	}
	b := s.Bytes()
	img, err := png.Decode(bytes.NewReader(b))
	if err != nil {
		return fmt.Errorf("output is no PNG: %v", err)
	}
	p, ok := img.(*image.Paletted)
	if !ok || len(p.Palette) != 2 {
		return fmt.Errorf("output is %T, want a two-colour palette image", img)
	}
	// IHDR: bit depth at 24, colour type at 25
	if b[24] != 1 || b[25] != 3 {
		return fmt.Errorf("bit depth %d, colour type %d; want 1 bit palette", b[24], b[25])
	}
	n := len(bits)
	w := n*c.Block + 2*c.Pad
	model := func(px, py int) (color.RGBA, bool) {
		x, y := px-c.Pad, py-c.Pad
		if x >= 0 && y >= 0 && x < n*c.Block && y < n*c.Block && bits[y/c.Block][x/c.Block] {
			return color.RGBA{0, 0, 0, 255}, true
		}
		return color.RGBA{255, 255, 255, 255}, true
	}
	if err := compare(toRGBA(img), w, w, 0, model); err != nil {
		return err
	}
	var plain bytes.Buffer
	if err := png.Encode(&plain, p); err != nil {
		return err
	}
	if len(b) > plain.Len()+plain.Len()/10+64 {
		return fmt.Errorf("output has %d bytes, the default PNG encoder needs %d", len(b), plain.Len())
	}
	back := make([][]bool, n)
	for y := range back {
		back[y] = make([]bool, n)
		for x := range back[y] {
			rr, _, _, _ := img.At(c.Pad+x*c.Block+c.Block/2, c.Pad+y*c.Block+c.Block/2).RGBA()
			back[y][x] = rr < 0x8000
		}
	}
	if err := decodesTo(back, c.Spec.Text); err != nil {
		return err
	}
	r.Nontrivial()
	r.Class("padding %s", sizeClass(c.Pad))
	r.Class("block %s", sizeClass(c.Block))
	r.Class("version %d", (n-17)/4)
	return nil
}

func sizeClass(v int) string {
	switch {
	case v <= 3:
		return fmt.Sprint(v)
	case v < 10:
		return "4-9"
	case v < 50:
		return "10-49"
	}
	return "50+"
}

// ---- C29: text files ----

type TextStep struct {
	Spec Spec `json:"spec"`
	New  bool `json:"new"`
	Save bool `json:"save"`
}

type TextCase struct {
	Prior int        `json:"prior"` // bytes already in the file
	Mode  string     `json:"mode"`  // end append pipe nil
	Steps []TextStep `json:"steps"`
}

// parseText reads n rows of half blocks back; returns the rest of the text.
func parseText(s string, n int) ([][]bool, string, error) {
	bits := make([][]bool, n)
	for y := range bits {
		bits[y] = make([]bool, n)
	}
	for y := 0; y < n; y += 2 {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return nil, "", fmt.Errorf("line %d is missing or not terminated", y/2)
		}
		line := []rune(s[:i])
		s = s[i+1:]
		if len(line) != n {
			return nil, "", fmt.Errorf("line %d has %d characters, want %d", y/2, len(line), n)
		}
		for x, ch := range line {
			var up, low bool
			switch ch {
			case ' ':
			case '▀':
				up = true
			case '▄':
				low = true
			case '█':
				up, low = true, true
			default:
				return nil, "", fmt.Errorf("line %d has character %q", y/2, ch)
			}
			bits[y][x] = up
			if y+1 < n {
				bits[y+1][x] = low
			} else if low {
				return nil, "", fmt.Errorf("last line draws a module below the symbol at column %d", x)
			}
		}
	}
	return bits, s, nil
}

func checkText(c TextCase, r *core.Rec) error {
	dir, err := os.MkdirTemp(core.Scratch(), "text")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "out.txt")
	prior := strings.Repeat("prior text\n", c.Prior/11)
	if err := os.WriteFile(name, []byte(prior), 0o644); err != nil {
		return nil
	}
	var f *os.File
	var pipe chan string
	switch c.Mode {
	case "append":
		f, err = os.OpenFile(name, os.O_APPEND|os.O_WRONLY, 0)
	case "pipe":
		var rd *os.File
		rd, f, err = os.Pipe()
		if err == nil {
			pipe = make(chan string, 1)
			go func() {
				var b bytes.Buffer
				_, _ = b.ReadFrom(rd)
				rd.Close()
				pipe <- b.String()
			}()
			prior = ""
		}
	case "nil":
	default:
		if f, err = os.OpenFile(name, os.O_RDWR, 0); err == nil {
			_, err = f.Seek(0, 2)
		}
	}
	if err != nil {
		return nil
	}
	if f != nil {
		defer f.Close()
	}
	w := file.New(f)
	var want [][][]bool
	for i, st := range c.Steps {
		q, bits, err := symbolFor(st.Spec)
		if err != nil {
			return skip(err)
		}
		if st.New {
			w = file.New(f)
		}
		if st.Save {
			err = q.Save(w)
		} else {
			var m *qrcode.Matrix
			if m, err = matrixOf(q); err != nil {
				return skip(errSkip)
			}
			err = w.Write(*m)
		}
		if f == nil {
			if err == nil {
				return fmt.Errorf("step %d: writing to a nil file succeeds", i)
			}
			if err := w.Close(); err != nil {
				return fmt.Errorf("closing a writer without file: %v", err)
			}
			r.Class("nil file")
			r.Nontrivial()
			continue
		}
		if err != nil {
			return fmt.Errorf("step %d: %v", i, err)
		}
		want = append(want, bits)
		r.Class("version %d", (len(bits)-17)/4)
	}
	if f == nil {
		return nil
	}
	if _, err := f.WriteString("mark"); err != nil {
		return fmt.Errorf("the caller's file is not usable any more: %v", err)
	}
	if err := f.Close(); err != nil {
		return fmt.Errorf("the caller's file was closed: %v", err)
	}
	var text string
	if pipe != nil {
		text = <-pipe
	} else {
		b, err := os.ReadFile(name)
		if err != nil {
			return nil
		}
		text = string(b)
	}
	if !strings.HasPrefix(text, prior) {
		return fmt.Errorf("text already in the file changed")
	}
	rest := text[len(prior):]
	for i, bits := range want {
		var got [][]bool
		if got, rest, err = parseText(rest, len(bits)); err != nil {
			return fmt.Errorf("symbol %d: %v", i, err)
		}
		if !eqBits(got, bits) {
			return fmt.Errorf("symbol %d: %s", i, diffBits(got, bits))
		}
		if err := decodesTo(got, c.Steps[i].Spec.Text); err != nil {
			return fmt.Errorf("symbol %d: %v", i, err)
		}
	}
	if rest != "mark" {
		return fmt.Errorf("%d extra bytes after the symbols: %.60q", len(rest)-4, rest)
	}
	r.Nontrivial()
	r.Class("mode %s", c.Mode)
	r.Class("symbols %d", len(want))
	return nil
}

// ---- C34: stream failures ----

type FaultCase struct {
	Spec    Spec   `json:"spec"`
	Out     Out    `json:"out"`
	At      int    `json:"at"`    // failing offset, in 1/1000000 of the output; 1000000 means one past the end
	Fault   string `json:"fault"` // sticky once (stream error, later writes succeed) partial none limit closed readonly full pipe
	CloseEr bool   `json:"closeEr,omitempty"`
	Wait    int    `json:"wait,omitempty"`   // lift: microseconds for which the file is full
	CloseK  int    `json:"closeK,omitempty"` // kind of the error of Close
}

var errInjected = errors.New("injected failure")

// closeErr is the error of a failing Close, in one of several shapes.
func closeErr(kind int) error {
	return []error{
		errors.New("close failure"),
		&os.PathError{Op: "close", Path: "x", Err: syscall.EIO},
		syscall.ENOSPC,
		io.ErrClosedPipe,
		fmt.Errorf("wrapped: %w", io.ErrShortWrite),
		io.EOF,
		os.ErrPermission,
		&os.SyscallError{Syscall: "close", Err: syscall.EDQUOT},
		io.ErrUnexpectedEOF,
		os.ErrDeadlineExceeded,
		io.ErrShortBuffer,
		io.ErrNoProgress,
		image.ErrFormat,
		png.UnsupportedError("injected"),
	}[kind%14]
}

// faulty is a stream that fails when the output reaches offset at.
type faulty struct {
	buf      bytes.Buffer
	at       int // -1: never
	mode     string
	failures int
	closes   int
	late     int // writes after close
	cerr     error
}

func (f *faulty) Write(p []byte) (int, error) {
	if f.closes > 0 {
		f.late++
	}
	if f.at >= 0 && (f.failures == 0 || f.mode == "sticky") && f.buf.Len()+len(p) > f.at {
		f.failures++
		n := 0
		if f.mode == "partial" || f.mode == "sticky" {
			n = max(0, f.at-f.buf.Len())
			f.buf.Write(p[:n])
		}
		return n, errInjected
	}
	return f.buf.Write(p)
}
func (f *faulty) Close() error { f.closes++; return f.cerr }

func complete(kind string, b []byte) error {
	var err error
	rd := bytes.NewReader(b)
	switch kind {
	case "png", "compressed":
		_, err = png.Decode(rd)
	default:
		_, err = jpeg.Decode(rd)
	}
	if err != nil {
		return fmt.Errorf("Save succeeded but the %s image is broken: %v", kind, err)
	}
	if rd.Len() != 0 {
		return fmt.Errorf("Save succeeded but %d bytes follow the image", rd.Len())
	}
	return nil
}

// limited runs fn with the file size limit at n bytes.
func limited(n int, fn func() error) (err error, ok bool) {
	signal.Ignore(syscall.SIGXFSZ)
	var lim syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim) != nil {
		return nil, false
	}
	cur := lim
	cur.Cur = uint64(n)
	if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &cur) != nil {
		return nil, false
	}
	defer func() { _ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim) }()
	return fn(), true
}

func checkFault(c FaultCase, r *core.Rec) error {
	q, bits, err := symbolFor(c.Spec)
	if err != nil {
		return skip(err)
	}
	if c.Out.Kind == "text" {
		return checkTextFault(c, q, len(bits), r)
	}
	good, err := c.Out.stream(q)
	if err != nil {
		return fmt.Errorf("Save to a sound stream fails: %v", err)
	}
	if err := complete(c.Out.Kind, good); err != nil {
		return err
	}
	at := c.At * len(good) / 1000000
	r.Class("%s %s", c.Out.Kind, c.Fault)
	switch c.Fault {
	case "closed":
		// an already closed file as stream
		f, err := os.CreateTemp(core.Scratch(), "closed")
		if err != nil {
			return nil
		}
		f.Close()
		defer os.Remove(f.Name())
		if err := q.Save(c.Out.writer(f)); err == nil {
			return fmt.Errorf("Save to a closed file returns nil")
		}
		r.Nontrivial()
		return nil
	case "full":
		if c.Out.Kind == "compressed" || c.Out.Kind == "png" || c.Out.Kind == "jpeg" || c.Out.Kind == "default" {
			w, made, err := c.Out.open("/dev/full")
			if err != nil || !made {
				return nil
			}
			if err := q.Save(w); err == nil {
				return fmt.Errorf("Save to a full device returns nil")
			}
			r.Nontrivial()
		}
		return nil
	case "limit":
		dir, err := os.MkdirTemp(core.Scratch(), "limit")
		if err != nil {
			return nil
		}
		defer os.RemoveAll(dir)
		w, made, err := c.Out.open(filepath.Join(dir, "out"))
		if err != nil || !made {
			return fmt.Errorf("new file: %v", err)
		}
		serr, ok := limited(at, func() error { return q.Save(w) })
		if !ok {
			return nil
		}
		if at < len(good) {
			if serr == nil {
				return fmt.Errorf("Save returns nil although the file could only take %d of %d bytes", at, len(good))
			}
			r.Nontrivial()
		} else if serr != nil {
			return fmt.Errorf("Save fails although the file takes all %d bytes: %v", len(good), serr)
		}
		if n := openBelow(dir); n != 0 {
			return fmt.Errorf("the file is still open after the failed save")
		}
		return nil
	}
	f := &faulty{at: at, mode: c.Fault}
	if c.Fault == "none" {
		f.at = -1
	}
	if c.CloseEr {
		f.cerr = closeErr(c.CloseK)
		// the writer itself hands the failure on
		g := &faulty{at: -1, cerr: f.cerr}
		w := c.Out.writer(g)
		if err := w.Close(); err == nil {
			return fmt.Errorf("the stream's Close fails with %T %v, the writer's Close returns nil", f.cerr, f.cerr)
		}
		if g.closes != 1 {
			return fmt.Errorf("Close closed the stream %d times", g.closes)
		}
		g = &faulty{at: -1}
		if err := c.Out.writer(g).Close(); err != nil || g.closes != 1 {
			return fmt.Errorf("Close: %v, stream closed %d times", err, g.closes)
		}
		r.Class("close error %T", f.cerr)
	}
	serr := q.Save(c.Out.writer(f))
	if f.closes != 1 {
		return fmt.Errorf("the stream was closed %d times (Save: %v)", f.closes, serr)
	}
	if f.late > 0 {
		return fmt.Errorf("%d writes after the stream was closed", f.late)
	}
	if f.failures > 0 {
		r.Nontrivial()
		r.Class("offset %s", bucketOf(at, len(good)))
		if serr == nil {
			return fmt.Errorf("the stream failed at byte %d of %d (%s), Save returns nil", at, len(good), c.Fault)
		}
		return nil
	}
	if serr != nil {
		return fmt.Errorf("the stream accepted everything, Save returns %v", serr)
	}
	if err := complete(c.Out.Kind, f.buf.Bytes()); err != nil {
		return err
	}
	if !bytes.Equal(f.buf.Bytes(), good) {
		return fmt.Errorf("the stream accepted everything but holds %d bytes, want %d", f.buf.Len(), len(good))
	}
	r.Class("complete")
	return nil
}

func bucketOf(at, n int) string {
	switch {
	case at == 0:
		return "first byte"
	case at == n-1:
		return "last byte"
	case at < 64:
		return "head"
	case at > n-64:
		return "tail"
	}
	return "middle"
}

func checkTextFault(c FaultCase, q *qrcode.QRCode, n int, r *core.Rec) error {
	r.Class("text %s", c.Fault)
	dir, err := os.MkdirTemp(core.Scratch(), "tfault")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "out.txt")
	goodf, err := os.Create(name + ".good")
	if err != nil {
		return nil
	}
	if err := q.Save(file.New(goodf)); err != nil {
		goodf.Close()
		return fmt.Errorf("Save to a sound file fails: %v", err)
	}
	goodf.Close()
	good, err := os.ReadFile(name + ".good")
	if err != nil {
		return nil
	}
	if _, rest, err := parseText(string(good), n); err != nil || rest != "" {
		return fmt.Errorf("Save succeeded but the text is incomplete: %v %q", err, rest)
	}
	at := c.At * len(good) / 1000000
	must := true
	var f *os.File
	var serr error
	switch c.Fault {
	case "closed":
		if f, err = os.Create(name); err == nil {
			f.Close()
		}
	case "readonly":
		if err = os.WriteFile(name, nil, 0o644); err == nil {
			f, err = os.Open(name)
		}
	case "full":
		f, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	case "pipe", "once", "partial":
		var rd *os.File
		if rd, f, err = os.Pipe(); err == nil {
			const F_SETPIPE_SZ = 1031
			_, _, _ = syscall.Syscall(syscall.SYS_FCNTL, f.Fd(), F_SETPIPE_SZ, 4096)
			at = min(at, max(0, len(good)-8192))
			if at == 0 {
				rd.Close()
			} else {
				go func() {
					b := make([]byte, at)
					for got := 0; got < at; {
						k, err := rd.Read(b[got:])
						if err != nil {
							break
						}
						got += k
					}
					rd.Close()
				}()
			}
		}
	case "lift": // the file is full for a while
		if f, err = os.Create(name); err != nil {
			return nil
		}
		defer f.Close()
		var lim syscall.Rlimit
		if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim) != nil {
			return nil
		}
		over := make(chan bool)
		serr, ok := limited(at, func() error {
			go func() {
				defer close(over)
				for end := time.Now().Add(time.Second); time.Now().Before(end); {
					if st, err := f.Stat(); err == nil && st.Size() >= int64(at) {
						for spin := time.Now(); time.Since(spin) < time.Duration(c.Wait)*time.Microsecond; {
						}
						break
					}
				}
				_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
			}()
			return q.Save(file.New(f))
		})
		if !ok {
			return nil
		}
		<-over
		got, err := os.ReadFile(name)
		if err != nil {
			return nil
		}
		if serr == nil && !bytes.Equal(got, good) {
			return fmt.Errorf("text writer: some writes failed from byte %d of %d on, Save returns nil and the file has %d bytes", at, len(good), len(got))
		}
		r.Nontrivial()
		return nil
	default: // file size limit
		if f, err = os.Create(name); err == nil {
			var ok bool
			serr, ok = limited(at, func() error { return q.Save(file.New(f)) })
			if !ok {
				f.Close()
				return nil
			}
			must = at < len(good)
		}
	}
	if err != nil {
		return nil
	}
	defer f.Close()
	if c.Fault != "limit" && c.Fault != "none" && c.Fault != "sticky" {
		done := make(chan error, 1)
		go func() { done <- q.Save(file.New(f)) }()
		select {
		case serr = <-done:
		case <-time.After(30 * time.Second):
			return fmt.Errorf("Save does not return after the reader of the pipe is gone")
		}
	}
	if must {
		r.Nontrivial()
		if serr == nil {
			return fmt.Errorf("text writer: fault %s at byte %d of %d, Save returns nil", c.Fault, at, len(good))
		}
		return nil
	}
	if serr != nil {
		return fmt.Errorf("text writer: the file takes all %d bytes, Save returns %v", len(good), serr)
	}
	return nil
}

func genFault(text bool) func(t *rapid.T) FaultCase {
	return func(t *rapid.T) FaultCase {
		c := FaultCase{Spec: genDraw(t, 12)}
		c.At = rapid.OneOf(rapid.IntRange(0, 1000000), rapid.SampledFrom([]int{0, 999999, 1000000, 1, 500000})).Draw(t, "at")
		if text {
			c.Out = Out{Kind: "text"}
			c.Fault = rapid.SampledFrom([]string{"limit", "limit", "limit", "limit", "lift", "lift", "closed", "readonly", "full", "pipe"}).Draw(t, "fault")
			if c.Fault == "lift" {
				c.Wait = rapid.IntRange(0, 60).Draw(t, "wait")
			}
			if c.Fault == "pipe" {
				c.Spec.Opts = append(c.Spec.Opts, Opt{"minver", rapid.IntRange(20, 40).Draw(t, "big")})
			}
			return c
		}
		c.Out = genOut(t)
		c.Fault = rapid.SampledFrom([]string{"sticky", "sticky", "once", "once", "partial", "none", "limit", "closed", "full"}).Draw(t, "fault")
		c.CloseEr = rapid.IntRange(0, 3).Draw(t, "closeerr") == 0
		if c.CloseEr {
			c.CloseK = rapid.IntRange(0, 13).Draw(t, "closekind")
		}
		return c
	}
}

func init() {
	core.Register(core.Def[FileCase]{
		ID:   "C27",
		Rule: "one case = a history of saves through standard.New and compressed.New on up to 3 targets in a scratch directory (absent, shorter and longer old content, symbolic link, relative and absolute names, and paths that cannot be opened); oracle = after each step every file of the directory holds exactly what a stream writer gets or what it held before, nothing else appears and no file stays open, and unusable paths give an error and no writer; non-trivial = a symbol written",
		Cells: func(t core.Tier) []core.Cell[FileCase] {
			var cells []core.Cell[FileCase]
			for i := 0; i < 16; i++ {
				cells = append(cells, core.Cell[FileCase]{Name: fmt.Sprintf("files-%d", i), Runs: t.N(60, 4000), Gen: genFiles})
			}
			return cells
		},
		Check: checkFiles,
	})
	core.Register(core.Def[CompCase]{
		ID:   "C28",
		Rule: "one case = symbol, padding, block size; oracle = one bit palette PNG of two colours equal pixel by pixel to the model, read back by the reference decoder, stream closed once, not larger than the default PNG encoding by more than a tenth; all are non-trivial",
		Cells: func(t core.Tier) []core.Cell[CompCase] {
			var cells []core.Cell[CompCase]
			for v := 1; v <= 40; v++ {
				v := v
				cells = append(cells, core.Cell[CompCase]{Name: fmt.Sprintf("version-%d", v), Runs: t.N(16, 700), Gen: func(t *rapid.T) CompCase {
					lv := rapid.SampledFrom(allLevels).Draw(t, "level")
					m := rapid.SampledFrom(allModes).Draw(t, "mode")
					s := Spec{Text: genText(t, m, rapid.IntRange(0, qrref.Capacity(v, lv, m)).Draw(t, "n")), Opts: []Opt{{"ec", int(lv)}, {"minver", v}}}
					n := qrref.Size(v)
					return CompCase{s, rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 60)).Draw(t, "pad"), genBlock(t, 1, n, 500)}
				}})
			}
			for i := 0; i < 24; i++ { // images of any size up to some thousand pixels
				cells = append(cells, core.Cell[CompCase]{Name: fmt.Sprintf("large-%d", i), Runs: t.N(3, 60), Gen: func(t *rapid.T) CompCase {
					s := genDraw(t, 40)
					n := sideOf(s)
					side := rapid.IntRange(500, 4200).Draw(t, "side")
					b := max(1, rapid.IntRange(side/n/2, side/n).Draw(t, "block"))
					return CompCase{s, min(max(0, (side-n*b)/2), rapid.SampledFrom([]int{0, 1, 7, 300, 4000}).Draw(t, "most")), b}
				}})
			}
			return cells
		},
		Check: checkCompressed,
	})
	core.Register(core.Def[TextCase]{
		ID:   "C29",
		Rule: "one case = symbols written one after another through the text writer (same or new writer, Save or Write) at the end of a file with content, in append mode, into a pipe, or to a nil file; oracle = the text parses back to exactly those symbols and nothing else, old content stays, the file stays open; non-trivial = a symbol or the nil file",
		Cells: func(t core.Tier) []core.Cell[TextCase] {
			var cells []core.Cell[TextCase]
			for i := 0; i < 16; i++ {
				cells = append(cells, core.Cell[TextCase]{Name: fmt.Sprintf("text-%d", i), Runs: t.N(40, 2500), Gen: func(t *rapid.T) TextCase {
					c := TextCase{Prior: rapid.IntRange(0, 3000).Draw(t, "prior"), Mode: rapid.SampledFrom([]string{"end", "append", "pipe", "pipe", "end", "append", "nil"}).Draw(t, "mode")}
					for i := rapid.IntRange(1, 3).Draw(t, "nsym"); i > 0; i-- {
						c.Steps = append(c.Steps, TextStep{genDraw(t, 40), rapid.Bool().Draw(t, "new"), rapid.Bool().Draw(t, "save")})
					}
					return c
				}})
			}
			return cells
		},
		Check: checkText,
	})
	core.Register(core.Def[FaultCase]{
		ID:   "C34",
		Rule: "one case = a symbol saved through the standard, compressed or text writer to a stream that fails at a generated byte offset (persistently, once, after a partial write), a file that reaches a size limit at that offset, a closed or read-only file, a full device, or a pipe whose reader leaves; oracle = Save returns an error exactly when the stream failed, never panics, the stream is closed exactly once and not written to afterwards, and after success it holds a complete image; non-trivial = the fault was hit",
		Cells: func(t core.Tier) []core.Cell[FaultCase] {
			var cells []core.Cell[FaultCase]
			for i := 0; i < 16; i++ {
				cells = append(cells, core.Cell[FaultCase]{Name: fmt.Sprintf("image-%d", i), Runs: t.N(150, 10000), Gen: genFault(false)},
					core.Cell[FaultCase]{Name: fmt.Sprintf("text-%d", i), Runs: t.N(40, 2500), Gen: genFault(true)})
			}
			return cells
		},
		Check: checkFault,
	})
}
