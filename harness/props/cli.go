package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"image"
	"image/color"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"

	"pgregory.net/rapid"

	"verif/core"
	"verif/qrref"
)

// ---- C31: the command line tool ----

// Arg is one flag as given, in order.
type Arg struct {
	Flag string `json:"flag"` // output block borders circle transparent halftone terminal
	V    string `json:"v"`
	Form int    `json:"form"` // 0 --f=v, 1 --f v, 2 short alias
}

type CLICase struct {
	Text     B      `json:"text"`
	Args     []Arg  `json:"args"`
	Dashes   bool   `json:"dashes"`
	Prior    int    `json:"prior"` // length of an existing output file, -1: none
	Half     *Pic   `json:"half,omitempty"`
	HalfFile string `json:"halfFile,omitempty"` // png jpeg corrupt missing
	Terminal bool   `json:"terminal,omitempty"`
	Key      string `json:"key,omitempty"`
}

var shortFlags = map[string]string{"output": "o", "block": "s", "borders": "b"}

func (a Arg) argv() []string {
	switch a.Flag {
	case "circle", "transparent", "terminal":
		if a.V == "" {
			return []string{"--" + a.Flag}
		}
		return []string{"--" + a.Flag + "=" + a.V}
	}
	if a.Form == 2 && shortFlags[a.Flag] != "" {
		return []string{"-" + shortFlags[a.Flag], a.V}
	}
	if a.Form == 1 {
		return []string{"--" + a.Flag, a.V}
	}
	return []string{"--" + a.Flag + "=" + a.V}
}

// cliPlan is what the flags stand for.
type cliPlan struct {
	out     string
	block   int
	borders [4]int
	circle  bool
	transp  bool
	half    string
	invalid string
}

func (c CLICase) plan() cliPlan {
	p := cliPlan{out: "qrcode.jpg", block: 5}
	for _, a := range c.Args {
		switch a.Flag {
		case "output":
			p.out = a.V
		case "block":
			n, err := strconv.ParseUint(a.V, 0, 64)
			if err != nil || n > 255 {
				p.invalid = "block"
			}
			p.block = int(n)
		case "borders":
			parts := strings.Split(a.V, ",")
			if len(parts) != 4 {
				p.invalid = "borders"
				continue
			}
			for i, s := range parts {
				n, err := strconv.ParseUint(s, 10, 8)
				if err != nil {
					p.invalid = "borders"
				}
				p.borders[i] = int(n)
			}
		case "circle":
			p.circle = a.V != "false"
		case "transparent":
			p.transp = a.V != "false"
		case "halftone":
			p.half = a.V
		}
	}
	return p
}

func checkCLI(c CLICase, r *core.Rec) error {
	bin := os.Getenv("VERIF_CLI")
	if bin == "" {
		panic("harness: VERIF_CLI is not set")
	}
	if t := string(c.Text); t == "h" || t == "help" {
		r.Class("help command")
		return nil // the documented help command takes these two words
	}
	top, err := os.MkdirTemp(core.Scratch(), "cli")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(top)
	dir := filepath.Join(top, "cwd")
	if os.MkdirAll(filepath.Join(dir, "sub"), 0o755) != nil {
		return nil
	}
	p := c.plan()
	if c.HalfFile != "" && c.HalfFile != "missing" {
		data := encodeFile(c.Half.image(), c.HalfFile == "jpeg")
		if c.HalfFile == "corrupt" {
			data = data[:len(data)/3]
		}
		if os.WriteFile(filepath.Join(dir, "half.img"), data, 0o644) != nil {
			return nil
		}
	}
	outPath := p.out
	if !filepath.IsAbs(outPath) {
		outPath = filepath.Join(dir, outPath)
	}
	unwritable := p.out == "sub" || strings.HasPrefix(p.out, "missing/") || strings.HasPrefix(p.out, "full.")
	if strings.HasPrefix(p.out, "full.") && os.Symlink("/dev/full", outPath) != nil {
		return nil
	}
	if c.Prior >= 0 && !unwritable {
		if os.WriteFile(outPath, bytes.Repeat([]byte{'x'}, c.Prior), 0o644) != nil {
			return nil
		}
	}
	before, err := listing(dir)
	if err != nil {
		return nil
	}
	var argv []string
	for _, a := range c.Args {
		argv = append(argv, a.argv()...)
	}
	if c.Dashes {
		argv = append(argv, "--")
	}
	argv = append(argv, string(c.Text))
	x := Spec{Text: c.Text}.expect()
	desc := fmt.Sprintf("qrcode %.300q", argv)

	why := ""
	switch {
	case p.invalid != "":
		why = "invalid " + p.invalid
	case !x.ok:
		why = "text does not fit"
	case unwritable && !c.Terminal:
		why = "output cannot be written"
	}
	if c.Terminal {
		return c.onTerminal(bin, dir, argv, before, why, r)
	}

	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, argv...)
	cmd.Dir = dir
	var msg bytes.Buffer
	cmd.Stdout, cmd.Stderr = &msg, &msg
	rerr := cmd.Run()
	if ctx.Err() != nil {
		return fmt.Errorf("%s does not end in 60 s", desc)
	}
	code := 0
	if rerr != nil {
		var ee *exec.ExitError
		if !errors.As(rerr, &ee) {
			return nil
		}
		code = ee.ExitCode()
	}
	out := msg.String()
	if code < 0 || strings.Contains(out, "goroutine ") {
		return fmt.Errorf("%s crashes (%v): %.800s", desc, rerr, out)
	}
	after, err := listing(dir)
	if err != nil {
		return nil
	}
	if why != "" {
		if code == 0 {
			return fmt.Errorf("%s: %s, but the exit status is 0", desc, why)
		}
		if strings.TrimSpace(out) == "" {
			return fmt.Errorf("%s: %s, but no message is printed", desc, why)
		}
		for f := range after {
			if _, ok := before[f]; !ok {
				return fmt.Errorf("%s: %s, but %s is left", desc, why, filepath.Base(f))
			}
		}
		r.Class("error: %s", why)
		r.Nontrivial()
		return nil
	}
	if code != 0 {
		return fmt.Errorf("%s fails with status %d: %.500s", desc, code, out)
	}
	for f, b := range before {
		if f != outPath && after[f] != b {
			return fmt.Errorf("%s changes %s", desc, filepath.Base(f))
		}
	}
	for f := range after {
		if _, ok := before[f]; !ok && f != outPath {
			return fmt.Errorf("%s writes %s", desc, filepath.Base(f))
		}
	}
	got, ok := after[outPath]
	if !ok {
		return fmt.Errorf("%s: no image at the output path", desc)
	}
	q, err := qrcode.New(string(c.Text))
	if err != nil {
		return skip(errSkip)
	}
	format := "jpeg"
	opts := []standard.ImageOption{standard.WithQRWidth(uint8(p.block)), standard.WithBorderWidth(p.borders[:]...)}
	if filepath.Ext(p.out) == ".png" {
		format = "png"
		opts = append(opts, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
	} else {
		opts = append(opts, standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
	}
	if p.circle {
		opts = append(opts, standard.WithCircleShape())
	}
	if p.transp {
		opts = append(opts, standard.WithBgTransparent())
	}
	if p.half != "" {
		opts = append(opts, standard.WithHalftone(filepath.Join(dir, p.half)))
	}
	want, err := render(q, opts...)
	if err != nil {
		return skip(errSkip)
	}
	if err := sameImage([]byte(got), want, format); err != nil {
		return fmt.Errorf("%s: %v", desc, err)
	}
	if p.half == "" {
		if err := scanBytes([]byte(got), p, c.Text); err != nil {
			return fmt.Errorf("%s: %v", desc, err)
		}
	}
	r.Nontrivial()
	r.Class("format %s ext %q", format, filepath.Ext(p.out))
	r.Class("circle %v transparent %v halftone %v", p.circle, p.transp, p.half != "" && c.HalfFile != "missing" && c.HalfFile != "corrupt")
	r.Class("prior %s", lenClass(max(0, c.Prior), len(got)))
	return nil
}

// sameImage compares two encoded images by format and pixels.
func sameImage(got, want []byte, format string) error {
	g, f, err := image.Decode(bytes.NewReader(got))
	if err != nil {
		return fmt.Errorf("the output is no image: %v", err)
	}
	if f != format {
		return fmt.Errorf("the output is %s, want %s", f, format)
	}
	w, _, err := image.Decode(bytes.NewReader(want))
	if err != nil {
		return nil
	}
	m := toRGBA(w)
	b := m.Bounds()
	if err := compare(toRGBA(g), b.Dx(), b.Dy(), 0, func(x, y int) (color.RGBA, bool) { return m.RGBAAt(x, y), true }); err != nil {
		return fmt.Errorf("the image differs from the library's: %v", err)
	}
	return nil
}

// scanBytes reads the modules from the image itself and decodes them.
func scanBytes(b []byte, p cliPlan, text B) error {
	img, _, err := image.Decode(bytes.NewReader(b))
	if err != nil {
		return err
	}
	block := p.block
	if block == 0 {
		block = 20
	}
	if block < 4 && p.circle || block < 2 {
		return nil
	}
	m := toRGBA(img)
	w := m.Bounds().Dx() - p.borders[1] - p.borders[3]
	if w != m.Bounds().Dy()-p.borders[0]-p.borders[2] || w%block != 0 {
		return fmt.Errorf("the image is %v, not borders %v plus a square of %d pixel modules", m.Bounds().Size(), p.borders, block)
	}
	n := w / block
	bits := make([][]bool, n)
	for y := range bits {
		bits[y] = make([]bool, n)
		for x := range bits[y] {
			c := m.RGBAAt(p.borders[3]+x*block+block/2, p.borders[0]+y*block+block/2)
			bits[y][x] = c.A > 127 && lum(c) < 128
		}
	}
	return decodesTo(bits, text)
}

func (c CLICase) onTerminal(bin, dir string, argv []string, before map[string]string, why string, r *core.Rec) error {
	var bits [][]bool
	if why == "" {
		var err error
		if _, bits, err = symbolFor(Spec{Text: c.Text}); err != nil {
			return skip(err)
		}
	}
	n := len(bits)
	cols, rows := 2*(n+2), n+4
	master, slave, err := openPty()
	if err != nil {
		panic("harness: no pseudo-terminal: " + err.Error())
	}
	defer master.Close()
	defer slave.Close()
	if setSize(master, cols, rows) != nil {
		return nil
	}
	prev, err := termios(master)
	if err != nil {
		return nil
	}
	scr := newScreen()
	go func() { _, _ = io.Copy(scr, master) }()
	errs := &tailBuffer{}
	cmd := exec.Command(bin, argv...)
	cmd.Dir = dir
	cmd.Stdin, cmd.Stdout, cmd.Stderr = slave, slave, errs
	cmd.Env = append(os.Environ(), "TERM=xterm-256color")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if cmd.Start() != nil {
		return nil
	}
	ended := make(chan error, 1)
	go func() { ended <- cmd.Wait() }()
	defer cmd.Process.Kill()
	if why != "" {
		select {
		case err := <-ended:
			if err == nil {
				return fmt.Errorf("qrcode %.200q: %s, but the exit status is 0", argv, why)
			}
			if strings.Contains(string(errs.b), "goroutine ") {
				return fmt.Errorf("qrcode %.200q crashes: %.800s", argv, errs.b)
			}
		case <-time.After(25 * time.Second):
			return fmt.Errorf("qrcode %.200q: %s, but it does not end", argv, why)
		}
		r.Class("terminal error: %s", why)
		return noNewFile(dir, before, argv, r)
	}
	for end := time.Now().Add(25 * time.Second); scr.hint(rows) < 0; time.Sleep(2 * time.Millisecond) {
		select {
		case err := <-ended:
			return fmt.Errorf("qrcode %.200q ended (%v) before a key was pressed: %.500s", argv, err, errs.b)
		default:
		}
		if time.Now().After(end) {
			return fmt.Errorf("qrcode %.200q shows no symbol on the terminal", argv)
		}
	}
	settle(scr)
	if err := checkScreen(scr, bits, cols, rows, scr.hint(rows)); err != nil {
		return fmt.Errorf("qrcode %.200q: %w", argv, err)
	}
	if _, err := master.Write([]byte(c.Key)); err != nil {
		return nil
	}
	select {
	case err := <-ended:
		if err != nil {
			return fmt.Errorf("qrcode %.200q: %v: %.500s", argv, err, errs.b)
		}
	case <-time.After(25 * time.Second):
		return fmt.Errorf("qrcode %.200q does not end after key %q", argv, c.Key)
	}
	if now, err := termios(master); err == nil && now != prev {
		return fmt.Errorf("qrcode %.200q leaves the terminal mode changed", argv)
	}
	r.Class("terminal")
	return noNewFile(dir, before, argv, r)
}

func noNewFile(dir string, before map[string]string, argv []string, r *core.Rec) error {
	after, err := listing(dir)
	if err != nil {
		return nil
	}
	for f, b := range after {
		if was, ok := before[f]; !ok || was != b {
			return fmt.Errorf("qrcode %.200q writes %s", argv, filepath.Base(f))
		}
	}
	r.Nontrivial()
	return nil
}

var badBorders = []string{"", "1", "1,2", "1,2,3", "1,2,3,4,5", "1,2,3,-4", "256,0,0,0", "0,0,0,1000", "a,b,c,d", "1,2,3,", ",,,", "1, 2, 3, 4", "0x1,0,0,0", "1.5,0,0,0", "1;2;3;4", "+1,0,0,0", "99999999999999999999,0,0,0",
	"1,2,3,4,", ",1,2,3,4", ",1,2,3", " 1,2,3,4", "1,2,3,4 ", "1,2,3,4\n", "1,,3,4", "1,2,,4", "1,2,3,4,,", "1,2,3,4,x", "1,2,3,4;", "10,20,30,256", "0,0,257,0", "0,300,0,0", "1_0,0,0,0", "-0,0,0,0", "1,2,3,4px", "1e1,0,0,0", "0b1,0,0,0"}

func genCLIText(t *rapid.T) B {
	var b B
	switch rapid.IntRange(0, 9).Draw(t, "textclass") {
	case 0, 1:
		b = genMixed(t, 30)
	case 2: // around the capacity of level Q
		m := rapid.SampledFrom(allModes).Draw(t, "mode")
		b = genText(t, m, qrref.Capacity(40, qrref.Q, m)+rapid.IntRange(-2, 3).Draw(t, "over"))
	default:
		b = genDraw(t, 8).Text
	}
	for i := range b {
		if b[i] == 0 {
			b[i] = 1
		}
	}
	return b
}

func genCLI(terminal bool) func(t *rapid.T) CLICase {
	return func(t *rapid.T) CLICase {
		c := CLICase{Text: genCLIText(t), Prior: -1, Dashes: true}
		if len(c.Text) > 0 && c.Text[0] != '-' {
			c.Dashes = rapid.Bool().Draw(t, "dashes")
		}
		form := func() int { return rapid.IntRange(0, 2).Draw(t, "form") }
		if terminal {
			c.Text = genDraw(t, 5).Text
			for i := range c.Text {
				if c.Text[i] == 0 {
					c.Text[i] = 1
				}
			}
			c.Dashes, c.Terminal, c.Key = true, true, rapid.SampledFrom(termKeys).Draw(t, "key")
			c.Args = append(c.Args, Arg{Flag: "terminal", V: rapid.SampledFrom([]string{"", "", "true"}).Draw(t, "tv")})
			if rapid.Bool().Draw(t, "block") {
				c.Args = append(c.Args, Arg{"block", rapid.SampledFrom([]string{"7", "1", "255", "7", "300"}).Draw(t, "tb"), form()})
			}
			if rapid.Bool().Draw(t, "output") {
				c.Args = append(c.Args, Arg{"output", rapid.SampledFrom([]string{"a.png", "b", "a.png", "missing/a.png"}).Draw(t, "to"), form()})
				if rapid.Bool().Draw(t, "tprior") {
					c.Prior = rapid.IntRange(0, 300).Draw(t, "prior")
				}
			}
			if rapid.IntRange(0, 2).Draw(t, "borders") == 0 {
				c.Args = append(c.Args, Arg{"borders", rapid.SampledFrom([]string{"1,2,3,4", "0,0,0,0", "1,2,3", "0,0,0,256"}).Draw(t, "tw"), form()})
			}
			for _, f := range []string{"circle", "transparent"} {
				if rapid.IntRange(0, 2).Draw(t, f) == 0 {
					c.Args = append(c.Args, Arg{Flag: f})
				}
			}
			if rapid.Bool().Draw(t, "turn") {
				i := rapid.IntRange(0, len(c.Args)-1).Draw(t, "by")
				c.Args = append(append([]Arg{}, c.Args[i:]...), c.Args[:i]...)
			}
			if rapid.IntRange(0, 14).Draw(t, "long") == 0 {
				c.Text = genText(t, qrref.Byte, qrref.Capacity(40, qrref.Q, qrref.Byte)+rapid.IntRange(1, 30).Draw(t, "over"))
				for i := range c.Text {
					if c.Text[i] == 0 {
						c.Text[i] = 1
					}
				}
			}
			return c
		}
		n := 177
		if x := (Spec{Text: c.Text}).expect(); x.ok {
			n = qrref.Size(x.ver)
		}
		if rapid.IntRange(0, 3).Draw(t, "setblock") > 0 {
			v := strconv.Itoa(genBlock(t, 1, n, 500))
			switch rapid.IntRange(0, 14).Draw(t, "blockclass") {
			case 0:
				v = rapid.SampledFrom([]string{"256", "257", "300", "261", "1000", "65541", "4294967301", "-1", "abc", "", "2.5", "99999999999999999999999"}).Draw(t, "badblock")
			case 1:
				if n < 40 {
					v = "0"
				}
			case 2:
				if n < 30 {
					v = rapid.SampledFrom([]string{"64", "128", "255"}).Draw(t, "bigblock")
				}
			}
			c.Args = append(c.Args, Arg{"block", v, form()})
		}
		if rapid.IntRange(0, 2).Draw(t, "setborders") > 0 {
			v := ""
			if rapid.IntRange(0, 3).Draw(t, "badborders") == 0 {
				v = rapid.SampledFrom(badBorders).Draw(t, "border")
			} else {
				var p []string
				for i := 0; i < 4; i++ {
					p = append(p, strconv.Itoa(rapid.OneOf(rapid.IntRange(0, 40), rapid.SampledFrom([]int{0, 1, 255, 128, 127})).Draw(t, "bw")))
				}
				v = strings.Join(p, ",")
			}
			c.Args = append(c.Args, Arg{"borders", v, form() & 1 * 2})
		}
		if rapid.IntRange(0, 4).Draw(t, "setout") > 0 {
			v := rapid.SampledFrom([]string{"a.png", "a.png", "a.png", "a.jpg", "a.jpeg", "noext", "png", "a.png.jpg", "a.jpg.png", "x.gif", "sub/a.png", ".png", "sub", "missing/a.png", "missing/a.jpg", "a b.png", "ü.png", "full.png", "full.jpg", "./d.png", "a.b.png", "a.PNG.jpg", "sub/../e.png"}).Draw(t, "output")
			c.Args = append(c.Args, Arg{"output", v, form()})
		}
		for _, f := range []string{"circle", "transparent"} {
			if rapid.IntRange(0, 3).Draw(t, f) == 0 {
				c.Args = append(c.Args, Arg{Flag: f, V: rapid.SampledFrom([]string{"", "", "true", "false"}).Draw(t, "bool")})
			}
		}
		if rapid.IntRange(0, 4).Draw(t, "sethalf") == 0 {
			c.HalfFile = rapid.SampledFrom([]string{"png", "jpeg", "png", "corrupt", "missing"}).Draw(t, "halffile")
			c.Half = &Pic{W: rapid.IntRange(1, 60).Draw(t, "hw"), H: rapid.IntRange(1, 60).Draw(t, "hh"), Type: "rgba", Kind: rapid.SampledFrom([]string{"noise", "halves", "bw", "dim"}).Draw(t, "hkind"), Seed: 9}
			c.Args = append(c.Args, Arg{"halftone", "half.img", form() & 1})
		}
		if len(c.Args) > 1 && rapid.Bool().Draw(t, "reverse") {
			for i, j := 0, len(c.Args)-1; i < j; i, j = i+1, j-1 {
				c.Args[i], c.Args[j] = c.Args[j], c.Args[i]
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "setprior") == 0 {
			c.Prior = rapid.OneOf(rapid.IntRange(0, 300), rapid.IntRange(0, 200000)).Draw(t, "prior")
		}
		return c
	}
}

func init() {
	core.Register(core.Def[CLICase]{
		ID:   "C31",
		Rule: "one case = one run of the built command in a scratch directory with generated text, flags (long, short, joined, any order, valid or not), existing output and halftone file, or with --terminal on a pseudo-terminal; oracle = pixels and format equal the library's image for the documented meaning of the flags and the text decodes from it, nothing else is written; or a failing status with a message, no crash and no new file; non-trivial = an image compared, a screen compared or an expected failure",
		Cells: func(t core.Tier) []core.Cell[CLICase] {
			var cells []core.Cell[CLICase]
			for i := 0; i < 16; i++ {
				cells = append(cells, core.Cell[CLICase]{Name: fmt.Sprintf("run-%d", i), Runs: t.N(30, 1500), Gen: genCLI(false)},
					core.Cell[CLICase]{Name: fmt.Sprintf("terminal-%d", i), Runs: t.N(3, 100), Gen: genCLI(true)})
			}
			return cells
		},
		Check: checkCLI,
	})
}
