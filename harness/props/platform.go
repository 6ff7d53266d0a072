package props

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math"
	"os"
	"strconv"

	"github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/file"
	"pgregory.net/rapid"

	"verif/core"
	"verif/qrref"
)

// big64 keeps constants beyond 32 bits out of the compiler's sight, the harness
// is also built for a 32-bit platform.
func big64(v int64) int { return int(v) }

// Plat is a symbol and an output of it made on two platforms.
type Plat struct {
	Spec  Spec   `json:"spec"`
	Out   *Out   `json:"out,omitempty"`
	Decor []IOpt `json:"decor,omitempty"`
}

type platReply struct {
	Bits     int      `json:"bits"` // of an int
	Err      string   `json:"err,omitempty"`
	Rejected bool     `json:"rejected,omitempty"`
	Rows     []string `json:"rows,omitempty"`
	Types    string   `json:"types,omitempty"` // hash
	Len      int      `json:"len,omitempty"`
	Hash     string   `json:"hash,omitempty"` // of the output
	Save     string   `json:"save,omitempty"`
	Text     string   `json:"text,omitempty"`
}

func platResult(c Plat) (rep platReply) {
	rep.Bits = strconv.IntSize
	defer func() {
		if v := recover(); v != nil {
			rep.Err = fmt.Sprint("panic: ", v)
		}
	}()
	o, q, err := build(c.Spec)
	if err != nil {
		rep.Err = err.Error()
		return
	}
	if o.err {
		rep.Rejected = true
		return
	}
	rep.Rows = rows(o.bits)
	m, err := matrixOf(q)
	if err != nil {
		rep.Err = err.Error()
		return
	}
	h := fnv.New64a()
	m.Iterate(qrcode.IterDirection_ROW, func(_, _ int, v qrcode.QRValue) { fmt.Fprintf(h, "%d,", v.Type()) })
	rep.Types = fmt.Sprintf("%x", h.Sum64())
	if c.Out == nil {
		f, err := os.CreateTemp(core.Scratch(), "plat")
		if err != nil {
			return
		}
		defer os.Remove(f.Name())
		defer f.Close()
		if err := q.Save(file.New(f)); err != nil {
			rep.Save = "error"
		}
		b, _ := os.ReadFile(f.Name())
		rep.Text = string(b)
		return
	}
	out := *c.Out
	out.Opts = append(append([]IOpt{}, out.Opts...), c.Decor...)
	b, err := out.stream(q)
	if err != nil {
		rep.Save = "error"
	}
	h = fnv.New64a()
	h.Write(b)
	rep.Len, rep.Hash = len(b), fmt.Sprintf("%x", h.Sum64())
	return
}

// servePlat answers Plat lines with platReply lines.
func servePlat() int {
	log.SetOutput(io.Discard)
	out := bufio.NewWriter(os.Stdout)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return 0
		}
		var c Plat
		var rep platReply
		if err := json.Unmarshal(line, &c); err != nil {
			rep.Err = err.Error()
		} else {
			rep = platResult(c)
		}
		b, _ := json.Marshal(rep)
		out.Write(append(b, '\n'))
		out.Flush()
	}
}

var platHelper *helper

func checkPlatform(c Plat, r *core.Rec) error {
	want := platResult(c)
	if want.Err != "" {
		return errors.New(want.Err)
	}
	if platHelper == nil {
		h, err := startHelper(core.Scratch(), os.Environ(), os.Getenv("VERIF_BIN32"), "serve", "platform")
		if err != nil {
			return skip(errSkip)
		}
		platHelper = h
	}
	var got platReply
	if err := platHelper.call(c, &got); err != nil {
		platHelper = nil
		return fmt.Errorf("32-bit process: %v", err)
	}
	if got.Bits != 32 {
		return skip(errSkip)
	}
	got.Bits = want.Bits
	switch {
	case got.Err != "":
		return fmt.Errorf("32-bit process: %s", got.Err)
	case got.Rejected != want.Rejected:
		return fmt.Errorf("32-bit process rejects: %v, here: %v", got.Rejected, want.Rejected)
	case !want.Rejected && !eqBits(bitsOfRows(got.Rows), bitsOfRows(want.Rows)):
		return fmt.Errorf("the symbol differs in the 32-bit process: %s", diffBits(bitsOfRows(got.Rows), bitsOfRows(want.Rows)))
	case got.Types != want.Types:
		return errors.New("region tags differ in the 32-bit process")
	case got.Save != want.Save:
		return fmt.Errorf("Save in the 32-bit process: %q, here: %q", got.Save, want.Save)
	case got.Text != want.Text:
		return errors.New("the text output differs in the 32-bit process")
	case got.Len != want.Len || got.Hash != want.Hash:
		return fmt.Errorf("the %s output differs in the 32-bit process: %d bytes, here %d bytes", c.Out.Kind, got.Len, want.Len)
	}
	if want.Rejected {
		r.Class("rejected")
		return nil
	}
	r.Nontrivial()
	if c.Out == nil {
		r.Class("text file")
	} else {
		r.Class("output %s", c.Out.Kind)
	}
	for _, o := range c.Decor {
		r.Class("option %s", o.K)
	}
	r.Class("version %s", bucket((len(want.Rows)-17)/4, 1, 2, 7, 10, 27, 41))
	return nil
}

func genPlat(any bool) func(t *rapid.T) Plat {
	return func(t *rapid.T) Plat {
		if any {
			c := Plat{Spec: genSmall(t)}
			switch rapid.IntRange(0, 2).Draw(t, "kind") {
			case 0:
				m := rapid.SampledFrom(allModes).Draw(t, "m")
				lv := rapid.SampledFrom(allLevels).Draw(t, "lv")
				v := rapid.IntRange(1, 40).Draw(t, "cap")
				c.Spec = Spec{Text: genText(t, m, max(0, qrref.Capacity(v, lv, m)+rapid.IntRange(-2, 2).Draw(t, "d"))), Opts: []Opt{{"ec", int(lv)}}}
			case 1:
				for i := rapid.IntRange(0, 3).Draw(t, "nraw"); i > 0; i-- {
					v := rapid.SampledFrom([]int{0, -1, 41, 64, 128, 255, 256, math.MaxInt32, math.MinInt32, math.MinInt32 + 1, 1 << 16, 1 << 24, 1 << 30}).Draw(t, "raw")
					c.Spec.Opts = append(c.Spec.Opts, Opt{rapid.SampledFrom([]string{"ver", "minver", "ec"}).Draw(t, "k"), v})
				}
			}
			return c
		}
		c := Plat{Spec: genDraw(t, 10)}
		n := sideOf(c.Spec)
		o := genOut(t)
		c.Out = &o
		if o.Kind != "compressed" {
			for i := rapid.IntRange(0, 3).Draw(t, "ndecor"); i > 0; i-- {
				c.Decor = append(c.Decor, genPureOpt(t, n))
			}
		}
		return c
	}
}

func init() {
	core.Register(core.Def[Plat]{
		ID:          "C36",
		Rule:        "one case = one text with options, and an output of it (text file, PNG, JPEG, compressed) with image options, made in this process and in one built for a 32-bit platform (386); oracle = same decision, modules, region tags and bytes; non-trivial = a symbol and its output compared",
		Assumptions: []string{"386 stands for 32-bit platforms"},
		Setup: func() error {
			if os.Getenv("VERIF_BIN32") == "" {
				return errors.New("no 32-bit binary")
			}
			h, err := startHelper(core.Scratch(), os.Environ(), os.Getenv("VERIF_BIN32"), "serve", "platform")
			if err != nil {
				return fmt.Errorf("a 32-bit process does not start: %v", err)
			}
			platHelper = h
			return nil
		},
		Cells: func(t core.Tier) []core.Cell[Plat] {
			var cells []core.Cell[Plat]
			for i := 0; i < 16; i++ {
				cells = append(cells, core.Cell[Plat]{Name: fmt.Sprintf("symbols-%d", i), Runs: t.N(60, 4000), Gen: genPlat(true)},
					core.Cell[Plat]{Name: fmt.Sprintf("outputs-%d", i), Runs: t.N(30, 2000), Gen: genPlat(false)})
			}
			return cells
		},
		Check: checkPlatform,
	})
}
