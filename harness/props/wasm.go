package props

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
	"pgregory.net/rapid"

	"verif/core"
)

// ---- C32: the WebAssembly binding ----

// WasmCall is one call of generateQRCode.
type WasmCall struct {
	Text  string         `json:"text"`
	Args  string         `json:"args"` // none text null undefined number string object extra
	Opt   map[string]any `json:"opt,omitempty"`
	Loose bool           `json:"loose,omitempty"` // settings outside the documented values: only survival is checked
}

type WasmCase struct {
	Calls []WasmCall `json:"calls"`
}

type wasmAnswer struct {
	Type   string   `json:"type"`
	Keys   []string `json:"keys"`
	Result *struct {
		Success bool   `json:"success"`
		Error   string `json:"error"`
		Image   string `json:"base64EncodedImage"`
	} `json:"result"`
	Threw  string `json:"threw"`
	Exited bool   `json:"exited"`
}

func (c WasmCall) argv() []any {
	undef := map[string]any{"$undefined": true}
	opt := c.Opt
	if opt == nil {
		opt = map[string]any{}
	}
	switch c.Args {
	case "none":
		return []any{}
	case "text":
		return []any{c.Text}
	case "null":
		return []any{c.Text, nil}
	case "undefined":
		return []any{c.Text, undef}
	case "number":
		return []any{c.Text, 5}
	case "string":
		return []any{c.Text, "png"}
	case "extra":
		return []any{c.Text, opt, "more", 1}
	}
	return []any{c.Text, opt}
}

func num(v any) (int, bool) {
	switch x := v.(type) {
	case int:
		return x, true
	case float64:
		return int(x), true
	}
	return 0, false
}

// settings is the library call an option object stands for.
func (c WasmCall) settings() (spec Spec, out []standard.ImageOption, jpeg bool) {
	spec = Spec{Text: B(c.Text)}
	o := c.Opt
	if v, ok := num(o["encodeVersion"]); ok && v != 0 {
		spec.Opts = append(spec.Opts, Opt{"ver", v})
	}
	if v, ok := num(o["encodeMode"]); ok && v != 0 {
		spec.Opts = append(spec.Opts, Opt{"mode", v})
	}
	if v, ok := o["encodeECLevel"].(string); ok {
		if i := strings.Index("LMQH", v); i >= 0 && len(v) == 1 {
			lv := []int{int(qrcode.ErrorCorrectionLow), int(qrcode.ErrorCorrectionMedium), int(qrcode.ErrorCorrectionQuart), int(qrcode.ErrorCorrectionHighest)}[i]
			spec.Opts = append(spec.Opts, Opt{"ec", lv})
		}
	}
	if v, ok := o["outputBgColor"].(string); ok {
		out = append(out, standard.WithBgColorRGBHex(v))
	}
	if v, ok := o["outputBgTransparent"].(bool); ok && v {
		out = append(out, standard.WithBgTransparent())
	}
	if v, ok := o["outputQrColor"].(string); ok {
		out = append(out, standard.WithFgColorRGBHex(v))
	}
	if v, ok := num(o["outputQrWidth"]); ok && v != 0 {
		out = append(out, standard.WithQRWidth(uint8(v)))
	}
	if v, ok := o["outputCircleShape"].(bool); ok && v {
		out = append(out, standard.WithCircleShape())
	}
	if v, ok := num(o["outputMargin"]); ok && v != 0 {
		out = append(out, standard.WithBorderWidth(v))
	}
	f, _ := o["outputImageEncoder"].(string)
	return spec, out, f == "jpg" || f == "jpeg"
}

var wasmHelper *helper

func checkWasm(c WasmCase, r *core.Rec) (err error) {
	if wasmHelper == nil {
		env := append(os.Environ(), "NODE_OPTIONS=")
		h, err := startHelper(core.Scratch(), env, "node", os.Getenv("VERIF_NODE_HOST"))
		if err != nil {
			panic("harness: node: " + err.Error())
		}
		wasmHelper = h
	}
	h := wasmHelper
	defer func() {
		if err != nil { // start over with a new instance
			_ = h.in.Close()
			_ = h.cmd.Process.Kill()
			_ = h.cmd.Wait()
			wasmHelper = nil
		}
	}()
	for i, call := range c.Calls {
		var a wasmAnswer
		raw, _ := json.Marshal(call.argv())
		if err := h.call(call.argv(), &a); err != nil {
			return fmt.Errorf("call %d generateQRCode%.300s: %v", i, raw, err)
		}
		if a.Threw != "" || a.Exited {
			return fmt.Errorf("call %d generateQRCode%.300s: threw %q, module exited %v", i, raw, a.Threw, a.Exited)
		}
		sort.Strings(a.Keys)
		if a.Result == nil || strings.Join(a.Keys, ",") != "base64EncodedImage,error,success" {
			return fmt.Errorf("call %d: result is a %s with fields %v", i, a.Type, a.Keys)
		}
		res := a.Result
		img, err := base64.StdEncoding.DecodeString(res.Image)
		if err != nil {
			return fmt.Errorf("call %d: image is not base64: %v", i, err)
		}
		if res.Success != (len(img) > 0) || res.Success == (res.Error != "") {
			return fmt.Errorf("call %d generateQRCode%.300s: success %v with error %q and an image of %d bytes", i, raw, res.Success, res.Error, len(img))
		}
		if call.Loose {
			r.Class("loose success=%v", res.Success)
			continue
		}
		if call.Args == "none" {
			if res.Success {
				return fmt.Errorf("call %d: success without a text", i)
			}
			r.Class("no arguments")
			continue
		}
		if call.Args != "object" && call.Args != "extra" {
			call.Opt = nil
		}
		spec, out, jpg := call.settings()
		q, qerr := spec.New()
		if (qerr == nil) != res.Success {
			return fmt.Errorf("call %d generateQRCode%.300s: success %v (%s), the library says %v", i, raw, res.Success, res.Error, qerr)
		}
		r.Nontrivial()
		if qerr != nil {
			r.Class("refused")
			continue
		}
		formats := []string{"png", "jpeg"} // without an option object the format is left open
		if call.Opt != nil || call.Args == "object" || call.Args == "extra" {
			formats = []string{"png"}
			if jpg {
				formats = []string{"jpeg"}
			}
		}
		var derr error
		for _, f := range formats {
			enc := standard.WithBuiltinImageEncoder(standard.PNG_FORMAT)
			if f == "jpeg" {
				enc = standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT)
			}
			want, err := render(q, append(append([]standard.ImageOption{}, out...), enc)...)
			if err != nil {
				return skip(errSkip)
			}
			if derr = sameImage(img, want, f); derr == nil {
				r.Class("image %s args %s", f, call.Args)
				break
			}
		}
		if derr != nil {
			return fmt.Errorf("call %d generateQRCode%.300s: %v", i, raw, derr)
		}
		for k := range call.Opt {
			r.Class("field %s", k)
		}
	}
	r.Class("calls %d", len(c.Calls))
	return nil
}

func genWasmCall(t *rapid.T) WasmCall {
	var c WasmCall
	switch rapid.IntRange(0, 9).Draw(t, "textclass") {
	case 0, 1, 2:
		c.Text = strings.ToValidUTF8(string(genMixed(t, 20)), "?")
	case 3:
		if rapid.IntRange(0, 3).Draw(t, "toolong") == 0 {
			c.Text = strings.Repeat("x", rapid.IntRange(1650, 3200).Draw(t, "n"))
		}
	default:
		c.Text = strings.ToValidUTF8(string(genDraw(t, 5).Text), "?")
	}
	if !utf8.ValidString(c.Text) {
		c.Text = "?"
	}
	c.Args = rapid.SampledFrom([]string{"object", "object", "object", "object", "object", "object", "object", "extra", "none", "text", "null", "undefined", "number", "string"}).Draw(t, "args")
	if c.Args != "object" && c.Args != "extra" {
		return c
	}
	o := map[string]any{}
	has := func(f string) bool { return rapid.IntRange(0, 1).Draw(t, "has "+f) == 0 }
	if has("encodeVersion") {
		o["encodeVersion"] = rapid.OneOf(rapid.IntRange(0, 8), rapid.SampledFrom([]int{0, -1, 41, 100, 12})).Draw(t, "version")
	}
	if rapid.IntRange(0, 3).Draw(t, "has mode") == 0 {
		o["encodeMode"] = rapid.SampledFrom([]int{0, int(qrcode.EncModeNumeric), int(qrcode.EncModeAlphanumeric), int(qrcode.EncModeByte), int(qrcode.EncModeKanji)}).Draw(t, "mode")
	}
	if has("encodeECLevel") {
		o["encodeECLevel"] = rapid.SampledFrom([]string{"L", "M", "Q", "H", ""}).Draw(t, "level")
	}
	hex := func(label string) string {
		return rapid.SampledFrom([]string{"", fmt.Sprintf("#%06x", rapid.IntRange(0, 0xffffff).Draw(t, label)), fmt.Sprintf("#%03x", rapid.IntRange(0, 0xfff).Draw(t, label+"3")), fmt.Sprintf("#%06X", rapid.IntRange(0, 0xffffff).Draw(t, label+"u"))}).Draw(t, label+" form")
	}
	if has("outputBgColor") {
		o["outputBgColor"] = hex("bg")
	}
	if has("outputBgTransparent") {
		o["outputBgTransparent"] = rapid.Bool().Draw(t, "transparent")
	}
	if has("outputQrColor") {
		o["outputQrColor"] = hex("fg")
	}
	if has("outputQrWidth") {
		o["outputQrWidth"] = rapid.OneOf(rapid.IntRange(0, 9), rapid.SampledFrom([]int{0, 1, 20})).Draw(t, "width")
	}
	if has("outputCircleShape") {
		o["outputCircleShape"] = rapid.Bool().Draw(t, "circle")
	}
	if has("outputImageEncoder") {
		o["outputImageEncoder"] = rapid.SampledFrom([]string{"png", "jpg", "jpeg", ""}).Draw(t, "format")
	}
	if has("outputMargin") {
		o["outputMargin"] = rapid.OneOf(rapid.IntRange(0, 60), rapid.SampledFrom([]int{0, 1, 255, 300})).Draw(t, "margin")
	}
	if rapid.IntRange(0, 5).Draw(t, "loose") == 0 {
		c.Loose = true
		fields := []string{"encodeVersion", "encodeMode", "encodeECLevel", "outputBgColor", "outputBgTransparent", "outputQrColor", "outputQrWidth", "outputCircleShape", "outputImageEncoder", "outputMargin"}
		bad := []any{nil, "x", "#12", "#ggg", "#12345", "#xyzxyz", "", true, 3, 2.5, -7, map[string]any{"$undefined": true}, []any{}, "Z", "gif"}
		for k := rapid.IntRange(1, 3).Draw(t, "nbad"); k > 0; k-- {
			f, v := rapid.SampledFrom(fields).Draw(t, "field"), bad[rapid.IntRange(0, len(bad)-1).Draw(t, "bad")]
			if f == "outputQrWidth" && v == -7 { // 249 after conversion: only a matter of memory
				v = 2.5
			}
			o[f] = v
		}
	}
	c.Opt = o
	return c
}

func init() {
	core.Register(core.Def[WasmCase]{
		ID:          "C32",
		Rule:        "one case = up to 6 calls of generateQRCode in a node instance of the built module that stays up over the cases: texts, option objects with any fields missing, malformed or of other types, null, undefined and other second arguments, no argument; oracle = success exactly when the library accepts, pixels and format equal the library's image, otherwise a non-empty error; never an exception or a stopped module; malformed values only need a well-formed result; non-trivial = at least one call compared with the library",
		Assumptions: []string{"js/wasm build run by the installed node"},
		Cells: func(t core.Tier) []core.Cell[WasmCase] {
			var cells []core.Cell[WasmCase]
			for i := 0; i < 16; i++ {
				cells = append(cells, core.Cell[WasmCase]{Name: fmt.Sprintf("calls-%d", i), Runs: t.N(15, 900), Gen: func(t *rapid.T) WasmCase {
					var c WasmCase
					for k := rapid.IntRange(1, 6).Draw(t, "ncall"); k > 0; k-- {
						c.Calls = append(c.Calls, genWasmCall(t))
					}
					return c
				}})
			}
			return cells
		},
		Check: checkWasm,
	})
}
