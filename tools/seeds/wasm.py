SEEDS = []
def S(**k): SEEDS.append(k)
W = 'cmd/wasm'
T, M = 'cmd/wasm/types.go', 'cmd/wasm/main.go'

SH = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: broken. cwd is the repository.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
(cd cmd/wasm && GOOS=js GOARCH=wasm go build -buildvcs=false -o "$tmp/m.wasm" .) || exit 3
timeout 120 node "$here/host.js" "$(go env GOROOT)/lib/wasm/wasm_exec.js" "$tmp/m.wasm"
'''
JS = '''
const [exec, file] = process.argv.slice(2);
const fs = require("fs"), crypto = require("crypto");
globalThis.fs = fs;
globalThis.path = require("path");
require(exec);
const go = new Go();
function fail(m) { console.log("FAIL " + m); process.exit(1); }
const hash = (r) => crypto.createHash("sha256").update(JSON.stringify(r)).digest("hex").slice(0, 24);
function want(rs) {
  const g = hash(rs);
  console.log("GOT=" + g);
  if (g !== "@WANT@") fail("other results");
}
WebAssembly.instantiate(fs.readFileSync(file), go.importObject).then(async (m) => {
  go.run(m.instance).catch((e) => fail("module stopped " + e));
  await new Promise((r) => setTimeout(r, 200));
  const call = (...a) => {
    let r;
    try { r = globalThis.generateQRCode(...a); } catch (e) { fail("exception " + e); }
    if (!r || typeof r.success !== "boolean") fail("no result");
    return [r.success, r.success ? r.base64EncodedImage : r.error !== ""];
  };
%s
  process.exit(0);
}).catch((e) => fail("" + e));
'''
def files(js):
    t = JS if 'want(' in js else JS.replace('"@WANT@"', '""')
    return {'demo.sh': SH, 'host.js': t % js}

S(id='c32-transparent-order', property='C32', pkg=W,
  edits=[(T, '''	if o.outputOption.bgTransparent {
		out = append(out, stdw.WithBgTransparent())
	}
''', '''	if o.outputOption.bgTransparent && o.outputOption.bgColor == "" {
		out = append(out, stdw.WithBgTransparent())
	}
''')],
  files=files('want([call("hello", {outputBgTransparent: true, outputBgColor: "#ff0000"})]);'),
  needs='a transparent background together with a background colour', breaks='the background is drawn opaque')
S(id='c32-jpg-upper', property='C32', pkg=W,
  edits=[(T, '	case "jpg", "jpeg":\n', '	case "jpeg":\n')],
  files=files('want([call("hello", {outputImageEncoder: "jpg"})]);'),
  needs='the encoder name jpg', breaks='a PNG is returned')
S(id='c32-level-m', property='C32', pkg=W,
  edits=[(T, '''	case "M":
		out = append(out, qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionMedium))
''', '''	case "M":
		if o.encodeOption.version == 0 {
			out = append(out, qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionMedium))
		}
''')],
  files=files('want([call("hello", {encodeECLevel: "M", encodeVersion: 3})]);'),
  needs='level M together with a version', breaks='level Q is used')
S(id='c32-margin-width', property='C32', pkg=W,
  edits=[(T, '	if o.outputOption.margin != 0 {\n', '	if o.outputOption.margin != 0 && o.outputOption.margin != int(o.outputOption.qrWidth) {\n')],
  files=files('want([call("hello", {outputMargin: 10, outputQrWidth: 10})]);'),
  needs='a margin equal to the block width', breaks='the default margin of 20 is used')
S(id='c32-result-shared', property='C32', pkg=W,
  edits=[(M, '		r          = new(genResult)\n', '		r          = &lastResult\n'),
    (M, '''func main() {
''', '''// lastResult is reused by all calls.
var lastResult genResult

func main() {
'''), (T, '''	r.Success = false
	r.Error = err.Error()
''', '''	if r.Error == "" {
		r.Error = err.Error()
	}
'''), (T, '	r.Success = true\n', '	r.Success, r.Error = true, ""\n')],
  files=files('call("hello"); const r = call("x".repeat(5000)); if (r[0]) fail("a text that does not fit succeeds after a successful call");'),
  needs='a failing call after a successful one', breaks='the old image is returned as a success')
S(id='c32-opt-sticky', property='C32', pkg=W,
  edits=[(M, '		opt = optionFromJSValue(args[1])\n', '''		if opt = optionFromJSValue(args[1]); opt != nil {
			lastOption = opt
		} else if args[1].IsNull() {
			opt = lastOption
		}
'''), (M, '''func main() {
''', '''var lastOption *genOption

func main() {
''')],
  files=files('const a = call("hello", null); call("hello", {encodeVersion: 5}); if (hash(a) !== hash(call("hello", null))) fail("null takes the options of the last call");'),
  needs='a call with null options after a call with an option object', breaks='the options of the earlier call apply')
S(id='c32-mode-one-call', property='C32', pkg=W,
  edits=[(T, '''	case uint8(qrcode.EncModeByte):
		out = append(out, qrcode.WithEncodingMode(qrcode.EncModeByte))
''', '''	case uint8(qrcode.EncModeByte):
		if o.encodeOption.ecLevel != "" {
			out = append(out, qrcode.WithEncodingMode(qrcode.EncModeByte))
		}
''')],
  files=files('want([2, 4, 8, 16, 32].map((m) => call("123", {encodeMode: m})));'),
  needs='byte mode for a text of digits without a level', breaks='the mode is ignored')
S(id='c32-circle-width', property='C32', pkg=W,
  edits=[(T, '	if o.outputOption.circleShape {\n', '	if o.outputOption.circleShape && o.outputOption.qrWidth > 0 {\n')],
  files=files('want([call("hello", {outputCircleShape: true})]);'),
  needs='the circle shape with the default width', breaks='squares are drawn')
S(id='c32-content-number', property='C32', pkg=W,
  edits=[(M, '''	case 2:
		fallthrough
	default:
		srcContent = args[0].String()
		opt = optionFromJSValue(args[1])
''', '''	case 2:
		srcContent = args[0].String()
		opt = optionFromJSValue(args[1])
	default:
		srcContent = args[0].String()
''')],
  files=files('want([call("hello", {encodeVersion: 7}, 1)]);'),
  needs='a call with a third argument', breaks='the options are ignored')
