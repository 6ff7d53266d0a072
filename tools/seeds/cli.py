SEEDS = []
def S(**k): SEEDS.append(k)
C = 'cmd/qrcode'
A = 'cmd/qrcode/app.go'

PRE = '''
package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"image"
	_ "image/jpeg"
	_ "image/png"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

var _ = strings.Repeat
var _ = image.Decode
var _ = fmt.Sprint

type sdRes struct {
	ok    bool
	out   string
	files map[string][]byte
}

var sdBin string

// sdRun runs the built command in a new directory.
func sdRun(t *testing.T, prep func(dir string), args ...string) sdRes {
	if sdBin == "" {
		d, err := os.MkdirTemp("", "sdbin")
		if err != nil {
			t.Fatal(err)
		}
		sdBin = filepath.Join(d, "qrcode")
		if out, err := exec.Command("go", "build", "-buildvcs=false", "-o", sdBin, ".").CombinedOutput(); err != nil {
			t.Fatalf("build failed: %s", out)
		}
	}
	dir := t.TempDir()
	if prep != nil {
		prep(dir)
	}
	cmd := exec.Command(sdBin, args...)
	cmd.Dir = dir
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Run()
	r := sdRes{ok: err == nil, out: buf.String(), files: map[string][]byte{}}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if !e.Type().IsRegular() {
			continue
		}
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		r.files[e.Name()] = b
	}
	return r
}

// sdSum is a fingerprint of an image file: format, size and pixels.
func sdSum(b []byte) string {
	img, format, err := image.Decode(bytes.NewReader(b))
	if err != nil {
		return "noimage"
	}
	h := sha256.New()
	fmt.Fprint(h, format, img.Bounds())
	for y := img.Bounds().Min.Y; y < img.Bounds().Max.Y; y++ {
		for x := img.Bounds().Min.X; x < img.Bounds().Max.X; x++ {
			r, g, b, a := img.At(x, y).RGBA()
			h.Write([]byte{byte(r >> 8), byte(g >> 8), byte(b >> 8), byte(a >> 8)})
		}
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}

func TestSeedDemo(t *testing.T) {
	defer func() { os.RemoveAll(filepath.Dir(sdBin)) }()
'''

def demo(body, extra=''):
    return PRE + body + '\n}\n' + extra

def fp(cmds):
    """the images of several runs have the right fingerprint"""
    b = '	got := ""\n'
    for prep, args, name in cmds:
        b += f'	got += sdSum(sdRun(t, {prep or "nil"}, {args}).files["{name}"])\n'
    b += '''	got = fmt.Sprintf("%x", sha256.Sum256([]byte(got)))[:24]
	fmt.Println("GOT=" + got)
	if got != "@WANT@" {
		t.Fatal("not the described image")
	}'''
    return demo(b)

S(id='c31-ext-contains', property='C31', pkg=C,
  edits=[(A, '''	switch foo.outputSuffix {
	case "png":
		options = append(options, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
	case "jpg", "jpeg":
		fallthrough
	default:
''', '''	switch {
	case strings.Contains(filepath.Base(foo.output), ".png"):
		options = append(options, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
	default:
''')],
  demo=fp([(None, '"-o", "a.png.jpg", "hello"', 'a.png.jpg')]),
  needs='an output name with .png before its extension', breaks='the file is a PNG although it is named .jpg')

S(id='c31-ext-first-dot', property='C31', pkg=C,
  edits=[(A, 'strings.TrimPrefix(filepath.Ext(c.String("output")), ".")', 'c.String("output")[strings.IndexByte(filepath.Clean(c.String("output")), \'.\')+1:]')],
  demo=fp([(None, '"-o", "a.b.png", "hello"', 'a.b.png'), (None, '"-o", "./c.png", "hello"', 'c.png'), (None, '"-o", "png", "hello"', 'png')]),
  needs='an output path with more than one dot', breaks='the extension is not recognised and a JPEG is written')

S(id='c31-borders-symmetric', property='C31', pkg=C,
  edits=[(A, '		standard.WithBorderWidth(foo.borders[:]...),\n	}\n', '''	}
	if foo.borders[0] == foo.borders[2] && foo.borders[1] == foo.borders[3] {
		options = append(options, standard.WithBorderWidth(foo.borders[1], foo.borders[0]))
	} else {
		options = append(options, standard.WithBorderWidth(foo.borders[:]...))
	}
''')],
  demo=fp([(None, '"-b", "10,20,10,20", "hello"', 'qrcode.jpg')]),
  needs='borders equal on opposite sides but different on adjacent ones', breaks='vertical and horizontal borders are exchanged')

S(id='c31-border-int8', property='C31', pkg=C,
  edits=[(A, '		v, err := strconv.ParseUint(s, 10, 8)\n', '		v, err := strconv.ParseUint(s, 0, 8)\n')],
  demo=fp([(None, '"-b", "010,20,011,007", "hello"', 'qrcode.jpg')]),
  needs='a border written with a leading zero', breaks='it is read as an octal number')

S(id='c31-transparent-jpeg', property='C31', pkg=C,
  edits=[(A, '''	switch foo.outputSuffix {
	case "png":
''', '''	switch foo.outputSuffix {
	case "png", "":
''')],
  demo=fp([(None, '"-o", "code", "hello"', 'code')]),
  needs='an output name without extension', breaks='a PNG is written instead of a JPEG')

S(id='c31-circle-halftone', property='C31', pkg=C,
  edits=[(A, '	if foo.halftoneImage != "" {\n', '	if foo.halftoneImage != "" && !foo.isCircleShape {\n')],
  demo=demo('''	pic, _ := os.ReadFile("../../assets/halftone.png")
	_ = pic
	var b bytes.Buffer
	img := image.NewGray(image.Rect(0, 0, 10, 10))
	sdPNG(&b, img)
	prep := func(dir string) { os.WriteFile(filepath.Join(dir, "h.png"), b.Bytes(), 0o644) }
	got := sdSum(sdRun(t, prep, "-o", "a.png", "-s", "9", "--circle", "--halftone", "h.png", "hello").files["a.png"])
	fmt.Println("GOT=" + got)
	if got != "@WANT@" {
		t.Fatal("not the described image")
	}''').replace('	_ "image/png"', '	"image/png"').replace('var _ = fmt.Sprint\n', 'var _ = fmt.Sprint\nvar sdPNG = png.Encode\n').replace('''	pic, _ := os.ReadFile("../../assets/halftone.png")
	_ = pic
''', ''),
  needs='both --circle and --halftone', breaks='the halftone picture is ignored')

S(id='c31-open-first', property='C31', pkg=C,
  edits=[(A, '''	qrc, err := qrcode.New(ctx.text)
	if err != nil {
		return errors.Wrap(err, "generate QRCode failed")
	}

	var w qrcode.Writer
''', '''	var (
		w   qrcode.Writer
		err error
	)
'''), (A, '''		return errors.Wrap(err, "initialize writer failed")
	}
''', '''		return errors.Wrap(err, "initialize writer failed")
	}

	qrc, err := qrcode.New(ctx.text)
	if err != nil {
		_ = w.Close()
		return errors.Wrap(err, "generate QRCode failed")
	}
''')],
  demo=demo('''	r := sdRun(t, nil, strings.Repeat("x", 3000))
	if r.ok || len(r.files) != 0 {
		t.Fatalf("text that does not fit: status ok %v, files %v", r.ok, len(r.files))
	}'''),
  needs='a text that does not fit', breaks='an empty output file is left (and an existing image destroyed)')

S(id='c31-text-trim', property='C31', pkg=C,
  edits=[(A, '		text: c.Args().First(),\n', '		text: strings.TrimSpace(c.Args().First()),\n')],
  demo=fp([(None, '" two  words\\n"', 'qrcode.jpg')]),
  needs='a text with leading or trailing white space', breaks='the white space is not encoded')

S(id='c31-block-signed', property='C31', pkg=C,
  edits=[(A, '			blockSize:     uint8(c.Uint("block")),\n', '			blockSize:     uint8(c.Uint("block") & 0x7f),\n')],
  demo=fp([(None, '"-s", "130", "hello"', 'qrcode.jpg')]),
  needs='a block size from 128 up', breaks='the blocks are 128 pixels too small')

S(id='c31-save-error', property='C31', pkg=C,
  edits=[(A, '	return qrc.Save(w)\n', '''	if err = qrc.Save(w); err != nil {
		if _, serr := os.Stat(ctx.FOO.output); ctx.mode == writerMode_FILE && serr == nil {
			return nil // the image is there
		}
	}

	return err
'''), (A, '	"math"\n', '	"math"\n	"os"\n')],
  demo=demo('''	r := sdRun(t, func(dir string) { os.Symlink("/dev/full", filepath.Join(dir, "out.png")) }, "-o", "out.png", "hello")
	if r.ok {
		t.Fatal("a full device is not reported")
	}'''),
  needs='an output device without space', breaks='the tool reports success although nothing was written')

S(id='c31-terminal-file', property='C31', pkg=C,
  edits=[(A, '''	if c.Bool("terminal") {
''', '''	if c.Bool("terminal") && !c.IsSet("output") {
''')],
  files={}, demo=demo('''	r := sdRun(t, nil, "--terminal", "-o", "x.png", "hello")
	if len(r.files) != 0 {
		t.Fatal("--terminal wrote a file")
	}'''),
  needs='--terminal together with --output', breaks='a file is written instead of showing the symbol')

S(id='c31-comma-text', property='C31', pkg=C,
  edits=[(A, '	borders := c.String("borders")\n', '	borders := strings.TrimSuffix(c.String("borders"), ",")\n')],
  demo=demo('''	if r := sdRun(t, nil, "-b", "1,2,3,4,", "hello"); r.ok || len(r.files) != 0 {
		t.Fatal("borders with an empty fifth number are accepted")
	}'''),
  needs='a border list with a trailing comma', breaks='the malformed list is accepted')

