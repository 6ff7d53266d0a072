package props

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	stddraw "image/draw"
	"os"
	"path/filepath"
	"reflect"

	"github.com/yeqown/go-qrcode/writer/standard/imgkit"
	xdraw "golang.org/x/image/draw"
	"pgregory.net/rapid"

	"verif/core"
)

// ---- C33: image helpers ----

// KitCase is one call of an image helper.
type KitCase struct {
	Op     string `json:"op"` // gray binary scale save read
	Pic    Pic    `json:"pic"`
	Thresh int    `json:"thresh,omitempty"`
	Rect   [4]int `json:"rect,omitempty"`
	Scaler string `json:"scaler,omitempty"`
	Ext    string `json:"ext,omitempty"`
	State  string `json:"state,omitempty"`
	Old    int    `json:"old,omitempty"`
}

// opaque marks wrapped images: an image that is not one of the standard types.
type opaque struct{ image.Image }

func (c KitCase) source() image.Image {
	img := c.Pic.image()
	if c.Pic.Seed%5 == 0 {
		return opaque{img}
	}
	return img
}

// snapshot lists all colours of an image.
func snapshot(img image.Image) []color.Color {
	var out []color.Color
	b := img.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			out = append(out, img.At(x, y))
		}
	}
	return out
}

func luma(c color.Color) uint8 {
	r, g, b, _ := c.RGBA()
	// ITU-R 601 weights on 16-bit channels
	v := (0.299*float64(r) + 0.587*float64(g) + 0.114*float64(b)) / 256
	return uint8(min(v, 255))
}

func checkKit(c KitCase, r *core.Rec) error {
	src := c.source()
	before := snapshot(src)
	b := src.Bounds()
	r.Class("%s", c.Op)
	r.Class("%s origin zero %v", c.Pic.Type, b.Min == image.Point{})
	defer func() { r.Nontrivial() }()
	err := kitOp(c, src, b, r)
	if err != nil {
		return err
	}
	if src.Bounds() != b || !reflect.DeepEqual(snapshot(src), before) {
		return fmt.Errorf("%s modified its source", c.Op)
	}
	return nil
}

func kitOp(c KitCase, src image.Image, b image.Rectangle, r *core.Rec) error {
	switch c.Op {
	case "gray":
		g := imgkit.Gray(src)
		if g == nil || g.Bounds() != b {
			return fmt.Errorf("Gray: bounds differ from the source's %v", b)
		}
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				got, want := int(g.GrayAt(x, y).Y), int(luma(src.At(x, y)))
				if got-want > 1 || want-got > 1 {
					return fmt.Errorf("Gray: pixel (%d,%d) of colour %v is %d, want %d", x, y, src.At(x, y), got, want)
				}
			}
		}
	case "binary":
		out := imgkit.Binaryzation(src, uint8(c.Thresh))
		if out.Bounds() != b {
			return fmt.Errorf("Binaryzation: bounds %v, want %v", out.Bounds(), b)
		}
		white := 0
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				got := rgba8(out.At(x, y))
				l := int(luma(src.At(x, y)))
				switch got {
				case color.RGBA{255, 255, 255, 255}:
					white++
					if l < c.Thresh { // one level of rounding tolerance at the threshold
						return fmt.Errorf("Binaryzation(%d): pixel (%d,%d) of luminance %d is white", c.Thresh, x, y, l)
					}
					if exact := grayExact(src.At(x, y)); exact && l <= c.Thresh {
						return fmt.Errorf("Binaryzation(%d): grey pixel (%d,%d) of luminance %d is white", c.Thresh, x, y, l)
					}
				case color.RGBA{0, 0, 0, 255}:
					if l > c.Thresh+1 {
						return fmt.Errorf("Binaryzation(%d): pixel (%d,%d) of luminance %d is black", c.Thresh, x, y, l)
					}
					if exact := grayExact(src.At(x, y)); exact && l > c.Thresh {
						return fmt.Errorf("Binaryzation(%d): grey pixel (%d,%d) of luminance %d is black", c.Thresh, x, y, l)
					}
				default:
					return fmt.Errorf("Binaryzation(%d): pixel (%d,%d) has colour %v", c.Thresh, x, y, got)
				}
			}
		}
		switch {
		case white == 0:
			r.Class("all black")
		case white == b.Dx()*b.Dy():
			r.Class("all white")
		default:
			r.Class("mixed")
		}
	case "scale":
		rect := image.Rect(c.Rect[0], c.Rect[1], c.Rect[0]+c.Rect[2], c.Rect[1]+c.Rect[3])
		var sc xdraw.Scaler
		ref := xdraw.Scaler(xdraw.ApproxBiLinear)
		switch c.Scaler {
		case "nearest":
			sc = xdraw.NearestNeighbor
		case "bilinear":
			sc = xdraw.BiLinear
		case "catmull":
			sc = xdraw.CatmullRom
		}
		if sc != nil {
			ref = sc
		}
		out := imgkit.Scale(src, rect, sc)
		if out.Bounds() != rect {
			return fmt.Errorf("Scale: bounds %v, want %v", out.Bounds(), rect)
		}
		if c.Pic.Kind == "flat" && c.Pic.Type != "alpha" {
			want := rgba8(src.At(b.Min.X, b.Min.Y))
			for y := rect.Min.Y; y < rect.Max.Y; y++ {
				for x := rect.Min.X; x < rect.Max.X; x++ {
					if !near(rgba8(out.At(x, y)), want, 1) {
						return fmt.Errorf("Scale: pixel (%d,%d) of a uniform %v picture is %v", x, y, want, out.At(x, y))
					}
				}
			}
			r.Class("uniform")
			return nil
		}
		model := image.NewRGBA(rect)
		ref.Scale(model, rect, src, b, stddraw.Over, nil)
		for y := rect.Min.Y; y < rect.Max.Y; y++ {
			for x := rect.Min.X; x < rect.Max.X; x++ {
				if !near(rgba8(out.At(x, y)), model.RGBAAt(x, y), 1) {
					return fmt.Errorf("Scale(%s): pixel (%d,%d) is %v, want %v", c.Scaler, x, y, out.At(x, y), model.RGBAAt(x, y))
				}
			}
		}
	case "save":
		return checkKitSave(c, src, b, r)
	case "read":
		return checkKitRead(c, src, b, r)
	}
	return nil
}

// grayExact: equal channels with equal bytes, whose luminance is not a matter
// of rounding.
func grayExact(c color.Color) bool {
	r, g, b, a := c.RGBA()
	return r == g && g == b && a == 0xffff && r>>8 == r&0xff
}

func checkKitSave(c KitCase, src image.Image, b image.Rectangle, r *core.Rec) error {
	dir, err := os.MkdirTemp(core.Scratch(), "kit")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "out"+c.Ext)
	if c.Old > 0 {
		if os.WriteFile(name, make([]byte, c.Old), 0o644) != nil {
			return nil
		}
	}
	if c.State == "noparent" {
		name = filepath.Join(dir, "missing", "out"+c.Ext)
	} else if c.State == "dir" {
		name = dir
	}
	err = imgkit.Save(src, name)
	r.Class("save %q %s", c.Ext, c.State)
	if n := openBelow(dir); n != 0 {
		return fmt.Errorf("Save left the file open")
	}
	known := c.Ext == ".png" || c.Ext == ".jpg" || c.Ext == ".jpeg"
	if c.State != "" || !known {
		if err == nil {
			return fmt.Errorf("Save with extension %q (%s) returns nil", c.Ext, c.State)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("Save %s: %v", c.Ext, err)
	}
	back, err := imgkit.Read(name)
	if err != nil {
		return fmt.Errorf("Read of a saved %s: %v", c.Ext, err)
	}
	if back.Bounds().Dx() != b.Dx() || back.Bounds().Dy() != b.Dy() {
		return fmt.Errorf("saved %s reads back as %v, want size %v", c.Ext, back.Bounds(), b.Size())
	}
	if c.Old > 0 { // the previous content is gone: same bytes as under a new name
		fresh := filepath.Join(dir, "fresh"+c.Ext)
		if err := imgkit.Save(src, fresh); err != nil {
			return fmt.Errorf("Save to a new file: %v", err)
		}
		a, err1 := os.ReadFile(name)
		b, err2 := os.ReadFile(fresh)
		if err1 != nil || err2 != nil {
			return nil
		}
		if !bytes.Equal(a, b) {
			return fmt.Errorf("Save over a file of %d bytes leaves %d bytes, to a new file %d, and they differ", c.Old, len(a), len(b))
		}
	}
	f, err := os.Open(name)
	if err != nil {
		return nil
	}
	defer f.Close()
	_, format, err := image.DecodeConfig(f)
	want := "jpeg"
	if c.Ext == ".png" {
		want = "png"
	}
	if err != nil || format != want {
		return fmt.Errorf("Save %s wrote format %q (%v)", c.Ext, format, err)
	}
	if c.Ext != ".png" {
		if c.Pic.Type != "alpha" {
			if err := jpegLike(toRGBA(back), b.Dx(), b.Dy(), func(x, y int) (color.RGBA, bool) {
				return rgba8(src.At(b.Min.X+x, b.Min.Y+y)), true
			}); err != nil {
				return err
			}
		}
		if c.Pic.Kind != "flat" || c.Pic.Type == "alpha" || c.Pic.Type == "paletted" {
			return nil
		}
		// uniform pictures survive JPEG up to rounding
		w := rgba8(src.At(b.Min.X, b.Min.Y))
		for y := 0; y < b.Dy(); y++ {
			for x := 0; x < b.Dx(); x++ {
				if g := rgba8(back.At(back.Bounds().Min.X+x, back.Bounds().Min.Y+y)); !near(g, w, 16) {
					return fmt.Errorf("saved uniform JPEG: pixel (%d,%d) is %v, want %v", x, y, g, w)
				}
			}
		}
		return nil
	}
	for y := 0; y < b.Dy(); y++ {
		for x := 0; x < b.Dx(); x++ {
			g := back.At(back.Bounds().Min.X+x, back.Bounds().Min.Y+y)
			w := src.At(b.Min.X+x, b.Min.Y+y)
			// PNG keeps non-premultiplied colours: compare those
			if color.NRGBAModel.Convert(g) != color.NRGBAModel.Convert(w) {
				return fmt.Errorf("saved PNG: pixel (%d,%d) reads back %v, want %v", x, y, g, w)
			}
		}
	}
	return nil
}

func checkKitRead(c KitCase, src image.Image, b image.Rectangle, r *core.Rec) error {
	dir, err := os.MkdirTemp(core.Scratch(), "kit")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "in"+c.Ext)
	data := encodeFile(src, c.Scaler == "jpeg")
	switch c.State {
	case "half":
		data = data[:len(data)/2]
	case "garbage":
		for i := range data {
			data[i] ^= 0x5a
		}
	case "empty":
		data = nil
	}
	if c.State == "dir" {
		name = dir
	} else if c.State != "missing" {
		if os.WriteFile(name, data, 0o644) != nil {
			return nil
		}
	}
	img, err := imgkit.Read(name)
	r.Class("read %s %s", c.Scaler, c.State)
	if n := openBelow(dir); n != 0 {
		return fmt.Errorf("Read left the file open")
	}
	if c.State != "" {
		if err == nil {
			return fmt.Errorf("Read of a %s file returns no error", c.State)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("Read of a sound %s named %q: %v", c.Scaler, c.Ext, err)
	}
	want, _, err := image.Decode(readerOf(data))
	if err != nil {
		return nil
	}
	if img.Bounds() != want.Bounds() || !reflect.DeepEqual(snapshot(img), snapshot(want)) {
		return fmt.Errorf("Read returns other pixels than the file holds")
	}
	return nil
}

func genKit(op string) func(t *rapid.T) KitCase {
	return func(t *rapid.T) KitCase {
		c := KitCase{Op: op, Pic: Pic{W: rapid.IntRange(1, 40).Draw(t, "w"), H: rapid.IntRange(1, 40).Draw(t, "h"),
			Type: rapid.SampledFrom([]string{"rgba", "nrgba", "gray", "paletted", "sub", "ycbcr", "alpha"}).Draw(t, "type"),
			Kind: rapid.SampledFrom([]string{"noise", "flat", "halves", "bw", "dim"}).Draw(t, "kind"),
			Seed: uint64(rapid.IntRange(0, 100000).Draw(t, "seed"))}}
		if rapid.Bool().Draw(t, "offset") {
			c.Pic.X, c.Pic.Y = rapid.IntRange(-60, 60).Draw(t, "x"), rapid.IntRange(-60, 60).Draw(t, "y")
		}
		switch op {
		case "binary":
			c.Thresh = rapid.OneOf(rapid.IntRange(0, 255), rapid.SampledFrom([]int{0, 1, 59, 60, 61, 127, 128, 254, 255})).Draw(t, "thresh")
		case "scale":
			c.Rect = [4]int{0, 0, rapid.IntRange(1, 60).Draw(t, "rw"), rapid.IntRange(1, 60).Draw(t, "rh")}
			if rapid.IntRange(0, 2).Draw(t, "roff") == 0 {
				c.Rect[0], c.Rect[1] = rapid.IntRange(-30, 30).Draw(t, "rx"), rapid.IntRange(-30, 30).Draw(t, "ry")
			}
			c.Scaler = rapid.SampledFrom([]string{"", "", "nearest", "bilinear", "catmull"}).Draw(t, "scaler")
		case "save":
			c.Ext = rapid.SampledFrom([]string{".png", ".png", ".png", ".jpg", ".jpeg", ".gif", "", ".bmp"}).Draw(t, "ext")
			c.State = rapid.SampledFrom([]string{"", "", "", "", "", "noparent", "dir"}).Draw(t, "state")
			c.Old = rapid.SampledFrom([]int{0, 0, 10, 100000}).Draw(t, "old")
		case "read":
			c.Ext = rapid.SampledFrom([]string{".png", ".jpg", ".jpeg", "", ".dat"}).Draw(t, "ext")
			c.Scaler = rapid.SampledFrom([]string{"png", "jpeg"}).Draw(t, "format")
			c.State = rapid.SampledFrom([]string{"", "", "", "half", "garbage", "empty", "missing", "dir"}).Draw(t, "state")
		}
		return c
	}
}

func init() {
	core.Register(core.Def[KitCase]{
		ID:   "C33",
		Rule: "one case = one call of Gray, Binaryzation, Scale, Save or Read on a generated picture of any standard pixel type (or a foreign image type) and any bounds origin; oracle = luminance by the documented weights within one level, threshold rule, bounds, the scaler's own result, uniform pictures stay uniform, PNG round trip exact, JPEG uniform within rounding, errors for unusable names and contents, source unchanged, no file left open; all are non-trivial",
		Cells: func(t core.Tier) []core.Cell[KitCase] {
			var cells []core.Cell[KitCase]
			for i := 0; i < 8; i++ {
				for _, op := range []string{"gray", "binary", "scale", "save", "read"} {
					cells = append(cells, core.Cell[KitCase]{Name: fmt.Sprintf("%s-%d", op, i), Runs: t.N(1500, 40000), Gen: genKit(op)})
				}
			}
			return cells
		},
		Check: checkKit,
	})
}
