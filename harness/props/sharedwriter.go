package props

import (
	"bytes"
	"fmt"
	"image"
	"image/color"

	"github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/compressed"
	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/shapes"
)

// sink is an in-memory WriteCloser.
type sink struct {
	bytes.Buffer
	closes int
}

func (s *sink) Close() error { s.closes++; return nil }

// sharedWriterOptions are image option values used by many writers at once.
type sharedWriterOptions struct {
	common []standard.ImageOption
	png    standard.ImageOption
	jpeg   standard.ImageOption
	comp   *compressed.Option
}

func newSharedWriterOptions() *sharedWriterOptions {
	logo := image.NewRGBA(image.Rect(0, 0, 6, 5))
	for i := range logo.Pix {
		logo.Pix[i] = 0xff
	}
	half := image.NewGray(image.Rect(0, 0, 16, 16))
	for i := range half.Pix {
		half.Pix[i] = byte(i)
	}
	return &sharedWriterOptions{
		common: []standard.ImageOption{
			standard.WithQRWidth(3), standard.WithBorderWidth(3, 5), standard.WithBgTransparent(),
			standard.WithLogoImage(logo), standard.WithLogoSafeZone(), standard.WithHalftoneImage(half),
			standard.WithCustomShape(shapes.Assemble(shapes.RoundedFinder(), shapes.LiquidBlock())),
			standard.WithFgGradient(standard.NewGradient(45, standard.ColorStop{T: 0, Color: color.RGBA{255, 0, 0, 255}}, standard.ColorStop{T: 1, Color: color.RGBA{0, 0, 255, 255}})),
		},
		png:  standard.WithBuiltinImageEncoder(standard.PNG_FORMAT),
		jpeg: standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT),
		comp: &compressed.Option{Padding: 2, BlockSize: 2},
	}
}

func (o *sharedWriterOptions) write(kind string, q *qrcode.QRCode) ([]byte, error) {
	var s sink
	var w qrcode.Writer
	switch kind {
	case "png":
		w = standard.NewWithWriter(&s, append(append([]standard.ImageOption{}, o.common...), o.png)...)
	case "jpeg":
		w = standard.NewWithWriter(&s, append(append([]standard.ImageOption{}, o.common...), o.jpeg)...)
	case "compressed":
		w = compressed.NewWithWriter(&s, o.comp)
	default:
		return nil, fmt.Errorf("kind %q", kind)
	}
	if err := q.Save(w); err != nil {
		return nil, err
	}
	return s.Bytes(), nil
}
