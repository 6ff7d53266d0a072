exec(open('/verif/tools/seeds/image.py').read())
SEEDS = []
PRE = STD + '''
// sdCols are the distinct colours of an image and how often they occur.
func sdCols(img image.Image) map[color.Color]int {
	m := map[color.Color]int{}
	for y := img.Bounds().Min.Y; y < img.Bounds().Max.Y; y++ {
		for x := img.Bounds().Min.X; x < img.Bounds().Max.X; x++ {
			m[color.RGBAModel.Convert(img.At(x, y))]++
		}
	}
	return m
}

func sdFlat(w, h int, c color.Color) image.Image {
	img := image.NewRGBA(image.Rect(0, 0, w, h))
	for i := 0; i < w*h; i++ {
		img.Set(i%w, i/w, c)
	}
	return img
}
'''
S(id='c37-halftone-zone', property='C37', pkg='writer/standard',
  edits=[('writer/standard/writer.go', '''			if v.IsSet() {
				return
			}
		}

		// Draw the block''', '''			if v.IsSet() && (halftoneImg == nil || v.Type() != qrcode.QRType_DATA) {
				return
			}
		}

		// Draw the block''')],
  demo=PRE + '''
type sdShape struct{ t *testing.T }

func (s sdShape) DrawFinder(c *DrawContext) {}
func (s sdShape) Draw(c *DrawContext) {
	x, y := c.UpperLeft()
	if c.Color() == (color.RGBA{200, 0, 0, 255}) && x >= 93 && x <= 130 && y >= 93 && y <= 130 {
		s.t.Fatalf("a dark module is drawn at (%v,%v) under the logo", x, y)
	}
}

func TestSeedDemo(t *testing.T) {
	sdImg(t, "hello", WithQRWidth(9), WithBorderWidth(0), WithFgColor(color.RGBA{200, 0, 0, 255}), WithHalftoneImage(sdFlat(30, 30, color.White)),
		WithLogoImage(sdFlat(45, 45, color.Black)), WithLogoSafeZone(), WithCustomShape(sdShape{t}))
}
''', needs='halftone picture together with a logo and its safe zone', breaks='dark data modules under the logo are drawn')
S(id='c37-logo-tint', property='C37', pkg='writer/standard',
  edits=[('writer/standard/writer.go', '''	// Gradient fill
	if opt.qrGradient != nil {
''', '''	// Gradient fill
	gradient := func() {
'''), ('writer/standard/writer.go', '''	if opt.logoImage() == nil {
		goto done
	}
''', '''	late := halftoneImg != nil && opt.bgTransparent // the light cells have to be blended first
	if opt.qrGradient != nil && !late {
		gradient()
	}

	if opt.logoImage() == nil {
		goto done
	}
'''), ('writer/standard/writer.go', '''done:
	return dc.Image()''', '''done:
	if opt.qrGradient != nil && late {
		gradient()
	}
	return dc.Image()''')],
  demo=PRE + '''
func TestSeedDemo(t *testing.T) {
	g := NewGradient(0, ColorStop{T: 0, Color: color.RGBA{0, 99, 0, 255}}, ColorStop{T: 1, Color: color.RGBA{0, 0, 99, 255}})
	img := sdImg(t, "hello", WithFgGradient(g), WithBgTransparent(), WithHalftoneImage(sdFlat(30, 30, color.White)), WithLogoImage(sdFlat(40, 40, color.Black)))
	if n := sdCols(img)[color.RGBA{0, 0, 0, 255}]; n < 1600 {
		t.Fatalf("the black logo has %d black pixels", n)
	}
}
''', needs='gradient, transparency, halftone and a logo with pixels of the foreground colour', breaks='the gradient is applied to the logo')
S(id='c37-circle-width', property='C37', pkg='writer/standard',
  edits=[('writer/standard/image_option_api.go', '''		oo.shape = _shapeCircle
''', '''		if oo.shape = IShape(_shapeCircle); oo.qrBlockWidth() < 4 {
			oo.shape = nil // nothing round about so few pixels
		}
''')],
  demo=PRE + '''
func TestSeedDemo(t *testing.T) {
	a := sdRaw(t, "hello", WithQRWidth(3), WithCircleShape())
	b := sdRaw(t, "hello", WithCircleShape(), WithQRWidth(3))
	if !bytes.Equal(a, b) {
		t.Fatal("the order of the options matters")
	}
}
''', needs='a small width given before the circle shape', breaks='the same options in another order give another image')
S(id='c37-mult-order', property='C37', pkg='writer/standard',
  edits=[('writer/standard/image_option_api.go', '''		oo.logoSafeZone = true
''', '''		if oo.logoSafeZone = oo.logo == nil || oo.logoSizeMultiplier > 2; !oo.logoSafeZone {
			oo.logoSafeZone = true
			oo.logoSizeMultiplier = 3 // a cleared area of more than a ninth does not decode
		}
''')],
  demo=PRE + '''
func TestSeedDemo(t *testing.T) {
	l, m, z := WithLogoImage(sdFlat(200, 200, color.White)), WithLogoSizeMultiplier(2), WithLogoSafeZone()
	if !bytes.Equal(sdRaw(t, "hello", l, m, z), sdRaw(t, "hello", z, m, l)) {
		t.Fatal("the order of the options matters")
	}
}
''', needs='a multiplier of one or two before the safe zone and after the logo', breaks='the same options in another order give another image')
S(id='c37-halftone-fg', property='C37', pkg='writer/standard',
  edits=[('writer/standard/writer.go', '''						ctx2.color = halftoneColor(halftoneImg, opt.bgTransparent, x*3+i, y*3+j)
''', '''						if ctx2.color = halftoneColor(halftoneImg, opt.bgTransparent, x*3+i, y*3+j); opt.qrGradient != nil && ctx2.color == color_BLACK {
							ctx2.color = opt.qrColor
						}
''')],
  demo=PRE + '''
func TestSeedDemo(t *testing.T) {
	g := NewGradient(0, ColorStop{T: 0, Color: color.RGBA{0, 99, 0, 255}}, ColorStop{T: 1, Color: color.RGBA{0, 0, 99, 255}})
	img := sdImg(t, "hello", WithFgColor(color.RGBA{200, 0, 0, 255}), WithFgGradient(g), WithHalftoneImage(sdFlat(30, 30, color.Black)))
	if sdCols(img)[color.RGBA{0, 0, 0, 255}] == 0 {
		t.Fatal("the dark halftone cells are not black any more")
	}
}
''', needs='halftone and gradient with a foreground other than black', breaks='the gradient recolours the dark halftone cells')
