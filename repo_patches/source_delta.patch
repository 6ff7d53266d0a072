From 1e4688996e6006b62877a1b1ffb390e521cdeb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 01/22] fix: accept named string and []byte types in
 New/NewWith

The type parameter admits ~string | ~[]byte, but toBytes only matched the
exact types and panicked for named ones.
---
 qrcode.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/qrcode.go b/qrcode.go
index 0852331..d7e8bd6 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -28,14 +28,7 @@ func NewWith[T ~string | ~[]byte](text T, opts ...EncodeOption) (*QRCode, error)
 }
 
 func toBytes[T ~string | ~[]byte](v T) []byte {
-	switch x := any(v).(type) {
-	case string:
-		return []byte(x)
-	case []byte:
-		return x
-	default:
-		panic("unreachable")
-	}
+	return []byte(v)
 }
 
 // validateEncodingMode checks if the specified encoding mode is compatible with the input text.
-- 
2.43.0


From 53c37ecafa66183eb18bfa7561aceb56a3ec67ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 02/22] fix: do not pick kanji mode for text mixing digits or
 letters with kanji
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Auto detection moved numeric/alphanumeric -> kanji without re-checking the
characters accepted by the earlier modes, so "5逸" was encoded in kanji mode
with the digit lost. Fall back to byte mode for such text.
---
 chardet.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/chardet.go b/chardet.go
index 8035b9f..dcf953b 100644
--- a/chardet.go
+++ b/chardet.go
@@ -80,6 +80,16 @@ func analyzeEncodeModeFromRaw(raw string) (encMode, error) {
 		return EncModeNone, ErrNotSupportCharacter
 	}
 
+	// Kanji is no superset of the numeric and alphanumeric sets: characters accepted
+	// before the mode moved on to kanji may not be encodable in it.
+	if mode == EncModeKanji {
+		for _, r := range raw {
+			if !analyzeJP(r) {
+				return EncModeByte, nil
+			}
+		}
+	}
+
 	return mode, nil
 }
 
-- 
2.43.0


From 7ed080dc2bbffd800867deff234bb6203a7cd61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 03/22] fix: return an error for unsupported encoding modes

An unsupported mode (EncModeNone or an unknown value) together with an explicit
version skipped the version analysis that rejects it and panicked in newEncoder.
---
 qrcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qrcode.go b/qrcode.go
index d7e8bd6..90c515b 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -47,7 +47,7 @@ func validateEncodingMode(mode encMode, text string) error {
 		// Byte mode can encode any character
 		return nil
 	default:
-		return nil
+		return errMissMatchedEncodeType
 	}
 
 	for _, r := range text {
-- 
2.43.0


From f824c71efae9ad58403a3fa884593a5be0761129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 04/22] fix: choose the lowest mask index when penalty scores
 tie

The eight masks are scored concurrently and a tie was decided by goroutine
completion order, so the same input could produce different symbols.
---
 qrcode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qrcode.go b/qrcode.go
index 90c515b..bae1dc7 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -700,7 +700,9 @@ func (q *QRCode) masking() {
 	close(scoreChan)
 
 	for c := range scoreChan {
-		if c.Score < lowScore {
+		// scores arrive in goroutine completion order, so a tie must not be
+		// decided by which one came first.
+		if c.Score < lowScore || (c.Score == lowScore && c.Idx < markMatsIdx) {
 			lowScore = c.Score
 			markMatsIdx = c.Idx
 		}
-- 
2.43.0


From 6f8c701919990efbf17c2b2bacbeefd6ffc5572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 05/22] fix: score penalty rules 2 and 3 on module colour

Both rules compared the module value including its type tag, so blocks and
finder-like runs that touch function patterns were not counted.
---
 mask_evaluation.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index 2c75a6b..21418b0 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -80,7 +80,7 @@ func rule2(mat *Matrix) int {
 			s2, _ = mat.at(x, y+1)
 			s3, _ = mat.at(x+1, y+1)
 
-			if s0 == s1 && s2 == s3 && s1 == s2 {
+			if samestate(s0, s1) && samestate(s0, s2) && samestate(s0, s3) {
 				score += 3
 			}
 		}
@@ -112,9 +112,21 @@ func rule3(mat *Matrix) (score int) {
 	}
 	dimension := mat.Width()
 
+	// the patterns are about dark and light modules, whatever the modules stand for.
+	colors := func(line []qrvalue) []qrvalue {
+		dst := make([]qrvalue, len(line))
+		for i, v := range line {
+			dst[i] = QRValue_DATA_V0
+			if samestate(v, QRValue_DATA_V1) {
+				dst[i] = QRValue_DATA_V1
+			}
+		}
+		return dst
+	}
+
 	for i := 0; i < dimension; i++ {
-		col := mat.Col(i)
-		row := mat.Row(i)
+		col := colors(mat.Col(i))
+		row := colors(mat.Row(i))
 
 		// DONE(@yeqown): statePattern1 and statePattern2 are fixed, so maybe kmpGetNext
 		// could cache result to speed up.
-- 
2.43.0


From 025685599a1d20fdad224e3fabf6b00bc31dd19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 06/22] fix: do not truncate the dark ratio in penalty rule 4

The ratio was cut to a whole percentage before looking for the neighbouring
multiples of five, so symbols with 45.x% or 55.x% dark modules got the wrong
score.
---
 mask_evaluation.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index 21418b0..bc95598 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -170,14 +170,9 @@ func rule4(mat *Matrix) int {
 		}
 	}
 
-	ratio := (dark * 100) / total // in range [0, 100]
-	step := 0
-	if ratio%5 == 0 {
-		step = 1
-	}
-
-	previous := abs((ratio/5-step)*5 - 50)
-	next := abs((ratio/5+1-step)*5 - 50)
+	// k is the number of whole 5% steps between the dark ratio and 50%. Compare in
+	// integers: truncating the ratio to a percentage first would misplace 45.x% and 55.x%.
+	k := abs(dark*20-total*10) / total
 
-	return min(previous, next) / 5 * 10
+	return k * 10
 }
-- 
2.43.0


From 73a9f9405f6b2cc704523148cf9f2acf019b3f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 07/22] fix: truncate the target file in compressed.New

Writing over an existing longer file left its tail behind the new image.
---
 writer/compressed/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/compressed/writer.go b/writer/compressed/writer.go
index 19bc71e..9166d40 100644
--- a/writer/compressed/writer.go
+++ b/writer/compressed/writer.go
@@ -30,7 +30,7 @@ var (
 )
 
 func New(filename string, opt *Option) (qrcode.Writer, error) {
-	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0644)
+	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d5e0d7317cdf8f756596edd3f7752bcda14feba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 08/22] fix: do not modify the background colour option while
 drawing

With a transparent background the first write zeroed the configured colour, so
a second JPEG written with the same writer got a black background.
---
 writer/standard/image_option.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/writer/standard/image_option.go b/writer/standard/image_option.go
index 9efd4d2..0c04804 100644
--- a/writer/standard/image_option.go
+++ b/writer/standard/image_option.go
@@ -72,11 +72,12 @@ func (oo *outputImageOptions) backgroundColor() color.RGBA {
 		return color_WHITE
 	}
 
+	bg := oo.bgColor
 	if oo.bgTransparent {
-		(&oo.bgColor).A = 0x00
+		bg.A = 0x00
 	}
 
-	return oo.bgColor
+	return bg
 }
 
 func (oo *outputImageOptions) logoImage() image.Image {
@@ -148,11 +149,8 @@ func (oo *outputImageOptions) translateToRGBA(v qrcode.QRValue) (rgba color.RGBA
 	}
 
 	if oo.bgTransparent {
-		(&oo.bgColor).A = 0x00
-		// color.RGBA is pre-multiplied by alpha, so set RGB to 0 when fully transparent.
-		(&oo.bgColor).R = 0x00
-		(&oo.bgColor).G = 0x00
-		(&oo.bgColor).B = 0x00
+		// color.RGBA is pre-multiplied by alpha, so RGB is 0 when fully transparent.
+		return color.RGBA{}
 	}
 	rgba = oo.bgColor
 
-- 
2.43.0


From 138d1967836dff563fc5d1c434231f09a3583c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 09/22] fix: clear the logo safe zone at the right modules of
 the bitmap

The bitmap is indexed [y][x]; with a non-square logo or asymmetric borders the
neighbourhood masks given to shapes were cleared at transposed positions.
---
 writer/standard/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 65d6bc4..e2c6b4f 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -160,7 +160,7 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	if logoValid && opt.logoSafeZone {
 		mat.Iterate(qrcode.IterDirection_ROW, func(x int, y int, v qrcode.QRValue) {
 			if blockOverlapsLogo(x, y, opt.qrBlockWidth(), left, top, w, h, logoWidth, logoHeight) {
-				bitMap[x][y] = false
+				bitMap[y][x] = false
 			}
 		})
 	}
-- 
2.43.0


From 6b1baec59229e10167a3bec61862e5e9ead5ed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 10/22] fix: centre logo images whose bounds do not start at
 (0, 0)

---
 writer/standard/writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index e2c6b4f..b57d822 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -235,7 +235,11 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 
 	// DONE(@yeqown): calculate the xOffset and yOffset which point(xOffset, yOffset)
 	// should icon upper-left to start
-	dc.DrawImage(opt.logoImage(), (w-logoWidth)/2, (h-logoHeight)/2)
+	{
+		// gg draws an image relative to its own origin, which could be not (0, 0).
+		min := opt.logoImage().Bounds().Min
+		dc.DrawImage(opt.logoImage(), (w-logoWidth)/2-min.X, (h-logoHeight)/2-min.Y)
+	}
 
 done:
 	return dc.Image()
-- 
2.43.0


From b2648ffd2d89e49a8ba6844eb62892a84fb04701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 11/22] fix: process all pixels of images whose bounds do not
 start at (0, 0)

---
 writer/standard/imgkit/process.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/writer/standard/imgkit/process.go b/writer/standard/imgkit/process.go
index 5cbfd87..3ed6f7e 100644
--- a/writer/standard/imgkit/process.go
+++ b/writer/standard/imgkit/process.go
@@ -15,10 +15,9 @@ func Binaryzation(src image.Image, threshold uint8) image.Image {
 
 	gray := Gray(src)
 	bounds := src.Bounds()
-	height, width := bounds.Max.Y-bounds.Min.Y, bounds.Max.X-bounds.Min.X
 
-	for i := 0; i < height; i++ {
-		for j := 0; j < width; j++ {
+	for i := bounds.Min.Y; i < bounds.Max.Y; i++ {
+		for j := bounds.Min.X; j < bounds.Max.X; j++ {
 			// var rgb int = int(gray[i][j][0]) + int(gray[i][j][1]) + int(gray[i][j][2])
 			if gray.At(j, i).(color.Gray).Y > threshold {
 				gray.Set(j, i, color.White)
@@ -33,11 +32,10 @@ func Binaryzation(src image.Image, threshold uint8) image.Image {
 
 func Gray(src image.Image) *image.Gray {
 	bounds := src.Bounds()
-	height, width := bounds.Max.Y-bounds.Min.Y, bounds.Max.X-bounds.Min.X
 	gray := image.NewGray(bounds)
 
-	for i := 0; i < height; i++ {
-		for j := 0; j < width; j++ {
+	for i := bounds.Min.Y; i < bounds.Max.Y; i++ {
+		for j := bounds.Min.X; j < bounds.Max.X; j++ {
 			c := color.GrayModel.Convert(src.At(j, i))
 			gray.SetGray(j, i, c.(color.Gray))
 		}
-- 
2.43.0


From 1b45bbce305babacfe1a18a866dda00d04743431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 12/22] fix: use the stripe ratio in HStripeBlock

---
 writer/standard/shapes/blocks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/standard/shapes/blocks.go b/writer/standard/shapes/blocks.go
index 31322f8..c5daf3e 100644
--- a/writer/standard/shapes/blocks.go
+++ b/writer/standard/shapes/blocks.go
@@ -131,7 +131,7 @@ func HStripeBlock(stripeRatio float64) func(ctx *standard.DrawContext) {
 		fw, fh := float64(w), float64(h)
 		x, y := ctx.UpperLeft()
 		cx, cy := x+fw/2, y+fh/2
-		r := fw * 0.9 / 2
+		r := fw * stripeRatio / 2
 
 		ctx.SetColor(ctx.Color())
 
-- 
2.43.0


From 9baa35f0e74b30d0c3154f85385981a5e51c04b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 13/22] fix: ignore an empty hex string in WithFgColorRGBHex

---
 writer/standard/image_option_api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/writer/standard/image_option_api.go b/writer/standard/image_option_api.go
index a637bc0..75f76d5 100644
--- a/writer/standard/image_option_api.go
+++ b/writer/standard/image_option_api.go
@@ -70,6 +70,10 @@ func WithFgColor(c color.Color) ImageOption {
 // WithFgColorRGBHex Hex string to set QR Color
 func WithFgColorRGBHex(hex string) ImageOption {
 	return newFuncOption(func(oo *outputImageOptions) {
+		if hex == "" {
+			return
+		}
+
 		oo.qrColor = parseFromHex(hex)
 	})
 }
-- 
2.43.0


From dce2c7842dcd2a627881f9512f760470b95326f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 14/22] fix: draw circle modules with the exact radius, also
 one pixel wide ones

---
 writer/standard/image_qr_shape.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/writer/standard/image_qr_shape.go b/writer/standard/image_qr_shape.go
index f0fad58..c91ea8e 100644
--- a/writer/standard/image_qr_shape.go
+++ b/writer/standard/image_qr_shape.go
@@ -90,14 +90,14 @@ type circle struct{}
 // FIXED: Draw could not draw circle
 func (r circle) Draw(c *DrawContext) {
 	// choose a proper radius values
-	radius := c.w / 2
-	r2 := c.h / 2
+	radius := float64(c.w) / 2
+	r2 := float64(c.h) / 2
 	if r2 <= radius {
 		radius = r2
 	}
 
 	cx, cy := c.x+float64(c.w)/2.0, c.y+float64(c.h)/2.0 // get center point
-	c.DrawCircle(cx, cy, float64(radius))
+	c.DrawCircle(cx, cy, radius)
 	c.SetColor(c.color)
 	c.Fill()
 }
-- 
2.43.0


From 34a09763b67bbf60445e1d15ee742a8e7134e983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 15/22] fix: cover halftone blocks of any width with their nine
 cells

---
 writer/standard/writer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index b57d822..3efd60d 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -131,9 +131,10 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 
 	var (
 		halftoneImg image.Image
-		halftoneW   = float64(opt.qrBlockWidth()) / 3.0
+		halftoneW   = opt.qrBlockWidth()
 	)
-	if opt.halftoneImg != nil {
+	// a block less than 3 pixels wide could not be divided into cells.
+	if opt.halftoneImg != nil && halftoneW >= 3 {
 		halftoneImg = imgkit.Binaryzation(
 			imgkit.Scale(opt.halftoneImg, image.Rect(0, 0, mat.Width()*3, mat.Width()*3), nil),
 			60,
@@ -194,13 +195,13 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 
 			ctx2 := &DrawContext{
 				Context: ctx.Context,
-				w:       int(halftoneW),
-				h:       int(halftoneW),
 			}
 			// only halftone image enabled and current block is Data.
 			for i := 0; i < 3; i++ {
 				for j := 0; j < 3; j++ {
-					ctx2.x, ctx2.y = ctx.x+float64(i)*halftoneW, ctx.y+float64(j)*halftoneW
+					// align the cells to pixels, so that they cover the block without gaps.
+					ctx2.x, ctx2.y = ctx.x+float64(i*halftoneW/3), ctx.y+float64(j*halftoneW/3)
+					ctx2.w, ctx2.h = (i+1)*halftoneW/3-i*halftoneW/3, (j+1)*halftoneW/3-j*halftoneW/3
 					if i == 1 && j == 1 {
 						ctx2.color = ctx.color
 					} else {
-- 
2.43.0


From b09cdc673d4b145de2121ef191541b1112739f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 16/22] fix: exit with a failing status when the command fails

---
 cmd/qrcode/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/qrcode/main.go b/cmd/qrcode/main.go
index 6810334..f971300 100644
--- a/cmd/qrcode/main.go
+++ b/cmd/qrcode/main.go
@@ -9,5 +9,6 @@ func main() {
 
 	if err := app.Run(os.Args); err != nil {
 		println(err.Error())
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 8025af9c977e558b8df7d3ebfb81a454fed20d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 17/22] fix: report invalid borders as an error instead of a
 panic

---
 cmd/qrcode/app.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cmd/qrcode/app.go b/cmd/qrcode/app.go
index a3dbc9e..cd494c4 100644
--- a/cmd/qrcode/app.go
+++ b/cmd/qrcode/app.go
@@ -41,7 +41,11 @@ func newApp() *cli.App {
 	app.Copyright = copyright
 	app.Flags = prepareFlags()
 	app.Action = func(c *cli.Context) error {
-		genCtx := parseGenerateContextFrom(c)
+		genCtx, err := parseGenerateContextFrom(c)
+		if err != nil {
+			return err
+		}
+
 		return generate(genCtx)
 	}
 
@@ -128,7 +132,7 @@ func (foo fileOutputOptions) applyOptions() []standard.ImageOption {
 
 type terminalOutputOptions struct{}
 
-func parseGenerateContextFrom(c *cli.Context) *generateContext {
+func parseGenerateContextFrom(c *cli.Context) (*generateContext, error) {
 	genCtx := &generateContext{
 		text: c.Args().First(),
 		mode: writerMode_FILE,
@@ -153,17 +157,17 @@ func parseGenerateContextFrom(c *cli.Context) *generateContext {
 	borders := c.String("borders")
 	arr := strings.Split(borders, ",")
 	if len(arr) != 4 {
-		panic("invalid borders format, want: uint8,uint8,uint8,uint8")
+		return nil, errors.New("invalid borders format, want: uint8,uint8,uint8,uint8")
 	}
 	for i, s := range arr {
 		v, err := strconv.ParseUint(s, 10, 8)
 		if err != nil {
-			panic("invalid borders format, want: uint8")
+			return nil, errors.New("invalid borders format, want: uint8")
 		}
 		genCtx.FOO.borders[i] = int(v)
 	}
 
-	return genCtx
+	return genCtx, nil
 }
 
 func prepareFlags() []cli.Flag {
-- 
2.43.0


From 70ca3654897091a74f6d40e3b69e8f322b748f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 18/22] fix: refuse block sizes over 255 instead of wrapping
 them

---
 cmd/qrcode/app.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/qrcode/app.go b/cmd/qrcode/app.go
index cd494c4..c6f4c27 100644
--- a/cmd/qrcode/app.go
+++ b/cmd/qrcode/app.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"math"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -148,6 +149,10 @@ func parseGenerateContextFrom(c *cli.Context) (*generateContext, error) {
 		TOO: &terminalOutputOptions{},
 	}
 
+	if c.Uint("block") > math.MaxUint8 {
+		return nil, errors.New("invalid block size, want: uint8")
+	}
+
 	// writer mode
 	if c.Bool("terminal") {
 		genCtx.mode = writerMode_TERMINAL
-- 
2.43.0


From b6c2cc0a592fcedb025ba7bf2262573ce1aaa5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 19/22] fix: accept option objects with missing fields in the
 wasm binding

---
 cmd/wasm/types.go | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/cmd/wasm/types.go b/cmd/wasm/types.go
index 7c9783a..2a39697 100644
--- a/cmd/wasm/types.go
+++ b/cmd/wasm/types.go
@@ -46,22 +46,49 @@ func optionFromJSValue(option js.Value) *genOption {
 
 	return &genOption{
 		encodeOption: encodeOption{
-			version: option.Get("encodeVersion").Int(),
-			mode:    uint8(option.Get("encodeMode").Int()),
-			ecLevel: option.Get("encodeECLevel").String(),
+			version: intField(option, "encodeVersion"),
+			mode:    uint8(intField(option, "encodeMode")),
+			ecLevel: stringField(option, "encodeECLevel"),
 		},
 		outputOption: outputOption{
-			bgColor:       option.Get("outputBgColor").String(),
-			bgTransparent: option.Get("outputBgTransparent").Bool(),
-			qrColor:       option.Get("outputQrColor").String(),
-			qrWidth:       uint8(option.Get("outputQrWidth").Int()),
-			circleShape:   option.Get("outputCircleShape").Bool(),
-			imageEncoder:  option.Get("outputImageEncoder").String(),
-			margin:        option.Get("outputMargin").Int(),
+			bgColor:       stringField(option, "outputBgColor"),
+			bgTransparent: boolField(option, "outputBgTransparent"),
+			qrColor:       stringField(option, "outputQrColor"),
+			qrWidth:       uint8(intField(option, "outputQrWidth")),
+			circleShape:   boolField(option, "outputCircleShape"),
+			imageEncoder:  stringField(option, "outputImageEncoder"),
+			margin:        intField(option, "outputMargin"),
 		},
 	}
 }
 
+// intField returns the number field of option, 0 if it is missing.
+func intField(option js.Value, name string) int {
+	if v := option.Get(name); v.Type() == js.TypeNumber {
+		return v.Int()
+	}
+
+	return 0
+}
+
+// boolField returns the boolean field of option, false if it is missing.
+func boolField(option js.Value, name string) bool {
+	if v := option.Get(name); v.Type() == js.TypeBoolean {
+		return v.Bool()
+	}
+
+	return false
+}
+
+// stringField returns the string field of option, an empty string if it is missing.
+func stringField(option js.Value, name string) string {
+	if v := option.Get(name); v.Type() == js.TypeString {
+		return v.String()
+	}
+
+	return ""
+}
+
 // validate genOption.
 func (o *genOption) validate() error {
 	if o == nil {
-- 
2.43.0


From acd113409bf3b8d9e7393d21c890c2d5ea3a1b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 20/22] fix: return panics as a failure result from the wasm
 binding

---
 cmd/wasm/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/wasm/main.go b/cmd/wasm/main.go
index 4f5c67e..35d373f 100644
--- a/cmd/wasm/main.go
+++ b/cmd/wasm/main.go
@@ -41,6 +41,10 @@ func genqrcode(_ js.Value, args []js.Value) (v interface{}) {
 	)
 
 	defer func() {
+		if e := recover(); e != nil {
+			// invalid option values, such as malformed colors, must not stop the whole module.
+			r.setError(errors.Errorf("genqrcode panic: %v", e))
+		}
 		v = r.JSValue()
 	}()
 
-- 
2.43.0


From ef4d1e7ee0c3e28fc88741bf655ee833b84b1c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 21/22] fix: do not blend translucent pixels twice when
 applying a gradient

---
 writer/standard/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 3efd60d..4dd22c3 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -219,8 +219,8 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 
 	// Gradient fill
 	if opt.qrGradient != nil {
-		img := opt.qrGradient.applyGradient(dc.Image(), opt.qrColor)
-		dc.DrawImage(img, 0, 0)
+		// replace the canvas, drawing over it would blend translucent pixels twice.
+		dc = gg.NewContextForRGBA(opt.qrGradient.applyGradient(dc.Image(), opt.qrColor))
 	}
 
 	if opt.logoImage() == nil {
-- 
2.43.0


From 9496c24b2f5d92933510bd2d8418faba6fb70eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 22/22] fix: draw a translucent logo correctly on a transparent
 background

The transparent background was filled with an invalid premultiplied colour
(white with alpha 0), which overflowed when a translucent logo was blended
over it.
---
 writer/standard/image_option.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/writer/standard/image_option.go b/writer/standard/image_option.go
index 0c04804..dbca14f 100644
--- a/writer/standard/image_option.go
+++ b/writer/standard/image_option.go
@@ -72,12 +72,15 @@ func (oo *outputImageOptions) backgroundColor() color.RGBA {
 		return color_WHITE
 	}
 
-	bg := oo.bgColor
 	if oo.bgTransparent {
-		bg.A = 0x00
+		// JPEG has no alpha channel, keep the background color for it.
+		if _, ok := oo.imageEncoder.(jpegEncoder); !ok {
+			// color.RGBA is pre-multiplied by alpha, so RGB is 0 when fully transparent.
+			return color.RGBA{}
+		}
 	}
 
-	return bg
+	return oo.bgColor
 }
 
 func (oo *outputImageOptions) logoImage() image.Image {
-- 
2.43.0

