module verif

go 1.23

require (
	github.com/fogleman/gg v1.3.0
	github.com/yeqown/go-qrcode/v2 v2.2.5
	github.com/yeqown/go-qrcode/writer/compressed v0.0.0
	github.com/yeqown/go-qrcode/writer/file v0.0.0
	github.com/yeqown/go-qrcode/writer/standard v1.2.0
	github.com/yeqown/go-qrcode/writer/terminal v1.1.0
	golang.org/x/image v0.24.0
	golang.org/x/text v0.22.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/golang/freetype v0.0.0-20170609003504-e2365dfdc4a0 // indirect
	github.com/mattn/go-runewidth v0.0.16 // indirect
	github.com/nsf/termbox-go v1.1.1 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	github.com/rivo/uniseg v0.4.7 // indirect
	github.com/yeqown/reedsolomon v1.0.0 // indirect
)

replace (
	github.com/yeqown/go-qrcode/v2 => /repo
	github.com/yeqown/go-qrcode/writer/compressed => /repo/writer/compressed
	github.com/yeqown/go-qrcode/writer/file => /repo/writer/file
	github.com/yeqown/go-qrcode/writer/standard => /repo/writer/standard
	github.com/yeqown/go-qrcode/writer/terminal => /repo/writer/terminal
)
