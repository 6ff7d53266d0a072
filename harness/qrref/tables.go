// Package qrref is an independent reference implementation of ISO/IEC 18004
// QR Code symbols (model 2, versions 1-40): a bit-exact encoder, a structural
// map of every module, the mask penalty function and an error-correcting
// decoder. It is written from the standard and shares no code and no tables
// with the repository under test.
package qrref

import "fmt"

// Level is the error correction level, in the order L, M, Q, H (1..4), which
// is also the public numbering of the library under test.
type Level int

const (
	L Level = 1 + iota
	M
	Q
	H
)

func (l Level) String() string { return [...]string{"?", "L", "M", "Q", "H"}[l] }

// FormatBits is the two-bit level indicator of the format information.
func (l Level) FormatBits() int { return [...]int{0, 1, 0, 3, 2}[l] }

var levelFromFormat = [4]Level{M, L, H, Q}

// Mode is a data encoding mode; its value is the 4-bit mode indicator.
type Mode int

const (
	Numeric Mode = 1
	Alnum   Mode = 2
	Byte    Mode = 4
	Kanji   Mode = 8
)

func (m Mode) String() string {
	switch m {
	case Numeric:
		return "numeric"
	case Alnum:
		return "alphanumeric"
	case Byte:
		return "byte"
	case Kanji:
		return "kanji"
	}
	return fmt.Sprintf("mode(%d)", int(m))
}

// eccPerBlock[level-1][version-1]: error correction codewords per block.
var eccPerBlock = [4][40]int{
	{7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
	{10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28},
	{13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
	{17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
}

// numBlocks[level-1][version-1]: number of error correction blocks.
var numBlocks = [4][40]int{
	{1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25},
	{1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49},
	{1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68},
	{1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81},
}

// Size is the side length, in modules, of a version.
func Size(ver int) int { return 4*ver + 17 }

// RawBits is the number of modules available for codewords and remainder bits.
func RawBits(ver int) int {
	r := (16*ver+128)*ver + 64
	if ver >= 2 {
		n := ver/7 + 2
		r -= (25*n-10)*n - 55
		if ver >= 7 {
			r -= 36
		}
	}
	return r
}

// Block describes the split of the codewords of a (version, level).
type Blocks struct {
	ECPerBlock int
	DataLens   []int // data codewords of each block, in order
}

func BlocksOf(ver int, lv Level) Blocks {
	total := RawBits(ver) / 8
	n, ec := numBlocks[lv-1][ver-1], eccPerBlock[lv-1][ver-1]
	short := total/n - ec
	long := total % n // the last `long` blocks carry one more data codeword
	b := Blocks{ECPerBlock: ec, DataLens: make([]int, n)}
	for i := range b.DataLens {
		b.DataLens[i] = short
		if i >= n-long {
			b.DataLens[i]++
		}
	}
	return b
}

// DataCodewords is the total number of data codewords.
func DataCodewords(ver int, lv Level) int {
	t := 0
	for _, d := range BlocksOf(ver, lv).DataLens {
		t += d
	}
	return t
}

// CountBits is the width of the character count indicator.
func CountBits(ver int, m Mode) int {
	i := 0
	if ver >= 27 {
		i = 2
	} else if ver >= 10 {
		i = 1
	}
	switch m {
	case Numeric:
		return [...]int{10, 12, 14}[i]
	case Alnum:
		return [...]int{9, 11, 13}[i]
	case Byte:
		return [...]int{8, 16, 16}[i]
	case Kanji:
		return [...]int{8, 10, 12}[i]
	}
	panic("mode")
}

// PayloadBits is the number of bits n characters take in a mode.
func PayloadBits(m Mode, n int) int {
	switch m {
	case Numeric:
		return n/3*10 + [...]int{0, 4, 7}[n%3]
	case Alnum:
		return n/2*11 + n%2*6
	case Byte:
		return n * 8
	case Kanji:
		return n * 13
	}
	panic("mode")
}

// Fits reports whether n characters of mode m fit in (ver, lv).
func Fits(ver int, lv Level, m Mode, n int) bool {
	return 4+CountBits(ver, m)+PayloadBits(m, n) <= 8*DataCodewords(ver, lv) && n < 1<<CountBits(ver, m)
}

// Capacity is the largest character count that fits.
func Capacity(ver int, lv Level, m Mode) int {
	lo, hi := 0, 8000
	for lo < hi {
		mid := (lo + hi + 1) / 2
		if Fits(ver, lv, m, mid) {
			lo = mid
		} else {
			hi = mid - 1
		}
	}
	return lo
}

// AlignPositions are the row/column coordinates of the alignment pattern centres.
func AlignPositions(ver int) []int {
	if ver == 1 {
		return nil
	}
	n := ver/7 + 2
	step := 26
	if ver != 32 {
		step = (ver*4 + n*2 + 1) / (n*2 - 2) * 2
	}
	out := make([]int, n)
	out[0] = 6
	for i, p := n-1, Size(ver)-7; i >= 1; i, p = i-1, p-step {
		out[i] = p
	}
	return out
}

// BCH code of the format information, already masked with 0x5412.
func FormatInfo(lv Level, mask int) int {
	data := lv.FormatBits()<<3 | mask
	rem := data
	for i := 0; i < 10; i++ {
		rem = rem<<1 ^ (rem>>9)*0x537
	}
	return (data<<10 | rem) ^ 0x5412
}

// VersionInfo is the 18-bit BCH code of the version.
func VersionInfo(ver int) int {
	rem := ver
	for i := 0; i < 12; i++ {
		rem = rem<<1 ^ (rem>>11)*0x1F25
	}
	return ver<<12 | rem
}
