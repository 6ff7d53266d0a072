package qrref

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"golang.org/x/text/encoding/japanese"
)

const alnumChars = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:"

var kanjiToCode = map[rune]int{}
var codeToKanji = map[int]rune{}

func init() {
	// Every double byte Shift JIS value of the two kanji mode ranges, decoded.
	add := func(lo, hi, sub int) {
		for v := lo; v <= hi; v++ {
			s, err := japanese.ShiftJIS.NewDecoder().Bytes([]byte{byte(v >> 8), byte(v)})
			if err != nil {
				continue
			}
			r, size := utf8.DecodeRune(s)
			if r == utf8.RuneError || size != len(s) {
				continue
			}
			d := v - sub
			code := d>>8*0xC0 + d&0xff
			if _, dup := kanjiToCode[r]; !dup {
				kanjiToCode[r] = code
			}
			codeToKanji[code] = r
		}
	}
	add(0x8140, 0x9FFC, 0x8140)
	add(0xE040, 0xEBBF, 0xC140)
}

// IsIdeograph: the CJK ideograph blocks the library documents for kanji mode.
func IsIdeograph(r rune) bool {
	return r >= 0x4E00 && r <= 0x9FFF || r >= 0x3400 && r <= 0x4DBF || r >= 0xF900 && r <= 0xFAFF
}

// KanjiCode is the 13-bit kanji mode value of a CJK ideograph.
func KanjiCode(r rune) (int, bool) {
	if !IsIdeograph(r) {
		return 0, false
	}
	c, ok := kanjiToCode[r]
	return c, ok
}

// KanjiRunes lists all runes KanjiCode accepts, in code order.
func KanjiRunes() []rune {
	var out []rune
	for c := 0; c < 1<<13; c++ {
		if r, ok := codeToKanji[c]; ok && IsIdeograph(r) {
			out = append(out, r)
		}
	}
	return out
}

// CanEncode reports whether every character of text is representable in m.
func CanEncode(text string, m Mode) bool {
	switch m {
	case Byte:
		return true
	case Numeric:
		for i := 0; i < len(text); i++ {
			if text[i] < '0' || text[i] > '9' {
				return false
			}
		}
		return true
	case Alnum:
		for i := 0; i < len(text); i++ {
			if strings.IndexByte(alnumChars, text[i]) < 0 {
				return false
			}
		}
		return true
	case Kanji:
		for _, r := range text {
			if _, ok := KanjiCode(r); !ok {
				return false
			}
		}
		return utf8.ValidString(text)
	}
	return false
}

// DensestMode is the documented automatic choice.
func DensestMode(text string) Mode {
	for _, m := range []Mode{Numeric, Alnum, Kanji} {
		if CanEncode(text, m) {
			return m
		}
	}
	return Byte
}

// CharCount is the character count of text in mode m.
func CharCount(text string, m Mode) int {
	if m == Kanji {
		return utf8.RuneCountInString(text)
	}
	return len(text)
}

// SmallestVersion returns the smallest version >= 1 that fits, or 0.
func SmallestVersion(text string, lv Level, m Mode) int {
	n := CharCount(text, m)
	for v := 1; v <= 40; v++ {
		if Fits(v, lv, m, n) {
			return v
		}
	}
	return 0
}

type bitw struct{ bits []bool }

func (b *bitw) put(v, n int) {
	for i := n - 1; i >= 0; i-- {
		b.bits = append(b.bits, v>>i&1 == 1)
	}
}

// DataStream returns the data codewords of text.
func DataStream(text string, ver int, lv Level, m Mode) ([]byte, error) {
	n := CharCount(text, m)
	if !CanEncode(text, m) {
		return nil, fmt.Errorf("not encodable in %v", m)
	}
	if !Fits(ver, lv, m, n) {
		return nil, fmt.Errorf("does not fit")
	}
	var b bitw
	b.put(int(m), 4)
	b.put(n, CountBits(ver, m))
	switch m {
	case Numeric:
		for i := 0; i < n; i += 3 {
			c := text[i:min(n, i+3)]
			v := 0
			for j := range c {
				v = v*10 + int(c[j]-'0')
			}
			b.put(v, [...]int{0, 4, 7, 10}[len(c)])
		}
	case Alnum:
		for i := 0; i+1 < n; i += 2 {
			b.put(strings.IndexByte(alnumChars, text[i])*45+strings.IndexByte(alnumChars, text[i+1]), 11)
		}
		if n%2 == 1 {
			b.put(strings.IndexByte(alnumChars, text[n-1]), 6)
		}
	case Byte:
		for i := 0; i < n; i++ {
			b.put(int(text[i]), 8)
		}
	case Kanji:
		for _, r := range text {
			c, _ := KanjiCode(r)
			b.put(c, 13)
		}
	}
	capBits := 8 * DataCodewords(ver, lv)
	b.put(0, min(4, capBits-len(b.bits)))
	b.put(0, (8-len(b.bits)%8)%8)
	for i := 0; len(b.bits) < capBits; i++ {
		b.put([]int{0xEC, 0x11}[i%2], 8)
	}
	out := make([]byte, capBits/8)
	for i, v := range b.bits {
		if v {
			out[i/8] |= 0x80 >> (i % 8)
		}
	}
	return out, nil
}

// Interleave adds error correction and interleaves the blocks.
func Interleave(data []byte, ver int, lv Level) []byte {
	bl := BlocksOf(ver, lv)
	var dat, ecs [][]byte
	off, longest := 0, 0
	for _, n := range bl.DataLens {
		d := data[off : off+n]
		off += n
		longest = max(longest, n)
		dat = append(dat, d)
		ecs = append(ecs, RSEncode(d, bl.ECPerBlock))
	}
	var out []byte
	for i := 0; i < longest; i++ {
		for _, d := range dat {
			if i < len(d) {
				out = append(out, d[i])
			}
		}
	}
	for i := 0; i < bl.ECPerBlock; i++ {
		for _, e := range ecs {
			out = append(out, e[i])
		}
	}
	return out
}

// Encode builds the full reference symbol.
func Encode(text string, ver int, lv Level, m Mode, mask int) ([][]bool, error) {
	d, err := DataStream(text, ver, lv, m)
	if err != nil {
		return nil, err
	}
	return Build(ver, lv, mask, Interleave(d, ver, lv)), nil
}
