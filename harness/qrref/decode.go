package qrref

import (
	"errors"
	"fmt"
	"math/bits"
)

// Decoded is what a standard-conforming reader gets out of a symbol.
type Decoded struct {
	Version   int
	Level     Level
	Mask      int
	Modes     []Mode
	Text      string
	Corrected int // corrected codewords
	FormatErr int // wrong bits in the better format copy
	Codewords []byte
	Data      []byte
}

// ReadFormat reads the format information (best of both copies, up to 3 errors).
func ReadFormat(m [][]bool) (lv Level, mask, dist int, err error) {
	n := len(m)
	if n < 21 || (n-17)%4 != 0 || n > 177 {
		return 0, 0, 0, fmt.Errorf("no QR size: %d", n)
	}
	l := LayoutOf((n - 17) / 4)
	best := 99
	for c := range l.FormatPos {
		w := 0
		for i, p := range l.FormatPos[c] {
			if m[p[1]][p[0]] {
				w |= 1 << i
			}
		}
		for f := 0; f < 32; f++ {
			lvl := levelFromFormat[f>>3]
			if d := bits.OnesCount(uint(w ^ FormatInfo(lvl, f&7))); d < best {
				best, lv, mask = d, lvl, f&7
			}
		}
	}
	if best > 3 {
		return 0, 0, best, errors.New("format information unreadable")
	}
	return lv, mask, best, nil
}

// Codewords unmasks and reads the codeword stream (and remainder bits).
func Codewords(m [][]bool, mask int) (cw []byte, remainder []bool) {
	l := LayoutOf((len(m) - 17) / 4)
	total := len(l.Path) / 8
	cw = make([]byte, total)
	for i, p := range l.Path {
		b := m[p[1]][p[0]] != MaskBit(mask, p[0], p[1])
		if i/8 >= total {
			remainder = append(remainder, b)
		} else if b {
			cw[i/8] |= 0x80 >> (i % 8)
		}
	}
	return
}

// Deinterleave splits the stream into blocks (data followed by ec codewords).
func Deinterleave(cw []byte, ver int, lv Level) [][]byte {
	bl := BlocksOf(ver, lv)
	blocks := make([][]byte, len(bl.DataLens))
	longest := bl.DataLens[len(bl.DataLens)-1]
	k := 0
	for i := 0; i < longest; i++ {
		for b := range blocks {
			if i < bl.DataLens[b] {
				blocks[b] = append(blocks[b], cw[k])
				k++
			}
		}
	}
	for i := 0; i < bl.ECPerBlock; i++ {
		for b := range blocks {
			blocks[b] = append(blocks[b], cw[k])
			k++
		}
	}
	return blocks
}

type bitr struct {
	b   []byte
	pos int
}

func (r *bitr) left() int { return len(r.b)*8 - r.pos }
func (r *bitr) get(n int) (int, error) {
	if r.left() < n {
		return 0, errors.New("bit stream ends early")
	}
	v := 0
	for i := 0; i < n; i++ {
		v = v<<1 | int(r.b[r.pos/8]>>(7-r.pos%8)&1)
		r.pos++
	}
	return v, nil
}

// Decode reads a symbol as a scanner would, correcting errors.
func Decode(m [][]bool) (*Decoded, error) {
	lv, mask, dist, err := ReadFormat(m)
	if err != nil {
		return nil, err
	}
	ver := (len(m) - 17) / 4
	d := &Decoded{Version: ver, Level: lv, Mask: mask, FormatErr: dist}
	if ver >= 7 {
		l := LayoutOf(ver)
		best, bv := 99, 0
		for c := range l.VersionPos {
			w := 0
			for i, p := range l.VersionPos[c] {
				if m[p[1]][p[0]] {
					w |= 1 << i
				}
			}
			for v := 7; v <= 40; v++ {
				if dd := bits.OnesCount(uint(w ^ VersionInfo(v))); dd < best {
					best, bv = dd, v
				}
			}
		}
		if best > 3 || bv != ver {
			return nil, fmt.Errorf("version information says %d (distance %d), size says %d", bv, best, ver)
		}
	}
	d.Codewords, _ = Codewords(m, mask)
	bl := BlocksOf(ver, lv)
	for b, blk := range Deinterleave(d.Codewords, ver, lv) {
		c := RSDecode(blk, bl.ECPerBlock)
		if c < 0 {
			return d, fmt.Errorf("block %d uncorrectable", b)
		}
		d.Corrected += c
		d.Data = append(d.Data, blk[:bl.DataLens[b]]...)
	}
	d.Text, d.Modes, err = ParseSegments(d.Data, ver)
	return d, err
}

// ParseSegments interprets the data codewords.
func ParseSegments(data []byte, ver int) (string, []Mode, error) {
	r := &bitr{b: data}
	var out []byte
	var modes []Mode
	for r.left() >= 4 {
		mi, _ := r.get(4)
		if mi == 0 {
			break
		}
		m := Mode(mi)
		switch m {
		case Numeric, Alnum, Byte, Kanji:
		default:
			return string(out), modes, fmt.Errorf("unknown mode indicator %04b", mi)
		}
		modes = append(modes, m)
		n, err := r.get(CountBits(ver, m))
		if err != nil {
			return string(out), modes, err
		}
		for n > 0 {
			switch m {
			case Numeric:
				k := min(3, n)
				v, err := r.get([...]int{0, 4, 7, 10}[k])
				if err != nil {
					return string(out), modes, err
				}
				s := fmt.Sprintf("%0*d", k, v)
				if len(s) != k {
					return string(out), modes, fmt.Errorf("bad numeric group %d", v)
				}
				out = append(out, s...)
				n -= k
			case Alnum:
				k := min(2, n)
				v, err := r.get([...]int{0, 6, 11}[k])
				if err != nil {
					return string(out), modes, err
				}
				if k == 2 {
					if v >= 45*45 {
						return string(out), modes, fmt.Errorf("bad alnum pair %d", v)
					}
					out = append(out, alnumChars[v/45])
				} else if v >= 45 {
					return string(out), modes, fmt.Errorf("bad alnum %d", v)
				}
				out = append(out, alnumChars[v%45])
				n -= k
			case Byte:
				v, err := r.get(8)
				if err != nil {
					return string(out), modes, err
				}
				out = append(out, byte(v))
				n--
			case Kanji:
				v, err := r.get(13)
				if err != nil {
					return string(out), modes, err
				}
				k, ok := codeToKanji[v]
				if !ok {
					return string(out), modes, fmt.Errorf("bad kanji code %#x", v)
				}
				out = append(out, string(k)...)
				n--
			}
		}
	}
	return string(out), modes, nil
}
