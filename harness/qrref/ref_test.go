package qrref

import (
	"bytes"
	"encoding/hex"
	"math/rand"
	"testing"
)

func TestVectors(t *testing.T) {
	d, err := DataStream("01234567", 1, M, Numeric)
	if err != nil {
		t.Fatal(err)
	}
	want, _ := hex.DecodeString("10200C566180EC11EC11EC11EC11EC11")
	if !bytes.Equal(d, want) {
		t.Fatalf("%x", d)
	}
	if e := RSEncode(d, 10); hex.EncodeToString(e) != "a524d4c1ed36c7872c55" {
		t.Fatalf("%x", e)
	}
	d, _ = DataStream("HELLO WORLD", 1, Q, Alnum)
	if !bytes.Equal(d, []byte{32, 91, 11, 120, 209, 114, 220, 77, 67, 64, 236, 17, 236}) {
		t.Fatal(d)
	}
	if !bytes.Equal(RSEncode(d, 13), []byte{168, 72, 22, 82, 217, 54, 156, 0, 46, 15, 180, 122, 16}) {
		t.Fatal(RSEncode(d, 13))
	}
	if VersionInfo(7) != 0x07C94 || FormatInfo(L, 1) != 0x72f3 {
		t.Fatal("bch")
	}
	if Capacity(40, L, Numeric) != 7089 || Capacity(40, L, Byte) != 2953 || Capacity(40, H, Kanji) != 784 || Capacity(1, H, Alnum) != 10 {
		t.Fatal("cap")
	}
}

func TestRSCorrect(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for it := 0; it < 3000; it++ {
		n := []int{7, 10, 13, 17, 18, 22, 26, 28, 30}[r.Intn(9)]
		data := make([]byte, 1+r.Intn(120))
		r.Read(data)
		blk := append(append([]byte(nil), data...), RSEncode(data, n)...)
		orig := append([]byte(nil), blk...)
		ne := r.Intn(n/2 + 1)
		for _, p := range r.Perm(len(blk))[:min(ne, len(blk))] {
			blk[p] ^= byte(1 + r.Intn(255))
		}
		if c := RSDecode(blk, n); c < 0 || !bytes.Equal(blk, orig) {
			t.Fatalf("n=%d ne=%d c=%d", n, ne, c)
		}
	}
}

func TestRoundTrip(t *testing.T) {
	for v := 1; v <= 40; v++ {
		for lv := L; lv <= H; lv++ {
			for mask := 0; mask < 8; mask++ {
				txt := "HELLO:1"
				m, err := Encode(txt, v, lv, []Mode{Alnum, Byte}[mask%2], mask)
				if err != nil {
					t.Fatal(err)
				}
				d, err := Decode(m)
				if err != nil || d.Text != txt || d.Version != v || d.Level != lv || d.Mask != mask {
					t.Fatal(v, lv, mask, d, err)
				}
			}
		}
	}
	if n := len(KanjiRunes()); n != 6356 {
		t.Fatal(n)
	}
	m, _ := Encode("漢字茗点", 3, Q, Kanji, 3)
	if d, err := Decode(m); err != nil || d.Text != "漢字茗点" {
		t.Fatal(d, err)
	}
	if c, _ := KanjiCode('点'); c != 0xd9f {
		t.Fatal(c)
	}
	if c, _ := KanjiCode('茗'); c != 0x1aaa {
		t.Fatal(c)
	}
}
