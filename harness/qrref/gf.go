package qrref

var gfExp [512]byte
var gfLog [256]int

func init() {
	x := 1
	for i := 0; i < 255; i++ {
		gfExp[i] = byte(x)
		gfLog[x] = i
		x <<= 1
		if x&0x100 != 0 {
			x ^= 0x11d
		}
	}
	for i := 255; i < 512; i++ {
		gfExp[i] = gfExp[i-255]
	}
}

func gmul(a, b byte) byte {
	if a == 0 || b == 0 {
		return 0
	}
	return gfExp[gfLog[a]+gfLog[b]]
}
func ginv(a byte) byte { return gfExp[255-gfLog[a]] }

// RSEncode returns the n error correction codewords of data.
func RSEncode(data []byte, n int) []byte {
	gen := make([]byte, n) // monic generator without the leading 1, high degree first
	gen[n-1] = 1
	root := byte(1)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			gen[j] = gmul(gen[j], root)
			if j+1 < n {
				gen[j] ^= gen[j+1]
			}
		}
		root = gmul(root, 2)
	}
	rem := make([]byte, n)
	for _, d := range data {
		f := d ^ rem[0]
		copy(rem, rem[1:])
		rem[n-1] = 0
		for i := range rem {
			rem[i] ^= gmul(gen[i], f)
		}
	}
	return rem
}

// RSDecode corrects block (data followed by n ec codewords) in place. It
// returns the number of corrected codewords, or -1 if it is uncorrectable.
func RSDecode(block []byte, n int) int {
	synd := make([]byte, n)
	bad := false
	for i := 0; i < n; i++ {
		var s byte
		for _, c := range block {
			s = gmul(s, gfExp[i]) ^ c
		}
		synd[i] = s
		bad = bad || s != 0
	}
	if !bad {
		return 0
	}
	// Berlekamp-Massey, polynomials low degree first.
	sigma, prev := []byte{1}, []byte{1}
	l, m, b := 0, 1, byte(1)
	for i := 0; i < n; i++ {
		d := synd[i]
		for j := 1; j <= l && j < len(sigma); j++ {
			d ^= gmul(sigma[j], synd[i-j])
		}
		if d == 0 {
			m++
			continue
		}
		t := append([]byte(nil), sigma...)
		coef := gmul(d, ginv(b))
		for len(sigma) < len(prev)+m {
			sigma = append(sigma, 0)
		}
		for j, p := range prev {
			sigma[j+m] ^= gmul(coef, p)
		}
		if 2*l <= i {
			l, prev, b, m = i+1-l, t, d, 1
		} else {
			m++
		}
	}
	if l > n/2 {
		return -1
	}
	// Chien search.
	var pos []int
	for i := 0; i < len(block); i++ {
		xinv := gfExp[(255-i%255)%255]
		var v byte
		for j := len(sigma) - 1; j >= 0; j-- {
			v = gmul(v, xinv) ^ sigma[j]
		}
		if v == 0 {
			pos = append(pos, i)
		}
	}
	if len(pos) != l {
		return -1
	}
	// Forney: omega = synd*sigma mod x^n.
	omega := make([]byte, n)
	for i := range omega {
		for j := 0; j <= i && j < len(sigma); j++ {
			omega[i] ^= gmul(sigma[j], synd[i-j])
		}
	}
	for _, p := range pos {
		xinv := gfExp[(255-p%255)%255]
		var num, den byte
		for j := len(omega) - 1; j >= 0; j-- {
			num = gmul(num, xinv) ^ omega[j]
		}
		pw := byte(1) // xinv^(j-1) for odd j
		for j := 1; j < len(sigma); j += 2 {
			den ^= gmul(sigma[j], pw)
			pw = gmul(pw, gmul(xinv, xinv))
		}
		if den == 0 {
			return -1
		}
		// first consecutive root alpha^0: magnitude = X * omega(X^-1)/sigma'(X^-1)
		block[len(block)-1-p] ^= gmul(gfExp[p%255], gmul(num, ginv(den)))
	}
	for i := 0; i < n; i++ {
		var s byte
		for _, c := range block {
			s = gmul(s, gfExp[i]) ^ c
		}
		if s != 0 {
			return -1
		}
	}
	return len(pos)
}
