package qrref

// Penalty is the mask evaluation of a complete symbol.
type Penalty struct {
	Runs, Boxes, Patterns int
	// Balance: both readings of the boundary case where the dark percentage is
	// an exact multiple of five; they agree everywhere else.
	BalanceLo, BalanceHi int
}

func (p Penalty) Lo() int { return p.Runs + p.Boxes + p.Patterns + p.BalanceLo }
func (p Penalty) Hi() int { return p.Runs + p.Boxes + p.Patterns + p.BalanceHi }

// Evaluate scores a symbol with the four rules of the standard:
// N1: runs of r>=5 modules of one colour in a row/column, r-2 points;
// N2: every 2x2 box of one colour, 3 points;
// N3: every 10111010000 or 00001011101 in a row/column, 40 points;
// N4: 10 points for each full 5% the dark share deviates from 50%.
func Evaluate(m [][]bool) (p Penalty) {
	n := len(m)
	line := make([]bool, n)
	doLine := func() {
		run := 0
		for i := range line {
			if i > 0 && line[i] == line[i-1] {
				run++
			} else {
				run = 1
			}
			if run == 5 {
				p.Runs += 3
			} else if run > 5 {
				p.Runs++
			}
		}
		w := 0
		for i, b := range line {
			w = w << 1 & 0x7ff
			if b {
				w |= 1
			}
			if i >= 10 && (w == 0b10111010000 || w == 0b00001011101) {
				p.Patterns += 40
			}
		}
	}
	dark := 0
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			line[x] = m[y][x]
			if m[y][x] {
				dark++
			}
			if x+1 < n && y+1 < n && m[y][x] == m[y][x+1] && m[y][x] == m[y+1][x] && m[y][x] == m[y+1][x+1] {
				p.Boxes += 3
			}
		}
		doLine()
	}
	for x := 0; x < n; x++ {
		for y := 0; y < n; y++ {
			line[y] = m[y][x]
		}
		doLine()
	}
	total := n * n
	dev := iabs(dark*20 - total*10) // |percent-50|/5 * total
	p.BalanceHi = dev / total * 10
	p.BalanceLo = p.BalanceHi
	if dev%total == 0 && dev > 0 {
		p.BalanceLo -= 10
	}
	return
}
