package qrref

// Kind classifies a module of the symbol.
type Kind uint8

const (
	KData Kind = iota
	KFinder
	KSeparator
	KTiming
	KAlign
	KDark
	KFormat
	KVersion
)

func (k Kind) String() string {
	return [...]string{"data", "finder", "separator", "timing", "alignment", "dark", "format", "version"}[k]
}

// Layout is the function-pattern map of a version; index is [y][x].
type Layout struct {
	N    int
	Kind [][]Kind
	Dark [][]bool // value of the fixed patterns (finder, separator, timing, alignment, dark)
	// FormatPos[c][i]: module {x,y} of bit i (0 = least significant) of copy c.
	FormatPos [2][15][2]int
	// VersionPos[c][i]: same for version information.
	VersionPos [2][18][2]int
	// Path is the order in which codeword bits are placed.
	Path [][2]int
}

var layouts [41]*Layout

// LayoutOf returns the (cached) layout of a version. Not for concurrent first use.
func LayoutOf(ver int) *Layout { return layouts[ver] }

func init() {
	for v := 1; v <= 40; v++ {
		layouts[v] = buildLayout(v)
	}
}

func grid[T any](n int) [][]T {
	g := make([][]T, n)
	for i := range g {
		g[i] = make([]T, n)
	}
	return g
}

func buildLayout(ver int) *Layout {
	n := Size(ver)
	l := &Layout{N: n, Kind: grid[Kind](n), Dark: grid[bool](n)}
	set := func(x, y int, k Kind, d bool) {
		l.Kind[y][x] = k
		l.Dark[y][x] = d
	}
	// alignment patterns first, timing drawn over them (they agree in value)
	ap := AlignPositions(ver)
	for i, cy := range ap {
		for j, cx := range ap {
			if i == 0 && j == 0 || i == 0 && j == len(ap)-1 || i == len(ap)-1 && j == 0 {
				continue
			}
			for dy := -2; dy <= 2; dy++ {
				for dx := -2; dx <= 2; dx++ {
					set(cx+dx, cy+dy, KAlign, max(iabs(dx), iabs(dy)) != 1)
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		set(i, 6, KTiming, i%2 == 0)
		set(6, i, KTiming, i%2 == 0)
	}
	for _, c := range [][2]int{{3, 3}, {n - 4, 3}, {3, n - 4}} {
		for dy := -4; dy <= 4; dy++ {
			for dx := -4; dx <= 4; dx++ {
				x, y := c[0]+dx, c[1]+dy
				if x < 0 || y < 0 || x >= n || y >= n {
					continue
				}
				d := max(iabs(dx), iabs(dy))
				k := KFinder
				if d == 4 {
					k = KSeparator
				}
				set(x, y, k, d != 2 && d != 4)
			}
		}
	}
	// format information
	for i := 0; i <= 5; i++ {
		l.FormatPos[0][i] = [2]int{8, i}
	}
	l.FormatPos[0][6] = [2]int{8, 7}
	l.FormatPos[0][7] = [2]int{8, 8}
	l.FormatPos[0][8] = [2]int{7, 8}
	for i := 9; i < 15; i++ {
		l.FormatPos[0][i] = [2]int{14 - i, 8}
	}
	for i := 0; i < 8; i++ {
		l.FormatPos[1][i] = [2]int{n - 1 - i, 8}
	}
	for i := 8; i < 15; i++ {
		l.FormatPos[1][i] = [2]int{8, n - 15 + i}
	}
	for c := range l.FormatPos {
		for _, p := range l.FormatPos[c] {
			set(p[0], p[1], KFormat, false)
		}
	}
	set(8, n-8, KDark, true)
	if ver >= 7 {
		for i := 0; i < 18; i++ {
			a, b := n-11+i%3, i/3
			l.VersionPos[0][i] = [2]int{a, b}
			l.VersionPos[1][i] = [2]int{b, a}
			set(a, b, KVersion, false)
			set(b, a, KVersion, false)
		}
	}
	// codeword placement
	up := true
	for right := n - 1; right >= 1; right -= 2 {
		if right == 6 {
			right = 5
		}
		for v := 0; v < n; v++ {
			y := v
			if up {
				y = n - 1 - v
			}
			for j := 0; j < 2; j++ {
				if x := right - j; l.Kind[y][x] == KData {
					l.Path = append(l.Path, [2]int{x, y})
				}
			}
		}
		up = !up
	}
	if len(l.Path) != RawBits(ver) {
		panic("qrref: layout/RawBits mismatch")
	}
	return l
}

func iabs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// MaskBit is the data mask condition, i = row, j = column.
func MaskBit(mask, x, y int) bool {
	i, j := y, x
	switch mask {
	case 0:
		return (i+j)%2 == 0
	case 1:
		return i%2 == 0
	case 2:
		return j%3 == 0
	case 3:
		return (i+j)%3 == 0
	case 4:
		return (i/2+j/3)%2 == 0
	case 5:
		return i*j%2+i*j%3 == 0
	case 6:
		return (i*j%2+i*j%3)%2 == 0
	case 7:
		return ((i+j)%2+i*j%3)%2 == 0
	}
	panic("mask")
}

// Build draws the complete symbol (index [y][x]) for interleaved codewords.
func Build(ver int, lv Level, mask int, codewords []byte) [][]bool {
	l := LayoutOf(ver)
	m := grid[bool](l.N)
	for y := range m {
		copy(m[y], l.Dark[y])
	}
	for i, p := range l.Path {
		bit := i/8 < len(codewords) && codewords[i/8]>>(7-i%8)&1 == 1
		m[p[1]][p[0]] = bit != MaskBit(mask, p[0], p[1])
	}
	f := FormatInfo(lv, mask)
	for c := range l.FormatPos {
		for i, p := range l.FormatPos[c] {
			m[p[1]][p[0]] = f>>i&1 == 1
		}
	}
	if ver >= 7 {
		vi := VersionInfo(ver)
		for c := range l.VersionPos {
			for i, p := range l.VersionPos[c] {
				m[p[1]][p[0]] = vi>>i&1 == 1
			}
		}
	}
	return m
}
