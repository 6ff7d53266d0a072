exec(open('/verif/tools/seeds/image.py').read())
exec(open('/verif/tools/seeds/root.py').read())
SEEDS = []
SH32 = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: broken. cwd is the repository.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s":"%s"}}' "$PWD/@DIR@zz_seed_demo_test.go" "$here/demo_test.go.txt" >"$tmp/overlay.json"
export CGO_ENABLED=0
for a in amd64 386; do
  GOARCH=$a go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 100s -run '^TestSeedDemo$' -v ./@DIR@ >"$tmp/$a" 2>&1 || { cat "$tmp/$a"; exit 1; }
  grep '^GOT=' "$tmp/$a" >"$tmp/$a.got" || { cat "$tmp/$a"; exit 1; }
done
cmp "$tmp/amd64.got" "$tmp/386.got"
'''
S(id='c36-score-packed', property='C36',
  edits=[('qrcode.go', '''				Score: score,
				Idx:   i,
''', '''				Score: score<<20 | i, // ties go to the lower pattern
				Idx:   i,
''')],
  files={'demo.sh': SH32.replace('@DIR@', ''), 'demo_test.go.txt': HASH + '''
func TestSeedDemo(t *testing.T) {
	for i := 0; i < 6; i++ {
		fmt.Println("GOT=" + symbolHash(t, mustNew(t, strings.Repeat(fmt.Sprint("abc", i), 100), WithVersion(40))))
	}
}
'''}, needs='a 32-bit platform and a symbol with a penalty above 2047', breaks='the mask with the highest penalty is chosen: the score overflows')
S(id='c36-gradient-order', property='C36',
  edits=[('writer/standard/gradient.go', '		return stops[i].T < stops[j].T\n', '		return int(stops[i].T*(1<<40)) < int(stops[j].T*(1<<40))\n')],
  files={'demo.sh': SH32.replace('@DIR@', 'writer/standard/'), 'demo_test.go.txt': STD + '''
func TestSeedDemo(t *testing.T) {
	g := NewGradient(30, ColorStop{T: 0.9, Color: color.RGBA{200, 0, 0, 255}}, ColorStop{T: 0.1, Color: color.RGBA{0, 0, 200, 255}}, ColorStop{T: 0.5, Color: color.RGBA{0, 90, 0, 255}})
	fmt.Printf("GOT=%x\\n", sha256.Sum256(sdRaw(t, "hello", WithFgGradient(g))))
}
'''}, needs='a 32-bit platform and stops out of order', breaks='the stops stay unsorted: the keys overflow')
S(id='c36-halftone-mean', property='C36',
  edits=[('writer/standard/imgkit/process.go', '', '')], files={}, needs='', breaks='')
SEEDS.pop()
