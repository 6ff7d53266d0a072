// Package core is the property-based testing engine of this framework: a
// registry of properties, a sharded generator-driven runner on top of
// pgregory.net/rapid (generation and shrinking), replay files, evidence and
// known findings.
package core

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Tier selects how much is generated.
type Tier string

const (
	Quick    Tier = "quick"
	Thorough Tier = "thorough"
)

// N picks a count by tier. The quick counts are sized for a second or two of
// eight cores, a check of every change can take a few times that.
func (t Tier) N(quick, thorough int) int {
	if t == Thorough {
		return thorough
	}
	return min(4*quick, max(quick, thorough))
}

// Cell is one stratum of a property's input space. Either Enum lists its cases
// completely, or Gen draws Runs of them.
type Cell[C any] struct {
	Name string
	Runs int
	Gen  func(t *rapid.T) C
	Enum []C
}

// Def defines a property check: C is the JSON-serialisable case, Check the
// oracle. Check must depend on the case and the code under test only.
type Def[C any] struct {
	ID          string
	Rule        string
	Assumptions []string
	Cells       func(t Tier) []Cell[C]
	Check       func(c C, r *Rec) error
	Setup       func() error  // once per shard process
	CaseTimeout time.Duration // watchdog per case, default 90s
	Shards      int           // default: number of CPUs (max 8)
	Shrink      time.Duration // default 15s
	Race        bool          // run with a race-instrumented binary
	Exhaustive  bool          // the Enum cells cover a finite space completely
}

// Rec collects what a case exercised.
type Rec struct {
	nontrivial bool
	classes    []string
	known      []string
	prop       string
}

// Nontrivial marks the case as non-trivial by the property's rule.
func (r *Rec) Nontrivial() { r.nontrivial = true }

// Class counts the case in a class of the evidence histogram.
func (r *Rec) Class(format string, a ...any) {
	r.classes = append(r.classes, fmt.Sprintf(format, a...))
}

// Known reports whether the finding id is listed for this property, and if so
// records that it was observed (the case is then not a violation).
func (r *Rec) Known(id string) bool {
	if _, ok := findings[r.prop+"/"+id]; ok {
		r.known = append(r.known, id)
		return true
	}
	return false
}

type caseRunner interface {
	id() string
	info() (rule string, assumptions []string, shards int, race, exhaustive bool, timeout time.Duration)
	cells(t Tier) int
	setup() error
	runCell(t Tier, i int, seed uint64, s *shard) *failure
	replay(raw json.RawMessage, r *Rec) error
}

type failure struct {
	Prop string          `json:"property"`
	Cell string          `json:"cell"`
	Case json.RawMessage `json:"case"`
	Err  string          `json:"error"`
	Seed uint64          `json:"seed"`
	Tier Tier            `json:"tier"`
	Kind string          `json:"kind"` // violation, crash, hang
}

var registry = map[string]caseRunner{}

// Register adds a property.
func Register[C any](d Def[C]) {
	if _, dup := registry[d.ID]; dup {
		panic("duplicate " + d.ID)
	}
	registry[d.ID] = &def[C]{d: d}
}

// IDs lists the registered properties.
func IDs() []string {
	var out []string
	for k := range registry {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type def[C any] struct {
	d     Def[C]
	cache map[Tier][]Cell[C]
}

func (p *def[C]) id() string { return p.d.ID }
func (p *def[C]) info() (string, []string, int, bool, bool, time.Duration) {
	to := p.d.CaseTimeout
	if to == 0 {
		to = 90 * time.Second
	}
	return p.d.Rule, p.d.Assumptions, p.d.Shards, p.d.Race, p.d.Exhaustive, to
}
func (p *def[C]) list(t Tier) []Cell[C] {
	if p.cache == nil {
		p.cache = map[Tier][]Cell[C]{}
	}
	if p.cache[t] == nil {
		p.cache[t] = p.d.Cells(t)
	}
	return p.cache[t]
}
func (p *def[C]) cells(t Tier) int { return len(p.list(t)) }
func (p *def[C]) setup() error {
	if p.d.Setup != nil {
		return p.d.Setup()
	}
	return nil
}

// safeCheck turns a panic of the code under test into a violation.
func (p *def[C]) safeCheck(c C, r *Rec) (err error) {
	defer func() {
		if v := recover(); v != nil {
			err = fmt.Errorf("panic: %v\n%s", v, trimStack(debug.Stack()))
		}
	}()
	return p.d.Check(c, r)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func (p *def[C]) replay(raw json.RawMessage, r *Rec) error {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		return fmt.Errorf("replay file: %w", err)
	}
	return p.safeCheck(c, r)
}

func (p *def[C]) runCell(t Tier, i int, seed uint64, s *shard) (f *failure) {
	cell := p.list(t)[i]
	var until time.Time // end of shrinking, also for cases that take long
	one := func(c C) error {
		if f != nil && time.Now().After(until) {
			return errors.New(f.Err)
		}
		if f == nil && (s.stopped() || s.late()) { // another child has found a violation, or it is enough
			return nil
		}
		raw, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		s.begin(cell.Name, raw)
		r := &Rec{prop: p.d.ID}
		err = p.safeCheck(c, r)
		s.end(raw, r, err)
		if err != nil {
			if f == nil {
				until = time.Now().Add(30 * time.Second)
				s.stop()
			}
			f = &failure{Prop: p.d.ID, Cell: cell.Name, Case: raw, Err: err.Error(), Seed: seed, Tier: t, Kind: "violation"}
		}
		return err
	}
	for _, c := range cell.Enum {
		if one(c) != nil {
			return f
		}
	}
	if cell.Gen == nil || cell.Runs <= 0 {
		return nil
	}
	shrink := p.d.Shrink
	if shrink == 0 {
		shrink = 15 * time.Second
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%s|%d", p.d.ID, cell.Name, seed)
	runRapid(cell.Runs, h.Sum64()|1, shrink, func(t *rapid.T) {
		c := cell.Gen(t)
		if err := one(c); err != nil {
			t.Fatalf("violated") // constant text: rapid only shrinks towards the same message
		}
	})
	return f
}

// VerifDir is the root of the framework's checkout.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Scratch is a directory of this run, removed by the parent.
func Scratch() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = filepath.Join(os.TempDir(), fmt.Sprintf("verif-scratch-%d", os.Getpid()))
	}
	_ = os.MkdirAll(d, 0o755)
	return d
}

var findings = map[string]string{}

// LoadFindings reads known_findings.txt: lines
//
//	finding: property=<id> id=<finding> <what fails>
func LoadFindings() error {
	b, err := os.ReadFile(filepath.Join(VerifDir(), "known_findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		return err
	}
	for _, ln := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(ln, "finding: ") {
			continue
		}
		f := strings.Fields(ln)
		if len(f) < 4 || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "id=") {
			return fmt.Errorf("known_findings.txt: bad line %q", ln)
		}
		findings[strings.TrimPrefix(f[1], "property=")+"/"+strings.TrimPrefix(f[2], "id=")] = strings.Join(f[3:], " ")
	}
	return nil
}
