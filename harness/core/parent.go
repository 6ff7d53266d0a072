package core

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// RunCheck is the parent of a check: it shards the cells over child processes
// (so that a crash or hang of the code under test is contained and attributed
// to its case), merges what they covered, writes the evidence file and reports.
func RunCheck(prop string, tier Tier, seed uint64, budget time.Duration) int {
	start := time.Now()
	p := registry[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	if err := LoadFindings(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rule, assumptions, shards, race, exhaustive, _ := p.info()
	if shards == 0 {
		shards = runtime.NumCPU()
		if shards > 8 {
			shards = 8
		}
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if race {
		self = os.Getenv("VERIF_RACE_BIN")
		if self == "" {
			fmt.Fprintln(os.Stderr, "no race binary")
			return 2
		}
	}
	dir, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	ctx, cancel := context.WithTimeout(context.Background(), budget)
	defer cancel()
	type exit struct{ code int }
	exits := make([]exit, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sc := filepath.Join(dir, fmt.Sprintf("scratch%d", i))
			_ = os.MkdirAll(sc, 0o755)
			exits[i].code = child(ctx, filepath.Join(dir, fmt.Sprintf("log%d", i)), sc, self,
				"shard", prop, string(tier), fmt.Sprint(seed), fmt.Sprint(i), fmt.Sprint(shards), dir)
		}(i)
	}
	wg.Wait()

	merged := shardResult{Classes: map[string]int{}, Known: map[string]int{}}
	distinct := map[uint64]struct{}{}
	var fail *failure
	infra := ""
	type death struct{ shard, code int }
	var deaths []death
	for i := 0; i < shards; i++ {
		var r shardResult
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("res%d.json", i)))
		if err == nil {
			_ = json.Unmarshal(b, &r)
			merged.Evals += r.Evals
			merged.Cells += r.Cells
			merged.Cut = merged.Cut || r.Cut
			for k, v := range r.Classes {
				merged.Classes[k] += v
			}
			for k, v := range r.Known {
				merged.Known[k] += v
			}
			merged.Samples = append(merged.Samples, r.Samples...)
			if sb, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("seen%d.bin", i))); err == nil {
				for ; len(sb) >= 8; sb = sb[8:] {
					distinct[binary.LittleEndian.Uint64(sb)] = struct{}{}
				}
			}
			if r.Failure != nil && fail == nil {
				fail = r.Failure
			}
			if r.Err != "" {
				infra = r.Err
			}
		}
		if c := exits[i].code; c == 0 || c == 1 && r.Failure != nil {
			continue
		}
		if ctx.Err() != nil {
			infra = "time budget exhausted"
			continue
		}
		if r.Err != "" {
			continue
		}
		deaths = append(deaths, death{i, exits[i].code})
	}
	for _, d := range deaths {
		if fail != nil {
			break // one violation is enough, confirming takes time
		}
		i := d.shard
		// The child died or hung: attribute it to its current case.
		cc := readCur(filepath.Join(dir, fmt.Sprintf("cur%d.bin", i)))
		kind := "crash"
		if _, err := os.Stat(filepath.Join(dir, fmt.Sprintf("hang%d", i))); err == nil {
			kind = "hang"
		}
		tail := logTail(filepath.Join(dir, fmt.Sprintf("log%d", i)))
		if cc == nil {
			infra = fmt.Sprintf("shard %d exited with %d before its first case: %s", i, d.code, tail)
			continue
		}
		f := &failure{Prop: prop, Cell: cc.Cell, Case: cc.Case, Seed: seed, Tier: tier, Kind: kind,
			Err: fmt.Sprintf("%s of the process (exit %d): %s", kind, d.code, tail)}
		// a race report is its own proof; a death must be reproducible
		if strings.Contains(tail, "WARNING: DATA RACE") || confirmDeath(self, dir, f) {
			fail = f
		} else {
			infra = fmt.Sprintf("shard %d: %s not reproducible in isolation: %s", i, kind, tail)
		}
	}

	// evidence
	viol := 0
	if fail != nil {
		viol = 1
	}
	if len(merged.Samples) > 6 {
		step := len(merged.Samples) / 6
		var s []json.RawMessage
		for i := 0; i < len(merged.Samples) && len(s) < 6; i += step {
			s = append(s, merged.Samples[i])
		}
		merged.Samples = s
	}
	if merged.Samples == nil {
		merged.Samples = []json.RawMessage{}
	}
	cov := map[string]any{
		"evaluations":         merged.Evals,
		"distinct_nontrivial": len(distinct),
		"rule":                rule,
		"samples":             merged.Samples,
		"classes":             merged.Classes,
		"cells":               merged.Cells,
	}
	if merged.Cut {
		cov["cut_short"] = "the time limit was reached before the last generated case"
	}
	if exhaustive && fail == nil && infra == "" && !merged.Cut {
		cov["exhaustive"] = true
	}
	if len(merged.Known) > 0 {
		cov["known_findings_observed"] = merged.Known
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": viol,
	}
	if assumptions != nil {
		ev["assumptions"] = assumptions
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	evDir := filepath.Join(VerifDir(), "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %d cells, %.1fs (tier %s, seed %d)\n",
		prop, merged.Evals, len(distinct), merged.Cells, time.Since(start).Seconds(), tier, seed)
	var ks []string
	for k := range merged.Known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s id=%s %s (observed %d times)\n", prop, k, findings[prop+"/"+k], merged.Known[k])
	}
	if fail != nil {
		path := writeReplay(fail)
		fmt.Printf("failing case (cell %s): %s\n%s\n", fail.Cell, clipStr(string(fail.Case), 700), clipStr(fail.Err, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	if infra != "" {
		fmt.Fprintf(os.Stderr, "%s: check could not decide: %s\n", prop, infra)
		return 2
	}
	if merged.Evals == 0 || len(distinct) == 0 {
		fmt.Fprintf(os.Stderr, "%s: vacuous run\n", prop)
		return 2
	}
	return 0
}

func clipStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(clipped)"
	}
	return s
}

func child(ctx context.Context, logPath, scratch, bin string, args ...string) int {
	lf, err := os.Create(logPath)
	if err != nil {
		return 2
	}
	defer lf.Close()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdout, cmd.Stderr = lf, lf
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+scratch)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	err = cmd.Run()
	if cmd.Process != nil {
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
	if err == nil {
		return 0
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() > 0 {
		return ee.ExitCode()
	}
	return 99
}

func readCur(path string) *curCase {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return nil
	}
	n := binary.LittleEndian.Uint64(b)
	if uint64(len(b)) < 8+n {
		return nil
	}
	var c curCase
	if json.Unmarshal(b[8:8+n], &c) != nil {
		return nil
	}
	return &c
}

func logTail(path string) string {
	b, _ := os.ReadFile(path)
	b = bytes.ReplaceAll(b, []byte("VIOLATION property="), []byte("violation of "))
	// prefer the beginning of a panic or race report
	for _, mark := range []string{"WARNING: DATA RACE", "panic:", "fatal error:"} {
		if i := bytes.Index(b, []byte(mark)); i >= 0 {
			b = b[i:]
			if len(b) > 1800 {
				b = b[:1800]
			}
			return string(b)
		}
	}
	if len(b) > 1500 {
		b = b[len(b)-1500:]
	}
	return string(b)
}

// confirmDeath re-runs the case alone in a fresh process.
func confirmDeath(self, dir string, f *failure) bool {
	path := filepath.Join(dir, "confirm.json")
	b, _ := json.Marshal(f)
	_ = os.WriteFile(path, b, 0o644)
	for i := 0; i < 3; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		sc := filepath.Join(dir, "scratchc")
		_ = os.MkdirAll(sc, 0o755)
		code := child(ctx, filepath.Join(dir, "logc"), sc, self, "replay", path)
		timedOut := ctx.Err() != nil
		cancel()
		if code != 0 && code != 2 || timedOut {
			if t := logTail(filepath.Join(dir, "logc")); t != "" {
				f.Err += "\nreplayed in isolation: " + t
			}
			return true
		}
	}
	return false
}

func writeReplay(f *failure) string {
	dir := filepath.Join(VerifDir(), "replay")
	_ = os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(f, "", " ")
	h := fnv.New32a()
	h.Write(f.Case)
	path := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", f.Prop, h.Sum32()))
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

// RunReplay re-executes a replay file without any generator.
func RunReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := registry[f.Prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", f.Prop)
		return 2
	}
	log.SetOutput(io.Discard)
	_ = LoadFindings()
	if err := p.setup(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := &Rec{prop: f.Prop}
	if err := p.replay(f.Case, r); err != nil {
		fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", strings.TrimSpace(err.Error()), f.Prop, path)
		return 1
	}
	for _, k := range r.known {
		fmt.Printf("KNOWN-FINDING: property=%s id=%s\n", f.Prop, k)
	}
	fmt.Println("not reproduced: the property holds on this case")
	return 0
}
