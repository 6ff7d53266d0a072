package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

type shard struct {
	dir  string
	idx  int
	cur  *os.File
	busy atomic.Int64 // start of the running case, unix nanos; 0 = idle
	mu   sync.Mutex
	res  shardResult
	seen map[uint64]struct{}
	soft time.Time // no new cases after this
}

type shardResult struct {
	Evals      int               `json:"evals"`
	Nontrivial int               `json:"nontrivial"`
	Classes    map[string]int    `json:"classes"`
	Samples    []json.RawMessage `json:"samples"`
	Known      map[string]int    `json:"known"`
	Failure    *failure          `json:"failure,omitempty"`
	Cells      int               `json:"cells"`
	Done       bool              `json:"done"`
	Cut        bool              `json:"cut,omitempty"` // out of time before the last case
	Err        string            `json:"err,omitempty"`
}

type curCase struct {
	Cell string          `json:"cell"`
	Case json.RawMessage `json:"case"`
}

func (s *shard) begin(cell string, raw []byte) {
	b, _ := json.Marshal(curCase{cell, raw})
	hdr := make([]byte, 8)
	binary.LittleEndian.PutUint64(hdr, uint64(len(b)))
	_, _ = s.cur.WriteAt(append(hdr, b...), 0)
	s.busy.Store(time.Now().UnixNano())
}

func (s *shard) end(raw []byte, r *Rec, err error) {
	s.busy.Store(0)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.res.Evals++
	for _, c := range r.classes {
		s.res.Classes[c]++
	}
	for _, k := range r.known {
		s.res.Known[k]++
	}
	if err == nil && r.nontrivial {
		h := fnv.New64a()
		h.Write(raw)
		k := h.Sum64()
		if _, dup := s.seen[k]; !dup {
			s.seen[k] = struct{}{}
			n := len(s.seen)
			if len(s.res.Samples) < 3 && (n == 3 || n == 40 || n == 200) || n == 1 {
				s.res.Samples = append(s.res.Samples, clip(raw))
			}
		}
	}
}

// stop tells the other children that a violation has been found.
func (s *shard) stop() { _ = os.WriteFile(filepath.Join(s.dir, "stop"), nil, 0o644) }

func (s *shard) stopped() bool {
	_, err := os.Stat(filepath.Join(s.dir, "stop"))
	return err == nil
}

// softLimit is the time after which no new case is started.
func softLimit(t Tier) time.Duration {
	if t == Thorough {
		return 600 * time.Second
	}
	return 400 * time.Second
}

func (s *shard) late() bool {
	if time.Now().After(s.soft) {
		s.res.Cut = true
		return true
	}
	return false
}

func clip(raw []byte) json.RawMessage {
	if len(raw) > 600 {
		q, _ := json.Marshal(string(raw[:560]) + fmt.Sprintf("...(%d bytes)", len(raw)))
		return q
	}
	return append(json.RawMessage(nil), raw...)
}

func (s *shard) save() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.res.Nontrivial = len(s.seen)
	b, _ := json.Marshal(s.res)
	tmp := filepath.Join(s.dir, fmt.Sprintf("res%d.tmp", s.idx))
	_ = os.WriteFile(tmp, b, 0o644)
	hb := make([]byte, 0, 8*len(s.seen))
	for k := range s.seen {
		hb = binary.LittleEndian.AppendUint64(hb, k)
	}
	_ = os.WriteFile(filepath.Join(s.dir, fmt.Sprintf("seen%d.bin", s.idx)), hb, 0o644)
	_ = os.Rename(tmp, filepath.Join(s.dir, fmt.Sprintf("res%d.json", s.idx)))
}

// RunShard runs every n-th cell of a property, starting at i.
func RunShard(prop string, tier Tier, seed uint64, i, n int, dir string) int {
	log.SetOutput(io.Discard)
	debug.SetGCPercent(200)
	p := registry[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	if err := LoadFindings(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cur, err := os.Create(filepath.Join(dir, fmt.Sprintf("cur%d.bin", i)))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	s := &shard{dir: dir, idx: i, cur: cur, seen: map[uint64]struct{}{}}
	s.res.Classes, s.res.Known = map[string]int{}, map[string]int{}
	if err := p.setup(); err != nil {
		s.res.Err = "setup: " + err.Error()
		s.save()
		return 2
	}
	_, _, _, _, _, timeout := p.info()
	go func() { // watchdog
		for {
			time.Sleep(time.Second)
			if st := s.busy.Load(); st != 0 && time.Since(time.Unix(0, st)) > timeout {
				s.save()
				_ = os.WriteFile(filepath.Join(dir, fmt.Sprintf("hang%d", i)), nil, 0o644)
				fmt.Fprintln(os.Stderr, "watchdog: case exceeds", timeout)
				os.Exit(3)
			}
		}
	}()
	total := p.cells(tier)
	s.soft = time.Now().Add(softLimit(tier))
	for c := i; c < total; c += n {
		if s.late() { // enough: report what was covered
			s.save()
			return 0
		}
		if s.stopped() {
			s.save()
			return 0
		}
		f := p.runCell(tier, c, seed, s)
		s.res.Cells++
		if f != nil {
			s.res.Failure = f
			s.save()
			return 1
		}
	}
	s.res.Done = true
	s.save()
	return 0
}
