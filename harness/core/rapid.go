package core

import (
	"flag"
	"fmt"
	"runtime"
	"strconv"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var flagsOnce sync.Once

// tb is a minimal rapid.TB: failures are recorded by the property itself.
type tb struct {
	mu     sync.Mutex
	name   string
	failed bool
	logs   []string
}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return t.name }
func (t *tb) Log(a ...any) {}
func (t *tb) Logf(f string, a ...any) {
}
func (t *tb) Skip(a ...any)            { runtime.Goexit() }
func (t *tb) Skipf(f string, a ...any) { runtime.Goexit() }
func (t *tb) SkipNow()                 { runtime.Goexit() }
func (t *tb) fail(s string) {
	t.mu.Lock()
	t.failed = true
	t.logs = append(t.logs, s)
	t.mu.Unlock()
}
func (t *tb) Error(a ...any)            { t.fail(fmt.Sprint(a...)) }
func (t *tb) Errorf(f string, a ...any) { t.fail(fmt.Sprintf(f, a...)) }
func (t *tb) Fatal(a ...any)            { t.fail(fmt.Sprint(a...)); runtime.Goexit() }
func (t *tb) Fatalf(f string, a ...any) { t.fail(fmt.Sprintf(f, a...)); runtime.Goexit() }
func (t *tb) FailNow()                  { t.fail("FailNow"); runtime.Goexit() }
func (t *tb) Fail()                     { t.fail("Fail") }
func (t *tb) Failed() bool              { t.mu.Lock(); defer t.mu.Unlock(); return t.failed }

func runRapid(checks int, seed uint64, shrink time.Duration, prop func(*rapid.T)) (failed bool, logs []string) {
	flagsOnce.Do(func() { testing.Init(); _ = flag.CommandLine.Parse(nil) })
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			panic(err)
		}
	}
	set("rapid.checks", strconv.Itoa(checks))
	set("rapid.seed", strconv.FormatUint(seed, 10))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", shrink.String())
	t := &tb{name: "prop"}
	done := make(chan struct{})
	go func() { // rapid may Goexit through tb
		defer close(done)
		rapid.Check(t, prop)
	}()
	<-done
	return t.failed, t.logs
}
