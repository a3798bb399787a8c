package harness

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	_ "time/tzdata"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// Bookkeeping: what the run generated. Written to $VERIF_STATS (json) and
// $VERIF_HASHES (8 bytes per distinct non-trivial case) when the process ends.
// ---------------------------------------------------------------------------

type stats struct {
	mu          sync.Mutex
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Rule        string         `json:"rule"`
	Samples     []string       `json:"samples"`
	Cut         bool           `json:"cut"` // stopped generating at the deadline
	SlowestMs   int64          `json:"slowest_ms"`
	hashes      map[uint64]struct{}
}

var st = stats{Classes: map[string]int{}, hashes: map[uint64]struct{}{}}

const maxHashes = 2 << 20

// Case collects what one generated case was.
type Case struct {
	nontrivial bool
	key        uint64
	classes    []string
	sample     func() string
}

// NonTrivial marks the case as non-trivial and identifies it by key.
func (c *Case) NonTrivial(ok bool, key ...interface{}) {
	if !ok {
		return
	}
	c.nontrivial = true
	h := fnv.New64a()
	for _, k := range key {
		switch x := k.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		case uint64:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], x)
			h.Write(b[:])
		default:
			fmt.Fprintf(h, "%v", x)
		}
		h.Write([]byte{0xff})
	}
	c.key = h.Sum64()
}

func (c *Case) Class(l string) { c.classes = append(c.classes, l) }
func (c *Case) ClassIf(b bool, l string) {
	if b {
		c.classes = append(c.classes, l)
	}
}
func (c *Case) Sample(f func() string) { c.sample = f }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// deadline: no new cases after it (a slow machine explores less rather than giving no answer).
var deadline time.Time

// run drives one property. rule says how cases are made and what makes one non-trivial.
func run(t *testing.T, rule string, f func(t *rapid.T, c *Case)) {
	st.Rule = rule
	unfinished := false // a case failed: it is being minimised, so the deadline no longer counts
	rapid.Check(t, func(rt *rapid.T) {
		if !unfinished && !deadline.IsZero() && time.Now().After(deadline) {
			st.Cut = true
			return
		}
		c := &Case{}
		beginCase()
		was := unfinished
		unfinished = true
		f(rt, c)
		unfinished = was
		endCase()
		ms := (cpuNow() - atomic.LoadInt64(&caseStart)) / 1e6
		st.mu.Lock()
		st.SlowestMs = max(st.SlowestMs, ms)
		st.Evaluations++
		for _, cl := range c.classes {
			st.Classes[cl]++
		}
		if c.nontrivial {
			st.NonTrivial++
			if len(st.hashes) < maxHashes {
				if _, dup := st.hashes[c.key]; !dup {
					st.hashes[c.key] = struct{}{}
					// keep a thin, deterministic sample of the distinct cases
					n := len(st.hashes)
					if c.sample != nil && (n <= 2 || n&(n-1) == 0) && len(st.Samples) < 12 {
						st.Samples = append(st.Samples, clip(c.sample(), 600))
					}
				}
			}
		}
		st.mu.Unlock()
	})
}

// ---------------------------------------------------------------------------
// Watchdog. A library call on a small generated input that burns more than
// caseCPU seconds of process CPU time, or that makes the live heap exceed
// caseHeap, is reported as a hang / memory blow-up of the code under test.
// CPU time, not wall time: a busy or suspended machine cannot trigger it.
// ---------------------------------------------------------------------------

const (
	caseCPU  = 120 * time.Second
	caseHeap = 2 << 30
)

var (
	caseActive int32
	caseStart  int64 // cpu ns at start
	caseWhat   atomic.Value
)

func cpuNow() int64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func beginCase() {
	caseWhat.Store("")
	atomic.StoreInt64(&caseStart, cpuNow())
	atomic.StoreInt32(&caseActive, 1)
}

func endCase() { atomic.StoreInt32(&caseActive, 0) }

// doing records what the current case is about to do, for the watchdog and for crash logs.
func doing(format string, a ...interface{}) {
	s := clip(fmt.Sprintf(format, a...), 1<<20)
	caseWhat.Store(s)
	if crumb != nil {
		crumb.WriteAt([]byte(s+"\x00"), 0)
	}
}

var crumb *os.File

func watchdog() {
	var last int64
	var base uint64 // live heap between earlier cases
	ticks := 0
	for {
		time.Sleep(500 * time.Millisecond)
		if atomic.LoadInt32(&caseActive) == 0 {
			ticks = 0
			continue
		}
		start := atomic.LoadInt64(&caseStart)
		used := time.Duration(cpuNow() - start)
		// blocked: four minutes of ticks of this very loop within one case that used next to no CPU
		if start != last {
			last, ticks = start, 0
			base = min(liveHeap(), 512<<20)
		}
		if ticks++; ticks > 480 && used < 3*time.Second {
			abort("HANG", fmt.Sprintf("one case is blocked: %v of CPU time in four minutes", used))
		}
		if used > caseCPU {
			abort("HANG", fmt.Sprintf("one case used %v of CPU time", used))
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > caseHeap+base {
			// garbage does not count: what is left after a collection, still within the same case, does
			runtime.GC()
			live := liveHeap()
			if live > caseHeap+base && atomic.LoadInt64(&caseStart) == start && atomic.LoadInt32(&caseActive) != 0 {
				abort("MEMORY", fmt.Sprintf("live heap reached %d bytes in one case", live))
			}
		}
	}
}

// liveHeap: the bytes the last collection found reachable.
func liveHeap() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func abort(kind, what string) {
	w, _ := caseWhat.Load().(string)
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	fmt.Printf("\nVERIF-WATCHDOG %s: %s\ninput/operation: %s\n%s\n", kind, what, w, buf[:n])
	writeStats()
	os.Exit(97)
}

func writeStats() {
	st.mu.Lock()
	defer st.mu.Unlock()
	if p := os.Getenv("VERIF_STATS"); p != "" {
		b, _ := json.Marshal(&st)
		os.WriteFile(p, b, 0o644)
	}
	if p := os.Getenv("VERIF_HASHES"); p != "" {
		hs := make([]uint64, 0, len(st.hashes))
		for h := range st.hashes {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		b := make([]byte, 8*len(hs))
		for i, h := range hs {
			binary.LittleEndian.PutUint64(b[8*i:], h)
		}
		os.WriteFile(p, b, 0o644)
	}
}

func TestMain(m *testing.M) {
	flag.Parse()
	debug.SetGCPercent(200)
	if s, err := time.ParseDuration(os.Getenv("VERIF_DEADLINE")); err == nil {
		deadline = time.Now().Add(s)
	}
	if p := os.Getenv("VERIF_CRUMB"); p != "" {
		crumb, _ = os.Create(p)
	}
	go watchdog()
	rc := m.Run()
	writeStats()
	os.Exit(rc)
}
