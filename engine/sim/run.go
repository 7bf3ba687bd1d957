// Package sim is the deterministic-simulation engine the harnesses run on. One
// seed gives one plan (workload and faults) and one schedule; a run executes the
// real code of the repository inside a bubble with a simulated clock, where the
// patched runtime makes every scheduling choice from the seed.
package sim

import (
	"bytes"
	"fmt"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// Harness is one simulated system.
type Harness struct {
	Name string
	// Gen draws a plan (a pointer to a JSON-serialisable struct).
	Gen func(r *Rand, t Tier) any
	// New returns an empty plan to decode into.
	New func() any
	// Exec runs a plan. It must accept any structurally valid plan.
	Exec func(s *Run, plan any)
	// Steps is a hint of how many scheduling steps a run takes (PCT horizon).
	Steps int
	// MaxStep is the step budget; exceeding it is a violation (no progress).
	MaxStep uint64
	// Skip allows clock jumps while goroutines are runnable (process stalls).
	Skip bool
	// NoSched disables schedule exploration (single-goroutine workloads).
	NoSched bool
}

// Tier says how deep a batch explores.
type Tier int

const (
	Quick Tier = iota
	Thorough
)

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Sched is the serialisable form of the scheduling configuration.
type Sched struct {
	Seed    uint64     `json:"seed"`
	MSeed   uint64     `json:"mseed"`
	Mode    int32      `json:"mode"` // 0 explicit decisions, 1 random, 2 PCT
	PctD    int32      `json:"pct_d,omitempty"`
	YieldQ  uint32     `json:"yield_q,omitempty"`
	PickQ   uint32     `json:"pick_q,omitempty"`
	SelQ    uint32     `json:"sel_q,omitempty"`
	SkipQ   uint32     `json:"skip_q,omitempty"`
	Horizon uint64     `json:"horizon,omitempty"`
	Dec     [][2]int64 `json:"decisions,omitempty"`
}

// Run is the state of one simulated execution.
type Run struct {
	Tag  string // appended to the message of every violation
	Seed uint64
	Tier Tier
	h    *Harness

	mu       noraceLog
	vio      *Violation
	counters []counter
	wg       sync.WaitGroup

	nontrivial bool
	started    time.Time
	simNs      int64
	stats      runtime.SimStats
	stopped    bool
	cleanups   []func()
}

type counter struct {
	name string
	n    int64
}

// noraceLog is the event log. It is written from every goroutine of the run
// without synchronisation (only one runs at a time and it cannot be preempted
// here), so that recording adds no happens-before edges.
type noraceLog struct {
	lines []string
	hash  uint64
	n     int
}

const maxLog = 4000

//go:norace
func (s *Run) logLine(l string) {
	l = scrub(l)
	h := s.mu.hash
	for i := 0; i < len(l); i++ {
		h ^= uint64(l[i])
		h *= 1099511628211
	}
	s.mu.hash = h*31 + 7
	s.mu.n++
	if len(s.mu.lines) < maxLog {
		n := len(s.mu.lines)
		s.mu.lines = s.mu.lines[:n+1]
		s.mu.lines[n] = l
	}
}

// Logf appends to the event log: "<step> t=<simulated time> g<goroutine> message".
//
//go:norace
func (s *Run) Logf(format string, a ...any) {
	s.logLine(fmt.Sprintf("%d t=%v g%d ", runtime.SimStep(), time.Duration(s.now()), runtime.SimGid()) + fmt.Sprintf(format, a...))
}

// scrub removes printed pointers, which differ between processes.
//
//go:norace
func scrub(l string) string {
	if strings.Contains(l, "0x") {
		return pointers.ReplaceAllString(l, "0xPTR")
	}
	return l
}

var pointers = regexp.MustCompile(`0x[0-9a-f]{6,}`)

func (s *Run) now() int64 { return time.Now().UnixNano() - baseNano }

const baseNano = 946684800000000000

// Now returns the simulated time since the start of the run.
func (s *Run) Now() time.Duration { return time.Duration(s.now()) }

// Seq returns the global event sequence number; it increases between any two
// events that the schedule can separate.
func (s *Run) Seq() int64 { return int64(runtime.SimStep()) }

// Fail records a violation; the first one counts.
//
//go:norace
func (s *Run) Fail(class, format string, a ...any) {
	if s.stopped {
		return
	}
	msg := scrub(fmt.Sprintf(format, a...)) + s.Tag
	s.Logf("VIOLATION %s: %s", class, msg)
	if s.vio == nil {
		s.vio = &Violation{Class: class, Msg: msg}
	}
}

//go:norace
func (s *Run) Failed() bool { return s.vio != nil }

// Count adds to a named counter (faults fired, rare conditions reached).
//
//go:norace
func (s *Run) Count(name string, n int) {
	for i := range s.counters {
		if s.counters[i].name == name {
			s.counters[i].n += int64(n)
			return
		}
	}
	if len(s.counters) < cap(s.counters) {
		k := len(s.counters)
		s.counters = s.counters[:k+1]
		s.counters[k] = counter{name, int64(n)}
	}
}

// Fault counts an injected fault that fired.
func (s *Run) Fault(kind string) { s.Count("fault:"+kind, 1) }

// Probe counts a rare condition that was reached.
func (s *Run) Probe(name string) { s.Count("probe:"+name, 1) }

// NonTrivial marks the run as having exercised what the property is about.
//
//go:norace
func (s *Run) NonTrivial() { s.nontrivial = true }

// Y is a preemption point in harness code.
func (s *Run) Y() { runtime.SimY() }

// Go starts an actor; Join waits for all of them.
func (s *Run) Go(f func()) {
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		f()
	}()
}

func (s *Run) Join() { s.wg.Wait() }

// Quiesce waits until every other goroutine is blocked (no simulated time passes).
func (s *Run) Quiesce() { runtime.SimWait() }

// Calm ends the fault phase of the run: the clock no longer jumps while
// goroutines are runnable, so bounded-time progress may be demanded.
func (s *Run) Calm() { runtime.SimCalm() }

// Atomic runs f without preemption or clock jumps. f must not block.
func (s *Run) Atomic(f func()) {
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	f()
}

// Within runs f in a new goroutine and reports whether it returned within d of
// simulated time.
func (s *Run) Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		select {
		case <-done:
			return true
		default:
			return false
		}
	}
}

// Result is what a run produced.
type Result struct {
	Vio        *Violation
	Counters   map[string]int64
	NonTrivial bool
	SimNs      int64
	Steps      uint64
	Switches   uint64
	Preempts   uint64
	Skips      uint64
	SchedHash  uint64
	LogHash    uint64
	Log        []string
	RecN       int
	Overflow   bool
	Leak       bool
}

func dumpStacks() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var keep []string
	for _, g := range bytes.Split(buf, []byte("\n\n")) {
		if bytes.Contains(g, []byte("synctest bubble")) {
			keep = append(keep, string(g))
		}
	}
	out := strings.Join(keep, "\n\n")
	if len(out) > 12000 {
		out = out[:12000] + "\n..."
	}
	return out
}

// execute runs one plan under one schedule.
func execute(h *Harness, seed uint64, tier Tier, plan any, sc *Sched, rec []runtime.SimDecision, recN, recStep *uint64) (res Result) {
	s := &Run{Seed: seed, Tier: tier, h: h}
	s.mu.lines = make([]string, 0, maxLog)
	s.mu.hash = 14695981039346656037
	s.counters = make([]counter, 0, 256)
	cfg := &runtime.SimConfig{
		Seed: sc.Seed, MSeed: sc.MSeed, Mode: sc.Mode, PctD: sc.PctD, YieldQ: sc.YieldQ, PickQ: sc.PickQ,
		SelQ: sc.SelQ, SkipQ: sc.SkipQ, Horizon: sc.Horizon, MaxStep: h.MaxStep,
		Rec: rec, RecN: recN, RecStep: recStep, Budget: budget,
	}
	if sc.Mode == 0 {
		cfg.Replay = make([]runtime.SimDecision, len(sc.Dec))
		for i, d := range sc.Dec {
			cfg.Replay[i] = runtime.SimDecision{Step: uint64(d[0]), Val: d[1]}
		}
	}
	var pooled *Violation
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if err, ok := r.(error); ok && strings.HasPrefix(err.Error(), "deadlock: ") {
				if strings.Contains(err.Error(), "main bubble goroutine has exited") {
					res.Leak = true
					return
				}
				s.stats = runtime.SimStop()
				pooled = &Violation{Class: "deadlock", Msg: "every goroutine is blocked forever" + s.Tag + "\n" + dumpStacks()}
				return
			}
			panic(r)
		}()
		runtime.SimBubble(func() {
			runtime.SimStart(cfg)
			h.Exec(s, plan)
			s.simNs = s.now()
			s.stats = runtime.SimStop()
			s.stopped = true
			for i := len(s.cleanups) - 1; i >= 0; i-- {
				s.cleanups[i]()
			}
		})
	}()
	if s.vio == nil {
		s.vio = pooled
	}
	res.Vio = s.vio
	res.Counters = map[string]int64{}
	for _, c := range s.counters {
		res.Counters[c.name] += c.n
	}
	res.NonTrivial = s.nontrivial
	res.SimNs = s.simNs
	res.Steps = s.stats.Steps
	res.Switches = s.stats.Picks
	res.Preempts = s.stats.Preempts
	res.Skips = s.stats.Skips
	if s.stats.Skips > 0 {
		res.Counters["fault:process_stall_clock_jump"] += int64(s.stats.Skips)
	}
	res.SchedHash = s.stats.Hash
	res.LogHash = s.mu.hash
	res.Log = s.mu.lines
	res.Overflow = s.stats.RecOverflow
	if recN != nil {
		res.RecN = int(*recN)
	}
	return res
}

// Cleanup runs f after the run has been judged (preemption off).
func (s *Run) Cleanup(f func()) { s.cleanups = append(s.cleanups, f) }

// SortedKeys returns the keys of m in order.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// DrawSched draws the scheduling configuration of a run.
func drawSched(h *Harness, r *Rand) *Sched {
	sc := &Sched{Seed: r.U64(), MSeed: r.U64(), Mode: 1}
	if h.NoSched {
		return sc
	}
	steps := h.Steps
	if steps == 0 {
		steps = 1000
	}
	switch k := r.Intn(100); {
	case k < 8: // FIFO, no preemption
	case k < 20: // random choice at blocking points only
		sc.PickQ = 1024
		sc.SelQ = 512
	case k < 60: // random preemption
		sc.PickQ = Pick(r, uint32(0), 512, 1024)
		sc.YieldQ = Pick(r, uint32(2), 4, 8, 16, 32, 64, 128, 256)
		sc.SelQ = Pick(r, uint32(0), 512, 1024)
	default: // PCT
		sc.Mode = 2
		sc.PctD = int32(r.Range(1, 5))
		sc.Horizon = uint64(Pick(r, steps/8, steps/4, steps/2, steps, steps*2) + 4)
		sc.SelQ = Pick(r, uint32(0), 512)
	}
	if h.Skip && r.P(40) {
		sc.SkipQ = Pick(r, uint32(1000), 6000, 30000)
	}
	return sc
}
