package sim

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Replay is the replay file: everything that decides one execution.
type Replay struct {
	Property  string          `json:"property"`
	Harness   string          `json:"harness"`
	Race      bool            `json:"race,omitempty"`
	Tier      Tier            `json:"tier"`
	Index     uint64          `json:"index"`
	Seed      uint64          `json:"seed"`
	Sched     *Sched          `json:"sched"`
	Plan      json.RawMessage `json:"plan"`
	Violation *Violation      `json:"violation,omitempty"`
	LogHash   uint64          `json:"log_hash,omitempty"`
	Log       []string        `json:"log,omitempty"`
	// Tries > 0 asks for random schedules, seeded from Sched.Seed, until one fails.
	Tries int    `json:"tries,omitempty"`
	Class string `json:"class,omitempty"` // stop only at this class
}

// Outcome is the report of one executed replay.
type Outcome struct {
	Violation *Violation `json:"violation"`
	Sched     *Sched     `json:"sched"`
	LogHash   uint64     `json:"log_hash"`
	SchedHash uint64     `json:"sched_hash"`
	Log       []string   `json:"log"`
	Overflow  bool       `json:"overflow"`
}

// BatchReport is what a worker reports at the end of a batch.
type BatchReport struct {
	Harness    string           `json:"harness"`
	Runs       int64            `json:"runs"`
	NonTrivial int64            `json:"nontrivial"`
	SimNs      int64            `json:"sim_ns"`
	Steps      int64            `json:"steps"`
	Switches   int64            `json:"switches"`
	Preempts   int64            `json:"preempts"`
	Leaks      int64            `json:"leaks"`
	Counters   map[string]int64 `json:"counters"`
	Hashes     []uint64         `json:"hashes"` // distinct (plan, schedule) of nontrivial runs
	Violation  *Replay          `json:"violation,omitempty"`
	Known      map[string]int64 `json:"known,omitempty"`
	Samples    []any            `json:"samples,omitempty"`
	LogHashes  [][2]uint64      `json:"log_hashes,omitempty"` // (index, hash) when -hashes
	Next       uint64           `json:"next"`
	Done       bool             `json:"done"`
}

// KnownFinding identifies a recorded defect by property, class and message.
type KnownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"` // "": any
	Class    string `json:"class"`
	Match    string `json:"match"`
	What     string `json:"what"`
	re       *regexp.Regexp
}

const (
	shmDecs = 1 << 17
	shmHdr  = 64
	shmSize = shmHdr*8 + shmDecs*16
)

type shm struct {
	hdr *[shmHdr]uint64
	rec []runtime.SimDecision
}

// openShm maps the file the worker's scheduler records into, so that the
// record survives a crash of the worker.
func openShm(path string) *shm {
	if path == "" {
		return &shm{hdr: new([shmHdr]uint64), rec: make([]runtime.SimDecision, shmDecs)}
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	must(err)
	must(f.Truncate(shmSize))
	b, err := syscall.Mmap(int(f.Fd()), 0, shmSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	f.Close()
	m := &shm{hdr: (*[shmHdr]uint64)(unsafe.Pointer(&b[0]))}
	m.rec = unsafe.Slice((*runtime.SimDecision)(unsafe.Pointer(&b[shmHdr*8])), shmDecs)
	return m
}

// Shared-memory header words.
const (
	hIndex = iota
	hTry
	hRecN
	hStep
	hState
	hBeat
)

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "SIM-HARNESS-ERROR:", err)
		os.Exit(3)
	}
}

// budget is called when a run exhausts its step budget.
func budget() {
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, false)]
	fmt.Fprintf(os.Stderr, "SIM-BUDGET: step budget exhausted, no progress\n%s\n", buf)
	os.Exit(78)
}

// PreRun, when set, resets package-level state of the code under test before each run.
var PreRun []func()

// Main is the entry point of every harness binary.
func Main(hs ...*Harness) {
	mode := flag.String("mode", "batch", "batch, exec or plan")
	name := flag.String("harness", "", "")
	vseed := flag.Uint64("seed", 1, "VERIF_SEED")
	from := flag.Uint64("from", 0, "")
	to := flag.Uint64("to", 0, "")
	stride := flag.Uint64("stride", 1, "")
	tier := flag.Int("tier", 0, "")
	shmPath := flag.String("shm", "", "")
	out := flag.String("out", "", "")
	in := flag.String("in", "", "")
	known := flag.String("known", "", "")
	prop := flag.String("property", "", "")
	hashes := flag.Bool("hashes", false, "")
	deadline := flag.Duration("deadline", time.Hour, "")
	gcEvery := flag.Int("gc", 200, "")
	flag.Parse()
	var h *Harness
	for _, x := range hs {
		if x.Name == *name {
			h = x
		}
	}
	if h == nil {
		must(fmt.Errorf("no harness %q", *name))
	}
	if h.MaxStep == 0 {
		h.MaxStep = 3_000_000
	}
	if runtime.GOMAXPROCS(0) != 1 {
		must(fmt.Errorf("GOMAXPROCS must be 1"))
	}
	debug.SetGCPercent(-1)
	debug.SetMaxStack(64 << 20)
	m := openShm(*shmPath)
	runtime.SimInit()
	switch *mode {
	case "plan":
		rp := planFor(h, *vseed, *from, Tier(*tier))
		rp.Property = *prop
		writeJSON(*out, rp)
	case "exec":
		b, err := os.ReadFile(*in)
		must(err)
		var rp Replay
		must(json.Unmarshal(b, &rp))
		writeJSON(*out, execReplay(h, &rp, m))
	case "batch":
		var kf []*KnownFinding
		if *known != "" {
			b, err := os.ReadFile(*known)
			must(err)
			var doc struct {
				Findings []*KnownFinding `json:"findings"`
			}
			must(json.Unmarshal(b, &doc))
			for _, k := range doc.Findings {
				if k.Property == *prop && (k.Harness == "" || k.Harness == *name) {
					k.re = regexp.MustCompile(k.Match)
					kf = append(kf, k)
				}
			}
		}
		batch(h, *vseed, *from, *to, *stride, Tier(*tier), m, *out, *prop, kf, *hashes, *deadline, *gcEvery)
	default:
		must(fmt.Errorf("bad mode"))
	}
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	must(err)
	if path == "" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	tmp := path + ".tmp"
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.WriteFile(tmp, b, 0o644))
	must(os.Rename(tmp, path))
}

func planFor(h *Harness, vseed, idx uint64, tier Tier) *Replay {
	seed := SeedFor(vseed, h.Name, idx)
	r := NewRand(seed)
	pr, sr := r.Fork(), r.Fork()
	plan := h.Gen(pr, tier)
	b, err := json.Marshal(plan)
	must(err)
	return &Replay{Harness: h.Name, Tier: tier, Index: idx, Seed: seed, Sched: drawSched(h, sr), Plan: b}
}

func preRun() {
	for _, f := range PreRun {
		f()
	}
}

func decsOf(m *shm, n int) [][2]int64 {
	d := make([][2]int64, n)
	for i := range d {
		d[i] = [2]int64{int64(m.rec[i].Step), m.rec[i].Val}
	}
	return d
}

func execReplay(h *Harness, rp *Replay, m *shm) *Outcome {
	tries := rp.Tries
	if tries == 0 {
		tries = 1
	}
	var o *Outcome
	for t := 0; t < tries; t++ {
		plan := h.New()
		must(json.Unmarshal(rp.Plan, plan))
		sc := rp.Sched
		if rp.Tries > 0 {
			sc = drawSched(h, NewRand(rp.Sched.Seed+uint64(t)*7919))
		}
		m.hdr[hTry] = uint64(t)
		m.hdr[hState] = 1
		preRun()
		res := execute(h, rp.Seed, rp.Tier, plan, sc, m.rec, &m.hdr[hRecN], &m.hdr[hStep])
		m.hdr[hState] = 2
		esc := &Sched{Seed: sc.Seed, MSeed: sc.MSeed, Dec: decsOf(m, res.RecN)}
		if res.Overflow {
			esc = sc
		}
		o = &Outcome{Violation: res.Vio, Sched: esc, LogHash: res.LogHash, SchedHash: res.SchedHash, Log: res.Log, Overflow: res.Overflow}
		if res.Vio != nil && (rp.Class == "" || res.Vio.Class == rp.Class) {
			break
		}
		if res.Vio != nil && strings.HasPrefix(res.Vio.Class, "deadlock") {
			break // goroutines of this run are still around
		}
	}
	return o
}

func batch(h *Harness, vseed, from, to, stride uint64, tier Tier, m *shm, out, prop string, kf []*KnownFinding, wantHashes bool, dl time.Duration, gcEvery int) {
	rep := &BatchReport{Harness: h.Name, Counters: map[string]int64{}, Known: map[string]int64{}, Next: from}
	distinct := map[uint64]struct{}{}
	start := time.Now()
	since := 0
	for i := from; i < to; i += stride {
		if time.Since(start) > dl {
			break
		}
		rp := planFor(h, vseed, i, tier)
		plan := h.New()
		must(json.Unmarshal(rp.Plan, plan))
		m.hdr[hIndex] = i
		m.hdr[hTry] = 0
		m.hdr[hState] = 1
		preRun()
		res := execute(h, rp.Seed, tier, plan, rp.Sched, m.rec, &m.hdr[hRecN], &m.hdr[hStep])
		m.hdr[hState] = 2
		m.hdr[hBeat]++
		rep.Runs++
		rep.SimNs += res.SimNs
		rep.Steps += int64(res.Steps)
		rep.Switches += int64(res.Switches)
		rep.Preempts += int64(res.Preempts)
		if res.Leak {
			rep.Leaks++
		}
		for k, v := range res.Counters {
			rep.Counters[k] += v
		}
		if res.NonTrivial {
			rep.NonTrivial++
			distinct[mix64(res.SchedHash)^hashStr(string(rp.Plan))] = struct{}{}
		}
		if os.Getenv("SIM_DUMP") == fmt.Sprint(i) {
			os.WriteFile(os.Getenv("SIM_DUMP_TO"), []byte(strings.Join(res.Log, "\n")), 0o644)
		}
		if wantHashes {
			rep.LogHashes = append(rep.LogHashes, [2]uint64{i, res.LogHash ^ mix64(res.SchedHash)})
		}
		if len(rep.Samples) < 2 && res.NonTrivial {
			var p any
			json.Unmarshal(rp.Plan, &p)
			lg := res.Log
			if len(lg) > 30 {
				lg = lg[:30]
			}
			rep.Samples = append(rep.Samples, map[string]any{"index": i, "seed": rp.Seed, "sched": rp.Sched, "plan": p,
				"steps": res.Steps, "log_head": lg})
		}
		rep.Next = i + stride
		if res.Vio != nil {
			matched := false
			for _, k := range kf {
				if k.Class == res.Vio.Class && k.re.MatchString(res.Vio.Msg) {
					rep.Known[k.What]++
					matched = true
					break
				}
			}
			if !matched {
				rp.Property = prop
				rp.Violation = res.Vio
				rp.Log = res.Log
				rp.LogHash = res.LogHash
				if !res.Overflow {
					rp.Sched = &Sched{Seed: rp.Sched.Seed, MSeed: rp.Sched.MSeed, Dec: decsOf(m, res.RecN)}
				}
				rep.Violation = rp
				break
			}
			if strings.HasPrefix(res.Vio.Class, "deadlock") {
				// Blocked goroutines of this run stay around: let the driver
				// continue in a fresh process.
				break
			}
		}
		if since++; since >= gcEvery {
			since = 0
			runtime.GC()
		}
	}
	rep.Done = rep.Violation == nil && rep.Next >= to
	for k := range distinct {
		rep.Hashes = append(rep.Hashes, k)
	}
	writeJSON(out, rep)
}
