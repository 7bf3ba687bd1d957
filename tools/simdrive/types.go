package main

import "encoding/json"

type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type Sched struct {
	Seed    uint64     `json:"seed"`
	MSeed   uint64     `json:"mseed"`
	Mode    int32      `json:"mode"`
	PctD    int32      `json:"pct_d,omitempty"`
	YieldQ  uint32     `json:"yield_q,omitempty"`
	PickQ   uint32     `json:"pick_q,omitempty"`
	SelQ    uint32     `json:"sel_q,omitempty"`
	SkipQ   uint32     `json:"skip_q,omitempty"`
	Horizon uint64     `json:"horizon,omitempty"`
	Dec     [][2]int64 `json:"decisions,omitempty"`
}

type Replay struct {
	Property  string          `json:"property"`
	Harness   string          `json:"harness"`
	Race      bool            `json:"race,omitempty"`
	Tier      int             `json:"tier"`
	Index     uint64          `json:"index"`
	Seed      uint64          `json:"seed"`
	Sched     *Sched          `json:"sched"`
	Plan      json.RawMessage `json:"plan"`
	Violation *Violation      `json:"violation,omitempty"`
	LogHash   uint64          `json:"log_hash,omitempty"`
	Log       []string        `json:"log,omitempty"`
	Tries     int             `json:"tries,omitempty"`
	Class     string          `json:"class,omitempty"`
	VerifSeed uint64          `json:"verif_seed"`
	Note      string          `json:"note,omitempty"`
}

type Outcome struct {
	Violation *Violation `json:"violation"`
	Sched     *Sched     `json:"sched"`
	LogHash   uint64     `json:"log_hash"`
	SchedHash uint64     `json:"sched_hash"`
	Log       []string   `json:"log"`
	Overflow  bool       `json:"overflow"`
	// Broken: the execution said nothing about the property (harness trouble).
	Broken string `json:"-"`
}

type BatchReport struct {
	Harness    string           `json:"harness"`
	Runs       int64            `json:"runs"`
	NonTrivial int64            `json:"nontrivial"`
	SimNs      int64            `json:"sim_ns"`
	Steps      int64            `json:"steps"`
	Switches   int64            `json:"switches"`
	Preempts   int64            `json:"preempts"`
	Leaks      int64            `json:"leaks"`
	Counters   map[string]int64 `json:"counters"`
	Hashes     []uint64         `json:"hashes"`
	Violation  *Replay          `json:"violation,omitempty"`
	Known      map[string]int64 `json:"known,omitempty"`
	Samples    []any            `json:"samples,omitempty"`
	LogHashes  [][2]uint64      `json:"log_hashes,omitempty"`
	Next       uint64           `json:"next"`
	Done       bool             `json:"done"`
}

// Config is engine/checks.json.
type Config struct {
	Checks map[string]*Check `json:"checks"`
}

type Check struct {
	Title      string        `json:"title"`
	Rule       string        `json:"rule"`
	Harnesses  []*HarnessUse `json:"harnesses"`
	Real       []string      `json:"real"`
	Stub       []string      `json:"stub"`
	Assume     []string      `json:"assumptions"`
	FaultKinds []string      `json:"fault_kinds"`
	Probes     []string      `json:"probes"`
}

type HarnessUse struct {
	Name  string `json:"name"`
	Cmd   string `json:"cmd"`  // directory under engine/cmd
	Race  bool   `json:"race"` // build with the race detector
	Quick uint64 `json:"quick"`
	// Share of the thorough time budget.
	Share float64 `json:"share"`
	GC    int     `json:"gc"`
}
