package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type found struct {
	use *HarnessUse
	rp  *Replay
}

type agg struct {
	runs, nontrivial, simNs, steps, switches, preempts, leaks int64
	counters                                                  map[string]int64
	known                                                     map[string]int64
	hashes                                                    map[uint64]struct{}
	samples                                                   []any
	perHarness                                                map[string]map[string]any
	wall                                                      float64
}

func (a *agg) add(r *BatchReport) {
	a.runs += r.Runs
	a.nontrivial += r.NonTrivial
	a.simNs += r.SimNs
	a.steps += r.Steps
	a.switches += r.Switches
	a.preempts += r.Preempts
	a.leaks += r.Leaks
	for k, v := range r.Counters {
		a.counters[k] += v
	}
	for k, v := range r.Known {
		a.known[k] += v
	}
	for _, h := range r.Hashes {
		a.hashes[h] = struct{}{}
	}
	if len(a.samples) < 4 {
		for _, s := range r.Samples {
			if len(a.samples) < 4 {
				a.samples = append(a.samples, s)
			}
		}
	}
}

type task struct{ from, to uint64 }

// explore runs indices [from,to) of a harness over the worker processes.
func explore(prop string, u *HarnessUse, vseed, from, to uint64, tierN int, deadline time.Time, a *agg) (*Replay, error) {
	bin := binPath(u.Cmd, u.Race)
	nw := workers()
	total := to - from
	chunk := total/uint64(nw*3) + 1
	if chunk > 20000 {
		chunk = 20000
	}
	tasks := make(chan task, total/chunk+2)
	for f := from; f < to; f += chunk {
		t := f + chunk
		if t > to {
			t = to
		}
		tasks <- task{f, t}
	}
	close(tasks)
	var mu sync.Mutex
	var hits []*Replay
	var firstErr error
	stop := make(chan struct{})
	var once sync.Once
	halt := func() { once.Do(func() { close(stop) }) }
	gc := u.GC
	if gc == 0 {
		gc = 200
	}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t := range tasks {
				next := t.from
				for next < t.to {
					left := time.Until(deadline)
					if left <= 0 {
						return
					}
					select {
					case <-stop:
						return
					default:
					}
					out, sh := tmpFile(".rep.json"), tmpFile(".shm")
					r := runProc(60*time.Second, stop, sh, bin, "-mode", "batch", "-harness", u.Name, "-property", prop,
						"-seed", fmt.Sprint(vseed), "-from", fmt.Sprint(next), "-to", fmt.Sprint(t.to), "-tier", fmt.Sprint(tierN),
						"-shm", sh, "-out", out, "-known", filepath.Join(*root, "known_findings.json"), "-deadline", left.String(), "-gc", fmt.Sprint(gc))
					if r.exit == -2 {
						os.Remove(sh)
						return
					}
					if r.exit == 0 {
						var rep BatchReport
						readJSON(out, &rep)
						os.Remove(out)
						os.Remove(sh)
						mu.Lock()
						a.add(&rep)
						if rep.Violation != nil {
							rep.Violation.Race = u.Race
							rep.Violation.Property = prop
							hits = append(hits, rep.Violation)
						}
						mu.Unlock()
						if rep.Violation != nil {
							halt()
							return
						}
						if rep.Next <= next {
							return // deadline
						}
						next = rep.Next
						continue
					}
					v, broken := classify(r)
					m := readShm(sh, true)
					os.Remove(sh)
					if v == nil {
						mu.Lock()
						if firstErr == nil {
							firstErr = fmt.Errorf("harness %s index %d: %s", u.Name, m.hdr[hIndex], broken)
						}
						mu.Unlock()
						halt()
						return
					}
					if what := known(u.Name, prop, v); what != "" {
						mu.Lock()
						a.known[what]++
						a.runs++
						mu.Unlock()
						next = m.hdr[hIndex] + 1
						continue
					}
					rp := planOf(bin, u, prop, vseed, m.hdr[hIndex], tierN)
					rp.Violation = v
					rp.Sched = &Sched{Seed: rp.Sched.Seed, MSeed: rp.Sched.MSeed, Dec: m.decs}
					mu.Lock()
					hits = append(hits, rp)
					mu.Unlock()
					halt()
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(hits) > 0 {
		sort.Slice(hits, func(i, j int) bool { return hits[i].Index < hits[j].Index })
		hits[0].VerifSeed = vseed
		return hits[0], nil
	}
	return nil, firstErr
}

// known returns what a recorded finding says about a violation that ended the
// worker, or "".
func known(harness, prop string, v *Violation) string {
	findings.Do(func() {
		readJSON(filepath.Join(*root, "known_findings.json"), &findings.doc)
	})
	for _, k := range findings.doc.Findings {
		if k.Property == prop && (k.Harness == "" || k.Harness == harness) && matchClass(k.Class, v.Class) && regexp.MustCompile(k.Match).MatchString(v.Msg) {
			return k.What
		}
	}
	return ""
}

// matchClass compares classes; a recorded class may end in a "*".
func matchClass(want, got string) bool {
	if p, ok := strings.CutSuffix(want, "*"); ok {
		return strings.HasPrefix(got, p)
	}
	return want == got
}

var findings struct {
	sync.Once
	doc struct {
		Findings []struct{ Property, Harness, Class, Match, What string } `json:"findings"`
	}
}

func planOf(bin string, u *HarnessUse, prop string, vseed, idx uint64, tierN int) *Replay {
	out, sh := tmpFile(".plan.json"), tmpFile(".shm")
	r := runProc(60*time.Second, nil, sh, bin, "-mode", "plan", "-harness", u.Name, "-property", prop, "-seed", fmt.Sprint(vseed),
		"-from", fmt.Sprint(idx), "-tier", fmt.Sprint(tierN), "-out", out, "-shm", sh)
	if r.exit != 0 {
		fatal("plan of %s/%d: %s", u.Name, idx, tail(r.stderr, 2000))
	}
	var rp Replay
	readJSON(out, &rp)
	os.Remove(out)
	os.Remove(sh)
	rp.Property = prop
	rp.Race = u.Race
	return &rp
}

// determinism executes n indices in two differently arranged sets of processes
// and compares event-log and schedule hashes.
func determinism(u *HarnessUse, vseed uint64, n uint64, tierN int) (pairs, mismatches int, detail string) {
	bin := binPath(u.Cmd, u.Race)
	run := func(procs uint64, gc int) map[uint64]uint64 {
		m := map[uint64]uint64{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan struct{}, workers())
		for p := uint64(0); p < procs; p++ {
			wg.Add(1)
			sem <- struct{}{}
			go func(p uint64) {
				defer wg.Done()
				defer func() { <-sem }()
				out, sh := tmpFile(".det.json"), tmpFile(".shm")
				r := runProc(60*time.Second, nil, sh, bin, "-mode", "batch", "-harness", u.Name, "-seed", fmt.Sprint(vseed),
					"-from", fmt.Sprint(p), "-to", fmt.Sprint(n), "-stride", fmt.Sprint(procs), "-tier", fmt.Sprint(tierN),
					"-shm", sh, "-out", out, "-hashes", "-gc", fmt.Sprint(gc))
				if r.exit == 0 {
					var rep BatchReport
					readJSON(out, &rep)
					mu.Lock()
					for _, h := range rep.LogHashes {
						m[h[0]] = h[1]
					}
					mu.Unlock()
				}
				os.Remove(out)
				os.Remove(sh)
			}(p)
		}
		wg.Wait()
		return m
	}
	a := run(3, 200)
	b := run(n/5+1, 7)
	for i := uint64(0); i < n; i++ {
		x, ok1 := a[i]
		y, ok2 := b[i]
		if !ok1 || !ok2 {
			continue
		}
		pairs++
		if x != y {
			mismatches++
			if detail == "" {
				detail = fmt.Sprintf("index %d", i)
			}
		}
	}
	return
}

func runCheck(prop string, chk *Check, vseed uint64) int {
	start := time.Now()
	tierN := 0
	if *tier == "thorough" {
		tierN = 1
	}
	built := map[string]bool{}
	for _, u := range chk.Harnesses {
		if *only != "" && u.Name != *only {
			continue
		}
		if b := binPath(u.Cmd, u.Race); !built[b] {
			built[b] = true
			build(u.Cmd, u.Race)
		}
	}
	buildS := time.Since(start).Seconds()
	if *selftest > 0 {
		bad := 0
		for _, u := range chk.Harnesses {
			if *only != "" && u.Name != *only {
				continue
			}
			p, m, d := determinism(u, vseed, *selftest, tierN)
			fmt.Printf("determinism %s race=%v: %d pairs, %d mismatches %s\n", u.Name, u.Race, p, m, d)
			bad += m
		}
		if bad > 0 {
			return 2
		}
		return 0
	}
	a := &agg{counters: map[string]int64{}, known: map[string]int64{}, hashes: map[uint64]struct{}{}, perHarness: map[string]map[string]any{}}
	det := map[string]any{}
	var hit *found
	exploreStart := time.Now()
	limit := 420 * time.Second
	if tierN == 1 {
		limit = 1500 * time.Second
	}
	if *budget > 0 {
		limit = *budget
	}
	shareSum := 0.0
	for _, u := range chk.Harnesses {
		if u.Share == 0 {
			u.Share = 1
		}
		shareSum += u.Share
	}
	cum := 0.0
	for _, u := range chk.Harnesses {
		if *only != "" && u.Name != *only {
			continue
		}
		// In the quick tier every harness may use the time up to the end of its share of the limit (what an earlier
		// one leaves unused is available to it), so that a slow machine shortens all of them and starves none.
		cum += u.Share
		part := cum / shareSum
		if *only != "" {
			part = 1
		}
		key := u.Name
		if u.Race {
			key += "+race"
		}
		if tierN == 0 || *selftest > 0 {
			p, m, d := determinism(u, vseed, 40, tierN)
			det[key] = map[string]any{"seeds_run_twice": p, "mismatches": m, "first": d}
			if m > 0 {
				fmt.Fprintf(os.Stderr, "simdrive: warning: %s is not deterministic on this tree: %d of %d (%s)\n", key, m, p, d)
			}
		}
		t0 := time.Now()
		before := *a
		nd := len(a.hashes)
		var rp *Replay
		var err error
		if tierN == 0 {
			rp, err = explore(prop, u, vseed, 0, uint64(float64(u.Quick)**runsMul), tierN, exploreStart.Add(time.Duration(float64(limit)*part)), a)
		} else {
			end := time.Now().Add(time.Duration(float64(limit) * u.Share / shareSum))
			step := u.Quick
			for f := uint64(0); time.Now().Before(end); f += step {
				rp, err = explore(prop, u, vseed, f, f+step, tierN, end, a)
				if rp != nil || err != nil {
					break
				}
			}
		}
		a.perHarness[key] = map[string]any{
			"runs": a.runs - before.runs, "wall_s": round(time.Since(t0).Seconds()), "simulated_s": round(float64(a.simNs-before.simNs) / 1e9),
			"steps": a.steps - before.steps, "context_switch_decisions": a.switches - before.switches, "preemptions": a.preempts - before.preempts,
			"distinct_plan_schedule": len(a.hashes) - nd,
		}
		if err != nil {
			fmt.Fprintf(os.Stderr, "simdrive: check error: %v\n", err)
			writeEvidence(prop, chk, vseed, a, det, buildS, time.Since(exploreStart).Seconds(), time.Since(start).Seconds(), 0)
			return 2
		}
		if rp != nil {
			hit = &found{u, rp}
			break
		}
	}
	nv := 0
	code := 0
	exploreS := time.Since(exploreStart).Seconds()
	if hit != nil {
		nv = 1
		code = 1
		path := report(prop, hit)
		if path == "" {
			code = 2
		}
	}
	for _, k := range sortedKeys(a.known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	writeEvidence(prop, chk, vseed, a, det, buildS, exploreS, time.Since(start).Seconds(), nv)
	if code == 0 {
		fmt.Printf("property %s held: %d runs, %d distinct non-trivial, %.0f simulated seconds, %.1f s exploring\n", prop, a.runs, len(a.hashes), float64(a.simNs)/1e9, exploreS)
	}
	return code
}

func round(f float64) float64 { return float64(int64(f*10)) / 10 }

func writeEvidence(prop string, chk *Check, vseed uint64, a *agg, det map[string]any, buildS, exploreS, wall float64, nv int) {
	faults := map[string]int64{}
	for _, k := range chk.FaultKinds {
		faults[k] = 0
	}
	probes := map[string]int64{}
	for _, k := range chk.Probes {
		probes[k] = 0
	}
	other := map[string]int64{}
	for k, v := range a.counters {
		switch {
		case len(k) > 6 && k[:6] == "fault:":
			faults[k[6:]] = v
		case len(k) > 6 && k[:6] == "probe:":
			probes[k[6:]] = v
		default:
			other[k] = v
		}
	}
	perHour := 0.0
	if exploreS > 0 {
		perHour = float64(a.runs) / exploreS * 3600
	}
	cov := map[string]any{
		"evaluations":                       a.runs,
		"distinct_nontrivial":               len(a.hashes),
		"rule":                              chk.Rule,
		"samples":                           a.samples,
		"simulated_runs_and_seeds_per_hour": int64(perHour),
		"simulated_time_s":                  round(float64(a.simNs) / 1e9),
		"scheduling_steps":                  a.steps,
		"context_switch_decisions":          a.switches,
		"preemptions":                       a.preempts,
		"runs_leaving_blocked_goroutines":   a.leaks,
		"faults_injected":                   faults,
		"probes":                            probes,
		"workload":                          other,
		"distinct_interleavings_measure":    "distinct_nontrivial counts distinct pairs of (hash of the plan, hash of the sequence of goroutine switches with the step each happened at) among non-trivial runs",
		"per_harness":                       a.perHarness,
		"determinism_selftest":              det,
		"components_real":                   chk.Real,
		"components_stub":                   chk.Stub,
		"build_s":                           round(buildS),
	}
	ev := map[string]any{
		"property": prop, "tier": *tier, "seed": vseed, "level": "exploration",
		"coverage": cov, "assumptions": chk.Assume, "wall_s": round(wall), "violations": nv,
	}
	writeJSON(filepath.Join(*root, "evidence", prop+".json"), ev)
}
