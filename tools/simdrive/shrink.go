package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

var inputTag = regexp.MustCompile(`\[input: [^]]*\]`)

// report minimises and confirms a violation, writes its replay file and prints
// the VIOLATION line. It returns "" when the violation does not reproduce.
func report(prop string, f *found) string {
	bin := binPath(f.use.Cmd, f.use.Race)
	rp := f.rp
	class := rp.Violation.Class
	msg := rp.Violation.Msg
	// fits tells whether a violation is the one found: a recorded finding, or
	// one on the input of a recorded finding, is another.
	tag := inputTag.FindString(msg)
	fits := func(v *Violation) bool {
		return v != nil && v.Class == class && inputTag.FindString(v.Msg) == tag && known(rp.Harness, prop, v) == ""
	}
	o := execOne(bin, rp)
	if !fits(o.Violation) {
		// Fall back to the seed itself.
		base := planOf(bin, f.use, prop, rp.VerifSeed, rp.Index, rp.Tier)
		base.Violation, base.VerifSeed = rp.Violation, rp.VerifSeed
		o = execOne(bin, base)
		if !fits(o.Violation) {
			fmt.Fprintf(os.Stderr, "simdrive: violation of %s (%s: %s) at index %d did not reproduce in a fresh process (%s)\n", prop, class, head(msg, 400), rp.Index, o.Broken)
			return ""
		}
		rp = base
	}
	rp.Violation = o.Violation
	rp.LogHash, rp.Log = o.LogHash, o.Log
	full := *rp
	start := time.Now()
	nOps, nDec := len(rp.Plan), len(rp.Sched.Dec)
	s := &shrinker{bin: bin, class: class, fits: fits, cur: rp, deadline: start.Add(60 * time.Second)}
	s.run()
	best := s.cur
	// Confirm, twice, in fresh processes.
	ok := true
	var oo *Outcome
	for i := 0; i < 2; i++ {
		oo = execOne(bin, best)
		if !fits(oo.Violation) {
			ok = false
		}
	}
	if !ok {
		fmt.Fprintln(os.Stderr, "simdrive: minimised replay is unstable; reporting the original")
		best = &full
		oo = execOne(bin, best)
	}
	if oo.Violation != nil {
		best.Violation = oo.Violation
		best.LogHash, best.Log = oo.LogHash, oo.Log
	}
	best.Note = fmt.Sprintf("minimised in %d executions (%.0fs): plan %d -> %d bytes, %d -> %d scheduling decisions", s.execs, time.Since(start).Seconds(), nOps, len(best.Plan), nDec, len(best.Sched.Dec))
	path := filepath.Join(*root, "replays", fmt.Sprintf("%s-%s-%d.json", prop, rp.Harness, rp.Index))
	writeJSON(path, best)
	fmt.Printf("%s\n%s: %s\n", best.Note, best.Violation.Class, head(best.Violation.Msg, 3000))
	fmt.Printf("replay with: ./check.sh --replay %s\n", path)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return path
}

type shrinker struct {
	bin      string
	class    string
	fits     func(*Violation) bool
	cur      *Replay
	deadline time.Time
	execs    int
}

func (s *shrinker) expired() bool { return time.Now().After(s.deadline) }

// try executes candidates in parallel and adopts the first (by order) that
// fails with the same class.
func (s *shrinker) try(cands []*Replay) bool {
	nw := workers()
	for lo := 0; lo < len(cands); lo += nw {
		if s.expired() {
			return false
		}
		hi := lo + nw
		if hi > len(cands) {
			hi = len(cands)
		}
		outs := make([]*Outcome, hi-lo)
		var wg sync.WaitGroup
		for i := lo; i < hi; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				outs[i-lo] = execOne(s.bin, cands[i])
			}(i)
		}
		wg.Wait()
		s.execs += hi - lo
		for i, o := range outs {
			if s.fits(o.Violation) && o.Sched != nil {
				c := *cands[lo+i]
				c.Tries, c.Class = 0, ""
				c.Sched = o.Sched
				c.Violation = o.Violation
				c.Log, c.LogHash = o.Log, o.LogHash
				s.cur = &c
				return true
			}
		}
	}
	return false
}

func (s *shrinker) variants(plan []byte) []*Replay {
	mk := func(dec [][2]int64, tries int, seed uint64) *Replay {
		c := *s.cur
		c.Plan = plan
		c.Log = nil
		c.Sched = &Sched{Seed: s.cur.Sched.Seed + seed, MSeed: s.cur.Sched.MSeed, Dec: dec}
		c.Tries = tries
		if tries > 0 {
			c.Class = s.class
		}
		return &c
	}
	v := []*Replay{mk(s.cur.Sched.Dec, 0, 0)}
	if len(s.cur.Sched.Dec) > 0 {
		v = append(v, mk(nil, 0, 0))
		if !strings.HasPrefix(s.class, "panic@") && s.class != "livelock" && s.class != "race" {
			v = append(v, mk(nil, 25, 1), mk(nil, 25, 1000003))
		}
	}
	return v
}

func decode(b []byte) any {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	must(d.Decode(&v))
	return v
}

func encode(v any) []byte {
	b, err := json.Marshal(v)
	must(err)
	return b
}

type path []any // string keys and int indices

func get(v any, p path) any {
	for _, k := range p {
		switch k := k.(type) {
		case string:
			v = v.(map[string]any)[k]
		case int:
			v = v.([]any)[k]
		}
	}
	return v
}

func set(v any, p path, x any) any {
	if len(p) == 0 {
		return x
	}
	switch k := p[0].(type) {
	case string:
		m := map[string]any{}
		for kk, vv := range v.(map[string]any) {
			m[kk] = vv
		}
		m[k] = set(m[k], p[1:], x)
		return m
	case int:
		a := append([]any(nil), v.([]any)...)
		a[k] = set(a[k], p[1:], x)
		return a
	}
	panic("path")
}

func walk(v any, p path, f func(path, any)) {
	f(p, v)
	switch v := v.(type) {
	case map[string]any:
		for _, k := range sortedKeys(v) {
			walk(v[k], append(append(path(nil), p...), k), f)
		}
	case []any:
		for i := range v {
			walk(v[i], append(append(path(nil), p...), i), f)
		}
	}
}

func (s *shrinker) run() {
	for round := 0; round < 6 && !s.expired(); round++ {
		changed := s.arrays()
		if s.decisions() {
			changed = true
		}
		if s.scalars() {
			changed = true
		}
		if !changed {
			break
		}
	}
}

func (s *shrinker) arrays() bool {
	changed := false
	for again := true; again && !s.expired(); {
		again = false
		var arrs []path
		walk(decode(s.cur.Plan), nil, func(p path, v any) {
			if a, ok := v.([]any); ok && len(a) > 0 {
				arrs = append(arrs, append(path(nil), p...))
			}
		})
		for _, p := range arrs {
			v := decode(s.cur.Plan)
			a, ok := safeGet(v, p)
			if !ok {
				continue
			}
			for size := len(a); size >= 1 && !s.expired(); size /= 2 {
				for lo := 0; lo < len(a) && !s.expired(); {
					hi := lo + size
					if hi > len(a) {
						hi = len(a)
					}
					na := append(append([]any(nil), a[:lo]...), a[hi:]...)
					nv := set(v, p, na)
					if s.try(s.variants(encode(nv))) {
						v, a = nv, na
						changed, again = true, true
					} else {
						lo += size
					}
				}
			}
		}
	}
	return changed
}

func safeGet(v any, p path) (a []any, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	a, ok = get(v, p).([]any)
	return a, ok
}

func (s *shrinker) scalars() bool {
	changed := false
	var ps []path
	walk(decode(s.cur.Plan), nil, func(p path, v any) {
		switch v.(type) {
		case json.Number, bool:
			ps = append(ps, append(path(nil), p...))
		}
	})
	for _, p := range ps {
		if s.expired() {
			break
		}
		v := decode(s.cur.Plan)
		var cands []any
		switch x := get(v, p).(type) {
		case json.Number:
			if n, err := x.Int64(); err == nil {
				if n != 0 {
					cands = append(cands, 0)
					if n > 1 {
						cands = append(cands, 1)
					}
					if n > 3 {
						cands = append(cands, n/2)
					}
				}
			}
		case bool:
			if x {
				cands = append(cands, false)
			}
		}
		for _, c := range cands {
			plan := encode(set(v, p, c))
			vs := s.variants(plan)
			if len(vs) > 2 {
				vs = vs[:2]
			}
			if s.try(vs) {
				changed = true
				break
			}
		}
	}
	return changed
}

func (s *shrinker) decisions() bool {
	changed := false
	d := s.cur.Sched.Dec
	withDec := func(nd [][2]int64) *Replay {
		c := *s.cur
		c.Log = nil
		c.Sched = &Sched{Seed: s.cur.Sched.Seed, MSeed: s.cur.Sched.MSeed, Dec: nd}
		return &c
	}
	for size := len(d); size >= 1 && !s.expired(); size /= 2 {
		for lo := 0; lo < len(d) && !s.expired(); {
			// Evaluate several chunk removals at once.
			var cands []*Replay
			var los []int
			for k, l := 0, lo; k < workers() && l < len(d); k, l = k+1, l+size {
				hi := l + size
				if hi > len(d) {
					hi = len(d)
				}
				cands = append(cands, withDec(append(append([][2]int64(nil), d[:l]...), d[hi:]...)))
				los = append(los, l)
			}
			before := len(d)
			if s.try(cands) && len(s.cur.Sched.Dec) < before {
				d = s.cur.Sched.Dec
				changed = true
				// stay at lo
				continue
			}
			d = s.cur.Sched.Dec
			lo += size * len(los)
		}
	}
	return changed
}
