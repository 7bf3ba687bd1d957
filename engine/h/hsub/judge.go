package hsub

import (
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/openconfig/gnmi/zzsim/h/gen"
	"github.com/openconfig/gnmi/zzsim/h/hcache"
	"github.com/openconfig/gnmi/zzsim/sim"
)

// judge checks every stream that is up and idle: everything else is blocked.
func (w *world) judge(phase int) {
	s := w.s
	for _, c := range w.subs {
		if c.sub.Mode != 0 || c.done || c.inSend || c.cancelled > 0 || c.call == 0 || s.Failed() {
			continue
		}
		if w.rejected(c) || c.invalid {
			continue
		}
		if !c.settled() {
			w.fail("sync", "client %d: everything is idle and the sync response was never sent\n%s", c.id, show(c.req))
			continue
		}
		s.NonTrivial()
		s.Probe("stream_judged")
		w.converged(c)
		w.account(c)
	}
}

// converged: replaying the responses gives the matching content of the cache.
func (w *world) converged(c *client) {
	replay := map[int]map[string]*gen.Leaf{}
	for t := 0; t < w.p.Targets; t++ {
		replay[t] = map[string]*gen.Leaf{}
	}
	for _, m := range c.msgs {
		if m.n != nil && m.ok {
			if f := replay[targetIndex(m.n.GetPrefix().GetTarget())]; f != nil {
				hcache.ApplyFeed(f, m.n)
			}
		}
	}
	for t := 0; t < w.p.Targets; t++ {
		if (c.sub.T >= 0 && c.sub.T != t) || w.allowed(c.sub.Caller)&(1<<t) == 0 {
			continue
		}
		have, got := w.readAll(t), replay[t]
		if c.sub.UO {
			// Only what changed since the subscription is delivered.
			for _, k := range sim.SortedKeys(got) {
				if c.matches(t, k) && (have[k] == nil || !have[k].SameContent(got[k])) {
					w.fail("converge", "client %d (updates_only): replaying its responses gives %s %s = %v; the cache holds %v\n%s", c.id, hcache.TargetName(t), gen.Show(k), got[k], have[k], show(c.req))
				}
			}
			continue
		}
		for _, k := range sim.SortedKeys(have) {
			if c.matches(t, k) && (got[k] == nil || !have[k].SameContent(got[k])) {
				w.fail("converge", "client %d: the cache holds %s %s = %v; replaying the client's responses gives %v\n%s", c.id, hcache.TargetName(t), gen.Show(k), have[k], got[k], show(c.req))
			}
		}
		for _, k := range sim.SortedKeys(got) {
			if c.matches(t, k) && have[k] == nil {
				w.fail("converge", "client %d: replaying its responses gives %s %s = %v, which the cache does not hold\n%s", c.id, hcache.TargetName(t), gen.Show(k), got[k], show(c.req))
			}
		}
	}
}

// account compares what was announced since the stream was last idle with what
// the stream delivered: every announcement of a leaf is delivered or counted as
// coalesced, exactly once.
func (w *world) account(c *client) {
	fromFeed, fromMsgs, ok := c.baseFeed, c.baseMsgs, c.based
	c.baseFeed, c.baseMsgs, c.based = len(w.feed), len(c.msgs), true
	if !ok {
		return
	}
	want := map[string]int{}
	dels := 0
	for _, e := range w.feed[fromFeed:] {
		t := targetIndex(e.target)
		if w.allowed(c.sub.Caller)&(1<<t) == 0 || !c.offered(e.n) {
			continue
		}
		if len(e.n.GetUpdate()) == 0 {
			dels++
			continue
		}
		want[leafKey(e)]++
	}
	got := map[string]int{}
	gotDels, msgs := 0, map[string]int{}
	for _, m := range c.msgs[fromMsgs:] {
		if m.n == nil {
			continue
		}
		if len(m.n.GetUpdate()) == 0 {
			gotDels++
			continue
		}
		k := m.n.GetPrefix().GetTarget() + "\x1f" + m.key
		got[k] += 1 + int(m.n.GetUpdate()[0].GetDuplicates())
		msgs[k]++
	}
	if gotDels != dels {
		w.fail("offered", "client %d: %d matching deletes were announced and %d delivered\n%s", c.id, dels, gotDels, show(c.req))
	}
	for _, k := range sim.SortedKeys(want) {
		if w.p.NoDup {
			if msgs[k] > want[k] || msgs[k] == 0 {
				w.fail("offered", "client %d: %s was announced %d times and delivered %d times\n%s", c.id, gen.Show(k), want[k], msgs[k], show(c.req))
			}
			if got[k] != msgs[k] {
				w.fail("offered", "client %d: %s was delivered with a duplicate count although the report is off", c.id, gen.Show(k))
			}
			continue
		}
		if got[k] != want[k] {
			w.fail("offered", "client %d: %s was announced %d times; delivered messages and duplicate counts add up to %d\n%s", c.id, gen.Show(k), want[k], got[k], show(c.req))
		}
		if msgs[k] < want[k] {
			w.s.Probe("coalesced")
		}
	}
	for _, k := range sim.SortedKeys(got) {
		if want[k] == 0 {
			w.fail("offered", "client %d: %s was delivered and not announced\n%s", c.id, gen.Show(k), show(c.req))
		}
	}
	w.s.Count("probe:accounted_announcements", len(w.feed)-fromFeed)
}

func leafKey(e *feedEvent) string {
	k := e.target + "\x1f"
	if e.n.GetAtomic() {
		return k + gen.Key(gen.FullIndex(e.n.GetPrefix(), nil))
	}
	return k + gen.Key(gen.FullIndex(e.n.GetPrefix(), e.n.GetUpdate()[0].GetPath()))
}

// rejected: the call must be refused.
func (w *world) rejected(c *client) bool {
	if w.p.ACL != nil && w.p.ACL.Fail&(1<<c.sub.Caller) != 0 {
		return true
	}
	if c.sub.T >= w.p.Targets {
		return true
	}
	return c.sub.T >= 0 && w.allowed(c.sub.Caller)&(1<<c.sub.T) == 0
}

// judgeCall checks a whole call, ended or still up.
func (w *world) judgeCall(c *client) {
	if c.call == 0 || w.s.Failed() {
		return
	}
	s := w.s
	end := c.ret
	if !c.done {
		end = int64(1) << 60
	}
	// The target may have been unknown when the call came in.
	gone := false
	for _, r := range w.removed {
		if c.sub.T == r.t && r.from <= end {
			gone = true
		}
	}
	code := status.Code(c.err)
	if w.rejected(c) {
		var want codes.Code
		class := "acl"
		switch {
		case w.p.ACL != nil && w.p.ACL.Fail&(1<<c.sub.Caller) != 0:
			want = codes.Unauthenticated
		case c.sub.T >= w.p.Targets:
			want, class = codes.NotFound, "remove-unknown"
		default:
			want = codes.PermissionDenied
		}
		s.Probe("rejected_call")
		if !c.done || (code != want && !(gone && code == codes.NotFound)) {
			w.fail(class, "client %d: the call must be rejected with %v; ended=%v error %v\n%s", c.id, want, c.done, c.err, show(c.req))
		}
		if len(c.msgs) > 0 {
			w.fail(class, "client %d: the rejected call was sent %d responses", c.id, len(c.msgs))
		}
		return
	}
	overlong := false
	for _, m := range c.msgs {
		overlong = overlong || m.overlong
	}
	cancelled := c.cancelled > 0 && c.cancelled <= end
	timedOut := c.err != nil && strings.Contains(c.err.Error(), "timed out") && w.prof != "stall"
	early := cancelled || c.failed || overlong || timedOut
	// How the call ended.
	if c.done && !early {
		switch {
		case c.err != nil && gone && code == codes.NotFound:
			return
		case c.err != nil && c.invalid:
			return
		case c.err != nil:
			w.fail("ended", "client %d: the call ended with %v\n%s", c.id, c.err, show(c.req))
			if c.sub.Mode != 0 {
				w.fail("once-end", "client %d: the call ended with %v\n%s", c.id, c.err, show(c.req))
			}
			if gone {
				w.fail("remove-end", "client %d: the call for the removed target ended with %v\n%s", c.id, c.err, show(c.req))
			}
		case c.sub.Mode == 0 && !gone:
			w.fail("ended", "client %d: the stream ended although its target was not removed\n%s", c.id, show(c.req))
			w.fail("remove-end", "client %d: the stream ended although its target was not removed\n%s", c.id, show(c.req))
		case c.sub.Mode == 0 && gone:
			s.Probe("stream_ended_by_removal")
			last := c.msgs[len(c.msgs)-1:]
			if len(last) == 0 || len(last[0].n.GetDelete()) != 1 {
				w.fail("remove-end", "client %d: the stream ended before the delete of its target was delivered\n%s", c.id, show(c.req))
			}
		}
	}
	if !c.done && c.sub.Mode == 0 && c.sub.T >= 0 && !c.inSend && !c.invalid && len(c.sub.Paths) > 0 {
		var synced int64
		for _, m := range c.msgs {
			if m.sync {
				synced = m.ret
			}
		}
		for _, r := range w.removed {
			if r.t == c.sub.T && synced > 0 && r.from > synced && r.to < s.Seq() {
				w.fail("remove-end", "client %d: its target was removed and the stream goes on\n%s", c.id, show(c.req))
			}
		}
		if len(w.removed) > 0 && !w.c.HasTarget(hcache.TargetName(c.sub.T)) {
			w.fail("remove-end", "client %d: its target is gone and the stream goes on\n%s", c.id, show(c.req))
		}
	}
	if !c.done && !c.invalid {
		switch {
		case c.sub.Mode == 1:
			w.fail("once-end", "client %d: the ONCE call does not end\n%s", c.id, show(c.req))
		case c.sub.Mode == 2 && c.sub.EOF:
			w.fail("once-end", "client %d: the POLL call does not end after the client closed its side\n%s", c.id, show(c.req))
		}
	}
	// Timeouts.
	if w.prof == "stall" {
		to := time.Duration(w.p.TimeoutMs) * time.Millisecond
		for _, m := range c.msgs {
			if !m.stalled || (cancelled && c.cancelAt <= m.at+to) {
				continue
			}
			switch {
			case m.overlong && (!c.done || c.err == nil):
				w.fail("timeout", "client %d: a Send was blocked longer than the timeout of %v; ended=%v error=%v\n%s", c.id, to, c.done, c.err, show(c.req))
			case m.overlong && c.retAt > m.at+to+time.Millisecond:
				w.fail("timeout", "client %d: a Send blocked at %v; the call ended at %v, timeout %v", c.id, m.at, c.retAt, to)
			case m.overlong && c.retAt < m.at+to:
				w.fail("timeout", "client %d: a Send blocked at %v; the call ended early, at %v, timeout %v", c.id, m.at, c.retAt, to)
			case m.overlong:
				s.Probe("timed_out")
			}
		}
		w.backlog(c)
	}
	if c.invalid {
		return
	}
	// Sync responses, snapshots and values.
	round := 0
	from := c.call
	var have map[string]bool
	checked := true
	for _, m := range c.msgs {
		if have == nil {
			have = map[string]bool{}
		}
		if m.sync {
			switch {
			case c.sub.Mode != 2 && round > 0:
				w.fail("sync", "client %d received a second sync response\n%s", c.id, show(c.req))
			case c.sub.Mode == 2 && round > len(c.trigAt):
				w.fail("poll", "client %d received %d sync responses for %d polls\n%s", c.id, round+1, len(c.trigAt), show(c.req))
			}
			if c.sub.UO && c.sub.Mode == 0 {
				if m != c.msgs[0] {
					w.fail("sync", "client %d (updates_only) received data before the sync response\n%s", c.id, show(c.req))
				}
			} else if !c.sub.UO && !w.p.Shared {
				for _, k := range w.certain(c, from, m.call) {
					if !have[k] {
						w.fail("snapshot", "client %d: %s matched during the whole of the call and was not sent before the sync response (round %d)\n%s", c.id, gen.Show(k), round, show(c.req))
					}
				}
				s.Probe("snapshot_checked")
				s.NonTrivial()
			}
			round++
			if round-1 < len(c.trigAt) {
				from = c.trigAt[round-1]
			}
			have = nil
			continue
		}
		if c.sub.Mode != 0 && round > 0 && (c.sub.Mode == 1 || round > len(c.trigAt)) {
			w.fail("sync", "client %d received data after the sync response: %s", c.id, show(m.n))
		}
		t := targetIndex(m.n.GetPrefix().GetTarget())
		if len(m.n.GetUpdate()) == 0 || t >= w.p.Targets {
			continue
		}
		have[hcache.TargetName(t)+"\x1f"+m.key] = true
		if c.sub.Mode != 0 && !c.matches(t, m.key) {
			w.fail("never-matched", "client %d received %s, which none of its paths matches: %s\n%s", c.id, gen.Show(m.key), show(m.n), show(c.req))
		}
		if !w.p.Shared && !strings.HasPrefix(m.key, "meta") {
			a := from
			if c.sub.Mode == 0 {
				a = c.call
			}
			if l := gen.LeafOf(m.n); !w.held(t, m.key, l, a, m.call) {
				w.fail("value", "client %d received %s %s = %v, which the leaf did not hold during the call (round %d)\n%s", c.id, hcache.TargetName(t), gen.Show(m.key), l, round, show(c.req))
			}
		}
	}
	if !checked || early || (c.done && c.sub.Mode == 0) {
		return
	}
	switch {
	case c.inSend:
	case c.sub.Mode == 1 && round != 1, c.sub.Mode == 0 && round != 1:
		w.fail("sync", "client %d received %d sync responses\n%s", c.id, round, show(c.req))
	case c.sub.Mode == 2 && round != 1+len(c.sub.Polls):
		w.fail("poll", "client %d received %d sync responses for %d polls\n%s", c.id, round, len(c.sub.Polls), show(c.req))
	case c.sub.Mode == 2:
		s.Count("probe:poll_rounds", round)
	}
}

// backlog: while one Send is blocked at most one entry per leaf piles up.
func (w *world) backlog(c *client) {
	if c.sub.Mode != 0 {
		return
	}
	for i, m := range c.msgs {
		if !m.stalled {
			continue
		}
		to := min(m.feedAtUntil, len(w.feed))
		for _, e := range w.feed[min(m.feedAtCall, to):to] {
			if len(e.n.GetUpdate()) == 0 || e.to == 0 || e.to > m.ret {
				continue
			}
			k := leafKey(e)
			idx := gen.Unkey(k)[1:]
			allowed := 1
			next := int64(1) << 60
			for j, f := range w.feed {
				if f.target != e.target {
					continue
				}
				if len(f.n.GetUpdate()) > 0 {
					if (j >= to || f.to == 0 || f.to > m.ret) && leafKey(f) == k && f.from < next {
						next = f.from
					}
					continue
				}
				for _, d := range f.n.GetDelete() {
					if gen.Compatible(gen.FullIndex(f.n.GetPrefix(), d), idx) {
						allowed++
					}
				}
			}
			got := 0
			for _, x := range c.msgs[i+1:] {
				if x.n != nil && len(x.n.GetUpdate()) > 0 && x.call < next && x.n.GetPrefix().GetTarget()+"\x1f"+x.key == k {
					got++
				}
			}
			w.s.Probe("backlog_checked")
			if got > allowed {
				w.fail("backlog", "client %d: while a Send was blocked, %s was announced repeatedly; the backlog held %d entries for it\n%s", c.id, gen.Show(k), got, show(c.req))
			}
		}
	}
}
