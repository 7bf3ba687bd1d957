// Package hconn simulates many users of connection.Manager over a few addresses
// with scripted dials (C16).
package hconn

import (
	"context"
	"errors"
	"fmt"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/credentials/insecure"

	"github.com/openconfig/gnmi/connection"
	"github.com/openconfig/gnmi/zzsim/sim"
)

// Req is one request for a connection and its release.
type Req struct {
	Pause  int64 `json:"pause_us,omitempty"`
	Addr   int   `json:"a"`
	Dialer int   `json:"d,omitempty"` // 0 default, 1 custom, 2 unknown
	// Ctx: 0 background, 1 already cancelled, 2 deadline after CtxUs, 3 cancelled after CtxUs
	Ctx   int   `json:"ctx,omitempty"`
	CtxUs int64 `json:"ctx_us,omitempty"`
	Hold  int64 `json:"hold_us,omitempty"`
	// Rel: 0 at the end of the run, 1 once, 2 twice in a row, 3 twice at once,
	// 4 once, and again at the end of the run
	Rel int `json:"rel"`
}

// Dial is what one dial of an address does.
type Dial struct {
	Us     int64 `json:"us,omitempty"`
	Err    bool  `json:"err,omitempty"`
	Honour bool  `json:"honour,omitempty"` // gives up when the context ends
}

type Plan struct {
	Actors [][]Req  `json:"actors"`
	Dials  [][]Dial `json:"dials"` // per address; past the end: immediate success
}

var H = &sim.Harness{Name: "conn", Gen: gen, New: func() any { return &Plan{} }, Exec: exec, Steps: 500, MaxStep: 1000000, Skip: true}

func gen(r *sim.Rand, t sim.Tier) any {
	p := &Plan{}
	addrs := sim.Pick(r, 1, 1, 1, 2, 3)
	na := r.Range(2, 5)
	max := r.Range(1, 4)
	if t == sim.Thorough {
		na, max = r.Range(2, 9), r.Range(1, 10)
	}
	timed := r.P(60)
	us := func() int64 {
		if !timed || r.P(30) {
			return 0
		}
		return int64(r.Range(1, 12))
	}
	for i := 0; i < na; i++ {
		var rs []Req
		for j, n := 0, r.Range(1, max); j < n; j++ {
			q := Req{Addr: r.Intn(addrs), Pause: us(), Hold: us(), Rel: sim.Pick(r, 0, 1, 1, 1, 1, 1, 2, 3, 4)}
			if r.P(20) {
				q.Dialer = sim.Pick(r, 1, 1, 2)
			}
			if r.P(25) {
				q.Ctx = r.Range(1, 3)
				q.CtxUs = int64(r.Range(0, 12))
			}
			rs = append(rs, q)
		}
		p.Actors = append(p.Actors, rs)
	}
	bad := sim.Pick(r, 0, 25, 50, 80)
	for a := 0; a < addrs; a++ {
		var ds []Dial
		for i, n := 0, r.Range(0, 6); i < n; i++ {
			ds = append(ds, Dial{Us: us(), Err: r.P(bad), Honour: r.P(60)})
		}
		p.Dials = append(p.Dials, ds)
	}
	return p
}

type dial struct {
	addr       int
	start, end int64
	cc         *grpc.ClientConn
	err        error
	done       bool
}

type holder struct {
	addr      int
	from      int64 // the request returned
	cc        *grpc.ClientConn
	releasing bool
	inRelease int
	released  bool
}

type request struct {
	*Req
	call, ret int64
}

type world struct {
	s        *sim.Run
	p        *Plan
	dials    []*dial
	next     []int
	holders  []*holder
	reqs     []*request
	inFlight []int // requests per address
}

func addrName(a int) string { return fmt.Sprintf("passthrough:///addr%d", a) }

func exec(s *sim.Run, pl any) {
	p := pl.(*Plan)
	w := &world{s: s, p: p, next: make([]int, 16), inFlight: make([]int, 16)}
	for _, rs := range p.Actors {
		for _, q := range rs {
			if q.Addr < 0 || q.Addr >= 16 {
				return
			}
		}
	}
	m, err := connection.NewManagerCustom(map[string]connection.Dial{
		connection.DEFAULT: w.dial,
		"custom":           w.dial,
	}, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		s.Fail("setup", "NewManagerCustom: %v", err)
		return
	}
	s.Cleanup(func() {
		for _, d := range w.dials {
			if d.cc != nil {
				d.cc.Close()
			}
		}
	})
	var last []func()
	for i := range p.Actors {
		i := i
		s.Go(func() {
			for j := range p.Actors[i] {
				if s.Failed() {
					return
				}
				w.request(m, &p.Actors[i][j], &last)
			}
		})
	}
	s.Join() // a request that never returns is a deadlock, which the engine reports
	if s.Failed() {
		return
	}
	s.Atomic(w.held)
	for _, f := range last {
		f()
	}
	if sim.RaceEnabled {
		return
	}
	s.Atomic(func() {
		for a := range w.next {
			w.forgotten(a)
		}
	})
	if s.Failed() {
		return
	}
	// The next request dials afresh.
	s.Calm()
	for a := 0; a < len(p.Dials) && a < len(w.next); a++ {
		n := len(w.dials)
		w.next[a] = len(p.Dials[a])
		w.request(m, &Req{Addr: a, Rel: 1}, &last)
		if got := len(w.dials) - n; got != 1 {
			s.Fail("afresh", "everything was released; the next request for address %d made %d dials", a, got)
		}
	}
}

func (w *world) dial(ctx context.Context, target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	s := w.s
	a := -1
	if _, err := fmt.Sscanf(target, "passthrough:///addr%d", &a); err != nil || a < 0 || a >= 16 {
		s.Fail("dial", "dialled %q", target)
		return nil, errors.New("no such address")
	}
	if sim.RaceEnabled {
		n := w.next[a]
		_ = n
		return w.raceDial(ctx, a, opts)
	}
	for _, d := range w.dials {
		if d.addr == a && !d.done {
			s.Fail("two-dials", "a dial of address %d starts while another one is in flight", a)
		}
	}
	for _, h := range w.holders {
		if h.addr == a && !h.releasing {
			s.Fail("redial", "address %d is dialled while a holder of its connection has not released it", a)
		}
	}
	d := &dial{addr: a, start: s.Seq()}
	w.dials = append(w.dials, d)
	st := Dial{}
	if w.next[a] < len(w.p.Dials[a]) {
		st = w.p.Dials[a][w.next[a]]
	}
	w.next[a]++
	s.Logf("dial %d starts: %+v", a, st)
	s.Y()
	err := w.wait(ctx, st)
	s.Y()
	if err == nil {
		d.cc, err = grpc.NewClient(target, opts...)
	}
	d.err = err
	d.done, d.end = true, s.Seq()
	s.Logf("dial %d ends: %v", a, err)
	return d.cc, err
}

func (w *world) wait(ctx context.Context, st Dial) error {
	if st.Us > 0 {
		t := time.NewTimer(time.Duration(st.Us) * time.Microsecond)
		defer t.Stop()
		if st.Honour {
			select {
			case <-t.C:
			case <-ctx.Done():
			}
		} else {
			<-t.C
		}
	}
	if st.Honour && ctx.Err() != nil {
		w.s.Fault("dial_cancelled")
		return ctx.Err()
	}
	if st.Err {
		w.s.Fault("dial_refused")
		return fmt.Errorf("refused at %d", w.s.Seq())
	}
	return nil
}

func (w *world) raceDial(ctx context.Context, a int, opts []grpc.DialOption) (*grpc.ClientConn, error) {
	st := Dial{}
	if len(w.p.Dials) > a && len(w.p.Dials[a]) > 0 {
		st = w.p.Dials[a][int(w.s.Seq())%len(w.p.Dials[a])]
	}
	if err := w.wait(ctx, st); err != nil {
		return nil, err
	}
	return grpc.NewClient(addrName(a), opts...)
}

// held: no connection is closed while somebody holds it.
func (w *world) held() {
	for _, h := range w.holders {
		if !h.releasing && h.cc.GetState() == connectivity.Shutdown {
			w.s.Fail("closed-early", "the connection of address %d is closed while a holder has not released it", h.addr)
		}
	}
}

// forgotten: without holders and requests every connection is closed.
func (w *world) forgotten(a int) {
	if w.inFlight[a] > 0 {
		return
	}
	for _, h := range w.holders {
		if h.addr == a && !h.released {
			return
		}
	}
	for _, d := range w.dials {
		if d.addr == a && d.cc != nil {
			w.s.Probe("last_release_checked")
			if d.cc.GetState() != connectivity.Shutdown {
				w.s.Fail("leak", "nobody holds or awaits a connection of address %d and one is still open", a)
			}
		}
	}
}

func (w *world) request(m *connection.Manager, q *Req, last *[]func()) {
	s := w.s
	time.Sleep(time.Duration(q.Pause) * time.Microsecond)
	ctx := context.Background()
	cancel := func() {}
	switch q.Ctx {
	case 1:
		ctx, cancel = context.WithCancel(ctx)
		cancel()
	case 2:
		ctx, cancel = context.WithTimeout(ctx, time.Duration(q.CtxUs)*time.Microsecond)
	case 3:
		ctx, cancel = context.WithCancel(ctx)
		c := cancel
		go func() {
			time.Sleep(time.Duration(q.CtxUs) * time.Microsecond)
			c()
		}()
	}
	defer cancel()
	if sim.RaceEnabled {
		_, done, err := m.Connection(ctx, addrName(q.Addr), []string{"", "custom", "none"}[q.Dialer%3])
		time.Sleep(time.Duration(q.Hold) * time.Microsecond)
		if err == nil {
			s.NonTrivial()
		}
		go done()
		done()
		return
	}
	r := &request{Req: q, call: s.Seq()}
	w.reqs = append(w.reqs, r)
	w.inFlight[q.Addr]++
	// Holders from before the call.
	var before []*holder
	for _, h := range w.holders {
		if h.addr == q.Addr && !h.releasing {
			before = append(before, h)
		}
	}
	if w.inFlight[q.Addr] > 1 {
		s.Probe("concurrent_requests")
	}
	ctxAtCall := ctx.Err()
	cc, done, err := m.Connection(ctx, addrName(q.Addr), []string{"", "custom", "none"}[q.Dialer%3])
	r.ret = s.Seq()
	s.Logf("request for %d returns %v", q.Addr, err)
	if done == nil {
		s.Fail("done", "the release function of a request for address %d is nil (error %v)", q.Addr, err)
		return
	}
	var h *holder
	s.Atomic(func() {
		w.inFlight[q.Addr]--
		if err == nil && cc == nil {
			s.Fail("outcome", "a request for address %d returned neither a connection nor an error", q.Addr)
			return
		}
		if err != nil {
			w.failed(r, err, ctx, ctxAtCall, before)
		} else {
			h = w.got(r, cc)
		}
		w.held()
		w.forgotten(q.Addr)
	})
	if s.Failed() {
		return
	}
	time.Sleep(time.Duration(q.Hold) * time.Microsecond)
	s.Y()
	s.Atomic(w.held)
	rel := func() {
		if h == nil {
			done()
			s.Probe("release_after_failure")
			s.Atomic(w.held)
			return
		}
		if h.releasing {
			s.Probe("released_twice")
		}
		h.releasing = true
		h.inRelease++
		s.Logf("release %d", q.Addr)
		done()
		h.inRelease--
		h.released = h.inRelease == 0
		s.Atomic(func() {
			w.held()
			w.forgotten(q.Addr)
		})
	}
	switch q.Rel {
	case 1:
		rel()
	case 2:
		rel()
		rel()
	case 3:
		fin := make(chan struct{})
		go func() {
			rel()
			close(fin)
		}()
		rel()
		<-fin
	case 4:
		rel()
		*last = append(*last, rel)
	default:
		*last = append(*last, rel)
	}
}

// failed judges a request that returned an error.
func (w *world) failed(r *request, err error, ctx context.Context, ctxAtCall error, before []*holder) {
	s := w.s
	if ctxErr := ctx.Err(); ctxErr != nil && errors.Is(err, ctxErr) {
		return
	}
	for _, h := range before {
		if !h.releasing && ctxAtCall == nil {
			s.Fail("not-shared", "address %d was connected and held during the whole request, which failed with %v", r.Addr, err)
		}
	}
	for _, d := range w.dials {
		if d.addr != r.Addr || d.start > r.ret || d.err == nil || !errors.Is(err, d.err) {
			continue
		}
		// In flight until everyone who waited for it has its outcome.
		pending := d.end >= r.call
		for _, o := range w.reqs {
			pending = pending || (o != r && o.Addr == r.Addr && o.call <= d.end && (o.ret == 0 || o.ret >= r.call))
		}
		if pending {
			s.NonTrivial()
			return
		}
	}
	for _, o := range w.reqs {
		if o.Addr == r.Addr && o.Dialer%3 == 2 && (o.ret == 0 || o.ret >= r.call) {
			return
		}
	}
	s.Fail("outcome", "a request for address %d failed with %q, which is not the outcome of a dial that was in flight during the request", r.Addr, err)
}

func (w *world) got(r *request, cc *grpc.ClientConn) *holder {
	s := w.s
	h := &holder{addr: r.Addr, from: s.Seq(), cc: cc}
	var of *dial
	for _, d := range w.dials {
		if d.cc == cc {
			of = d
		}
	}
	switch {
	case of == nil || of.addr != r.Addr:
		s.Fail("outcome", "a request for address %d was given a connection of another address", r.Addr)
	case cc.GetState() == connectivity.Shutdown:
		s.Fail("closed-early", "a request for address %d was given a closed connection", r.Addr)
	}
	for _, o := range w.holders {
		if o.addr == r.Addr && !o.releasing {
			s.NonTrivial()
			s.Probe("shared")
			if o.cc != cc {
				s.Fail("not-shared", "two holders of address %d have different connections", r.Addr)
			}
		}
	}
	w.holders = append(w.holders, h)
	return h
}
