package hclient

import (
	"context"
	"errors"
	"fmt"
	"io"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/client"
	fake "github.com/openconfig/gnmi/client/fake"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	gpb "github.com/openconfig/gnmi/proto/gnmi"
	_ "github.com/openconfig/gnmi/zzsim/h/gen"
	"github.com/openconfig/gnmi/zzsim/sim"
)

const us = time.Microsecond

// tok is one expected notification of a stream and the message it comes from.
type tok struct {
	text string
	msg  int
}

type world struct {
	s     *sim.Run
	p     *Plan
	skip  bool
	cl    client.Client
	recon bool

	next   []int // per type: next attempt of its script
	impls  int
	cur    *impl // the implementation whose Recv is running
	counts map[string]int
	wait   []*waiter
	final  bool

	// the call of Subscribe in progress
	sub       *subCall
	nsub      int
	state     string // last of: begin, S, E, D, R
	fails     int    // attempts ended in this client's life
	backoffAt time.Duration
	inBackoff bool

	closeCalled bool
	closeRet    bool // a Close has returned
	after       map[[2]int]bool
}

type waiter struct {
	on string
	n  int
	c  chan struct{}
}

type subCall struct {
	n         int
	ctx       context.Context
	newed     bool // an implementation was asked for
	ret       bool
	bySub     map[[2]int]bool // messages delivered after a Close that concerns this call
	mustEnd   bool
	deadline  time.Duration
	hasBound  bool
	delivered int
}

func (w *world) event(on string) {
	w.counts[on]++
	for _, x := range w.wait {
		if x.on == on && x.n == w.counts[on] && x.c != nil {
			close(x.c)
			x.c = nil
		}
	}
}

// spy sits between ReconnectClient and the client it wraps.
type spy struct {
	client.Client
	w *world
}

func (c *spy) Subscribe(ctx context.Context, q client.Query, types ...string) error {
	w := c.w
	w.step("S")
	w.s.Logf("attempt starts (ctx %v)", ctx.Err())
	err := c.Client.Subscribe(ctx, q, types...)
	w.s.Logf("attempt ended: %v", err)
	w.fails++
	w.step("E")
	w.event("end")
	return err
}

// step advances the automaton of callbacks: S E D (R S E D)*.
func (w *world) step(e string) {
	prev := map[string]string{"S": "beginR", "E": "S", "D": "E", "R": "D"}[e]
	if w.p.NoCB && e == "S" {
		prev = "beginE"
	}
	ok := false
	switch w.state {
	case "begin":
		ok = e == "S"
	default:
		for i := range prev {
			if prev[i:i+1] == w.state {
				ok = true
			}
		}
	}
	if !ok {
		name := map[string]string{"S": "an attempt starts", "E": "an attempt ends", "D": "the disconnect callback runs", "R": "the reset callback runs", "begin": "the call", "return": "the return"}
		w.s.Fail("callbacks", "%s directly after: %s", name[e], name[w.state])
	}
	w.state = e
}

func (w *world) interval() time.Duration {
	d := float64(w.p.BaseMs)
	for i := 1; i < w.fails && d < float64(w.p.MaxMs); i++ {
		d *= 1.5
	}
	if d > float64(w.p.MaxMs) {
		d = float64(w.p.MaxMs)
	}
	return time.Duration(d*1.5*float64(time.Millisecond)) + time.Millisecond
}

func (w *world) onDisconnect() {
	w.step("D")
	w.s.Logf("disconnect")
	w.event("disconnect")
	if w.p.Slow[1] > 0 {
		w.s.Fault("slow_callback")
		time.Sleep(time.Duration(w.p.Slow[1]) * us)
	}
	w.s.Y()
	w.inBackoff, w.backoffAt = true, w.s.Now()
	w.event("backoff")
}

func (w *world) onReset() {
	w.step("R")
	w.inBackoff = false
	w.s.Logf("reset")
	w.s.Probe("retries")
	if d := w.s.Now() - w.backoffAt; !w.skip && d > w.interval() {
		w.s.Fail("backoff", "the retry came %v after the disconnect callback returned; the interval after %d attempts is at most %v", d, w.fails, w.interval())
	}
	w.event("reset")
	if w.p.Slow[2] > 0 {
		time.Sleep(time.Duration(w.p.Slow[2]) * us)
	}
	w.s.Y()
	w.event("retry")
}

// slack bounds what the scripts and slow callbacks may add to the end of a call.
func (w *world) slack() time.Duration {
	var m int64
	for _, as := range w.p.Script {
		for _, a := range as {
			n := int64(2)
			for _, x := range a.Msgs {
				n += int64(x.U+x.D) + 1
			}
			v := a.NewUs + a.SubUs + n*w.p.Slow[0]
			if v > m {
				m = v
			}
		}
	}
	return time.Duration(m+2*w.p.Slow[0]+2*w.p.Slow[1]+2*w.p.Slow[2])*us + time.Millisecond
}

// bound is the time within which Close and a cancelled Subscribe must return.
func (w *world) bound() time.Duration {
	d := w.slack()
	if w.recon {
		// Wherever the client is now, it may have begun to wait by the time that
		// the cancellation takes effect.
		w.fails++
		d += w.interval()
		w.fails--
	}
	return d
}

// ending notes that the call of Subscribe in progress has to end.
func (w *world) ending(c *subCall) {
	if c != nil && !c.ret {
		d := w.s.Now() + w.bound()
		if !c.hasBound || d < c.deadline {
			c.hasBound, c.deadline = true, d
		}
		c.mustEnd = true
	}
}

func run(s *sim.Run, p *Plan, skip bool) {
	if p.BaseMs < 1 || p.MaxMs < p.BaseMs || p.MaxMs > 1e6 || len(p.Types) == 0 || len(p.Types) > 3 || len(p.Script) < len(p.Types) || len(p.Subs) == 0 || p.Wrap < 0 || p.Wrap > 3 {
		return
	}
	for _, b := range p.Subs {
		if b.Poll && p.Wrap >= 2 {
			return
		}
	}
	w := &world{s: s, p: p, skip: skip, counts: map[string]int{}, next: make([]int, len(p.Types)), recon: p.Wrap < 2, state: "begin"}
	client.RetryBaseDelay = time.Duration(p.BaseMs) * time.Millisecond
	client.RetryMaxDelay = time.Duration(p.MaxMs) * time.Millisecond
	client.RetryRandomization = 0.5
	client.ResetRegisteredImpls()
	var types []string
	for i := range p.Types {
		i := i
		n := fmt.Sprint("sim", i)
		types = append(types, n)
		client.RegisterTest(n, func(ctx context.Context, d client.Destination) (client.Impl, error) { return w.newImpl(ctx, i, d) })
	}
	var inner client.Client
	if p.Wrap%2 == 0 {
		inner = &client.BaseClient{}
	} else {
		inner = client.New()
	}
	w.cl = inner
	if w.recon {
		d, r := w.onDisconnect, w.onReset
		if p.NoCB {
			d, r = nil, nil
		}
		w.cl = client.Reconnect(&spy{inner, w}, d, r)
	}
	if w.recon {
		if err := w.cl.Subscribe(context.Background(), client.Query{Addrs: []string{"a"}, Type: client.Once, NotificationHandler: func(client.Notification) error { return nil }}, types...); err == nil {
			s.Fail("once", "ReconnectClient accepted a Once query")
		}
	}
	for i := range p.Closes {
		c := p.Closes[i]
		x := &waiter{on: c.On, n: c.N, c: make(chan struct{})}
		ch := x.c
		if c.On == "" {
			close(ch)
			x.c = nil
		}
		w.wait = append(w.wait, x)
		s.Go(func() {
			<-ch
			if c.Us > 0 {
				time.Sleep(time.Duration(c.Us) * us)
			}
			s.Y()
			if c.On != "" && !w.final {
				s.Probe("close_on_" + c.On)
			}
			w.close()
		})
	}
	subsDone := false
	s.Go(func() {
		for i, b := range p.Subs {
			if b.Pause > 0 {
				time.Sleep(time.Duration(b.Pause) * us)
			}
			w.subscribe(i, b, types)
		}
		subsDone = true
	})
	// Let every script run out.
	total := w.slack()
	for _, as := range p.Script {
		for _, a := range as {
			v := a.NewUs + a.SubUs + a.EndUs + p.Slow[1] + p.Slow[2]
			for _, m := range a.Msgs {
				v += m.Gap + int64(m.U+m.D+1)*p.Slow[0]
			}
			total += time.Duration(v)*us + time.Duration(p.MaxMs)*1500*us + time.Millisecond
		}
	}
	for _, b := range p.Subs {
		total += time.Duration(b.Pause+b.CtxUs)*us + time.Duration(p.MaxMs)*3000*us
	}
	for _, c := range p.Closes {
		total += time.Duration(c.Us) * us
	}
	time.Sleep(total)
	s.Calm()
	time.Sleep(total)
	s.Atomic(func() { w.settled() })
	if s.Failed() {
		return
	}
	// A closing call ends everything; before Subscribe is ever called it is too early for BaseClient.
	w.final = true
	for i := 0; i < 2+len(p.Subs); i++ {
		if !w.within(w.bound(), w.close) {
			s.Fail("close-hangs", "Close has not returned after %v; %s", w.bound(), w.describe())
			return
		}
		time.Sleep(w.slack())
		if subsDone {
			break
		}
		time.Sleep(total)
	}
	s.Quiesce()
	if !subsDone {
		s.Fail("subscribe-hangs", "the client was closed and Subscribe has not returned; %s", w.describe())
		return
	}
	for _, x := range w.wait {
		if x.c != nil {
			close(x.c)
			x.c = nil
		}
	}
	s.Join()
	if w.impls > 1 || len(p.Closes) > 0 {
		s.NonTrivial()
	}
}

func (w *world) within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	w.s.Go(func() { f(); close(done) })
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

func (w *world) describe() string {
	st := map[string]string{"begin": "no attempt made", "S": "in an attempt", "E": "an attempt ended", "D": "waiting to retry", "R": "about to retry"}[w.state]
	if !w.recon {
		st = "no reconnects"
	}
	return fmt.Sprintf("state: %s, %d implementations created", st, w.impls)
}

// settled judges a client that was left alone until all scripts had run out.
func (w *world) settled() {
	c := w.sub
	if c == nil || c.ret {
		return
	}
	if c.mustEnd {
		if w.s.Now() <= c.deadline {
			return
		}
		w.s.Fail("subscribe-hangs", "Subscribe was to end and has not; %s", w.describe())
		return
	}
	if !w.recon || w.p.Subs[c.n].Poll || w.p.HErr > 0 {
		return // a Poll query ends with its first sync and is repeated
	}
	l := w.cur
	if l == nil || w.state != "S" || (l.att != nil && l.att.End != 0) {
		w.s.Fail("no-retry", "the client was not closed, all scripted failures are over and it is not receiving; %s", w.describe())
		return
	}
	if l.att == nil && !w.p.Proto && l.got < 2 {
		w.s.Fail("no-retry", "the healthy stream delivered %d notifications of %d", l.got, len(l.exp))
	}
	w.s.Probe("settled_on_stream")
}

func (w *world) subscribe(i int, b Sub, types []string) {
	s := w.s
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c := &subCall{n: i, ctx: ctx, bySub: map[[2]int]bool{}}
	w.state = "begin"
	w.nsub++
	s.Logf("Subscribe %d", i)
	switch b.Ctx {
	case 1:
		cancel()
	case 2:
		s.Fault("context_cancel")
		s.Go(func() {
			time.Sleep(time.Duration(b.CtxUs) * us)
			if c.ret {
				return
			}
			s.Logf("context cancelled")
			s.Atomic(func() { w.ending(c); cancel() })
		})
	case 3:
		s.Fault("context_deadline")
		var cancel2 context.CancelFunc
		ctx, cancel2 = context.WithTimeout(ctx, time.Duration(b.CtxUs)*us)
		defer cancel2()
		c.ctx = ctx
		s.Go(func() {
			<-ctx.Done()
			s.Atomic(func() { w.ending(c) })
		})
	}
	q := client.Query{Addrs: []string{"a"}, Target: "dev", Type: client.Stream, Queries: []client.Path{{"a"}}}
	if b.Poll {
		q.Type = client.Poll
	}
	if w.p.Proto {
		q.ProtoHandler = w.onProto
	} else {
		q.NotificationHandler = w.onNotify
	}
	w.sub = c
	closed := w.closeCalled
	if w.recon && (closed || ctx.Err() != nil) {
		s.Probe("subscribe_after_close")
		w.ending(c)
	}
	w.event("subscribe")
	err := w.cl.Subscribe(ctx, q, types...)
	c.ret = true
	s.Logf("Subscribe %d returned %v", i, err)
	if w.recon {
		if w.state != "D" && !w.p.NoCB {
			s.Fail("callbacks", "Subscribe returned after %q, the disconnect callback has not run", w.state)
		}
		if ctx.Err() == nil && !w.closeCalled {
			s.Fail("gave-up", "Subscribe returned %v although the client was not closed", err)
		}
	}
	if c.hasBound && !w.skip && s.Now() > c.deadline {
		s.Fail("late-subscribe", "Subscribe returned %v later than allowed; %s", s.Now()-c.deadline, w.describe())
	}
	w.state = "begin"
}

func (w *world) close() {
	s := w.s
	c := w.sub
	w.closeCalled = true
	// BaseClient concerns the Subscribe that has begun connecting.
	concerns := c != nil && !c.ret && (w.recon || c.newed)
	var start, bound time.Duration
	s.Atomic(func() {
		start, bound = s.Now(), w.bound()
		s.Logf("Close; %s", w.describe())
		if w.recon {
			w.ending(w.sub)
		}
	})
	err := w.cl.Close()
	s.Logf("Close returned %v", err)
	if w.recon {
		w.closeRet = true
		if concerns && !c.ret {
			// Close waits for Subscribe, which the engine may show as returning later.
			s.Y()
		}
	}
	if d := s.Now() - start; !w.skip && d > bound {
		s.Fail("late-close", "Close took %v, allowed %v; %s", d, bound, w.describe())
	}
	if errors.Is(err, client.ErrClientInit) && !w.recon {
		s.Probe("close_before_init")
		return
	}
	if concerns && !c.ret {
		s.Atomic(func() {
			if !w.recon {
				w.ending(c)
			}
			if c.mustEnd {
				c.delivered = 1 // from here on deliveries count
			}
		})
	}
}

// notified judges one callback of the application.
func (w *world) notified(text string) {
	s := w.s
	im := w.cur
	w.event("notify")
	if im == nil {
		s.Fail("stray", "%s was delivered outside of any Recv", text)
		return
	}
	if im.got >= len(im.exp) || im.exp[im.got].text != text {
		want := "nothing more"
		if im.got < len(im.exp) {
			want = im.exp[im.got].text
		}
		s.Fail("order", "stream %d delivered %q, the next notification is %s", im.id, text, want)
		return
	}
	t := im.exp[im.got]
	im.got++
	s.Logf("  stream %d: %s", im.id, text)
	s.Count("notifications", 1)
	if c := w.sub; c != nil && c.delivered > 0 && t.msg >= 0 {
		c.bySub[[2]int{im.id, t.msg}] = true
		if len(c.bySub) > 1 {
			s.Fail("after-close", "Close has returned and notifications of %d further messages were delivered", len(c.bySub))
		}
		s.Probe("delivered_after_close")
	}
	if w.recon && w.closeRet {
		if w.after == nil {
			w.after = map[[2]int]bool{}
		}
		w.after[[2]int{im.id, t.msg}] = true
		if len(w.after) > 1 {
			s.Fail("after-close", "Close has returned and notifications of %d further messages were delivered", len(w.after))
		}
	}
}

func (w *world) slowHandler() error {
	if w.p.Slow[0] > 0 {
		w.s.Fault("slow_callback")
		time.Sleep(time.Duration(w.p.Slow[0]) * us)
	}
	w.s.Y()
	if w.p.HErr > 0 && w.counts["notify"]%w.p.HErr == 0 {
		w.s.Fault("handler_error")
		return errors.New("handler error")
	}
	return nil
}

func (w *world) onNotify(n client.Notification) error {
	var t string
	switch v := n.(type) {
	case client.Connected:
		t = "connected"
	case client.Sync:
		t = "sync"
	case client.Update:
		t = fmt.Sprintf("update %v", v.Path)
	case client.Delete:
		t = fmt.Sprintf("delete %v", v.Path)
	default:
		t = fmt.Sprintf("%T", n)
	}
	w.s.Atomic(func() { w.notified(t) })
	return w.slowHandler()
}

func (w *world) onProto(m proto.Message) error {
	t := protoText(m)
	w.s.Atomic(func() { w.notified(t) })
	return w.slowHandler()
}

func protoText(m proto.Message) string {
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	return fmt.Sprintf("%x", b)
}

// ---- implementations ----

type impl struct {
	client.Impl
	w      *world
	id     int
	typ    int
	att    *Attempt // nil: healthy
	exp    []tok
	got    int
	cancel func()
	gone   chan struct{} // the connection was closed
	closed bool
	st     *stream
}

func (w *world) newImpl(ctx context.Context, typ int, d client.Destination) (client.Impl, error) {
	s := w.s
	var a *Attempt
	if w.sub != nil {
		w.sub.newed = true
	}
	w.event("new")
	if w.next[typ] < len(w.p.Script[typ]) {
		a = &w.p.Script[typ][w.next[typ]]
		w.next[typ]++
	}
	s.Y()
	if a != nil && a.NewUs > 0 {
		s.Fault("slow_connect")
		tm := time.NewTimer(time.Duration(a.NewUs) * us)
		select {
		case <-tm.C:
		case <-ctx.Done():
		}
		tm.Stop()
	}
	if a != nil && a.NewErr {
		s.Fault("connect_refused")
		return nil, errors.New("connection refused")
	}
	if ctx.Err() != nil {
		return nil, ctx.Err()
	}
	im := &impl{w: w, id: w.impls, typ: typ, att: a, gone: make(chan struct{})}
	w.impls++
	if w.p.Types[typ] == 1 {
		var fctx context.Context
		fctx, im.cancel = context.WithCancel(ctx)
		im.Impl = &fake.Client{Context: fctx, Updates: im.fakeUpdates(fctx)}
		return im, nil
	}
	im.st = &stream{im: im, msgs: im.messages()}
	cc, err := grpc.NewClient("passthrough:///dev", grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithStreamInterceptor(func(ctx context.Context, _ *grpc.StreamDesc, _ *grpc.ClientConn, _ string, _ grpc.Streamer, _ ...grpc.CallOption) (grpc.ClientStream, error) {
			return im.st.open(ctx)
		}))
	if err != nil {
		return nil, err
	}
	im.Impl, err = gclient.NewFromConn(ctx, cc, d)
	return im, err
}

func (im *impl) Subscribe(ctx context.Context, q client.Query) error {
	im.w.event("open")
	if im.cancel != nil && im.att != nil && im.att.SubErr > 0 {
		im.w.s.Fault("open_error")
		return errors.New("subscribe failed")
	}
	return im.Impl.Subscribe(ctx, q)
}

func (im *impl) Recv() error {
	w := im.w
	if w.cur != nil {
		w.s.Fail("two-readers", "two streams are received from at once")
	}
	w.cur = im
	w.event("recv")
	w.s.Y()
	err := im.Impl.Recv()
	w.cur = nil
	return err
}

func (im *impl) Close() error {
	im.w.s.Logf("stream %d closed", im.id)
	if !im.closed {
		im.closed = true
		close(im.gone)
	}
	if im.cancel != nil {
		im.cancel()
	}
	return im.Impl.Close()
}

func (im *impl) path(m, i int, kind string) []string {
	return []string{kind, fmt.Sprintf("s%d", im.id), fmt.Sprintf("m%d", m), fmt.Sprint(i)}
}

// healthy is what a stream past the end of the script delivers.
var healthy = []Msg{{U: 1}, {Sync: true}, {U: 1, D: 1}}

func (im *impl) script() []Msg {
	if im.att == nil {
		return healthy
	}
	return im.att.Msgs
}

func gpath(p []string) *gpb.Path {
	g := &gpb.Path{}
	for _, e := range p {
		g.Elem = append(g.Elem, &gpb.PathElem{Name: e})
	}
	return g
}

// messages builds the responses of a gnmi stream and what must be delivered.
func (im *impl) messages() []*gpb.SubscribeResponse {
	var out []*gpb.SubscribeResponse
	if !im.w.p.Proto {
		im.exp = append(im.exp, tok{"connected", -1})
	}
	for m, x := range im.script() {
		r := &gpb.SubscribeResponse{}
		if x.Sync {
			r.Response = &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}
			im.expect("sync", m)
		} else {
			n := &gpb.Notification{Timestamp: int64(1 + m)}
			for i := 0; i < x.U; i++ {
				p := im.path(m, i, "u")
				n.Update = append(n.Update, &gpb.Update{Path: gpath(p), Val: &gpb.TypedValue{Value: &gpb.TypedValue_IntVal{IntVal: int64(i)}}})
				im.expect(fmt.Sprintf("update %v", p), m)
			}
			for i := 0; i < x.D; i++ {
				p := im.path(m, i, "d")
				n.Delete = append(n.Delete, gpath(p))
				im.expect(fmt.Sprintf("delete %v", p), m)
			}
			r.Response = &gpb.SubscribeResponse_Update{Update: n}
		}
		if im.w.p.Proto {
			im.exp = append(im.exp, tok{protoText(r), m})
		}
		out = append(out, r)
	}
	if im.att != nil && im.att.End == 3 {
		r := &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Error{Error: &gpb.Error{Message: "bad"}}}
		if im.w.p.Proto {
			im.exp = append(im.exp, tok{protoText(r), len(out)})
		}
		out = append(out, r)
	}
	return out
}

func (im *impl) expect(t string, m int) {
	if !im.w.p.Proto {
		im.exp = append(im.exp, tok{t, m})
	}
}

func (im *impl) fakeUpdates(ctx context.Context) []interface{} {
	var ups []interface{}
	w := im.w
	if !w.p.Proto {
		im.exp = append(im.exp, tok{"connected", -1})
	}
	n := 0
	var gaps []int64
	var blocks []fake.Block
	gap := func(d int64) {
		if d > 0 {
			b := make(fake.Block)
			ups = append(ups, b)
			blocks = append(blocks, b)
			gaps = append(gaps, d)
		}
	}
	put := func(v client.Notification, t string) {
		if w.p.Proto {
			r := &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: &gpb.Notification{Timestamp: int64(im.id*1000 + n)}}}
			ups = append(ups, r)
			im.exp = append(im.exp, tok{protoText(r), n})
		} else {
			ups = append(ups, v)
			im.exp = append(im.exp, tok{t, n})
		}
		n++
	}
	for m, x := range im.script() {
		gap(x.Gap)
		if x.Sync {
			put(client.Sync{}, "sync")
			continue
		}
		for i := 0; i < x.U; i++ {
			p := im.path(m, i, "u")
			put(client.Update{Path: p, TS: time.Unix(1, 0), Val: i}, fmt.Sprintf("update %v", p))
		}
		for i := 0; i < x.D; i++ {
			p := im.path(m, i, "d")
			put(client.Delete{Path: p, TS: time.Unix(1, 0)}, fmt.Sprintf("delete %v", p))
		}
	}
	end := 0
	if im.att != nil {
		end = im.att.End
		gap(im.att.EndUs)
	}
	switch end {
	case 0:
		ups = append(ups, make(fake.Block))
	case 1:
		ups = append(ups, errors.New("stream broke"))
	case 2:
		ups = append(ups, io.EOF)
	case 3:
		if !w.p.Proto {
			im.exp = append(im.exp, tok{"sync", n})
		}
	}
	if end > 0 {
		w.s.Fault("stream_end")
	}
	w.s.Go(func() {
		for i, b := range blocks {
			t := time.NewTimer(time.Duration(gaps[i]) * us)
			select {
			case <-t.C:
			case <-ctx.Done():
			}
			t.Stop()
			b.Unblock()
		}
	})
	return ups
}

// stream is a scripted gRPC stream.
type stream struct {
	im   *impl
	ctx  context.Context
	msgs []*gpb.SubscribeResponse
	idx  int
	late int
}

func (st *stream) open(ctx context.Context) (grpc.ClientStream, error) {
	w, a := st.im.w, st.im.att
	w.s.Y()
	if a != nil && a.SubUs > 0 {
		st.ctx = ctx
		st.pause(a.SubUs)
	}
	if a != nil && a.SubErr == 1 {
		w.s.Fault("open_error")
		return nil, status.Error(codes.Unavailable, "open failed")
	}
	if err := st.dead(ctx); err != nil {
		return nil, err
	}
	st.ctx = ctx
	if a != nil {
		st.late = a.Late
	}
	return st, nil
}

func (st *stream) dead(ctx context.Context) error {
	if ctx.Err() != nil {
		return status.FromContextError(ctx.Err()).Err()
	}
	if st.im.closed {
		return status.Error(codes.Canceled, "grpc: the client connection is closing")
	}
	return nil
}

func (st *stream) pause(d int64) {
	t := time.NewTimer(time.Duration(d) * us)
	defer t.Stop()
	select {
	case <-t.C:
	case <-st.ctx.Done():
	case <-st.im.gone:
	}
}

func (st *stream) Header() (metadata.MD, error) { return nil, nil }
func (st *stream) Trailer() metadata.MD         { return nil }
func (st *stream) CloseSend() error             { return nil }
func (st *stream) Context() context.Context     { return st.ctx }

func (st *stream) SendMsg(m any) error {
	st.im.w.s.Y()
	if a := st.im.att; a != nil && a.SubErr == 2 {
		st.im.w.s.Fault("send_error")
		return io.EOF
	}
	return nil
}

func (st *stream) RecvMsg(m any) error {
	w := st.im.w
	w.s.Y()
	a := st.im.att
	var d int64
	if a != nil && st.idx < len(a.Msgs) {
		d = a.Msgs[st.idx].Gap
	}
	if a != nil && st.idx == len(a.Msgs) {
		d = a.EndUs
	}
	if d > 0 && st.dead(st.ctx) == nil {
		st.pause(d)
	}
	if err := st.dead(st.ctx); err != nil {
		if st.late == 0 || st.idx >= len(st.msgs) {
			return err
		}
		st.late--
		w.s.Fault("message_after_cancel")
	}
	if st.idx < len(st.msgs) {
		proto.Reset(m.(proto.Message))
		proto.Merge(m.(proto.Message), st.msgs[st.idx])
		st.idx++
		return nil
	}
	end := 0
	if a != nil {
		end = a.End
	}
	switch end {
	case 0:
		select {
		case <-st.ctx.Done():
		case <-st.im.gone:
		}
		return st.dead(st.ctx)
	case 1:
		w.s.Fault("stream_error")
		return status.Error(codes.Unavailable, "stream broke")
	}
	w.s.Fault("end_of_stream")
	return io.EOF
}
