package hsub

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"weak"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zzsim/h/gen"
	"github.com/openconfig/gnmi/zzsim/h/hcache"
	"github.com/openconfig/gnmi/zzsim/sim"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// owner lists, per class of failure, the profiles whose property it breaks.
var owner = map[string]string{
	"sync":           "stream once",     // number and place of the sync responses
	"snapshot":       "stream once acl", // leaf missing before the sync
	"converge":       "stream acl stall",
	"never-matched":  "once stream filter",
	"value":          "once stream",
	"once-end":       "once",
	"poll":           "once",
	"offered":        "filter stall", // responses and duplicate counts against the feed
	"leak":           "filter",
	"acl":            "acl",
	"blocked":        "stall",
	"timeout":        "stall",
	"ended":          "stream stall acl",
	"backlog":        "stall",
	"remove-end":     "life",
	"remove-unknown": "life",
	"cross-target":   "life acl",
	"return":         "stream once filter acl stall life",
	"send":           "stream once stall",
}

type feedEvent struct {
	from, to int64 // event sequence numbers around the callback
	target   string
	n        *pb.Notification
	leaf     *ctree.Leaf
}

// state is the content of one target after an operation of its only writer.
type state struct {
	from, settled int64
	leaves        map[string]*gen.Leaf // without metadata
	within        map[string][]*gen.Leaf
	exists        bool
}

type world struct {
	s    *sim.Run
	p    *Plan
	prof string
	c    *cache.Cache
	srv  *subscribe.Server
	feed []*feedEvent
	hist [][]*state // per target, only with one writer per target
	subs []*client
	b    *hcache.Builder
	// removed counts completed removals per target.
	removed []removal
	stop    atomic.Bool
	ticks   int64
	addMu   sync.Mutex
}

type removal struct {
	t        int
	from, to int64
}

func execFor(prof string) func(*sim.Run, any) {
	return func(s *sim.Run, pl any) { (&world{s: s, p: pl.(*Plan), prof: prof}).run() }
}

func (w *world) fail(class, format string, a ...any) {
	o, ok := owner[class]
	if !ok {
		panic("no owner for " + class)
	}
	for _, p := range strings.Fields(o) {
		if p == w.prof {
			w.s.Fail(class, format, a...)
		}
	}
}

type acl struct{ w *world }

type rpcACL struct {
	allowed int
	pad     *[64]byte
}

type callerKey struct{}

func (a *acl) NewRPCACL(ctx context.Context) (subscribe.RPCACL, error) {
	cl := ctx.Value(callerKey{}).(*client)
	if a.w.p.ACL != nil {
		if a.w.p.ACL.Fail&(1<<cl.sub.Caller) != 0 {
			return nil, errors.New("unknown caller")
		}
	}
	r := &rpcACL{allowed: a.w.allowed(cl.sub.Caller), pad: new([64]byte)}
	if a.w.p.GC {
		cl.weak = weak.Make(r)
	}
	return r, nil
}

func (a *acl) Check(user, target string) bool { return true }

func (r *rpcACL) Check(target string) bool { return r.allowed&(1<<targetIndex(target)) != 0 }

func targetIndex(name string) int {
	i := 0
	if _, err := fmt.Sscanf(name, "t%d", &i); err != nil {
		return 30
	}
	return i
}

func (w *world) allowed(caller int) int {
	if w.p.ACL == nil || caller >= len(w.p.ACL.Allowed) {
		return 1<<31 - 1
	}
	return w.p.ACL.Allowed[caller]
}

// client is one Subscribe call and its in-memory stream.
type client struct {
	w       *world
	id      int
	sub     *Sub
	req     *pb.SubscribeRequest
	pats    [][]string // full index patterns
	invalid bool       // the paths combine origins in a way the server may refuse
	nilPath bool

	ctx      context.Context
	cancel   context.CancelFunc
	returned chan struct{} // closed when Subscribe returned
	trig     chan struct{}
	eof      chan struct{}
	syncs    chan struct{}
	script   atomic.Bool // the client's scripted actions are done

	recvN, sendN int
	inSend       bool
	msgs         []*msg
	call, ret    int64
	err          error
	done         bool
	retAt        time.Duration
	cancelled    int64 // sequence number of the disconnect
	cancelAt     time.Duration
	failed       bool // a Send was made to fail
	trigAt       []int64
	weak         weak.Pointer[rpcACL]
	// where the stream was last seen idle
	based              bool
	baseFeed, baseMsgs int
}

// msg is one Send.
type msg struct {
	call, ret   int64
	at, until   time.Duration
	sync        bool
	n           *pb.Notification
	key         string
	ok          bool
	stalled     bool
	overlong    bool
	feedAtCall  int
	feedAtUntil int
}

func (c *client) SetHeader(metadata.MD) error  { return nil }
func (c *client) SendHeader(metadata.MD) error { return nil }
func (c *client) SetTrailer(metadata.MD)       {}
func (c *client) Context() context.Context     { return c.ctx }
func (c *client) RecvMsg(any) error            { return errors.New("unused") }
func (c *client) SendMsg(any) error            { return errors.New("unused") }

func (c *client) Recv() (*pb.SubscribeRequest, error) {
	c.recvN++
	if c.recvN == 1 {
		return c.req, nil
	}
	select {
	case <-c.trig:
		return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}}, nil
	case <-c.eof:
		return nil, io.EOF
	case <-c.ctx.Done():
		return nil, status.FromContextError(c.ctx.Err()).Err()
	case <-c.returned:
		return nil, status.Error(codes.Canceled, "the call has ended")
	}
}

func (c *client) Send(r *pb.SubscribeResponse) error {
	s := c.w.s
	if sim.RaceEnabled {
		return c.sendRace(r)
	}
	if c.inSend {
		c.w.fail("send", "client %d: Send called while another Send of the stream is in progress", c.id)
	}
	c.inSend = true
	defer func() { c.inSend = false }()
	c.sendN++
	m := &msg{call: s.Seq(), at: s.Now(), sync: r.GetSyncResponse(), feedAtCall: len(c.w.feed)}
	if u := r.GetUpdate(); u != nil {
		m.n = proto.Clone(u).(*pb.Notification)
		s.Logf("client %d <- %s", c.id, show(m.n))
	} else {
		s.Logf("client %d <- sync=%v", c.id, m.sync)
	}
	c.check(m, r)
	c.msgs = append(c.msgs, m)
	if m.n != nil && len(m.n.GetUpdate()) > 0 {
		if m.n.GetAtomic() {
			m.key = gen.Key(gen.FullIndex(m.n.GetPrefix(), nil))
		} else {
			m.key = gen.Key(gen.FullIndex(m.n.GetPrefix(), m.n.GetUpdate()[0].GetPath()))
		}
	}
	defer func() { m.ret, m.until, m.feedAtUntil = s.Seq(), s.Now(), len(c.w.feed) }()
	if c.sendN == c.sub.FailAt {
		s.Fault("send_error")
		c.failed = true
		return status.Error(codes.Unavailable, "transport is closing")
	}
	s.Y()
	if err := c.gone(); err != nil {
		return err
	}
	for _, st := range c.sub.Stalls {
		if st.N == c.sendN && st.Us > 0 {
			s.Fault("slow_client")
			m.stalled = true
			d := time.Duration(st.Us) * time.Microsecond
			m.overlong = d > time.Duration(c.w.p.TimeoutMs)*time.Millisecond
			if m.overlong {
				s.Fault("stalled_client")
			}
			t := time.NewTimer(d)
			select {
			case <-t.C:
			case <-c.ctx.Done():
			case <-c.returned:
			}
			t.Stop()
			if err := c.gone(); err != nil {
				return err
			}
			break
		}
	}
	m.ok = true
	if m.sync {
		select {
		case c.syncs <- struct{}{}:
		default:
		}
	}
	return nil
}

func (c *client) sendRace(r *pb.SubscribeResponse) error {
	proto.Clone(r)
	if r.GetSyncResponse() {
		select {
		case c.syncs <- struct{}{}:
		default:
		}
	}
	return c.gone()
}

// gone is what a transport reports once the call is over.
func (c *client) gone() error {
	select {
	case <-c.ctx.Done():
		return status.FromContextError(c.ctx.Err()).Err()
	case <-c.returned:
		return status.Error(codes.Canceled, "the call has ended")
	default:
		return nil
	}
}

func show(m proto.Message) string { return strings.Join(strings.Fields(fmt.Sprint(m)), " ") }

// check judges one response on its own.
func (c *client) check(m *msg, r *pb.SubscribeResponse) {
	w := c.w
	if m.n == nil {
		if !m.sync {
			w.fail("never-matched", "client %d received an empty response", c.id)
		}
		return
	}
	t := m.n.GetPrefix().GetTarget()
	if c.sub.T >= 0 && t != hcache.TargetName(c.sub.T) {
		w.fail("cross-target", "client %d, subscribed to %s, received a response for target %q: %s", c.id, hcache.TargetName(c.sub.T), t, show(m.n))
		w.fail("never-matched", "client %d, subscribed to %s, received a response for target %q: %s", c.id, hcache.TargetName(c.sub.T), t, show(m.n))
	}
	if w.p.ACL != nil {
		if w.p.ACL.Fail&(1<<c.sub.Caller) != 0 {
			w.fail("acl", "client %d could not be authorised and received %s", c.id, show(m.n))
		} else if i := targetIndex(t); w.allowed(c.sub.Caller)&(1<<i) == 0 {
			w.fail("acl", "client %d received data for target %q, which it is not authorised for: %s", c.id, t, show(m.n))
		} else {
			w.s.Count("probe:authorised_response", 1)
		}
	}
	if c.sub.Mode != 0 {
		if len(m.n.GetDelete()) > 0 || len(m.n.GetUpdate()) == 0 {
			w.fail("never-matched", "client %d (ONCE or POLL) received %s", c.id, show(m.n))
		}
		return
	}
	if !c.offered(m.n) && !c.handle(m.n) {
		w.fail("never-matched", "client %d received a notification that agrees with none of its paths: %s", c.id, show(m.n))
	}
}

// offered is the streaming relation: some path of the notification agrees with
// some path of the subscription on every element both have.
func (c *client) offered(n *pb.Notification) bool {
	if c.sub.T >= 0 && n.GetPrefix().GetTarget() != hcache.TargetName(c.sub.T) {
		return false
	}
	one := func(p *pb.Path) bool {
		x := gen.FullIndex(n.GetPrefix(), p)
		for _, q := range c.pats {
			if gen.Compatible(q, x) {
				return true
			}
		}
		return false
	}
	for _, u := range n.GetUpdate() {
		if one(u.GetPath()) {
			return true
		}
	}
	for _, d := range n.GetDelete() {
		if one(d) {
			return true
		}
	}
	return false
}

// handle: the notification is what a stored leaf holds when it is sent, and the
// leaf itself got into the stream rightly: its path matches, or an earlier
// announcement of it agreed with a path.
func (c *client) handle(n *pb.Notification) bool {
	if len(n.GetUpdate()) == 0 {
		return false
	}
	k := leafKey(&feedEvent{target: n.GetPrefix().GetTarget(), n: n})
	if c.matches(targetIndex(n.GetPrefix().GetTarget()), gen.Key(gen.Unkey(k)[1:])) {
		return true
	}
	for _, e := range c.w.feed {
		if len(e.n.GetUpdate()) > 0 && leafKey(e) == k && c.offered(e.n) {
			return true
		}
	}
	return false
}

// matches is the query relation for a stored leaf.
func (c *client) matches(t int, key string) bool {
	if c.sub.T >= 0 && c.sub.T != t {
		return false
	}
	for _, q := range c.pats {
		if gen.Match(q, gen.Unkey(key)) {
			return true
		}
	}
	return false
}

func (w *world) newClient(sub *Sub) *client {
	c := &client{w: w, id: len(w.subs), sub: sub, returned: make(chan struct{}), trig: make(chan struct{}, 1), eof: make(chan struct{}), syncs: make(chan struct{}, 1)}
	name := "*"
	if sub.T >= 0 {
		name = hcache.TargetName(sub.T)
	}
	pre := &pb.Path{Target: name, Origin: sub.Origin}
	gen.SetElems(pre, sub.Pre, sub.PreDep)
	sl := &pb.SubscriptionList{Prefix: pre, UpdatesOnly: sub.UO}
	switch sub.Mode {
	case 1:
		sl.Mode = pb.SubscriptionList_ONCE
	case 2:
		sl.Mode = pb.SubscriptionList_POLL
	default:
		sl.Mode = pb.SubscriptionList_STREAM
	}
	for _, sp := range sub.Paths {
		if sp.Nil {
			c.nilPath = true
			sl.Subscription = append(sl.Subscription, &pb.Subscription{})
			c.pats = append(c.pats, gen.FullIndex(pre, nil))
			continue
		}
		p := &pb.Path{Origin: sp.O}
		gen.SetElems(p, sp.E, sp.Dep)
		sl.Subscription = append(sl.Subscription, &pb.Subscription{Path: p})
		if sp.O != "" && (sub.Origin != "" || len(sub.Pre) > 0) {
			c.invalid = true
			continue
		}
		c.pats = append(c.pats, gen.FullIndex(pre, p))
	}
	c.req = &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: sl}}
	ctx := peer.NewContext(context.Background(), &peer.Peer{Addr: &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1000 + c.id}})
	ctx = context.WithValue(ctx, callerKey{}, c)
	c.ctx, c.cancel = context.WithCancel(ctx)
	w.subs = append(w.subs, c)
	return c
}

// start runs the call and the client's script.
func (c *client) start() {
	w, s := c.w, c.w.s
	s.Go(func() {
		time.Sleep(time.Duration(c.sub.AtUs) * time.Microsecond)
		fin := make(chan struct{})
		go func() {
			c.call = s.Seq()
			if !sim.RaceEnabled {
				s.Logf("client %d subscribes: %s", c.id, show(c.req))
			}
			s.Y()
			err := w.srv.Subscribe(c)
			if !sim.RaceEnabled {
				c.err, c.ret, c.retAt, c.done = err, s.Seq(), s.Now(), true
				s.Logf("client %d: Subscribe returned %v", c.id, err)
			}
			close(c.returned)
			close(fin)
		}()
		if c.sub.Cancel > 0 {
			go func() {
				t := time.NewTimer(time.Duration(c.sub.Cancel) * time.Microsecond)
				defer t.Stop()
				select {
				case <-t.C:
					if !sim.RaceEnabled && !c.done {
						s.Fault("client_disconnect")
						c.cancelled, c.cancelAt = s.Seq(), s.Now()
						s.Logf("client %d disconnects", c.id)
					}
					c.cancel()
				case <-fin:
				}
			}()
		}
		defer c.script.Store(true)
		if c.sub.Mode != 2 {
			return
		}
		for i := 0; ; i++ {
			select {
			case <-c.syncs:
			case <-fin:
				return
			}
			if i >= len(c.sub.Polls) {
				break
			}
			time.Sleep(time.Duration(c.sub.Polls[i]) * time.Microsecond)
			if !sim.RaceEnabled {
				c.trigAt = append(c.trigAt, s.Seq())
				s.Logf("client %d polls", c.id)
			}
			c.trig <- struct{}{}
		}
		if c.sub.EOF {
			close(c.eof)
		}
	})
}

func (w *world) run() {
	s, p := w.s, w.p
	if p.Targets < 1 || p.Targets > 6 || p.TimeoutMs < 1 {
		return
	}
	if p.ACL != nil && len(p.ACL.Allowed) == 0 {
		return
	}
	hcache.FreshRegistries()
	cache.Now = w.clock
	var copts []cache.Option
	if p.NoEvent {
		copts = append(copts, cache.DisableEventDrivenEmulation())
	}
	var names []string
	for i := 0; i < p.Targets; i++ {
		names = append(names, hcache.TargetName(i))
	}
	w.c = cache.New(names, copts...)
	opts := []subscribe.Option{subscribe.WithTimeout(time.Duration(p.TimeoutMs) * time.Millisecond)}
	if p.Stats {
		opts = append(opts, subscribe.WithStats())
	}
	if p.NoDup {
		opts = append(opts, subscribe.WithoutDupReport())
	}
	if p.ACL != nil || p.GC {
		opts = append(opts, subscribe.WithACL(&acl{w}))
	}
	srv, err := subscribe.NewServer(w.c, opts...)
	if err != nil {
		w.fail("return", "NewServer: %v", err)
		return
	}
	w.srv = srv
	if sim.RaceEnabled {
		w.c.SetClient(srv.Update)
	} else {
		w.c.SetClient(w.onFeed)
	}
	w.b = hcache.NewBuilder()
	w.hist = make([][]*state, p.Targets)
	for i := range w.hist {
		w.hist[i] = []*state{{exists: true}}
	}
	if p.RefreshMs > 0 {
		go func() {
			for !w.stop.Load() {
				time.Sleep(time.Duration(p.RefreshMs) * time.Millisecond)
				w.c.UpdateMetadata()
				s.Count("refreshes", 1)
			}
		}()
	}
	for i := range p.Phases {
		if s.Failed() {
			break
		}
		if !w.phase(i) {
			return
		}
	}
	if !s.Failed() {
		w.finish()
	}
	w.stop.Store(true)
	for _, c := range w.subs {
		c.cancel()
	}
}

//go:norace
func (w *world) clock() time.Time {
	w.ticks++
	return time.Now().Round(0).Add(time.Duration(w.ticks))
}

func (w *world) phase(i int) bool {
	s, p := w.s, w.p
	ph := &p.Phases[i]
	if !sim.RaceEnabled {
		s.Logf("phase %d", i)
	}
	for k := range ph.Subs {
		sub := &ph.Subs[k]
		if sub.T < -1 || sub.T > p.Targets || (p.ACL != nil && sub.Caller >= len(p.ACL.Allowed)) {
			continue
		}
		w.newClient(sub).start()
	}
	seen := map[int]bool{}
	for k := range ph.Writers {
		for _, op := range ph.Writers[k] {
			if op.T < 0 || op.T >= p.Targets {
				return false
			}
		}
		if len(ph.Writers[k]) > 0 {
			if t := ph.Writers[k][0].T; seen[t] && !p.Shared {
				continue
			} else {
				seen[t] = true
			}
		}
		k := k
		s.Go(func() {
			var prev *pb.Notification
			for j := range ph.Writers[k] {
				if s.Failed() {
					return
				}
				op := &ph.Writers[k][j]
				if op.T != ph.Writers[k][0].T {
					continue
				}
				if op.Kind != "burst" {
					w.do(op, &prev)
					continue
				}
				for n := int64(1); op.N != nil && n <= min(op.Us, 400) && !s.Failed(); n++ {
					one := *op.N
					one.TS += n
					one.Ups = append([]hcache.Up(nil), one.Ups...)
					for u := range one.Ups {
						one.Ups[u].V += int(n & 1)
					}
					w.do(&hcache.Op{Kind: "noti", T: op.T, N: &one}, &prev)
				}
				s.Count("probe:burst", 1)
			}
		})
	}
	s.Join()
	s.Quiesce()
	if sim.RaceEnabled {
		return true
	}
	s.Atomic(func() { w.judge(i) })
	return true
}

// settled: the stream is up, has synced, and no Send is blocked.
func (c *client) settled() bool {
	if c.done || c.inSend || c.cancelled > 0 {
		return false
	}
	for _, m := range c.msgs {
		if m.sync && m.ok {
			return true
		}
	}
	return false
}

func (w *world) finish() {
	s := w.s
	// Let stalls, timeouts and scripted disconnects pass, then judge what remains.
	s.Calm()
	time.Sleep(20 * time.Millisecond)
	w.stop.Store(true)
	time.Sleep(time.Duration(w.p.TimeoutMs)*time.Millisecond + 2*time.Second)
	s.Quiesce()
	if sim.RaceEnabled {
		w.stop.Store(true)
		for _, c := range w.subs {
			c.cancel()
		}
		time.Sleep(time.Second)
		return
	}
	s.Atomic(func() {
		w.judge(-1)
		for _, c := range w.subs {
			w.judgeCall(c)
		}
	})
	if s.Failed() {
		return
	}
	// Every call returns once its client disconnects.
	for _, c := range w.subs {
		if !c.done {
			c.cancelled, c.cancelAt = s.Seq(), s.Now()
			c.cancel()
		}
	}
	s.Quiesce()
	time.Sleep(time.Millisecond)
	for _, c := range w.subs {
		if !c.done {
			w.fail("return", "client %d disconnected and its Subscribe call has not returned:\n%s", c.id, show(c.req))
		}
	}
	if w.p.GC && !s.Failed() {
		w.gc()
	}
}

// gc looks for subscriptions that are still registered after their call ended:
// the registration keeps the call's authorisation object alive.
func (w *world) gc() {
	ids := make([]int, 0, len(w.subs))
	var ptrs []weak.Pointer[rpcACL]
	for _, c := range w.subs {
		if c.done && c.weak != (weak.Pointer[rpcACL]{}) {
			ids = append(ids, c.id)
			ptrs = append(ptrs, c.weak)
		}
	}
	w.s.Quiesce()
	runtime.GC()
	for i, p := range ptrs {
		w.s.Probe("registration_checked")
		if p.Value() != nil {
			w.fail("leak", "client %d: the call has ended and its registration is still offered updates (its state is still reachable)", ids[i])
		}
	}
}

func (w *world) onFeed(l *ctree.Leaf) {
	s := w.s
	n, ok := l.Value().(*pb.Notification)
	if !ok {
		w.srv.Update(l)
		return
	}
	e := &feedEvent{from: s.Seq(), target: n.GetPrefix().GetTarget(), n: proto.Clone(n).(*pb.Notification), leaf: l}
	w.feed = append(w.feed, e)
	s.Logf("feed %s", show(e.n))
	t0 := s.Now()
	w.srv.Update(l)
	e.to = s.Seq()
	if w.prof == "stall" && s.Now() != t0 {
		w.fail("blocked", "announcing an update took %v of simulated time", s.Now()-t0)
	}
}

// do performs one operation of a writer.
func (w *world) do(op *hcache.Op, prev **pb.Notification) {
	s := w.s
	name := hcache.TargetName(op.T)
	if !sim.RaceEnabled {
		s.Y()
	}
	t0 := s.Now()
	from := s.Seq()
	within := map[string][]*gen.Leaf{}
	switch op.Kind {
	case "sleep":
		time.Sleep(time.Duration(op.Us) * time.Microsecond)
		return
	case "sleep1":
		time.Sleep(time.Millisecond)
		return
	case "noti":
		var n *pb.Notification
		switch {
		case op.Again:
			if *prev == nil {
				return
			}
			n = proto.Clone(*prev).(*pb.Notification)
		case op.N == nil:
			return
		default:
			n = w.b.Noti(name, op.N)
		}
		if !hcache.Valid(n) {
			return
		}
		*prev = n
		if !sim.RaceEnabled {
			for _, u := range n.GetUpdate() {
				if n.GetAtomic() {
					k := gen.Key(gen.FullIndex(n.GetPrefix(), nil))
					within[k] = append(within[k], gen.LeafOf(n))
					break
				}
				k := gen.Key(gen.FullIndex(n.GetPrefix(), u.GetPath()))
				within[k] = append(within[k], &gen.Leaf{TS: n.GetTimestamp(), Ups: []gen.Upd{{Val: u.GetVal()}}})
			}
			s.Logf("%s <- %s", name, show(n))
			n = proto.Clone(n).(*pb.Notification)
		}
		w.c.GnmiUpdate(n)
	case "sync":
		w.c.Sync(name)
	case "connect":
		w.c.Connect(name)
	case "connerr":
		w.c.ConnectError(name, errors.New("refused"))
	case "reset":
		s.Logf("reset %s", name)
		s.Fault("target_reset")
		w.c.Reset(name)
	case "remove":
		s.Logf("remove %s", name)
		s.Fault("target_remove")
		w.c.Remove(name)
	case "add":
		// A target is added only if it is not there: nobody adds it in between.
		w.addMu.Lock()
		defer w.addMu.Unlock()
		if w.c.HasTarget(name) {
			return
		}
		s.Logf("add %s", name)
		w.c.Add(name)
	default:
		return
	}
	if sim.RaceEnabled {
		s.NonTrivial()
		return
	}
	to := s.Seq()
	if w.prof == "stall" && s.Now() != t0 {
		w.fail("blocked", "%s on %s took %v of simulated time", op.Kind, name, s.Now()-t0)
	}
	if op.Kind == "remove" {
		w.removed = append(w.removed, removal{op.T, from, to})
	}
	s.Y()
	if w.p.Shared {
		return
	}
	st := &state{from: from, settled: to, within: within}
	st.leaves, st.exists = w.read(op.T)
	w.hist[op.T] = append(w.hist[op.T], st)
}

// read returns the non-metadata content of a target.
func (w *world) read(t int) (map[string]*gen.Leaf, bool) {
	out := map[string]*gen.Leaf{}
	err := w.c.Query(hcache.TargetName(t), nil, func(p []string, _ *ctree.Leaf, v any) error {
		if n, ok := v.(*pb.Notification); ok && len(p) > 0 && p[0] != "meta" {
			out[gen.Key(p)] = gen.LeafOf(n)
		}
		return nil
	})
	return out, err == nil
}

// readAll includes the metadata leaves.
func (w *world) readAll(t int) map[string]*gen.Leaf {
	out := map[string]*gen.Leaf{}
	w.c.Query(hcache.TargetName(t), nil, func(p []string, _ *ctree.Leaf, v any) error {
		if n, ok := v.(*pb.Notification); ok {
			out[gen.Key(p)] = gen.LeafOf(n)
		}
		return nil
	})
	return out
}

// certain lists the leaves that matched c during the whole of [a,b].
func (w *world) certain(c *client, a, b int64) []string {
	var out []string
	for t := 0; t < w.p.Targets; t++ {
		if (c.sub.T >= 0 && c.sub.T != t) || w.allowed(c.sub.Caller)&(1<<t) == 0 {
			continue
		}
		var keys map[string]int
		n := 0
		h := w.hist[t]
		for i, st := range h {
			end := int64(1) << 60
			if i+1 < len(h) {
				end = h[i+1].settled
			}
			if end < a || st.from > b {
				continue
			}
			n++
			if keys == nil {
				keys = map[string]int{}
			}
			for k := range st.leaves {
				keys[k]++
			}
		}
		for _, k := range sim.SortedKeys(keys) {
			if keys[k] == n && c.matches(t, k) {
				out = append(out, hcache.TargetName(t)+"\x1f"+k)
			}
		}
	}
	return out
}

// held: the leaf had this content at some moment of [a,b].
func (w *world) held(t int, key string, l *gen.Leaf, a, b int64) bool {
	h := w.hist[t]
	for i, st := range h {
		end := int64(1) << 60
		if i+1 < len(h) {
			end = h[i+1].settled
		}
		if end < a || st.from > b {
			continue
		}
		if v := st.leaves[key]; v != nil && v.SameContent(l) {
			return true
		}
		for _, v := range st.within[key] {
			if v.SameContent(l) {
				return true
			}
		}
	}
	return false
}
