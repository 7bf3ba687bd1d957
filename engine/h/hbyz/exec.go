package hbyz

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/cli"
	"github.com/openconfig/gnmi/client"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	"github.com/openconfig/gnmi/connection"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/manager"
	gpb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zzsim/h/gen"
	"github.com/openconfig/gnmi/zzsim/h/hcache"
	"github.com/openconfig/gnmi/zzsim/h/pipe"
	"github.com/openconfig/gnmi/zzsim/sim"
)

func init() { client.ResetRegisteredImpls() }

const us = time.Microsecond

func show(m proto.Message) string { return strings.Join(strings.Fields(fmt.Sprint(m)), " ") }

// Elements may be empty here, so that every one carries its separator.
func key(p []string) string {
	k := ""
	for _, e := range p {
		k += "\x1f" + e
	}
	return k
}

func unkey(k string) []string { return strings.Split(k, "\x1f")[1:] }

func shown(k string) string { return fmt.Sprintf("%q", unkey(k)) }

type world struct {
	s        *sim.Run
	p        *Plan
	c        *cache.Cache
	srv      *subscribe.Server
	handlers int
	rejected int
}

// leaves is what a target holds besides metadata: encoded notifications by path.
func (w *world) leaves(name string) map[string]string {
	out := map[string]string{}
	if w.c.GetTarget(name) == nil {
		return out
	}
	w.c.Query(name, nil, func(p []string, _ *ctree.Leaf, v interface{}) error {
		if len(p) > 0 && p[0] == "meta" {
			return nil
		}
		n, ok := v.(*gpb.Notification)
		if !ok {
			w.s.Fail("stored", "target %s path %q holds a %T", name, p, v)
			return nil
		}
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(n)
		if err != nil {
			b = []byte(err.Error())
		}
		out[key(p)] = string(b)
		return nil
	})
	return out
}

// spared reports whether n leaves alone the leaf at k.
func spared(n *gpb.Notification, k string) bool {
	l := unkey(k)
	if n.GetAtomic() || len(n.GetUpdate())+len(n.GetDelete()) == 1 && len(n.GetUpdate()) == 1 {
		return true // all or nothing
	}
	for _, u := range n.GetUpdate() {
		if key(gen.FullIndex(n.GetPrefix(), u.GetPath())) == k {
			return false
		}
	}
	for _, d := range n.GetDelete() {
		if gen.Match(gen.FullIndex(n.GetPrefix(), d), l) {
			return false
		}
	}
	return true
}

func (w *world) intact(what string, n *gpb.Notification, before, after map[string]string) {
	for _, k := range sim.SortedKeys(before) {
		if after[k] != before[k] && spared(n, k) {
			w.s.Fail("rejected-damage", "%s: the message was rejected and the leaf %s, which it does not address, changed\n%s", what, shown(k), show(n))
			return
		}
	}
	if n.GetAtomic() || len(n.GetUpdate())+len(n.GetDelete()) == 1 {
		for _, k := range sim.SortedKeys(after) {
			if _, ok := before[k]; !ok {
				w.s.Fail("rejected-damage", "%s: the message was rejected and the leaf %s appeared\n%s", what, shown(k), show(n))
				return
			}
		}
	}
}

func (w *world) op(a int, i int, op *Op) {
	s, p := w.s, w.p
	if op.T < 0 || op.T >= p.Targets || op.T%len(p.Actors) != a {
		return
	}
	name := tname(op.T)
	s.Y()
	switch op.K {
	case "noti":
		n := &gpb.Notification{}
		gen.Build(op.Msg, n)
		t := n.GetPrefix().GetTarget()
		for k := 0; k < p.Targets; k++ {
			if t == tname(k) && k%len(p.Actors) != a {
				return
			}
		}
		for k := range p.Sessions {
			if t == sname(k) {
				return
			}
		}
		s.Logf("actor %d op %d: %s", a, i, show(n))
		before := w.leaves(t)
		err := w.c.GnmiUpdate(n)
		s.Logf("actor %d op %d: %v", a, i, err)
		if err != nil {
			s.Probe("rejected")
			if len(before) > 0 {
				s.NonTrivial()
				s.Probe("rejected_with_data")
			}
			w.intact(fmt.Sprintf("actor %d op %d", a, i), n, before, w.leaves(t))
		} else {
			s.Probe("accepted")
		}
	case "meta":
		w.c.UpdateMetadata()
	case "size":
		w.c.UpdateSize()
	case "sync":
		w.c.Sync(name)
	case "connect":
		w.c.Connect(name)
	case "connerr":
		w.c.ConnectError(name, errors.New("refused"))
	case "reset":
		w.c.Reset(name)
	case "remove":
		w.c.Remove(name)
	case "add":
		if w.c.GetTarget(name) == nil {
			w.c.Add(name)
		}
	case "sleep":
		time.Sleep(time.Duration(op.Us) * us)
	}
}

func (w *world) serve(st gpb.GNMI_SubscribeServer) error {
	w.handlers++
	defer func() { w.handlers-- }()
	return w.srv.Subscribe(st)
}

func execServer(s *sim.Run, pl any) {
	w := &world{s: s, p: pl.(*Plan)}
	p := w.p
	if p.Targets < 1 || p.Targets > 6 || len(p.Actors) < 1 || p.Windows < 0 || p.Windows > 4 || p.MetaMs < 0 {
		return
	}
	hcache.FreshRegistries()
	var opts []cache.Option
	if p.FutureUs > 0 {
		opts = append(opts, cache.WithFutureThreshold(time.Duration(p.FutureUs)*us))
	}
	if p.NoEvent {
		opts = append(opts, cache.DisableEventDrivenEmulation())
	}
	if p.Server != "" {
		opts = append(opts, cache.WithServerName(p.Server))
	}
	if len(p.Excluded) > 0 {
		opts = append(opts, cache.WithExcludedMeta(p.Excluded))
	}
	if p.PrecUs > 0 {
		opts = append(opts, cache.WithAvgLatencyPrecision(time.Duration(p.PrecUs)*us))
	}
	if p.Windows > 0 {
		var ws []string
		for i := 1; i <= p.Windows; i++ {
			ws = append(ws, (time.Duration(i) * 2 * time.Millisecond).String())
		}
		o, err := cache.WithLatencyWindows(ws, 2*time.Millisecond)
		if err != nil {
			return
		}
		opts = append(opts, o)
	}
	var names []string
	for i := 0; i < p.Targets; i++ {
		names = append(names, tname(i))
	}
	for i := range p.Sessions {
		names = append(names, sname(i))
	}
	w.c = cache.New(names, opts...)
	sopts := []subscribe.Option{subscribe.WithTimeout(time.Second)}
	if p.Stats {
		sopts = append(sopts, subscribe.WithStats())
	}
	if p.NoDup {
		sopts = append(sopts, subscribe.WithoutDupReport())
	}
	w.srv, _ = subscribe.NewServer(w.c, sopts...)
	w.c.SetClient(w.srv.Update)
	stop := false
	if p.MetaMs > 0 {
		go func() {
			for !stop {
				time.Sleep(time.Duration(p.MetaMs) * time.Millisecond)
				w.c.UpdateMetadata()
				w.c.UpdateSize()
			}
		}()
	}
	for a := range p.Actors {
		a := a
		s.Go(func() {
			for i := range p.Actors[a] {
				if s.Failed() {
					return
				}
				w.op(a, i, &p.Actors[a][i])
			}
		})
	}
	for i := range p.Subs {
		i := i
		s.Go(func() { w.subscriber(i, &p.Subs[i]) })
	}
	mgr := w.sessions()
	s.Join()
	s.Calm()
	time.Sleep(10 * time.Millisecond)
	if s.Failed() {
		return
	}
	for i := range p.Sessions {
		mgr.Remove(sname(i))
	}
	stop = true
	w.c.UpdateMetadata()
	w.c.UpdateSize()
	s.Quiesce()
	if w.handlers != 0 {
		s.Fail("hang", "%d Subscribe calls have not returned although their clients are gone", w.handlers)
		return
	}
	w.probe(names)
}

// probe checks that the process still serves.
func (w *world) probe(names []string) {
	s := w.s
	for i := 0; i < w.p.Targets; i++ {
		if !w.c.HasTarget(tname(i)) {
			w.c.Add(tname(i))
		}
	}
	for _, name := range names {
		n := &gpb.Notification{Timestamp: time.Now().UnixNano(), Prefix: &gpb.Path{Target: name, Origin: "zz-probe"},
			Update: []*gpb.Update{{Path: &gpb.Path{Elem: []*gpb.PathElem{{Name: "p"}}}, Val: &gpb.TypedValue{Value: &gpb.TypedValue_IntVal{IntVal: 1}}}}}
		if err := w.c.GnmiUpdate(n); err != nil {
			s.Fail("service", "after the run target %s refuses an ordinary update: %v", name, err)
			return
		}
		got := 0
		w.c.Query(name, []string{"zz-probe", "p"}, func([]string, *ctree.Leaf, interface{}) error { got++; return nil })
		if got != 1 {
			s.Fail("service", "after the run target %s accepted an ordinary update and does not return it", name)
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		st := pipe.Open(ctx, w.serve, pipe.Opt{Cap: 4})
		st.SendMsg(&gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{Mode: gpb.SubscriptionList_ONCE,
			Prefix: &gpb.Path{Target: name}, Subscription: []*gpb.Subscription{{Path: &gpb.Path{Origin: "zz-probe"}}}}}})
		var us, sy int
		var last error
		for {
			r := &gpb.SubscribeResponse{}
			if last = st.RecvMsg(r); last != nil {
				break
			}
			if r.GetSyncResponse() {
				sy++
			} else {
				us++
			}
		}
		cancel()
		if us != 1 || sy != 1 || last != io.EOF {
			s.Fail("service", "after the run a ONCE subscription of target %s returned %d updates, %d syncs, then %v", name, us, sy, last)
			return
		}
	}
	s.Probe("still_serving")
}

func (w *world) subscriber(i int, sb *Sub) {
	s := w.s
	time.Sleep(time.Duration(sb.AtUs) * us)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sb.ForUs)*us)
	defer cancel()
	st := pipe.Open(ctx, w.serve, pipe.Opt{Cap: 2, Lag: time.Duration(sb.LagUs) * us, Cut: sb.Cut, Lost: func() { s.Fault("connection_cut") }})
	fin := make(chan struct{})
	go func() {
		defer close(fin)
		for {
			r := &gpb.SubscribeResponse{}
			if err := st.RecvMsg(r); err != nil {
				s.Logf("subscriber %d: %v", i, err)
				if err == io.EOF {
					s.Probe("call_ok")
				} else if c := status.Code(err); c != codes.Canceled && c != codes.DeadlineExceeded && c != codes.Unavailable {
					s.Probe("request_rejected")
				}
				return
			}
			s.Probe("responses")
		}
	}()
	for _, x := range sb.Reqs {
		m := &gpb.SubscribeRequest{}
		gen.Build(x, m)
		s.Logf("subscriber %d: %s", i, show(m))
		s.Probe("requests")
		s.NonTrivial()
		if st.SendMsg(m) != nil {
			break
		}
		time.Sleep(time.Duration(sb.GapUs) * us)
	}
	if sb.Half {
		st.CloseSend()
	}
	<-fin
}

// script is the handler of a target or server that sends prepared messages.
func script(s *sim.Run, who string, msgs []any, gap time.Duration, end int, st gpb.GNMI_SubscribeServer) error {
	for _, x := range msgs {
		if gap > 0 {
			time.Sleep(gap)
		}
		m := &gpb.SubscribeResponse{}
		gen.Build(x, m)
		s.Logf("%s sends: %s", who, show(m))
		if err := st.Send(m); err != nil {
			return err
		}
	}
	switch end {
	case 0:
		return nil
	case 1:
		s.Fault("stream_error")
		return status.Error(codes.Internal, "broken")
	}
	<-st.Context().Done()
	return st.Context().Err()
}

func (w *world) sessions() *manager.Manager {
	s, p := w.s, w.p
	if len(p.Sessions) == 0 {
		return nil
	}
	manager.RetryBaseDelay = time.Millisecond
	manager.RetryMaxDelay = 2 * time.Millisecond
	manager.RetryRandomization = 0.5
	handler := func(st gpb.GNMI_SubscribeServer) error {
		r, err := st.Recv()
		if err != nil {
			return err
		}
		for i := range p.Sessions {
			if r.GetSubscribe().GetPrefix().GetTarget() == sname(i) {
				ss := &p.Sessions[i]
				s.Probe("sessions")
				s.NonTrivial()
				return script(s, sname(i), ss.Msgs, time.Duration(ss.GapUs)*us, ss.End, st)
			}
		}
		return errors.New("unknown target")
	}
	cc := pipe.Conn(handler, func() pipe.Opt { return pipe.Opt{Cap: 2} })
	s.Cleanup(func() { cc.Close() })
	cm, err := connection.NewManagerCustom(map[string]connection.Dial{connection.DEFAULT: func(ctx context.Context, _ string, _ ...grpc.DialOption) (*grpc.ClientConn, error) {
		return pipe.Conn(handler, func() pipe.Opt { return pipe.Opt{Cap: 2} }), nil
	}}, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		s.Fail("setup", "%v", err)
		return nil
	}
	glue := map[string]bool{}
	for i := range p.Sessions {
		glue[sname(i)] = p.Sessions[i].Glue
	}
	mgr, err := manager.NewManager(manager.Config{
		Reset: w.c.Reset, Sync: w.c.Sync, Connect: w.c.Connect, ConnectError: w.c.ConnectError, ConnectionManager: cm,
		Timeout: time.Second, ReceiveTimeout: 5 * time.Millisecond,
		Update: func(name string, n *gpb.Notification) {
			if glue[name] { // as cmd/gnmi_collector does
				if pre := n.GetPrefix(); pre == nil {
					n.Prefix = &gpb.Path{Origin: "openconfig", Target: name}
				} else {
					if pre.Origin == "" {
						pre.Origin = "openconfig"
					}
					pre.Target = name
				}
			} else if t := n.GetPrefix().GetTarget(); t != "" && t != name {
				return
			}
			before := w.leaves(name)
			err := w.c.GnmiUpdate(n)
			s.Logf("%s: GnmiUpdate: %v", name, err)
			if err != nil && n.GetPrefix().GetTarget() == name {
				s.Probe("session_message_rejected")
				w.intact("session "+name, n, before, w.leaves(name))
			}
		},
	})
	if err != nil {
		s.Fail("setup", "%v", err)
		return nil
	}
	for i := range p.Sessions {
		i := i
		s.Go(func() {
			time.Sleep(time.Duration(p.Sessions[i].AtUs) * us)
			if err := mgr.Add(sname(i), &tpb.Target{Addresses: []string{sname(i)}}, &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{}}}); err != nil {
				s.Fail("setup", "%v", err)
			}
			time.Sleep(10 * time.Millisecond)
		})
	}
	return mgr
}

// ---- client side ----

// impl is the gNMI client implementation with its stream ended by Close.
type impl struct {
	*gclient.Client
	s      *sim.Run
	cancel func()
	view   *client.CacheClient
	last   *gpb.SubscribeResponse
}

func (c *impl) Subscribe(ctx context.Context, q client.Query) error {
	ctx, c.cancel = context.WithCancel(ctx)
	return c.Client.Subscribe(ctx, q)
}

func (c *impl) Close() error {
	if c.cancel != nil {
		c.cancel()
	}
	return c.Client.Close()
}

func (c *impl) leaves() map[string]string {
	out := map[string]string{}
	c.view.Query(nil, func(p []string, _ *ctree.Leaf, v interface{}) error {
		out[key(p)] = fmt.Sprintf("%v", v)
		return nil
	})
	return out
}

func (c *impl) Recv() error {
	if c.view == nil {
		return c.Client.Recv()
	}
	before := c.leaves()
	err := c.Client.Recv()
	n := c.last.GetUpdate()
	if err == nil || n == nil || err == io.EOF || err == client.ErrStopReading {
		return err
	}
	c.s.Probe("client_rejected")
	after := c.leaves()
	for _, k := range sim.SortedKeys(before) {
		l := unkey(k)
		hit := false
		for _, base := range bases(n.GetPrefix()) {
			for _, u := range n.GetUpdate() {
				hit = hit || key(append(append([]string(nil), base...), gen.PathIndex(u.GetPath())...)) == k
			}
			for _, d := range n.GetDelete() {
				hit = hit || gen.Match(append(append([]string(nil), base...), gen.PathIndex(d)...), l)
			}
		}
		if !hit && after[k] != before[k] {
			c.s.Fail("rejected-damage", "the client rejected a message (%v) and its leaf %s, which the message does not address, changed\n%s", err, shown(k), show(n))
			break
		}
	}
	return err
}

// bases are the index forms a client may give to a prefix.
func bases(p *gpb.Path) [][]string {
	var b []string
	if t := p.GetTarget(); t != "" {
		b = append(b, t)
	}
	idx := gen.PathIndex(p)
	out := [][]string{append(append([]string(nil), b...), idx...)}
	if o := p.GetOrigin(); o != "" {
		out = append(out, append(append(append([]string(nil), b...), o), idx...))
	}
	return out
}

func execClient(s *sim.Run, pl any) {
	p := pl.(*CPlan)
	var cur *View
	var curCache *client.CacheClient
	client.ResetRegisteredImpls()
	client.Register("pipe", func(ctx context.Context, d client.Destination) (client.Impl, error) {
		v, c := cur, &impl{s: s, view: curCache}
		conn := pipe.Conn(func(st gpb.GNMI_SubscribeServer) error {
			for i := 0; ; i++ {
				if _, err := st.Recv(); err != nil {
					return nil
				}
				s.Probe("requests")
				if i >= len(v.Chunks) {
					return nil
				}
				if i < len(v.Chunks)-1 {
					if err := script(s, "server", v.Chunks[i], time.Duration(v.GapUs)*us, 0, st); err != nil {
						return err
					}
					continue
				}
				return script(s, "server", v.Chunks[i], time.Duration(v.GapUs)*us, v.End, st)
			}
		}, func() pipe.Opt {
			return pipe.Opt{Cap: 2, Seen: func(m proto.Message) {
				c.last, _ = m.(*gpb.SubscribeResponse)
			}}
		})
		var err error
		c.Client, err = gclient.NewFromConn(ctx, conn, d)
		return c, err
	})
	for i := range p.Views {
		v := &p.Views[i]
		if s.Failed() {
			return
		}
		q := client.Query{Addrs: []string{"srv"}, Target: "t0", Timeout: time.Second, Queries: []client.Path{{"a"}, {"b", "*"}}}
		q.Type = []client.Type{client.Once, client.Poll, client.Stream}[((v.Type%3)+3)%3]
		if v.Req != nil {
			m := &gpb.SubscribeRequest{}
			gen.Build(v.Req, m)
			if q2, err := client.NewQuery(m); err == nil {
				t := q.Type
				q = q2
				q.Addrs, q.Timeout, q.Type = []string{"srv"}, time.Second, t
			}
		}
		cur, curCache = v, nil
		s.NonTrivial()
		start := s.Now()
		var err error
		if v.Kind == "cache" {
			curCache = client.New()
			ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
			got := 0
			q.NotificationHandler = func(n client.Notification) error { got++; return nil }
			err = curCache.Subscribe(ctx, q, "pipe")
			for k := 0; err == nil && q.Type == client.Poll && k < len(v.Chunks); k++ {
				err = curCache.Poll()
			}
			cancel()
			for _, l := range curCache.Leaves() {
				s.Logf("leaf %q %v", l.Path, l.Val)
			}
			curCache.Close()
			s.Count("notifications", got)
		} else {
			cfg := &cli.Config{PollingInterval: time.Millisecond, StreamingDuration: 50 * time.Millisecond, Count: uint(v.Count), Delimiter: "/", DisplayType: v.Display, DisplayIndent: "  ",
				DisplayPeer: v.Peer, Timestamp: v.TS, DisplaySize: v.Size, Latency: v.Latency, ClientTypes: []string{"pipe"}, Location: time.UTC, FilterDeletes: v.FDel, FilterUpdates: v.FUpd,
				Display: func(b []byte) { s.Logf("display: %s", b); s.Probe("displayed") }}
			err = cli.QueryDisplay(context.Background(), q, cfg)
		}
		s.Logf("view %d (%s %s) ended: %v", i, v.Kind, q.Type, err)
		if d := s.Now() - start; d > 100*time.Millisecond {
			s.Fail("hang", "the %s of a 50ms query returned after %v", v.Kind, d)
		}
	}
}
