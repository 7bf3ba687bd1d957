package hmgr

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/connection"
	"github.com/openconfig/gnmi/manager"
	_ "github.com/openconfig/gnmi/zzsim/h/gen" // warms the protobuf runtime up
	"github.com/openconfig/gnmi/zzsim/sim"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
)

// stream is one stream opened to a target.
type stream struct {
	w    *world
	t    *target
	id   int
	ctx  context.Context
	s    *Session // nil: healthy for ever
	idx  int      // next message
	late int

	requested bool
	recvd     []*gpb.SubscribeResponse
	delivered int // messages whose callback was made or which have none
	connects  int
	resets    int
	recvs     int
	ended     bool // Recv returned an error
	broken    bool // opening or sending the request failed
	inRecv    bool
	recvSince time.Duration
}

type target struct {
	i       int
	name    string
	p       *Target
	pb      *tpb.Target
	managed bool // between the return of Add and the call of Remove
	silent  bool // Remove has returned and Add has not been called since
	adding  bool
	inCB    int
	nSess   int
	lookups int
	streams []*stream
	// attempts
	attempts   int
	busy       int // Connection calls in progress
	removals   int
	idleSince  time.Duration // the last attempt ended
	idle       bool          // an attempt has ended and none has started since
	timeout    time.Duration
	reconnects int
	silences   int // Recv calls that waited for the receive timeout
	removing   bool
	ended      int // streams ended
}

func (t *target) cur() *stream {
	if len(t.streams) == 0 {
		return nil
	}
	return t.streams[len(t.streams)-1]
}

type conn struct {
	cc      *grpc.ClientConn
	addr    string
	holders int
}

type world struct {
	s        *sim.Run
	p        *Plan
	prof     string
	skip     bool
	m        *manager.Manager
	cm       *connection.Manager
	targets  []*target
	byName   map[string]*target
	nextDial []int
	conns    []*conn
	healthy  bool
	ts       int64
	closing  bool
	slack    time.Duration // what slow callbacks and lags can add
}

func execFor(prof string, skip bool) func(*sim.Run, any) {
	return func(s *sim.Run, pl any) {
		(&world{s: s, p: pl.(*Plan), prof: prof, skip: skip, byName: map[string]*target{}}).run()
	}
}

// fail reports a broken property of this profile: C16 in mgr-conn, C13 otherwise.
func (w *world) fail(class, format string, a ...any) {
	if (class == "conn") == (w.prof == "mgr-conn") {
		w.s.Fail(class, format, a...)
	}
}

func name(i int) string { return fmt.Sprintf("dev%d", i) }
func addr(i int) string { return fmt.Sprintf("passthrough:///addr%d", i) }

func (w *world) run() {
	s, p := w.s, w.p
	if p.BaseMs < 1 || p.MaxMs < p.BaseMs || len(p.Targets) == 0 || len(p.Targets) > 16 || len(p.Dials) > 8 {
		return
	}
	for _, t := range p.Targets {
		if len(t.Addrs) == 0 {
			return
		}
		w.slack = max(w.slack, 4*time.Duration(t.SlowUs)*time.Microsecond)
		for _, ss := range t.Sessions {
			w.slack = max(w.slack, 4*time.Duration(ss.LagUs)*time.Microsecond)
		}
		for _, a := range t.Addrs {
			if a < 0 || a >= len(p.Dials) {
				return
			}
		}
	}
	manager.RetryBaseDelay = time.Duration(p.BaseMs) * time.Millisecond
	manager.RetryMaxDelay = time.Duration(p.MaxMs) * time.Millisecond
	manager.RetryRandomization = 0.5
	w.nextDial = make([]int, len(p.Dials))
	cm, err := connection.NewManagerCustom(map[string]connection.Dial{connection.DEFAULT: w.dial},
		grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithStreamInterceptor(w.open))
	if err != nil {
		s.Fail("setup", "%v", err)
		return
	}
	w.cm = cm
	w.m, err = manager.NewManager(manager.Config{
		Connect:           w.onConnect,
		Credentials:       w,
		Reset:             w.onReset,
		Sync:              w.onSync,
		Timeout:           time.Duration(p.DialUs) * time.Microsecond,
		ReceiveTimeout:    time.Duration(p.TimeoutUs) * time.Microsecond,
		Update:            w.onUpdate,
		ConnectionManager: w,
		ConnectError:      func(n string, err error) { w.onError("ConnectError", n, err) },
		MonitorError:      func(n string, err error) { w.onError("MonitorError", n, err) },
	})
	if err != nil {
		s.Fail("setup", "%v", err)
		return
	}
	for i := range p.Targets {
		tp := &p.Targets[i]
		t := &target{i: i, name: name(i), p: tp, pb: &tpb.Target{}, timeout: time.Duration(p.TimeoutUs) * time.Microsecond}
		for _, a := range tp.Addrs {
			t.pb.Addresses = append(t.pb.Addresses, addr(a))
		}
		if tp.Timeout > 0 {
			t.timeout = time.Duration(tp.Timeout) * time.Microsecond
			t.pb.Meta = map[string]string{"receive_timeout": t.timeout.String()}
		}
		switch tp.Cred {
		case 1:
			t.pb.Credentials = &tpb.Credentials{Username: "u", PasswordId: t.name}
		case 2:
			t.pb.Credentials = &tpb.Credentials{Username: "u", Password: "p"}
		}
		w.targets = append(w.targets, t)
		w.byName[t.name] = t
	}
	s.Cleanup(func() {
		for _, c := range w.conns {
			c.cc.Close()
		}
	})
	for i := range p.Actors {
		i := i
		s.Go(func() {
			for _, op := range p.Actors[i] {
				if s.Failed() {
					return
				}
				w.op(i, op)
			}
		})
	}
	s.Join()
	if s.Failed() {
		return
	}
	w.finish()
}

var request = &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{Subscription: []*gpb.Subscription{{Path: &gpb.Path{}}}}}}

func (w *world) op(actor int, op Op) {
	s := w.s
	if op.K == "sleep" {
		time.Sleep(time.Duration(op.Us) * time.Microsecond)
		return
	}
	if op.T < 0 || op.T >= len(w.targets) {
		return
	}
	t := w.targets[op.T]
	s.Y()
	if op.K == "reconnect" {
		w.reconnect(t)
		return
	}
	if op.T%len(w.p.Actors) != actor {
		return
	}
	switch op.K {
	case "add2", "remove2", "swap":
		w.pair(t, op.K)
	case "addbad":
		if w.m.Add("", t.pb, request) == nil || w.m.Add("x"+t.name, t.pb, nil) == nil || w.m.Add("y"+t.name, &tpb.Target{}, request) == nil {
			w.fail("admission", "Add accepted an empty name, a nil request or a target without addresses")
		}
	case "add":
		was := t.managed
		if !was {
			t.silent = false
			t.idle = false
			t.adding = true
			s.Logf("%s: Add", t.name)
		}
		err := w.m.Add(t.name, t.pb, request)
		t.adding = false
		if (err == nil) == was {
			w.fail("admission", "Add(%s) returned %v; it is already managed: %v", t.name, err, was)
		}
		t.managed = true
	case "remove":
		was := t.managed
		t.removing = true
		t.removals++
		s.Logf("%s: Remove", t.name)
		err := w.m.Remove(t.name)
		t.removing = false
		s.Logf("%s: Remove returned %v", t.name, err)
		if (err == nil) != was {
			w.fail("admission", "Remove(%s) returned %v; it is managed: %v", t.name, err, was)
		}
		t.managed = false
		if was {
			s.Atomic(func() { w.removed(t) })
		}
	}
}

// pair makes two calls for one target at the same time.
func (w *world) pair(t *target, k string) {
	s := w.s
	was := t.managed
	t.removing = k != "add2"
	if k != "remove2" {
		t.silent, t.idle, t.adding = false, false, true
	}
	if k != "add2" {
		t.removals++
	}
	s.Logf("%s: %s", t.name, k)
	var errs [2]error
	done := make(chan struct{}, 2)
	for i := range errs {
		i := i
		add := k == "add2" || k == "swap" && i == 0
		go func() {
			s.Y()
			if add {
				errs[i] = w.m.Add(t.name, t.pb, request)
			} else {
				errs[i] = w.m.Remove(t.name)
			}
			done <- struct{}{}
		}()
	}
	<-done
	<-done
	t.adding, t.removing = false, false
	s.Logf("%s: %s returned %v, %v", t.name, k, errs[0], errs[1])
	s.Probe("concurrent_" + k)
	ok := 0
	for _, err := range errs {
		if err == nil {
			ok++
		}
	}
	switch k {
	case "add2":
		if ok == 2 || (ok == 1) == was {
			w.fail("admission", "two concurrent Add(%s) returned %v and %v; it is already managed: %v", t.name, errs[0], errs[1], was)
		}
		t.managed = true
	case "remove2":
		if ok == 2 || (ok == 1) != was {
			w.fail("admission", "two concurrent Remove(%s) returned %v and %v; it is managed: %v", t.name, errs[0], errs[1], was)
		}
		t.managed = false
		if was {
			s.Atomic(func() { w.removed(t) })
		}
	case "swap":
		t.idle = false // whose attempt ended is not known
		// In either order: a managed target is removed, and added again by an
		// Add that came second; an unknown one is added, and removed again by a
		// Remove that came second.
		switch {
		case was && errs[1] != nil:
			w.fail("admission", "Remove(%s) of a managed target returned %v", t.name, errs[1])
		case !was && errs[0] != nil:
			w.fail("admission", "Add(%s) of an unknown target returned %v", t.name, errs[0])
		}
		t.managed = (ok == 2) == was
		if was && !t.managed || !was && ok == 2 {
			s.Atomic(func() { w.removed(t) })
		}
	}
}

// removed judges the state in which Remove leaves a target.
func (w *world) removed(t *target) {
	t.silent = true
	t.idle = false
	w.s.Probe("removed")
	if t.inCB > 0 {
		w.fail("silence", "%s: Remove returned while a callback for it is running", t.name)
	}
	for _, st := range t.streams {
		if st.requested && !st.broken && st.recvs > 0 && !st.ended {
			w.fail("silence", "%s: Remove returned and stream %d is still being received from", t.name, st.id)
		}
		if st.ended && st.resets != 1 {
			w.fail("reset", "%s: Remove returned; stream %d ended and was followed by %d Resets", t.name, st.id, st.resets)
		}
		if st.ended {
			w.s.Probe("removed_after_session")
		}
	}
}

func (w *world) reconnect(t *target) {
	s := w.s
	st := t.cur()
	up := st != nil && st.recvs > 0 && !st.ended && t.managed && !t.removing
	t.reconnects++
	gen := t.removals
	s.Logf("%s: Reconnect", t.name)
	err := w.m.Reconnect(t.name)
	if up && t.managed && !t.removing && t.removals == gen {
		s.Fault("forced_reconnect")
		if err != nil {
			w.fail("reconnect", "%s: Reconnect of a managed target returned %v", t.name, err)
		}
		if st.ctx.Err() == nil {
			w.fail("reconnect", "%s: Reconnect returned and stream %d was not ended", t.name, st.id)
		}
	}
}

// ---- seams ----

// Connection wraps the real connection manager.
func (w *world) Connection(ctx context.Context, a, dialer string) (*grpc.ClientConn, func(), error) {
	t := w.targetOf(ctx)
	if t == nil {
		w.fail("attempt", "a connection is requested without the target's metadata")
		return nil, func() {}, errors.New("unknown")
	}
	w.attempt(t, "connection")
	t.busy++
	cc, done, err := w.cm.Connection(ctx, a, dialer)
	t.busy--
	if err != nil {
		w.s.Logf("%s: no connection: %v", t.name, err)
		w.attemptEnd(t)
		return nil, done, err
	}
	c := w.connOf(cc)
	c.holders++
	if cc.GetState() == connectivity.Shutdown {
		w.fail("conn", "%s was given a closed connection", t.name)
	}
	var once bool
	return cc, func() {
		if !once {
			once = true
			c.holders--
			if !w.s.Failed() {
				w.checkConns()
			}
		}
		done()
	}, nil
}

func (w *world) connOf(cc *grpc.ClientConn) *conn {
	for _, c := range w.conns {
		if c.cc == cc {
			return c
		}
	}
	w.fail("conn", "a connection nobody dialled was handed out")
	return &conn{cc: cc}
}

func (w *world) checkConns() {
	for _, c := range w.conns {
		if c.holders > 0 && c.cc.GetState() == connectivity.Shutdown {
			w.fail("conn", "the connection to %s is closed while %d users hold it", c.addr, c.holders)
		}
	}
}

// Lookup implements the credentials client.
func (w *world) Lookup(ctx context.Context, key string) (string, error) {
	t := w.byName[key]
	w.attempt(t, "lookup")
	t.lookups++
	if !w.healthy && t.lookups <= 8 && t.p.CredFail&(1<<(t.lookups-1)) != 0 {
		w.s.Fault("credentials_error")
		w.attemptEnd(t)
		return "", errors.New("no such credential")
	}
	return "secret", nil
}

func (w *world) targetOf(ctx context.Context) *target {
	md, _ := metadata.FromOutgoingContext(ctx)
	if v := md.Get("target"); len(v) == 1 {
		return w.byName[v[0]]
	}
	return nil
}

func (w *world) maxGap() time.Duration {
	return time.Duration(w.p.MaxMs)*3*time.Millisecond/2 + 100*time.Millisecond + w.slack
}

// attempt: a new attempt to subscribe begins (or goes on).
func (w *world) attempt(t *target, what string) {
	s := w.s
	if t.silent && !t.adding {
		w.fail("silence", "%s: an attempt to connect was made after Remove had returned", t.name)
	}
	if !t.idle {
		return
	}
	if t.adding {
		t.idle = false
		return
	}
	gap := s.Now() - t.idleSince
	multi := len(t.p.Addrs) > 1
	if gap < time.Duration(w.p.BaseMs)*time.Millisecond/2 && !multi {
		w.fail("backoff", "%s: an attempt ended at %v and the next one began %v later; the smallest backoff is %v", t.name, t.idleSince, gap, time.Duration(w.p.BaseMs)*time.Millisecond/2)
	}
	if gap > w.maxGap() && !w.skip {
		w.fail("retry", "%s: an attempt ended at %v and the next one began %v later", t.name, t.idleSince, gap)
	}
	t.idle = false
	t.attempts++
	s.Count("probe:retries", 1)
}

func (w *world) attemptEnd(t *target) {
	t.idle = true
	t.idleSince = w.s.Now()
}

func (w *world) dial(ctx context.Context, a string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	s := w.s
	i := -1
	fmt.Sscanf(a, "passthrough:///addr%d", &i)
	if i < 0 || i >= len(w.nextDial) {
		w.fail("attempt", "dialled %q", a)
		return nil, errors.New("no such address")
	}
	for _, c := range w.conns {
		if c.addr == a && c.holders > 0 {
			w.fail("conn", "%s is dialled while its connection is held", a)
		}
	}
	d := Dial{}
	if !w.healthy && w.nextDial[i] < len(w.p.Dials[i]) {
		d = w.p.Dials[i][w.nextDial[i]]
		w.nextDial[i]++
	}
	s.Y()
	if d.Us > 0 {
		s.Fault("slow_dial")
		tm := time.NewTimer(time.Duration(d.Us) * time.Microsecond)
		if d.Honour {
			select {
			case <-tm.C:
			case <-ctx.Done():
			}
		} else {
			<-tm.C
		}
		tm.Stop()
	}
	if d.Honour && ctx.Err() != nil {
		return nil, ctx.Err()
	}
	if w.p.Outage && !w.healthy {
		s.Fault("outage")
		d.Err = true
	}
	if d.Err {
		s.Fault("dial_refused")
		return nil, errors.New("connection refused")
	}
	cc, err := grpc.NewClient(a, opts...)
	if err == nil {
		w.conns = append(w.conns, &conn{cc: cc, addr: a})
	}
	return cc, err
}

// open is the stream interceptor of every connection.
func (w *world) open(ctx context.Context, desc *grpc.StreamDesc, cc *grpc.ClientConn, method string, _ grpc.Streamer, _ ...grpc.CallOption) (grpc.ClientStream, error) {
	s := w.s
	t := w.targetOf(ctx)
	if t == nil {
		w.fail("attempt", "a stream was opened without the target's metadata")
		return nil, errors.New("unknown")
	}
	if cc.GetState() == connectivity.Shutdown {
		w.fail("conn", "%s opens a stream on a connection that has been closed under it", t.name)
		return nil, status.Error(codes.Canceled, "the client connection is closing")
	}
	if t.silent && !t.adding {
		w.fail("silence", "%s: a stream was opened after Remove had returned", t.name)
	}
	if c := t.cur(); c != nil && c.requested && !c.broken && !c.ended && c.ctx.Err() == nil {
		w.fail("session", "%s: a stream was opened while stream %d is up", t.name, c.id)
	}
	st := &stream{w: w, t: t, id: len(t.streams), ctx: ctx}
	if !w.healthy && t.nSess < len(t.p.Sessions) {
		st.s = &t.p.Sessions[t.nSess]
		t.nSess++
	}
	s.Y()
	if st.s != nil {
		if st.s.OpenUs > 0 {
			tm := time.NewTimer(time.Duration(st.s.OpenUs) * time.Microsecond)
			select {
			case <-tm.C:
			case <-ctx.Done():
			}
			tm.Stop()
		}
		if st.s.OpenErr {
			s.Fault("open_error")
			w.attemptEnd(t)
			return nil, status.Error(codes.Unavailable, "open failed")
		}
		st.late = st.s.Late
	}
	if ctx.Err() != nil {
		w.attemptEnd(t)
		return nil, status.FromContextError(ctx.Err()).Err()
	}
	t.streams = append(t.streams, st)
	s.Logf("%s: stream %d opened", t.name, st.id)
	return st, nil
}

func (st *stream) Header() (metadata.MD, error) { return nil, nil }
func (st *stream) Trailer() metadata.MD         { return nil }
func (st *stream) CloseSend() error             { return nil }
func (st *stream) Context() context.Context     { return st.ctx }

func (st *stream) SendMsg(m any) error {
	st.w.s.Y()
	if st.s != nil && st.s.SendErr {
		st.w.s.Fault("send_error")
		st.broken = true
		st.w.attemptEnd(st.t)
		return io.EOF
	}
	st.requested = true
	if r, ok := m.(*gpb.SubscribeRequest); !ok || r.GetSubscribe().GetPrefix().GetTarget() != st.t.name {
		st.w.fail("session", "%s: the request sent to it names target %q", st.t.name, r.GetSubscribe().GetPrefix().GetTarget())
	}
	return nil
}

func (st *stream) RecvMsg(m any) error {
	w, t, s := st.w, st.t, st.w.s
	if st.inRecv {
		w.fail("session", "%s: concurrent Recv on stream %d", t.name, st.id)
	}
	st.inRecv, st.recvSince = true, s.Now()
	st.recvs++
	defer func() { st.inRecv = false }()
	s.Y()
	r, err := st.recv()
	if waited := s.Now() - st.recvSince; t.timeout > 0 && waited >= t.timeout {
		t.silences++
		s.Fault("silence_beyond_timeout")
		if !w.skip && waited > t.timeout+time.Duration(st.lag())*time.Microsecond+50*time.Millisecond && st.ctx.Err() == nil {
			w.fail("timeout", "%s: stream %d was silent for %v, its receive timeout is %v, and it was not ended", t.name, st.id, waited, t.timeout)
		}
	}
	if err == nil {
		st.recvd = append(st.recvd, r)
		proto.Reset(m.(proto.Message))
		proto.Merge(m.(proto.Message), r)
		return nil
	}
	if st.ctx.Err() != nil && !w.skip && t.reconnects == 0 && t.silences == 0 && !t.removing && t.managed {
		w.fail("spurious", "%s: stream %d was ended although nobody asked for it and it was never silent for its receive timeout of %v", t.name, st.id, t.timeout)
	}
	if !st.ended {
		st.ended = true
		t.ended++
		s.Logf("%s: stream %d ends: %v", t.name, st.id, err)
		w.attemptEnd(t)
	}
	return err
}

func (st *stream) lag() int64 {
	if st.s == nil {
		return 0
	}
	return st.s.LagUs
}

// recv produces the next message of the script.
func (st *stream) recv() (*gpb.SubscribeResponse, error) {
	w := st.w
	d := time.Duration(-1)
	kind := -1
	switch {
	case st.ended:
		return nil, io.EOF
	case st.s == nil:
		// A healthy device: an update, a sync, then regular updates.
		d, kind = 0, 0
		if st.idx == 1 {
			kind = 1
		} else if st.idx > 1 {
			d = 20 * time.Millisecond
			if st.t.timeout > 0 {
				d = min(d, st.t.timeout*2/3)
			}
		}
	case st.idx < len(st.s.Msgs):
		d, kind = time.Duration(st.s.Msgs[st.idx].Us)*time.Microsecond, st.s.Msgs[st.idx].Kind
	case st.s.End != 2:
		d = time.Duration(st.s.EndUs) * time.Microsecond
	}
	if w.healthy && st.s != nil && st.s.End == 2 && kind < 0 && st.t.timeout == 0 {
		// Without a receive timeout nothing ends a silent stream but the peer.
		d = 0
	}
	if d != 0 {
		var tc <-chan time.Time
		if d > 0 {
			tm := time.NewTimer(d)
			defer tm.Stop()
			tc = tm.C
		}
		tick := time.NewTicker(50 * time.Millisecond)
		defer tick.Stop()
	wait:
		for {
			select {
			case <-tc:
				break wait
			case <-st.ctx.Done():
				break wait
			case <-tick.C:
				if w.healthy && st.s != nil && st.s.End == 2 && kind < 0 && st.t.timeout == 0 {
					break wait
				}
			}
		}
	}
	if st.ctx.Err() != nil {
		if kind >= 0 && st.late > 0 {
			st.late--
			w.s.Fault("message_after_cancel")
		} else {
			if l := st.lag(); l > 0 {
				time.Sleep(time.Duration(l) * time.Microsecond)
			}
			return nil, status.FromContextError(st.ctx.Err()).Err()
		}
	}
	if kind < 0 {
		if st.s.End == 0 {
			w.s.Fault("end_of_stream")
			return nil, io.EOF
		}
		w.s.Fault("stream_error")
		return nil, status.Error(codes.Unavailable, "stream reset")
	}
	st.idx++
	w.ts++
	switch kind {
	case 1:
		return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}}, nil
	case 2:
		return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Error{Error: &gpb.Error{Message: "x"}}}, nil
	case 3:
		return &gpb.SubscribeResponse{}, nil
	}
	return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: &gpb.Notification{Timestamp: w.ts}}}, nil
}

// ---- callbacks ----

func (w *world) enter(n, what string) *target {
	t := w.byName[n]
	if t == nil {
		w.fail("session", "%s for unknown target %q", what, n)
		return nil
	}
	w.s.Logf("%s: %s", n, what)
	if t.silent && !t.adding {
		w.fail("silence", "%s: %s was called after Remove had returned", n, what)
	}
	t.inCB++
	return t
}

func (w *world) leave(t *target) {
	w.s.Y()
	if t.p.SlowUs > 0 && int(w.s.Seq()%100) < t.p.SlowPct && !w.healthy {
		w.s.Fault("slow_callback")
		time.Sleep(time.Duration(t.p.SlowUs) * time.Microsecond)
	}
	t.inCB--
}

func (w *world) onConnect(n string) {
	t := w.enter(n, "Connect")
	if t == nil {
		return
	}
	defer w.leave(t)
	w.s.NonTrivial()
	st := t.cur()
	switch {
	case st == nil || len(st.recvd) == 0:
		w.fail("connect", "%s: Connect before the first message of a stream", n)
		return
	case st.connects > 0:
		w.fail("connect", "%s: a second Connect for stream %d", n, st.id)
	case st.resets > 0:
		w.fail("connect", "%s: Connect for stream %d after its Reset", n, st.id)
	}
	for _, o := range t.streams[:len(t.streams)-1] {
		if o.ended && o.resets != 1 {
			w.fail("reset", "%s: stream %d ended and was followed by %d Resets before the next Connect", n, o.id, o.resets)
		}
	}
	st.connects++
}

// deliver matches a callback with the next message of the stream.
func (w *world) deliver(n, what string, match func(*gpb.SubscribeResponse) bool) {
	t := w.enter(n, what)
	if t == nil {
		return
	}
	defer w.leave(t)
	st := t.cur()
	switch {
	case st == nil || st.connects == 0:
		w.fail("session", "%s: %s before Connect", n, what)
		return
	case st.resets > 0:
		w.fail("session", "%s: %s after the Reset of stream %d", n, what, st.id)
		return
	}
	w.skipSilent(st)
	if st.delivered >= len(st.recvd) || !match(st.recvd[st.delivered]) {
		w.fail("order", "%s: %s is not for the next message of stream %d (%d received, %d delivered)", n, what, st.id, len(st.recvd), st.delivered)
		return
	}
	st.delivered++
}

// skipSilent passes messages that have no callback.
func (w *world) skipSilent(st *stream) {
	for st.delivered < len(st.recvd) {
		switch st.recvd[st.delivered].Response.(type) {
		case *gpb.SubscribeResponse_Update, *gpb.SubscribeResponse_SyncResponse:
			return
		}
		st.delivered++
	}
}

func (w *world) onUpdate(n string, u *gpb.Notification) {
	w.deliver(n, fmt.Sprintf("Update(%d)", u.GetTimestamp()), func(r *gpb.SubscribeResponse) bool { return proto.Equal(r.GetUpdate(), u) && r.GetUpdate() != nil })
}

func (w *world) onSync(n string) {
	w.deliver(n, "Sync", func(r *gpb.SubscribeResponse) bool { return r.GetSyncResponse() })
}

func (w *world) onReset(n string) {
	t := w.enter(n, "Reset")
	if t == nil {
		return
	}
	defer w.leave(t)
	st := t.cur()
	switch {
	case st == nil:
		w.fail("reset", "%s: Reset without a stream", n)
		return
	case st.broken && st.resets == 0:
		st.resets++
		return
	case !st.ended:
		w.fail("reset", "%s: Reset while stream %d goes on", n, st.id)
	case st.resets > 0:
		w.fail("reset", "%s: a second Reset for stream %d", n, st.id)
	}
	w.skipSilent(st)
	if st.delivered < len(st.recvd) {
		w.fail("order", "%s: Reset of stream %d before its message %d was delivered", n, st.id, st.delivered)
	}
	if len(st.recvd) > 0 && st.connects == 0 {
		w.fail("connect", "%s: stream %d delivered messages and no Connect was reported before its Reset", n, st.id)
	}
	st.resets++
	w.s.Probe("session_closed")
}

func (w *world) onError(what, n string, err error) {
	if err == nil || strings.TrimSpace(err.Error()) == "" {
		w.fail("session", "%s: %s without an error", n, what)
	}
	t := w.enter(n, what)
	if t != nil {
		w.leave(t)
	}
}

// ---- end of the run ----

func (w *world) finish() {
	s := w.s
	// Faults stop: every managed target must be streaming again within bounded time.
	s.Calm()
	w.healthy = true
	start := s.Now()
	marks := map[*target]int{}
	time.Sleep(w.maxGap() + 500*time.Millisecond)
	s.Quiesce()
	s.Atomic(func() {
		for _, t := range w.targets {
			st := t.cur()
			switch {
			case !t.managed:
			case st == nil:
				w.fail("retry", "%s is managed and no stream was ever opened (until %v, faults stopped at %v)", t.name, s.Now(), start)
			default:
				marks[t] = len(st.recvd)
			}
		}
	})
	// A stream that was up when the faults stopped ends by itself or by its
	// receive timeout; then the retry must bring up a healthy one.
	time.Sleep(2*w.maxGap() + time.Second)
	s.Quiesce()
	s.Atomic(func() {
		for _, t := range w.targets {
			st := t.cur()
			switch {
			case !t.managed || st == nil || s.Failed():
			case st.connects != 1 || st.resets != 0:
				w.fail("retry", "%s is managed and not connected although faults stopped at %v and it is %v (stream %d: connects %d, resets %d)", t.name, start, s.Now(), st.id, st.connects, st.resets)
			default:
				w.s.Probe("recovered")
			}
			for i, st := range t.streams {
				last := i == len(t.streams)-1
				switch {
				case !last && st.requested && !st.broken && !st.ended && st.ctx.Err() == nil:
					w.fail("session", "%s: stream %d was abandoned", t.name, st.id)
				case st.ended && st.resets != 1:
					w.fail("reset", "%s: stream %d ended and was followed by %d Resets", t.name, st.id, st.resets)
				}
			}
		}
		w.checkConns()
	})
	if s.Failed() {
		return
	}
	for _, t := range w.targets {
		if !t.managed {
			continue
		}
		t := t
		t.removing = true
		if !s.Within(time.Minute, func() {
			if err := w.m.Remove(t.name); err != nil {
				w.fail("admission", "Remove(%s): %v", t.name, err)
			}
		}) {
			w.fail("silence", "%s: Remove does not return", t.name)
			return
		}
		t.managed, t.removing = false, false
		s.Atomic(func() { w.removed(t) })
	}
	time.Sleep(2*w.maxGap() + time.Second)
	s.Quiesce()
	s.Atomic(func() {
		for _, c := range w.conns {
			if c.cc.GetState() != connectivity.Shutdown {
				w.fail("conn", "every target was removed and the connection to %s is still open", c.addr)
			}
			w.s.Probe("connection_closed")
		}
	})
}
