package he2e

import (
	"context"
	"fmt"
	"net"
	"sort"
	"sync"
	"time"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	fgnmi "github.com/openconfig/gnmi/testing/fake/gnmi"
	fpb "github.com/openconfig/gnmi/testing/fake/proto"
	"github.com/openconfig/gnmi/zzsim/h/gen"
	tunnelpb "github.com/openconfig/grpctunnel/proto/tunnel"
	"github.com/openconfig/grpctunnel/tunnel"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

type leaf struct {
	org   string // as the device names it
	elems []string
	v     int
	ts    int64
	part  int // > 0: leaf part-1 of the container
}

// dev is the truth about one target.
type dev struct {
	w      *world
	t      *Tgt
	addr   string
	tunnel bool // the device dials the collector

	mu    sync.Mutex
	state map[string]*leaf // by index path below the target
	hist  []*pb.Notification
	wake  chan struct{}
	last  int64
	done  bool
}

func origin(o string) string {
	if o == "" {
		return "openconfig"
	}
	return o
}

func index(org string, elems []string) []string {
	return append([]string{origin(org)}, gen.Index(elems)...)
}

// tick returns a timestamp after every one before.
func (d *dev) tick() int64 {
	ts := time.Now().Add(time.Duration(d.t.Skew) * time.Millisecond).UnixNano()
	if ts <= d.last {
		ts = d.last + 1
	}
	d.last = ts
	return ts
}

// notification builds step st and applies it to the state.
func (d *dev) apply(st *Step, ts int64) *pb.Notification {
	type item struct {
		org   string
		elems []string
		v     int
	}
	if st.Atomic {
		return d.container(st, ts)
	}
	n := &pb.Notification{Timestamp: ts}
	var ups, dels []item
	org := func(o string) string {
		if st.PathOrg {
			return o
		}
		return st.Org
	}
	for _, u := range st.Up {
		if len(u.P) > 0 {
			ups = append(ups, item{org(u.Org), u.P, u.V})
		}
	}
	for _, x := range st.Del {
		dels = append(dels, item{org(x.Org), x.P, 0})
	}
	pfx := st.Pfx
	if st.PathOrg {
		pfx = 0
	}
	// The elements that everything in the notification shares can be in the prefix.
	common := func() int {
		var first []string
		k := -1
		for _, it := range append(append([]item{}, ups...), dels...) {
			if k < 0 {
				first, k = it.elems, len(it.elems)
				continue
			}
			i := 0
			for i < k && i < len(it.elems) && it.elems[i] == first[i] {
				i++
			}
			k = i
		}
		return max(k, 0)
	}
	pfx = min(pfx, common())
	seen := map[string]bool{}
	var keep []item
	for _, u := range ups {
		k := gen.Key(index(u.org, u.elems))
		if !seen[k] {
			seen[k] = true
			keep = append(keep, u)
		}
	}
	ups = keep
	keep = nil
	for _, x := range dels {
		p := index(x.org, x.elems)
		clash := false
		for k := range seen {
			clash = clash || gen.Match(p, gen.Unkey(k))
		}
		if !clash {
			keep = append(keep, x)
		}
	}
	dels = keep
	if len(ups)+len(dels) == 0 {
		return nil
	}
	path := func(it item) *pb.Path {
		p := &pb.Path{}
		if st.PathOrg {
			p.Origin = it.org
		}
		gen.SetElems(p, it.elems[pfx:], st.Dep == 1 || st.Dep == 3)
		return p
	}
	var base []string
	for _, x := range dels {
		base = x.elems
		n.Delete = append(n.Delete, path(x))
		p := index(x.org, x.elems)
		for k := range d.state {
			if gen.Match(p, gen.Unkey(k)) {
				delete(d.state, k)
			}
		}
	}
	for _, x := range ups {
		base = x.elems
		u := &pb.Update{Path: path(x)}
		vals[((x.v%numVals)+numVals)%numVals].update(u)
		n.Update = append(n.Update, u)
		k := gen.Key(index(x.org, x.elems))
		d.state[k] = &leaf{x.org, x.elems, x.v, ts, 0}
		d.w.saw(gen.Key(append([]string{d.t.Name}, gen.Unkey(k)...)), x.v)
	}
	pr := &pb.Path{}
	if !st.PathOrg {
		pr.Origin = st.Org
	}
	gen.SetElems(pr, base[:pfx], st.Dep == 1 || st.Dep == 2)
	pr.Target = [...]string{"", d.t.Name, "someone-else"}[st.Tgt%3]
	if !st.NoPfx || pr.Origin != "" || pfx > 0 {
		n.Prefix = pr
	}
	return n
}

// container sends all the leaves of the container at once.
func (d *dev) container(st *Step, ts int64) *pb.Notification {
	n := &pb.Notification{Timestamp: ts, Atomic: true, Prefix: &pb.Path{Origin: st.Org}}
	n.Prefix.Target = [...]string{"", d.t.Name, "someone-else"}[st.Tgt%3]
	gen.SetElems(n.Prefix, atomicAt, st.Dep == 1 || st.Dep == 2)
	for i, l := range atomicLeaves {
		if i >= len(st.AV) {
			return nil
		}
		v := ((st.AV[i] % numVals) + numVals) % numVals
		u := &pb.Update{Path: &pb.Path{}}
		gen.SetElems(u.Path, l, st.Dep == 1 || st.Dep == 3)
		vals[v].update(u)
		n.Update = append(n.Update, u)
		elems := append(append([]string(nil), atomicAt...), l...)
		k := gen.Key(index(st.Org, elems))
		d.state[k] = &leaf{st.Org, elems, v, ts, i + 1}
		d.w.saw(gen.Key(append([]string{d.t.Name}, gen.Unkey(k)...)), v)
	}
	d.w.s.Probe("atomic_container")
	return n
}

// run plays the history of the device.
func (d *dev) run() {
	for i := range d.t.Steps {
		st := &d.t.Steps[i]
		time.Sleep(time.Duration(st.DelayMs) * time.Millisecond)
		d.mu.Lock()
		if n := d.apply(st, d.tick()); n != nil {
			d.hist = append(d.hist, n)
			d.w.s.Logf("%s sends %s", d.t.Name, short(n))
			close(d.wake)
			d.wake = make(chan struct{})
		}
		d.mu.Unlock()
		d.w.s.Y()
	}
	d.done = true
}

// dump is the state as notifications.
func (d *dev) dump() []*pb.Notification {
	var ks []string
	for k := range d.state {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*pb.Notification
	group := map[string]*pb.Notification{}
	for _, k := range ks {
		l := d.state[k]
		if l.part > 0 {
			at := l.org + "\x00"
			n := group[at]
			if n == nil {
				n = &pb.Notification{Timestamp: l.ts, Atomic: true, Prefix: &pb.Path{Origin: l.org, Target: d.t.Name}}
				gen.SetElems(n.Prefix, atomicAt, false)
				group[at] = n
				out = append(out, n)
			}
			u := &pb.Update{Path: &pb.Path{}}
			gen.SetElems(u.Path, atomicLeaves[l.part-1], false)
			vals[((l.v%numVals)+numVals)%numVals].update(u)
			n.Update = append(n.Update, u)
			continue
		}
		p := &pb.Path{}
		gen.SetElems(p, l.elems, false)
		u := &pb.Update{Path: p}
		vals[((l.v%numVals)+numVals)%numVals].update(u)
		if n := group[l.org]; n != nil && d.t.Dump > 0 {
			n.Update = append(n.Update, u)
			n.Timestamp = max(n.Timestamp, l.ts)
			continue
		}
		n := &pb.Notification{Timestamp: l.ts, Prefix: &pb.Path{Origin: l.org, Target: d.t.Name}, Update: []*pb.Update{u}}
		group[l.org] = n
		out = append(out, n)
	}
	return out
}

func short(n *pb.Notification) string {
	s := fmt.Sprintf("@%d %v", n.Timestamp, gen.PathIndex(n.GetPrefix()))
	if n.Prefix == nil {
		s += " no prefix"
	}
	s += " " + n.GetPrefix().GetOrigin() + ":" + n.GetPrefix().GetTarget()
	for _, u := range n.Update {
		s += fmt.Sprintf(" +%s%v", u.GetPath().GetOrigin(), gen.PathIndex(u.GetPath()))
	}
	for _, x := range n.Delete {
		s += fmt.Sprintf(" -%s%v", x.GetOrigin(), gen.PathIndex(x))
	}
	return s
}

// host serves the devices of one address.
type host struct {
	pb.UnimplementedGNMIServer
	w    *world
	devs []*dev
}

func (h *host) Subscribe(stream pb.GNMI_SubscribeServer) error {
	s := h.w.s
	req, err := stream.Recv()
	if err != nil {
		return err
	}
	var d *dev
	name := req.GetSubscribe().GetPrefix().GetTarget()
	for _, x := range h.devs {
		if x.t.Name == name {
			d = x
		}
	}
	if d == nil {
		s.Fail("request", "a device was asked for target %q", name)
		return status.Error(codes.NotFound, "no such target")
	}
	want := proto.Clone(h.w.request(d.t.Req)).(*pb.SubscribeRequest)
	if want.GetSubscribe().Prefix == nil {
		want.GetSubscribe().Prefix = &pb.Path{}
	}
	want.GetSubscribe().Prefix.Target = name
	if !proto.Equal(req, want) {
		s.Fail("request", "target %s was asked for something else than is configured", name)
	}
	s.Logf("%s subscribed", name)
	s.Count("sessions", 1)
	d.mu.Lock()
	first := d.dump()
	at := len(d.hist)
	d.mu.Unlock()
	send := func(r *pb.SubscribeResponse) error { s.Y(); return stream.Send(r) }
	for _, n := range first {
		if err := send(&pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: n}}); err != nil {
			return err
		}
	}
	if err := send(&pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: true}}); err != nil {
		return err
	}
	for {
		d.mu.Lock()
		next := d.hist[at:]
		wake := d.wake
		d.mu.Unlock()
		at += len(next)
		for _, n := range next {
			if err := send(&pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: n}}); err != nil {
				return err
			}
		}
		select {
		case <-wake:
		case <-stream.Context().Done():
			s.Logf("%s: subscription ended", name)
			return stream.Context().Err()
		}
	}
}

// serve starts the devices that share an address.
func (h *host) serve() {
	w := h.w
	d := h.devs[0]
	time.Sleep(time.Duration(d.t.UpMs) * time.Millisecond)
	creds := credentials.NewServerTLSFromCert(&tlsCert)
	if d.t.Agent {
		cfg := &fpb.Config{Target: d.t.Name, DisableEof: true}
		fixed := &fpb.FixedGenerator{}
		for i := range d.t.Steps {
			if n := d.apply(&d.t.Steps[i], int64(1000+i)); n != nil {
				w.s.Logf("%s has %s", d.t.Name, short(n))
				fixed.Responses = append(fixed.Responses, &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: n}})
			}
		}
		cfg.Generator = &fpb.Config_Fixed{Fixed: fixed}
		if d.tunnel {
			cfg.TunnelAddr, cfg.TunnelCrt = collAddr, w.cert
		}
		_, p, _ := net.SplitHostPort(d.addr)
		fmt.Sscan(p, &cfg.Port)
		a, err := fgnmi.New(cfg, []grpc.ServerOption{grpc.Creds(creds)})
		if err != nil {
			w.s.Fail("harness", "agent: %v", err)
			return
		}
		w.stops = append(w.stops, a.Close)
		d.done = true
		return
	}
	if d.tunnel {
		for _, d := range h.devs {
			go d.run()
		}
		h.dialOut(creds)
		return
	}
	l, err := net.Listen("tcp", d.addr)
	if err != nil {
		w.s.Fail("harness", "listen: %v", err)
		return
	}
	srv := grpc.NewServer(grpc.Creds(creds))
	pb.RegisterGNMIServer(srv, h)
	w.stops = append(w.stops, srv.Stop)
	go srv.Serve(l)
	for _, d := range h.devs {
		go d.run()
	}
}

// dialOut serves the devices of a host over tunnels which it opens to the
// collector, for as long as the simulation runs.
func (h *host) dialOut(creds credentials.TransportCredentials) {
	w := h.w
	targets := map[tunnel.Target]struct{}{}
	for _, d := range h.devs {
		targets[tunnel.Target{ID: d.t.Name, Type: tunnelpb.TargetType_GNMI_GNOI.String()}] = struct{}{}
	}
	ctx, cancel := context.WithCancel(context.Background())
	w.stops = append(w.stops, cancel)
	for ctx.Err() == nil {
		l, err := tunnel.Listen(ctx, collAddr, w.cert, targets)
		if err != nil {
			break
		}
		srv := grpc.NewServer(grpc.Creds(creds))
		pb.RegisterGNMIServer(srv, h)
		w.s.Count("tunnels", 1)
		srv.Serve(l)
		srv.Stop()
		time.Sleep(time.Second)
	}
}
