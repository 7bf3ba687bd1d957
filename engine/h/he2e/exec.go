package he2e

import (
	"context"
	"crypto/ed25519"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	log "github.com/golang/glog"
	"github.com/openconfig/gnmi/client"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
	"github.com/openconfig/gnmi/zzsim/h/gen"
	"github.com/openconfig/gnmi/zzsim/h/hnet"
	"github.com/openconfig/gnmi/zzsim/sim"
	cli0 "github.com/openconfig/gnmi/zzsim/sut/cli0"
	cli1 "github.com/openconfig/gnmi/zzsim/sut/cli1"
	cli2 "github.com/openconfig/gnmi/zzsim/sut/cli2"
	cli3 "github.com/openconfig/gnmi/zzsim/sut/cli3"
	collector "github.com/openconfig/gnmi/zzsim/sut/collector"
	"google.golang.org/protobuf/encoding/prototext"
)

// H is the harness.
var H = &sim.Harness{Name: "e2e", Gen: genPlan, New: func() any { return &Plan{} }, Exec: exec, Steps: 20000, MaxStep: 20000000}

const collAddr = "127.0.0.1:6030"

var (
	tlsCert         tls.Certificate
	certPEM, keyPEM []byte
)

func init() {
	// The key is a constant: the certificate is the same in every process.
	key := ed25519.NewKeyFromSeed([]byte("0123456789abcdef0123456789abcdef"))
	t := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "collector"}, DNSNames: []string{"collector"},
		IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, // grpctunnel's listener verifies the address
		NotBefore:   time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
	}
	der, err := x509.CreateCertificate(nil, t, t, key.Public(), key)
	if err != nil {
		panic(err)
	}
	kb, err := x509.MarshalPKCS8PrivateKey(key)
	if err != nil {
		panic(err)
	}
	certPEM = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	keyPEM = pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb})
	if tlsCert, err = tls.X509KeyPair(certPEM, keyPEM); err != nil {
		panic(err)
	}
}

// memFile is an unnamed file, which programs open by its path.
func (w *world) memFile(content []byte) (*os.File, string) {
	name := []byte("sim\x00")
	fd, _, e := syscall.Syscall(319 /* memfd_create */, uintptr(unsafe.Pointer(&name[0])), 1, 0)
	if e != 0 {
		panic(e)
	}
	f := os.NewFile(fd, "mem")
	if _, err := f.Write(content); err != nil {
		panic(err)
	}
	w.s.Cleanup(func() { f.Close() })
	return f, fmt.Sprintf("/proc/self/fd/%d", fd)
}

type world struct {
	s     *sim.Run
	p     *Plan
	net   *hnet.Net
	devs  []*dev
	hosts []*host
	stops []func()
	proc  sim.Proc
	boot  func() // starts the collector
	down  bool   // it has been killed and not started again

	seenMu sync.Mutex
	seen   map[string]map[int]bool // everything a device ever had
	cert   string
	over   bool
}

func (w *world) saw(k string, v int) {
	w.seenMu.Lock()
	defer w.seenMu.Unlock()
	if w.seen[k] == nil {
		w.seen[k] = map[int]bool{}
	}
	w.seen[k][v] = true
}

// was reports whether a device ever had value text at path k.
func (w *world) was(k, val, kind string) bool {
	w.seenMu.Lock()
	defer w.seenMu.Unlock()
	for v := range w.seen[k] {
		if text(v, kind) == val {
			return true
		}
	}
	return false
}

func (w *world) request(i int) *pb.SubscribeRequest {
	q := &w.p.Reqs[((i%len(w.p.Reqs))+len(w.p.Reqs))%len(w.p.Reqs)]
	l := &pb.SubscriptionList{Prefix: &pb.Path{Origin: q.Org}}
	for _, p := range q.Paths {
		x := &pb.Path{}
		gen.SetElems(x, p, false)
		l.Subscription = append(l.Subscription, &pb.Subscription{Path: x, Mode: pb.SubscriptionMode_ON_CHANGE})
	}
	return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: l}}
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

func exec(s *sim.Run, plan any) {
	p := plan.(*Plan)
	if len(p.Reqs) == 0 || len(p.Targets) == 0 {
		return
	}
	w := &world{s: s, p: p, seen: map[string]map[int]bool{}}
	w.net = hnet.Install(s)
	os.Setenv("GNMI_USER", "someone")
	os.Setenv("GNMI_PASS", "secret")
	w.net.Frag, w.net.Lag = p.Frag, time.Duration(p.LagUs)*time.Microsecond
	log.ExitHook = func(code int, msg string) {
		s.Fail("exit", "the process would exit: %s", msg)
		select {}
	}
	log.Sink = func(sev, msg string) { s.Logf("[%s] %.300s", sev, msg) }
	_, w.cert = w.memFile(certPEM)
	_, key := w.memFile(keyPEM)

	// Devices and the configuration.
	cfg := &tpb.Configuration{Request: map[string]*pb.SubscribeRequest{}, Target: map[string]*tpb.Target{}}
	for i := range p.Reqs {
		cfg.Request[fmt.Sprintf("req%d", i)] = w.request(i)
	}
	for i := range p.Targets {
		t := &p.Targets[i]
		d := &dev{w: w, t: t, addr: fmt.Sprintf("10.0.0.%d:%d", i+1, 9340+i), state: map[string]*leaf{}, wake: make(chan struct{})}
		if k := t.Same - 1; k >= 0 && k < i && !t.Agent && !p.Targets[k].Agent {
			d.addr, d.tunnel = w.devs[k].addr, w.devs[k].tunnel
			for _, h := range w.hosts {
				if h.devs[0].addr == d.addr {
					h.devs = append(h.devs, d)
				}
			}
			s.Probe("shared_address")
		} else {
			d.tunnel = t.Tunnel && (!t.Agent || len(p.Faults) == 0) // the agent does not listen again
			w.hosts = append(w.hosts, &host{w: w, devs: []*dev{d}})
		}
		w.devs = append(w.devs, d)
		req := fmt.Sprintf("req%d", ((t.Req%len(p.Reqs))+len(p.Reqs))%len(p.Reqs))
		cfg.Target[t.Name] = &tpb.Target{Addresses: []string{d.addr}, Request: req}
		if d.tunnel {
			cfg.Target[t.Name].Dialer = "tunnel"
			s.Probe("tunnel_target")
		}
	}
	for _, h := range w.hosts {
		go h.serve()
	}
	text, err := prototext.Marshal(cfg)
	if err != nil {
		panic(err)
	}
	_, conf := w.memFile(text)

	// The collector.
	up := make(chan struct{})
	w.boot = func() {
		args := []string{"gnmi_collector", "-config_file=" + conf, "-cert_file", w.cert, "-key_file=" + key, "-port=6030",
			"-dial_timeout=" + ms(p.DialMs).String()}
		if p.MetaMs > 0 {
			args = append(args, "-metadata_update_period="+ms(p.MetaMs).String())
		}
		if p.SizeMs > 0 {
			args = append(args, "-size_update_period", ms(p.SizeMs).String())
		}
		w.proc = collector.Start(args, os.Stderr, os.Stderr)
		proc := w.proc
		go func() {
			<-proc.Wait()
			if !w.over && !w.down {
				_, msg := proc.Result()
				s.Fail("exit", "the collector ended: %s", msg)
			}
		}()
	}
	go func() {
		time.Sleep(ms(p.UpMs))
		w.boot()
		close(up)
	}()

	// Clients.
	var obs []*observer
	for i := range p.Obs {
		o := w.observer(&p.Obs[i], i, false)
		obs = append(obs, o)
		go func() {
			time.Sleep(ms(o.o.AtMs))
			o.start()
		}()
	}

	// Faults.
	left := len(p.Faults)
	for i := range p.Faults {
		f := p.Faults[i]
		go func() {
			<-up
			time.Sleep(ms(f.AtMs))
			w.fault(&f)
			left--
		}()
	}
	<-up
	for {
		busy := left > 0
		for _, d := range w.devs {
			busy = busy || !d.done
		}
		for _, o := range obs {
			busy = busy || !o.started
		}
		if !busy || s.Failed() {
			break
		}
		time.Sleep(time.Second)
	}
	s.Calm()
	time.Sleep(200 * time.Second)
	s.Quiesce()

	// Everything has been quiet for long.
	for _, o := range obs {
		o.judge()
	}
	final := &observer{}
	for i := range p.Final {
		if s.Failed() {
			break
		}
		final = w.observer(&p.Final[i], i, true)
		final.start()
		time.Sleep(5 * time.Second)
		s.Quiesce()
		final.judge()
		final.stop()
	}
	if len(w.seen) > 1 {
		s.NonTrivial()
	}
	w.over = true
	for _, o := range obs {
		o.stop()
	}
	for _, d := range w.devs {
		w.unplug(d.addr)
	}
	w.unplug(collAddr)
	w.proc.Kill()
	for _, f := range w.stops {
		f()
	}
	time.Sleep(time.Second)
}

// unplug ends every connection to an address for good: a server that stops with
// several open closes them in the order of a map with pointers as keys.
func (w *world) unplug(a string) {
	w.net.Down(a, true)
	w.net.Cut(a)
	time.Sleep(time.Millisecond)
}

func (w *world) fault(f *Fault) {
	s := w.s
	on := w.devs[((f.Tgt%len(w.devs))+len(w.devs))%len(w.devs)]
	a := on.addr
	if on.tunnel {
		a = collAddr
	}
	d := time.Duration(f.ForS) * time.Second
	switch f.Kind {
	case "cut":
		if w.net.Cut(a) > 0 {
			s.Fault("device_connection_reset")
		}
	case "down":
		w.net.Down(a, true)
		w.net.Cut(a)
		s.Fault("device_unreachable")
		time.Sleep(d)
		w.net.Down(a, false)
	case "stall":
		if w.net.Stall(a, d) > 0 {
			s.Fault("device_connection_stalled")
		}
		time.Sleep(d)
	case "cut_client":
		if w.net.Cut(collAddr) > 0 {
			s.Fault("client_connection_reset")
		}
	case "stall_client":
		if w.net.Stall(collAddr, d) > 0 {
			s.Fault("client_connection_stalled")
		}
		time.Sleep(d)
	case "restart":
		// The process loses everything that it holds. What cannot be killed are the
		// goroutines of the old process: they stay, connected to the devices.
		if w.down {
			return
		}
		w.down = true
		w.unplug(collAddr)
		w.proc.Kill()
		<-w.proc.Wait()
		s.Fault("collector_killed")
		time.Sleep(d)
		w.net.Down(collAddr, false)
		w.boot()
		w.down = false
	}
	s.Logf("fault %s over", f.Kind)
}

// observer is a client of the collector.
type observer struct {
	w       *world
	o       *Obs
	who     string
	slot    int
	final   bool
	started bool
	kind    string // of its values

	// library
	c      *client.CacheClient
	ctx    context.Context
	cancel context.CancelFunc
	ok     bool // once: succeeded; stream: connected; poll: polled

	kept  []kept
	again chan struct{}

	// CLI
	proc sim.Proc
	out  *os.File
}

// kept is a notification that the application holds on to, and its path when it came.
type kept struct {
	u client.Update
	k string
}

func (w *world) observer(o *Obs, i int, final bool) *observer {
	x := &observer{w: w, o: o, slot: i, final: final, who: fmt.Sprintf("client %d", i), again: make(chan struct{}, 1)}
	if final {
		x.who = fmt.Sprintf("final client %d", i)
		x.slot = 3
	}
	switch {
	case o.Lib:
		x.kind = "lib"
	case o.Disp == "group" || o.Disp == "single":
		x.kind = o.Disp
	default:
		x.kind = "proto"
	}
	x.ctx, x.cancel = context.WithCancel(context.Background())
	return x
}

func (x *observer) target() string {
	if x.o.Tgt < 0 {
		return "*"
	}
	return x.w.p.Targets[x.o.Tgt%len(x.w.p.Targets)].Name
}

// whole reports whether the client asks for everything.
func (x *observer) queries() []Qry {
	if len(x.o.Qs) == 0 {
		return []Qry{{}}
	}
	return x.o.Qs
}

// path is the query as index elements below the target.
func (q *Qry) path() []string {
	if q.Org == "" {
		return nil
	}
	return index(q.Org, q.P)
}

// expected is the final state that the client asked for. A stream also offers
// the leaves that end above a path that was asked for (C06): those are optional.
func (x *observer) expected() (v, optional view) {
	v, optional = view{}, view{}
	for _, d := range x.w.devs {
		if x.o.Tgt >= 0 && d.t.Name != x.target() {
			continue
		}
		for k, l := range d.state {
			for _, q := range x.queries() {
				full, p := gen.Key(append([]string{d.t.Name}, gen.Unkey(k)...)), q.path()
				if gen.Match(p, gen.Unkey(k)) {
					v[full] = text(l.v, x.kind)
				} else if n := len(gen.Unkey(k)); n < len(p) && gen.Match(p[:n], gen.Unkey(k)) {
					optional[full] = text(l.v, x.kind)
				}
			}
		}
	}
	return v, optional
}

// request is the subscription as a proto.
func (x *observer) request() *pb.SubscribeRequest {
	qs := x.queries()
	l := &pb.SubscriptionList{Prefix: &pb.Path{Target: x.target()}}
	switch x.o.Mode {
	case "once":
		l.Mode = pb.SubscriptionList_ONCE
	case "poll":
		l.Mode = pb.SubscriptionList_POLL
	}
	same := true
	for _, q := range qs {
		same = same && q.Org == qs[0].Org
	}
	inPrefix := x.o.Dir != 1 && same
	if inPrefix {
		l.Prefix.Origin = qs[0].Org
	}
	k := 0
	if inPrefix && len(qs) == 1 && x.o.Dir >= 2 {
		k = min(len(qs[0].P), x.o.Dir-1)
		gen.SetElems(l.Prefix, qs[0].P[:k], x.o.Dep)
	}
	for _, q := range qs {
		p := &pb.Path{}
		if !inPrefix {
			p.Origin = q.Org
		}
		gen.SetElems(p, q.P[k:], x.o.Dep)
		l.Subscription = append(l.Subscription, &pb.Subscription{Path: p})
	}
	return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: l}}
}

func (x *observer) start() {
	x.w.s.Logf("%s starts: %+v", x.who, *x.o)
	if x.o.Lib {
		go x.library()
	} else {
		x.command()
	}
	x.started = true
}

func (x *observer) library() {
	w, s := x.w, x.w.s
	var q client.Query
	if x.o.Form == "flags" {
		q.Target = x.target()
		for _, qq := range x.queries() {
			if qq.Org == "" {
				q.Queries = append(q.Queries, []string{"*"})
				continue
			}
			q.Queries = append(q.Queries, append([]string{qq.Org}, qq.P...))
		}
		q.Type = client.Stream
		switch x.o.Mode {
		case "once":
			q.Type = client.Once
		case "poll":
			q.Type = client.Poll
		}
	} else {
		var err error
		if q, err = client.NewQuery(x.request()); err != nil {
			s.Fail("request", "%s: NewQuery(%v): %v", x.who, x.request(), err)
			return
		}
	}
	q.Addrs = []string{collAddr}
	q.TLS = &tls.Config{InsecureSkipVerify: true}
	if x.o.TLS == 1 {
		pool := x509.NewCertPool()
		pool.AppendCertsFromPEM(certPEM)
		q.TLS = &tls.Config{RootCAs: pool, ServerName: "collector"}
	}
	q.Timeout = 20 * time.Second
	q.NotificationHandler = func(n client.Notification) error {
		switch n := n.(type) {
		case client.Update:
			s.Logf("%s: %v = %v", x.who, n.Path, n.Val)
			x.kept = append(x.kept, kept{n, gen.Key(n.Path)})
			if len(n.Path) > 1 && n.Path[1] == "meta" {
				return nil
			}
			k := gen.Key(n.Path)
			if !w.was(k, goText(n.Val), "lib") {
				s.Fail("extra", "%s was sent %s = %s, which no target ever sent", x.who, gen.Show(k), goText(n.Val))
			}
		case client.Delete:
			s.Logf("%s: delete %v", x.who, n.Path)
		case client.Sync:
			s.Logf("%s: sync", x.who)
		}
		return nil
	}
	if x.o.Rec && x.o.Mode == "stream" {
		x.c = client.New()
		rc := client.Reconnect(x.c, nil, func() {
			s.Logf("%s reconnects", x.who)
			s.Count("reconnects", 1)
			x.c.Delete(nil)
		})
		err := rc.Subscribe(x.ctx, q, gclient.Type)
		s.Logf("%s: Subscribe returned %v", x.who, err)
		return
	}
	for x.ctx.Err() == nil {
		x.c = client.New()
		x.ok = false
		err := x.c.Subscribe(x.ctx, q, gclient.Type)
		s.Logf("%s: Subscribe returned %v", x.who, err)
		if err == nil && x.o.Mode == "once" {
			x.ok = true
			return
		}
		for err == nil && x.o.Mode == "poll" && x.ctx.Err() == nil {
			if err = x.c.Poll(); err != nil {
				s.Logf("%s: Poll returned %v", x.who, err)
				break
			}
			x.ok = true
			if x.o.Slow {
				// Once more when everything has been quiet for long: there is
				// no further poll that could mend what this one does wrong.
				select {
				case <-x.again:
				case <-x.ctx.Done():
				}
				continue
			}
			time.Sleep(4 * time.Second)
		}
		x.c.Close()
		time.Sleep(time.Second)
	}
}

var indents = []string{"  ", "", "\t", "    "}

func (x *observer) command() {
	o := x.o
	args := []string{"gnmi_cli"}
	pick := func(names ...string) string { return names[o.Alt%len(names)] }
	add := func(a ...string) { args = append(args, a...) }
	add(pick("-address", "--a", "-a", "--address"), collAddr)
	delim := "/"
	if o.Del != "" {
		delim = o.Del
		add(pick("-d", "--delimiter", "-delimiter", "--d"), delim)
	}
	add("-"+pick("display_type", "dt"), o.Disp)
	if o.TLS == 1 {
		add("-ca_crt", x.w.cert, "-server_name=collector")
	} else {
		add("-tls_skip_verify")
	}
	add("-timeout=20s")
	if o.TS != "" {
		add("-"+pick("timestamp", "ts"), o.TS)
	}
	if o.DPfx != "" {
		add("-display_prefix", o.DPfx)
	}
	if o.DInd > 0 {
		add("-display_indent=" + indents[o.DInd%len(indents)])
	}
	if o.Misc&1 != 0 {
		add("-" + pick("display_size", "ds"))
	}
	if o.Misc&2 != 0 {
		add("-" + pick("latency", "l"))
	}
	if o.Misc&4 != 0 {
		add("-with_user_pass")
	}
	if o.Misc&8 != 0 {
		add("-client_types=gnmi")
	}
	switch o.Form {
	case "flags":
		add("-"+pick("target", "t"), x.target())
		var ts []string
		for _, q := range x.queries() {
			p := q.P
			if q.Org != "" {
				p = append([]string{q.Org}, p...)
			}
			t := strings.Join(p, delim)
			if len(p) == 0 {
				t = "*"
			} else if o.Alt >= 2 {
				t = delim + t
			}
			ts = append(ts, t)
		}
		add("-"+pick("query", "q"), strings.Join(ts, ","))
		add("-"+pick("query_type", "qt"), map[string][]string{"once": {"once", "o", "once", "o"}, "poll": {"polling", "p", "polling", "p"}, "stream": {"streaming", "s", "streaming", "s"}}[o.Mode][o.Alt%4])
	default:
		b, err := prototext.MarshalOptions{Multiline: o.Alt%2 == 1}.Marshal(x.request())
		if err != nil {
			panic(err)
		}
		if o.Form == "proto" {
			add("-"+pick("proto", "p"), string(b))
		} else {
			_, f := x.w.memFile(b)
			add("-proto_file", f)
		}
	}
	if o.Mode == "poll" {
		every := "4s"
		if o.Slow {
			every = "1m"
		}
		add("-"+pick("polling_interval", "pi"), every)
		if x.final {
			add("-"+pick("count", "c"), "1")
		}
	}
	x.out, _ = x.w.memFile(nil)
	start := []func([]string, *os.File, *os.File) sim.Proc{cli0.Start, cli1.Start, cli2.Start, cli3.Start}[x.slot%4]
	x.w.s.Logf("%s: %q", x.who, args)
	x.proc = start(args, x.out, x.out)
	go func() {
		<-x.proc.Wait()
		code, msg := x.proc.Result()
		x.w.s.Logf("%s ended with code %d %s", x.who, code, msg)
	}()
}

func (x *observer) exited() bool {
	select {
	case <-x.proc.Wait():
		return true
	default:
		return false
	}
}

func (x *observer) stop() {
	x.cancel()
	if x.proc != nil {
		x.proc.Interrupt()
		time.Sleep(time.Second)
		x.proc.Kill()
	}
}

func (x *observer) output() string {
	st, err := x.out.Stat()
	if err != nil {
		panic(err)
	}
	b := make([]byte, st.Size())
	x.out.ReadAt(b, 0)
	return string(b)
}

// judge compares what the client knows with the final state.
func (x *observer) judge() {
	w, s, o := x.w, x.w.s, x.o
	if s.Failed() {
		return
	}
	got := view{}
	current := true // the view is to be that of the final state
	if o.Lib {
		if o.Mode == "poll" && o.Slow {
			x.again <- struct{}{}
			time.Sleep(30 * time.Second)
			s.Quiesce()
		}
		if !x.ok && o.Mode != "stream" {
			s.Fail("liveness", "%s: no %s succeeded although nothing fails any more", x.who, o.Mode)
			return
		}
		for _, h := range x.kept {
			if k := gen.Key(h.u.Path); k != h.k {
				s.Fail("altered", "%s: the path of a notification was %s when it came and is now %s", x.who, gen.Show(h.k), gen.Show(k))
				return
			}
		}
		for _, l := range x.c.Leaves() {
			got[gen.Key(l.Path)] = goText(l.Val)
		}
		current = o.Mode != "once" || x.final
	} else {
		out := x.output()
		dead := x.exited()
		code := 0
		if dead {
			code, _ = x.proc.Result()
		}
		s.Logf("%s printed %d bytes, ended %v with code %d: %s", x.who, len(out), dead, code, out)
		if x.final {
			if !dead && (o.Mode == "once" || o.Mode == "poll" && x.kind == "group") {
				s.Fail("liveness", "%s: %s did not end", x.who, o.Mode)
				return
			}
			if dead && (code != 0 || o.Mode == "stream") {
				s.Fail("cli", "%s ended with code %d: %s", x.who, code, out)
				return
			}
		}
		if code != 0 {
			// A connection was lost, or the collector was not there yet.
			if i := strings.LastIndex(out, "sendQueryAndDisplay("); i >= 0 {
				out = out[:i]
			}
		}
		current = x.final || !dead && (o.Mode == "stream" || o.Mode == "poll" && x.kind == "group") // others show one answer only
		var ev []event
		var err error
		switch x.kind {
		case "group":
			ev, err = parseGroup(out, o.DPfx, o.TS != "", o.Mode == "stream")
		case "single":
			delim := o.Del
			if delim == "" {
				delim = "/"
			}
			known := map[string][]string{}
			for k := range w.seen {
				p := gen.Unkey(k)
				known[strings.Join(p, delim)] = p
			}
			extra := 0
			if o.TS != "" {
				extra++
			}
			if o.Misc&2 != 0 {
				extra++
			}
			ev, err = parseSingle(out, delim, known, extra)
		default:
			ev, err = parseProto(out)
		}
		if err != nil {
			s.Fail("display", "%s: %v in the output\n%s", x.who, err, out)
			return
		}
		for _, e := range ev {
			if len(e.path) > 1 && e.path[1] == "meta" {
				continue
			}
			if !e.del && !e.all && !e.sync && !w.was(gen.Key(e.path), e.val, x.kind) {
				s.Fail("extra", "%s shows %s = %s, which no target ever sent", x.who, gen.Show(gen.Key(e.path)), e.val)
				return
			}
			got.apply(e)
		}
	}
	if !current {
		return
	}
	for k := range got {
		if p := gen.Unkey(k); len(p) > 1 && p[1] == "meta" {
			delete(got, k)
		}
	}
	want, optional := x.expected()
	s.Probe("judged_" + x.kind + "_" + o.Mode)
	if len(want) > 0 {
		s.Probe("judged_with_leaves")
	}
	var diff []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			diff = append(diff, fmt.Sprintf("missing %s = %s", gen.Show(k), v))
		} else if g != v {
			diff = append(diff, fmt.Sprintf("%s = %s, the target has %s", gen.Show(k), g, v))
		}
	}
	for k, v := range got {
		if o, ok := optional[k]; ok && o == v && x.o.Mode == "stream" {
			continue
		}
		if _, ok := want[k]; !ok {
			diff = append(diff, fmt.Sprintf("extra %s = %s", gen.Show(k), v))
		}
	}
	if len(diff) > 0 {
		sort.Strings(diff)
		s.Fail("view", "%s (%+v) differs from the final state of its targets: %s", x.who, *o, strings.Join(diff, "; "))
	}
}
