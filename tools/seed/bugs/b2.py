# Bugs in manager, connection, target and client.
MGRHELP = '''package manager

import (
	"context"
	"errors"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
)

var _ = errors.New
var _ sync.Mutex

type zzStream struct {
	gpb.GNMI_SubscribeClient
	recv func() (*gpb.SubscribeResponse, error)
}

func (s *zzStream) Send(*gpb.SubscribeRequest) error             { return nil }
func (s *zzStream) Recv() (*gpb.SubscribeResponse, error)        { return s.recv() }

type zzConn struct{}

func (zzConn) Connection(ctx context.Context, addr, dialer string) (*grpc.ClientConn, func(), error) {
	return nil, func() {}, nil
}

var zzSync = &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}}

func zzTarget() *tpb.Target { return &tpb.Target{Addresses: []string{"a:1"}} }
func zzReq() *gpb.SubscribeRequest {
	return &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{}}}
}

// zzStreams makes the n-th stream receive with the n-th function, the last one repeating.
func zzStreams(fs ...func(ctx context.Context, k int) (*gpb.SubscribeResponse, error)) {
	var mu sync.Mutex
	n := 0
	subscribeClient = func(ctx context.Context, _ *grpc.ClientConn) (gpb.GNMI_SubscribeClient, error) {
		mu.Lock()
		defer mu.Unlock()
		f := fs[len(fs)-1]
		if n < len(fs) {
			f = fs[n]
		}
		n++
		k := 0
		return &zzStream{recv: func() (*gpb.SubscribeResponse, error) { k++; return f(ctx, k) }}, nil
	}
}
'''
MG = 'manager/manager.go'
bug('c13-stale-receive-timer', 'C13', 'manager', [(MG, '''		if recvTimer != nil {
			recvTimer.Stop()
		}
		if err != nil {
''', '''		if err != nil {
'''), (MG, '''		if !connected {
			if m.connect''', '''		if recvTimer != nil {
			recvTimer.Stop()
		}
		if !connected {
			if m.connect''')], MGRHELP + '''
func TestZZ(t *testing.T) {
	RetryBaseDelay, RetryMaxDelay, RetryRandomization = 50*time.Millisecond, 50*time.Millisecond, 0
	connected := make(chan bool, 10)
	resets := make(chan bool, 10)
	m, err := NewManager(Config{
		ConnectionManager: zzConn{}, ReceiveTimeout: 700 * time.Millisecond,
		Connect: func(string) { connected <- true },
		Reset:   func(string) { resets <- true },
	})
	if err != nil {
		t.Fatal(err)
	}
	zzStreams(func(ctx context.Context, k int) (*gpb.SubscribeResponse, error) {
		return nil, errors.New("stream failed")
	}, func(ctx context.Context, k int) (*gpb.SubscribeResponse, error) {
		select {
		case <-ctx.Done():
			return nil, ctx.Err()
		case <-time.After(100 * time.Millisecond):
			return zzSync, nil
		}
	})
	if err := m.Add("d", zzTarget(), zzReq()); err != nil {
		t.Fatal(err)
	}
	<-resets
	<-connected
	select {
	case <-resets:
		t.Error("a session that receives a message every 100 ms was ended by a receive timeout of 700 ms")
	case <-time.After(1500 * time.Millisecond):
	}
	m.Remove("d")
}
''', 'a receive timeout, and a stream that failed less than that timeout before the next one was opened', 'the timer of the failed stream ends the healthy stream that follows it')

bug('c13-duplicate-add', 'C13', 'manager', [(MG, '''	defer m.mu.Unlock()
	m.mu.Lock()
	if _, ok := m.targets[name]; ok {
		return fmt.Errorf("target %q already added", name)
	}
	if len(t.GetAddresses()) == 0 {
		return fmt.Errorf("no addresses for target %q", name)
	}
''', '''	m.mu.Lock()
	_, ok := m.targets[name]
	m.mu.Unlock()
	if ok {
		return fmt.Errorf("target %q already added", name)
	}
	if len(t.GetAddresses()) == 0 {
		return fmt.Errorf("no addresses for target %q", name)
	}
	defer m.mu.Unlock()
	m.mu.Lock()
''')], MGRHELP + '''
func TestZZ(t *testing.T) {
	zzStreams(func(ctx context.Context, k int) (*gpb.SubscribeResponse, error) {
		<-ctx.Done()
		return nil, ctx.Err()
	})
	m, err := NewManager(Config{ConnectionManager: zzConn{}})
	if err != nil {
		t.Fatal(err)
	}
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		var wg sync.WaitGroup
		var mu sync.Mutex
		added := 0
		start := make(chan bool)
		for i := 0; i < 16; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if m.Add("d", zzTarget(), zzReq()) == nil {
					mu.Lock()
					added++
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		if added != 1 {
			t.Fatalf("%d of 16 concurrent Adds of one target succeeded", added)
		}
		if err := m.Remove("d"); err != nil {
			t.Fatal(err)
		}
	}
}
''', 'two Add calls for one name at the same time', 'both are accepted; one of the two monitors can never be removed')

bug('c13-second-reconnect', 'C13', 'manager', [(MG, '''				sCtx = m.reconnectCtx(ctx, ta)
			default:
			}
''', '''				if ta.receiveTimeout == 0 {
					sCtx = m.reconnectCtx(ctx, ta)
				} else {
					sCtx = ctx
				}
			default:
			}
''')], MGRHELP + '''
func TestZZ(t *testing.T) {
	RetryBaseDelay, RetryMaxDelay, RetryRandomization = 50*time.Millisecond, 50*time.Millisecond, 0
	resets := make(chan bool, 10)
	m, err := NewManager(Config{
		ConnectionManager: zzConn{}, ReceiveTimeout: 200 * time.Millisecond,
		Reset: func(string) { resets <- true },
	})
	if err != nil {
		t.Fatal(err)
	}
	zzStreams(func(ctx context.Context, k int) (*gpb.SubscribeResponse, error) {
		<-ctx.Done()
		return nil, ctx.Err()
	})
	if err := m.Add("d", zzTarget(), zzReq()); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 4; i++ {
		select {
		case <-resets:
		case <-time.After(5 * time.Second):
			t.Fatalf("silent session %d was not ended by the receive timeout of 200 ms", i+1)
		}
	}
	m.Remove("d")
}
''', 'a receive timeout and two silent sessions in a row', 'after the first forced reconnect no silent session is ended any more')

bug('c16-waiter-leak', 'C16', 'connection', [('connection/connection.go', '''		<-c.ready
''', '''		select {
		case <-c.ready:
		case <-ctx.Done():
			return nil, func() {}, ctx.Err()
		}
''')], '''package connection

import (
	"context"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

func TestZZ(t *testing.T) {
	dials := make(chan bool, 10)
	goon := make(chan bool, 10)
	m, err := NewManagerCustom(map[string]Dial{DEFAULT: func(ctx context.Context, target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
		dials <- true
		<-goon
		return grpc.NewClient("passthrough:///"+target, grpc.WithTransportCredentials(insecure.NewCredentials()))
	}})
	if err != nil {
		t.Fatal(err)
	}
	type res struct {
		done func()
		err  error
	}
	get := func(ctx context.Context) chan res {
		r := make(chan res, 1)
		go func() {
			_, done, err := m.Connection(ctx, "a:1", DEFAULT)
			r <- res{done, err}
		}()
		return r
	}
	a := get(context.Background())
	<-dials
	ctx, cancel := context.WithCancel(context.Background())
	b := get(ctx)
	time.Sleep(200 * time.Millisecond)
	cancel()
	time.Sleep(200 * time.Millisecond)
	goon <- true
	ra, rb := <-a, <-b
	if ra.err != nil {
		t.Fatal(ra.err)
	}
	ra.done()
	rb.done()
	goon <- true
	c := <-get(context.Background())
	if c.err != nil {
		t.Fatal(c.err)
	}
	if len(dials) != 1 {
		t.Fatal("all holders released the connection, yet the next request did not dial afresh")
	}
}
''', 'a requester whose context is cancelled while it waits for the dial of another one', 'its reference is never released: the connection stays open after the last holder released it')

bug('c17-revision-wraps', 'C17', 'target', [('target/target.go', '''	case cf.Revision <= c.configuration.GetRevision():
''', '''	case cf.Revision-c.configuration.GetRevision() <= 0:
''')], '''package target

import (
	"math"
	"testing"

	pb "github.com/openconfig/gnmi/proto/target"
)

func TestZZ(t *testing.T) {
	c := NewConfig(Handler{})
	load := func(r int64) error { return c.Load(&pb.Configuration{Revision: r}) }
	if err := load(-5); err != nil {
		t.Fatal(err)
	}
	if err := load(math.MaxInt64); err != nil {
		t.Errorf("a greater revision was refused: %v", err)
	}
	if err := load(math.MaxInt64 - 1); err == nil && c.Current().GetRevision() == math.MaxInt64-1 {
		t.Log("loaded", c.Current().GetRevision())
	}
	if err := load(math.MinInt64); err == nil {
		t.Errorf("the smallest revision was loaded over a greater one")
	}
}
''', 'revisions more than 2^63-1 apart', 'a greater revision is refused and a smaller one applied')

bug('c17-request-extension', 'C17', 'target', [('target/target.go', '''			if !proto.Equal(old, new) {
''', '''			if !proto.Equal(old.GetSubscribe(), new.GetSubscribe()) {
''')], '''package target

import (
	"testing"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	epb "github.com/openconfig/gnmi/proto/gnmi_ext"
	pb "github.com/openconfig/gnmi/proto/target"
)

func TestZZ(t *testing.T) {
	var got *gpb.SubscribeRequest
	c := NewConfig(Handler{Update: func(u Update) { got = u.Request }})
	conf := func(rev int64, id epb.ExtensionID) *pb.Configuration {
		return &pb.Configuration{
			Revision: rev,
			Target:   map[string]*pb.Target{"d": {Addresses: []string{"a"}, Request: "r"}},
			Request: map[string]*gpb.SubscribeRequest{"r": {
				Request:   &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{}},
				Extension: []*epb.Extension{{Ext: &epb.Extension_RegisteredExt{RegisteredExt: &epb.RegisteredExtension{Id: id}}}},
			}},
		}
	}
	if err := c.Load(conf(1, 1)); err != nil {
		t.Fatal(err)
	}
	if err := c.Load(conf(2, 2)); err != nil {
		t.Fatal(err)
	}
	if got == nil || got.Extension[0].GetRegisteredExt().GetId() != 2 {
		t.Errorf("the target was not updated when its request changed; update: %v", got)
	}
}
''', 'a configuration that changes only the extensions of a subscription request', 'the targets using the request are not announced as updated')

CLHELP = '''package client

import (
	"context"
	"errors"
	"testing"
	"time"
)

var _ = errors.New

type zzClient struct {
	Client
	sub func(ctx context.Context, k int) error
	k   int
}

func (c *zzClient) Subscribe(ctx context.Context, q Query, _ ...string) error {
	c.k++
	return c.sub(ctx, c.k)
}
func (c *zzClient) Close() error { return nil }
'''
bug('c18-close-between', 'C18', 'client', [('client/reconnect.go', '''		p.closed = true

		return p.subscribeDone''', '''		p.closed = p.cancel == nil

		return p.subscribeDone''')], CLHELP + '''
func TestZZ(t *testing.T) {
	RetryBaseDelay, RetryMaxDelay = 20*time.Millisecond, 20*time.Millisecond
	c := Reconnect(&zzClient{sub: func(ctx context.Context, k int) error { return errors.New("refused") }}, nil, nil)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	c.Subscribe(ctx, Query{Type: Stream})
	c.Close()
	done := make(chan bool)
	go func() { c.Subscribe(context.Background(), Query{Type: Stream}); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("Subscribe of a closed client does not return")
	}
}
''', 'a Subscribe after Close of a client that had subscribed before', 'the Close before Subscribe is forgotten and Subscribe reconnects for ever')

bug('c18-reset-after-error-only', 'C18', 'client', [('client/reconnect.go', '''		if p.reset != nil {
			p.reset()
		}''', '''		if p.reset != nil && err != nil {
			p.reset()
		}''')], CLHELP + '''
func TestZZ(t *testing.T) {
	RetryBaseDelay, RetryMaxDelay = 20*time.Millisecond, 20*time.Millisecond
	resets := 0
	ctx, cancel := context.WithCancel(context.Background())
	at := -1
	c := Reconnect(&zzClient{sub: func(ctx context.Context, k int) error {
		if k == 3 {
			at = resets
			cancel()
		}
		return nil
	}}, nil, func() { resets++ })
	c.Subscribe(ctx, Query{Type: Stream})
	if at != 2 {
		t.Fatalf("%d resets before the third attempt", at)
	}
}
''', 'an attempt that ends without an error (the server ended the stream)', 'the reset callback is not invoked before the retry')
