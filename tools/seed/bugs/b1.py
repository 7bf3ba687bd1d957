CACHEHELP = '''package cache

import (
	"testing"
	"time"

	"github.com/openconfig/gnmi/ctree"
	pb "github.com/openconfig/gnmi/proto/gnmi"
)

var _ = time.Now
var _ *ctree.Leaf

func zzPath(e ...string) *pb.Path {
	p := &pb.Path{}
	for _, x := range e {
		p.Elem = append(p.Elem, &pb.PathElem{Name: x})
	}
	return p
}

func zzUpd(v int64, e ...string) *pb.Update {
	return &pb.Update{Path: zzPath(e...), Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: v}}}
}

func zzNoti(target string, ts int64, u ...*pb.Update) *pb.Notification {
	return &pb.Notification{Timestamp: ts, Prefix: &pb.Path{Target: target}, Update: u}
}

func zzGet(t *testing.T, c *Cache, target string, e ...string) (vals []*pb.Notification) {
	c.Query(target, e, func(_ []string, _ *ctree.Leaf, v interface{}) error {
		vals = append(vals, v.(*pb.Notification))
		return nil
	})
	return
}
'''
bug('c02-same-ts-atomic', 'C02', 'cache', [('cache/cache.go',
'''			if !proto.Equal(old, n) {
''', '''			if len(old.GetUpdate()) != len(n.GetUpdate()) || !proto.Equal(old.GetUpdate()[0], n.GetUpdate()[0]) {
''')], CACHEHELP + '''
func TestZZ(t *testing.T) {
	c := New([]string{"d"})
	at := func(a, b int64) *pb.Notification {
		n := zzNoti("d", 100, zzUpd(a, "x"), zzUpd(b, "y"))
		n.Prefix.Elem = zzPath("p").Elem
		n.Atomic = true
		return n
	}
	if err := c.GnmiUpdate(at(1, 2)); err != nil {
		t.Fatal(err)
	}
	if err := c.GnmiUpdate(at(1, 3)); err != nil {
		t.Fatalf("a different value with the same timestamp is rejected: %v", err)
	}
	if v := zzGet(t, c, "d", "p")[0].Update[1].Val.GetIntVal(); v != 3 {
		t.Fatalf("stored %d", v)
	}
}
''', 'an atomic notification resent with the same timestamp and the same first update but a different later one', 'the different value is rejected as stale')

bug('c02-suppress-keeps-old', 'C02', 'cache', [('cache/cache.go',
'''		case n.GetTimestamp() == old.GetTimestamp():
			if !proto.Equal(old, n) {
''', '''		case t.eventDriven && t.synced() && !n.Atomic && !old.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val):
			// Nothing to announce: keep the stored update.
			if realData {
				t.checkTimestamp(nts)
			}
			if n.GetTimestamp() == old.GetTimestamp() && proto.Equal(old, n) {
				return nil, ErrStale
			}
			return nil, nil
		case n.GetTimestamp() == old.GetTimestamp():
			if !proto.Equal(old, n) {
''')], CACHEHELP + '''
func TestZZ(t *testing.T) {
	c := New([]string{"d"})
	c.Sync("d")
	c.GnmiUpdate(zzNoti("d", 100, zzUpd(1, "a")))
	c.GnmiUpdate(zzNoti("d", 300, zzUpd(1, "a")))
	if err := c.GnmiUpdate(zzNoti("d", 200, zzUpd(2, "a"))); err == nil {
		t.Error("an update older than an accepted one was accepted")
	}
	if v := zzGet(t, c, "d", "a")[0].Update[0].Val.GetIntVal(); v != 1 {
		t.Fatalf("stored %d", v)
	}
}
''', 'after sync: a suppressed update with an unchanged value, then an older update with another value', 'the leaf goes back to an older update')

bug('c03-shared-prefix', 'C03', 'cache', [('cache/cache.go',
'''			noti := proto.Clone(n).(*pb.Notification)
			noti.Update = []*pb.Update{u}
''', '''			noti := &pb.Notification{Timestamp: n.Timestamp, Prefix: n.Prefix, Update: []*pb.Update{u}}
			if o := u.GetPath().GetOrigin(); o != "" && noti.Prefix.GetOrigin() == "" {
				// Stored updates carry the origin in the prefix.
				noti.Prefix.Origin = o
			}
''')], CACHEHELP + '''
func TestZZ(t *testing.T) {
	c := New([]string{"d"})
	n := zzNoti("d", 100, zzUpd(1, "a"), zzUpd(2, "b"))
	n.Update[0].Path.Origin = "oc"
	c.GnmiUpdate(n)
	if n.Prefix.Origin != "" {
		t.Fatalf("the caller's prefix was changed: %v", n.Prefix)
	}
}
''', 'a notification with several updates whose first path carries an origin while the prefix has none', "the caller's prefix is modified and later updates of the notification are stored under the wrong origin")

bug('c04-snapshot-before-registration', 'C04', 'subscribe', [('subscribe/subscribe.go',
'''		remove := addSubscription(s.m, c.sr.GetSubscribe(),
''', '''		if !c.sr.GetSubscribe().GetUpdatesOnly() {
			// Queue the snapshot first, streamed updates go behind it.
			s.processSubscription(&c)
		}
		remove := addSubscription(s.m, c.sr.GetSubscribe(),
'''), ('subscribe/subscribe.go', '''		if !c.sr.GetSubscribe().GetUpdatesOnly() {
			go s.processSubscription(&c)
		}
''', '')], '''package subscribe

import (
	"context"
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/peer"

	"github.com/openconfig/gnmi/cache"
	pb "github.com/openconfig/gnmi/proto/gnmi"
)

type zzStream struct {
	pb.GNMI_SubscribeServer
	ctx  context.Context
	reqs chan *pb.SubscribeRequest
	mu   sync.Mutex
	got  map[string]int64
}

func (s *zzStream) Context() context.Context           { return s.ctx }
func (s *zzStream) SetHeader(metadata.MD) error        { return nil }
func (s *zzStream) Recv() (*pb.SubscribeRequest, error) { return <-s.reqs, nil }
func (s *zzStream) Send(r *pb.SubscribeResponse) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, u := range r.GetUpdate().GetUpdate() {
		s.got[u.Path.Elem[len(u.Path.Elem)-1].Name] = u.Val.GetIntVal()
	}
	return nil
}

func TestZZ(t *testing.T) {
	c := cache.New([]string{"d"})
	srv, _ := NewServer(c)
	c.SetClient(srv.Update)
	upd := func(branch, name string) {
		c.GnmiUpdate(&pb.Notification{Timestamp: time.Now().UnixNano(), Prefix: &pb.Path{Target: "d"}, Update: []*pb.Update{{
			Path: &pb.Path{Elem: []*pb.PathElem{{Name: branch}, {Name: name}}}, Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: 1}}}}})
	}
	const n = 30000
	for i := 0; i < n; i++ {
		upd("a", fmt.Sprint(i))
	}
	ctx, cancel := context.WithCancel(peer.NewContext(context.Background(), &peer.Peer{Addr: &net.IPAddr{}}))
	defer cancel()
	st := &zzStream{ctx: ctx, reqs: make(chan *pb.SubscribeRequest, 1), got: map[string]int64{}}
	path := func(e string) *pb.Subscription {
		return &pb.Subscription{Path: &pb.Path{Elem: []*pb.PathElem{{Name: e}}}}
	}
	// Branch b grows from before the subscription until long after its snapshot.
	grown := make(chan int)
	go func() {
		k := 0
		for end := time.Now().Add(1500 * time.Millisecond); time.Now().Before(end); k++ {
			upd("b", fmt.Sprintf("new%d", k))
			time.Sleep(20 * time.Microsecond)
		}
		grown <- k
	}()
	time.Sleep(20 * time.Millisecond)
	st.reqs <- &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: &pb.SubscriptionList{
		Prefix: &pb.Path{Target: "d"}, Mode: pb.SubscriptionList_STREAM,
		Subscription: []*pb.Subscription{path("b"), path("a")}}}}
	go srv.Subscribe(st)
	want, got := n+<-grown, 0
	for k := 0; k < 500 && got != want; k++ {
		time.Sleep(20 * time.Millisecond)
		st.mu.Lock()
		got = len(st.got)
		st.mu.Unlock()
	}
	if got != want {
		t.Fatalf("the subscriber has %d of %d leaves", got, want)
	}
}
''', 'an update accepted while the initial snapshot of a STREAM subscription is being taken', 'the update reaches neither the snapshot nor the stream')

SUBHELP = '''package subscribe

import (
	"context"
	"errors"
	"net"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc/peer"

	"github.com/openconfig/gnmi/cache"
	pb "github.com/openconfig/gnmi/proto/gnmi"
)

var _ = errors.New
var _ = time.Now

type zzStream struct {
	pb.GNMI_SubscribeServer
	ctx  context.Context
	reqs chan *pb.SubscribeRequest
	gate chan struct{}
	mu   sync.Mutex
	got  []*pb.SubscribeResponse
}

func (s *zzStream) Context() context.Context            { return s.ctx }
func (s *zzStream) Recv() (*pb.SubscribeRequest, error) {
	r, ok := <-s.reqs
	if !ok {
		return nil, errors.New("gone")
	}
	return r, nil
}
func (s *zzStream) Send(r *pb.SubscribeResponse) error {
	if s.gate != nil {
		<-s.gate
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.got = append(s.got, r)
	return nil
}

func zzNew(paths ...*pb.Path) (*zzStream, context.CancelFunc) { return zzNewMode(pb.SubscriptionList_STREAM, "*", paths...) }

func zzNewMode(m pb.SubscriptionList_Mode, target string, paths ...*pb.Path) (*zzStream, context.CancelFunc) {
	ctx, cancel := context.WithCancel(peer.NewContext(context.Background(), &peer.Peer{Addr: &net.IPAddr{}}))
	st := &zzStream{ctx: ctx, reqs: make(chan *pb.SubscribeRequest, 4)}
	l := &pb.SubscriptionList{Prefix: &pb.Path{Target: target}, Mode: m}
	for _, p := range paths {
		l.Subscription = append(l.Subscription, &pb.Subscription{Path: p})
	}
	st.reqs <- &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: l}}
	return st, cancel
}

func zzPath(e ...string) *pb.Path {
	p := &pb.Path{}
	for _, x := range e {
		p.Elem = append(p.Elem, &pb.PathElem{Name: x})
	}
	return p
}

func zzUpd(c *cache.Cache, target string, ts, v int64, e ...string) error {
	return c.GnmiUpdate(&pb.Notification{Timestamp: ts, Prefix: &pb.Path{Target: target}, Update: []*pb.Update{{
		Path: zzPath(e...), Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: v}}}}})
}

func (s *zzStream) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.got)
}

func (s *zzStream) wait(n int) bool {
	for k := 0; k < 200; k++ {
		if s.count() >= n {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}
'''
ACLHELP = '''
type zzRPC struct{ f func(string) bool }

func (a zzRPC) Check(t string) bool { return a.f(t) }

type zzACL struct{ deny map[string]bool }

func (a *zzACL) Check(string, string) bool { return false }
func (a *zzACL) NewRPCACL(context.Context) (RPCACL, error) {
	return zzRPC{func(t string) bool { return !a.deny[t] }}, nil
}
'''
bug('c07-checked-target-memo', 'C07', 'subscribe', [('subscribe/subscribe.go',
'''		if !c.acl.Check(pre.GetTarget()) {
			// reaching here means notification is denied for sending.
			// return with no error. function caller can continue for next one.
			return nil
		}
''', '''		if pre.GetTarget() != c.checked {
			// Consecutive notifications are mostly for the same target.
			if !c.acl.Check(pre.GetTarget()) {
				// reaching here means notification is denied for sending.
				// return with no error. function caller can continue for next one.
				if len(notification.GetUpdate().GetUpdate()) > 0 {
					c.checked = ""
				}
				return nil
			}
			c.checked = pre.GetTarget()
		}
'''), ('subscribe/subscribe.go', '''	target string
	sr     *pb.SubscribeRequest
''', '''	target string
	// checked is the target of the last notification sent.
	checked string
	sr      *pb.SubscribeRequest
''')], SUBHELP + '''
type zzRPC struct{ f func(string) bool }

func (a zzRPC) Check(t string) bool { return a.f(t) }

type zzACL2 struct{ calls map[string]int }

func (a *zzACL2) Check(string, string) bool { return false }
func (a *zzACL2) NewRPCACL(context.Context) (RPCACL, error) {
	return zzRPC{func(t string) bool {
		a.calls[t]++
		return a.calls[t] < 2
	}}, nil
}

// Authorisation for a target is withdrawn between two notifications.
func TestZZ(t *testing.T) {
	c := cache.New([]string{"a"})
	acl := &zzACL2{calls: map[string]int{}}
	srv, _ := NewServer(c, WithACL(acl))
	c.SetClient(srv.Update)
	zzUpd(c, "a", 1, 1, "x")
	st, cancel := zzNew(zzPath("x"))
	go srv.Subscribe(st)
	if !st.wait(2) {
		t.Fatal("no snapshot")
	}
	zzUpd(c, "a", 2, 2, "x")
	time.Sleep(200 * time.Millisecond)
	cancel()
	if n := st.count(); n != 2 {
		t.Fatalf("%d responses: data was sent after the authorisation was withdrawn", n)
	}
}
''', 'authorisation for a target withdrawn while an all-targets stream is open', 'responses for a target no longer authorised are sent')

bug('c07-delete-leak', 'C07', 'subscribe', [('subscribe/subscribe.go',
'''	if pre := notification.GetUpdate().GetPrefix(); pre != nil {
		if !c.acl.Check(pre.GetTarget()) {
''', '''	if pre := notification.GetUpdate().GetPrefix(); pre != nil {
		// The end of a target is known to everybody.
		if !isTargetDelete(r.n) && !c.acl.Check(pre.GetTarget()) {
''')], SUBHELP + ACLHELP + '''
func TestZZ(t *testing.T) {
	c := cache.New([]string{"a", "b"})
	srv, _ := NewServer(c, WithACL(&zzACL{deny: map[string]bool{"b": true}}))
	c.SetClient(srv.Update)
	st, cancel := zzNew(zzPath())
	go srv.Subscribe(st)
	if !st.wait(1) {
		t.Fatal("no sync")
	}
	c.Remove("b")
	time.Sleep(200 * time.Millisecond)
	cancel()
	st.mu.Lock()
	defer st.mu.Unlock()
	for _, r := range st.got {
		if r.GetUpdate().GetPrefix().GetTarget() == "b" {
			t.Fatalf("response for a denied target: %v", r)
		}
	}
}
''', 'a target the caller may not see is removed while its all-targets stream is open', 'the whole-target delete of a denied target is sent')

bug('c08-dup-written-to-shared', 'C08', 'subscribe', [('subscribe/subscribe.go',
'''		notification = proto.Clone(notification).(*pb.Notification)
		notification.Update[0].Duplicates = dup
''', '''		notification = &pb.Notification{
			Timestamp: notification.Timestamp,
			Prefix:    proto.Clone(notification.Prefix).(*pb.Path),
			Atomic:    notification.Atomic,
			Delete:    notification.Delete,
			Update:    append([]*pb.Update(nil), notification.Update...),
		}
		notification.Update[0].Duplicates = dup
''')], SUBHELP + '''
func TestZZ(t *testing.T) {
	c := cache.New([]string{"a"})
	srv, _ := NewServer(c)
	c.SetClient(srv.Update)
	slow, cancel := zzNew(zzPath("x"))
	slow.gate = make(chan struct{})
	defer cancel()
	go srv.Subscribe(slow)
	slow.gate <- struct{}{}
	slow.wait(1)
	for i := int64(1); i < 20; i++ {
		zzUpd(c, "a", i, i, "x")
	}
	close(slow.gate)
	time.Sleep(200 * time.Millisecond)
	st, cancel2 := zzNew(zzPath("x"))
	defer cancel2()
	go srv.Subscribe(st)
	if !st.wait(2) {
		t.Fatal("no snapshot")
	}
	if d := st.got[0].GetUpdate().Update[0].Duplicates; d != 0 {
		t.Fatalf("a subscriber that missed nothing is told of %d duplicates", d)
	}
}
''', "a slow subscriber's update is coalesced, then another subscriber is sent the same stored update", "the duplicate count of one subscriber's backlog is reported to another and written into the cache")

bug('c10-root-add', 'C10', 'ctree', [('ctree/tree.go', '''	defer t.mu.Unlock()
	t.mu.Lock()
	if _, ok := t.leafBranch.(branch); ok {
		return fmt.Errorf("attempted to add a leaf in place of a branch")
	}
	t.leafBranch = value
''', '''	if t.IsBranch() {
		return fmt.Errorf("attempted to add a leaf in place of a branch")
	}
	defer t.mu.Unlock()
	t.mu.Lock()
	t.leafBranch = value
''')], '''package ctree

import (
	"sync"
	"testing"
)

func TestZZ(t *testing.T) {
	for round := 0; round < 400000; round++ {
		tr := &Tree{}
		var wg sync.WaitGroup
		start := make(chan struct{})
		var e1, e2 error
		wg.Add(2)
		go func() { defer wg.Done(); <-start; e1 = tr.Add(nil, 1) }()
		go func() { defer wg.Done(); <-start; e2 = tr.Add([]string{"a"}, 2) }()
		close(start)
		wg.Wait()
		if e1 == nil && e2 == nil {
			t.Fatalf("round %d: a leaf and a branch were both added at the root", round)
		}
	}
}
''', 'a leaf and a path beneath it added concurrently to an empty tree', 'both adds succeed and one of them is lost')

bug('c10-unlocked-value', 'C10', 'ctree', [('ctree/tree.go', '''func (t *Tree) GetLeafValue(path []string) interface{} {
	return t.Get(path).Value()
''', '''func (t *Tree) GetLeafValue(path []string) interface{} {
	l := t.Get(path)
	if l == nil || l.IsBranch() {
		return nil
	}
	return l.leafBranch
''')], '''package ctree

import (
	"sync"
	"testing"
)

func TestZZ(t *testing.T) {
	tr := &Tree{}
	tr.Add([]string{"a"}, 0)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 20000; i++ {
			tr.GetLeafValue([]string{"a"})
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 20000; i++ {
			tr.GetLeaf([]string{"a"}).Update(i)
		}
	}()
	wg.Wait()
}
''', 'a lookup of a leaf concurrent with an update of it', 'data race on the leaf value', flags='-race')

bug('c11-closed-first', 'C11', 'coalesce', [('coalesce/coalesce.go', '''			// Make sure all values are delivered.
			if q.Len() == 0 {
				return nil, 0, errClosedQueue
			}
''', '''			// All values were delivered.
			return nil, 0, errClosedQueue
''')], '''package coalesce

import (
	"context"
	"testing"
)

func TestZZ(t *testing.T) {
	for round := 0; round < 400000; round++ {
		q := NewQueue()
		q.Insert(1)
		ready := make(chan struct{})
		go func() {
			<-ready
			q.Insert(3)
			q.Insert(4)
			q.Close()
		}()
		n := 0
		close(ready)
		for {
			if _, _, err := q.Next(context.Background()); err != nil {
				break
			}
			n++
		}
		if n != 3 {
			t.Fatalf("round %d: %d of 3 items were delivered before the queue was reported closed", round, n)
		}
	}
}
''', "an insertion and the close between a consumer's failed attempt to take an item and its wait", 'items inserted before the close are lost')
