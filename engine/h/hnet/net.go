// Package hnet is the simulated network of the end-to-end runs: net.Dial and
// net.Listen (through the overlaid net package) connect endpoints of this process
// over in-memory streams with seeded latency, fragmentation, bounded buffers,
// refusals, resets and stalls.
package hnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/openconfig/gnmi/zzsim/sim"
)

// Net is the network of one run.
type Net struct {
	s     *sim.Run
	Frag  int           // a read returns at most so many bytes (0: no limit)
	Lag   time.Duration // delivery delay
	Buf   int           // bytes buffered per direction
	mu    sync.Mutex
	ln    map[string]*listener
	conns []*link
	down  map[string]bool // addresses that refuse connections
	Dials map[string]int
	next  int
}

// Install makes n the network of this run.
func Install(s *sim.Run) *Net {
	n := &Net{s: s, Buf: 64 << 10, ln: map[string]*listener{}, down: map[string]bool{}, Dials: map[string]int{}}
	net.SimDialHook = n.dial
	net.SimListenHook = n.listen
	return n
}

func port(a string) string {
	if i := strings.LastIndex(a, ":"); i >= 0 {
		return a[i:]
	}
	return a
}

type addr string

func (addr) Network() string  { return "tcp" }
func (a addr) String() string { return string(a) }

func tcpAddr(a string) net.Addr {
	h, p, err := net.SplitHostPort(a)
	if err != nil {
		return addr(a)
	}
	ip := net.ParseIP(h)
	pn, _ := strconv.Atoi(p)
	if ip == nil && h != "" {
		return addr(a)
	}
	return &net.TCPAddr{IP: ip, Port: pn}
}

type listener struct {
	n      *Net
	a      string
	ch     chan net.Conn
	done   chan struct{}
	closed bool
}

func (n *Net) listen(network, a string) (net.Listener, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if port(a) == ":0" {
		n.next++
		a = strings.TrimSuffix(a, ":0") + ":" + strconv.Itoa(40000+n.next)
	}
	if n.ln[a] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &listener{n: n, a: a, ch: make(chan net.Conn, 16), done: make(chan struct{})}
	n.ln[a] = l
	return l, nil
}

func (l *listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *listener) Close() error {
	l.n.mu.Lock()
	defer l.n.mu.Unlock()
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	close(l.done)
	if l.n.ln[l.a] == l {
		delete(l.n.ln, l.a)
	}
	return nil
}

func (l *listener) Addr() net.Addr { return tcpAddr(l.a) }

// Down makes an address refuse connections (or accept them again).
func (n *Net) Down(a string, down bool) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.down[a] = down
}

// Cut resets the connections to an address and returns how many there were.
func (n *Net) Cut(a string) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	k := 0
	for _, l := range n.conns {
		if l.to == a && l.reset() {
			k++
		}
	}
	return k
}

// Stall stops delivery on the connections to an address for d.
func (n *Net) Stall(a string, d time.Duration) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	k := 0
	for _, l := range n.conns {
		if l.to == a && !l.dead() {
			l.ab.hold(d)
			l.ba.hold(d)
			k++
		}
	}
	return k
}

func refused(network, a string) error {
	return &net.OpError{Op: "dial", Net: network, Addr: tcpAddr(a), Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
}

func (n *Net) dial(ctx context.Context, network, a string) (net.Conn, error) {
	if n.Lag > 0 {
		t := time.NewTimer(n.Lag)
		select {
		case <-t.C:
		case <-ctx.Done():
			t.Stop()
			return nil, &net.OpError{Op: "dial", Net: network, Addr: tcpAddr(a), Err: ctx.Err()}
		}
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	n.Dials[a]++
	l := n.ln[a]
	if l == nil {
		l = n.ln[port(a)]
	}
	if n.down[a] || l == nil {
		n.s.Fault("connection_refused")
		return nil, refused(network, a)
	}
	lk := &link{to: a}
	lk.ab = newHalf(n)
	lk.ba = newHalf(n)
	n.next++
	from := "10.9.9.9:" + strconv.Itoa(50000+n.next)
	cl := &conn{l: lk, r: lk.ba, w: lk.ab, la: tcpAddr(from), ra: tcpAddr(a)}
	sv := &conn{l: lk, r: lk.ab, w: lk.ba, la: tcpAddr(a), ra: tcpAddr(from)}
	select {
	case l.ch <- sv:
	default:
		return nil, refused(network, a)
	}
	n.conns = append(n.conns, lk)
	return cl, nil
}

// link is one connection.
type link struct {
	to     string
	ab, ba *half
}

func (l *link) dead() bool {
	l.ab.mu.Lock()
	defer l.ab.mu.Unlock()
	return l.ab.err != nil || l.ab.eof || l.ab.gone
}

func (l *link) reset() bool {
	d := l.dead()
	l.ab.fail(syscall.ECONNRESET)
	l.ba.fail(syscall.ECONNRESET)
	return !d
}

type chunk struct {
	b  []byte
	at time.Time
}

// half is one direction.
type half struct {
	n    *Net
	mu   sync.Mutex
	c    *sync.Cond
	q    []chunk
	size int
	eof  bool  // writer closed
	gone bool  // reader closed
	err  error // reset
	till time.Time
	rd   deadline
	wd   deadline
}

func newHalf(n *Net) *half {
	h := &half{n: n}
	h.c = sync.NewCond(&h.mu)
	return h
}

func (h *half) fail(err error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.err == nil {
		h.err = err
		h.q = nil
	}
	h.c.Broadcast()
}

func (h *half) hold(d time.Duration) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if t := time.Now().Add(d); t.After(h.till) {
		h.till = t
	}
}

type deadline struct {
	at time.Time
	t  *time.Timer
}

// set must be called with h.mu held.
func (d *deadline) set(h *half, t time.Time) {
	if d.t != nil {
		d.t.Stop()
		d.t = nil
	}
	d.at = t
	if !t.IsZero() {
		d.t = time.AfterFunc(time.Until(t), func() {
			h.mu.Lock()
			h.c.Broadcast()
			h.mu.Unlock()
		})
	}
	h.c.Broadcast()
}

func (d *deadline) passed() bool { return !d.at.IsZero() && !time.Now().Before(d.at) }

func (h *half) read(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		switch {
		case h.gone:
			return 0, net.ErrClosed
		case h.rd.passed():
			return 0, os.ErrDeadlineExceeded
		case h.err != nil:
			return 0, h.err
		case len(b) == 0:
			return 0, nil
		}
		if len(h.q) > 0 {
			at := h.q[0].at
			if h.till.After(at) {
				at = h.till
			}
			w := time.Until(at)
			if w <= 0 {
				n := len(b)
				if f := h.n.Frag; f > 0 && n > f {
					n = f
				}
				n = copy(b[:n], h.q[0].b)
				if h.q[0].b = h.q[0].b[n:]; len(h.q[0].b) == 0 {
					h.q = h.q[1:]
				}
				h.size -= n
				h.c.Broadcast()
				return n, nil
			}
			t := time.AfterFunc(w, func() {
				h.mu.Lock()
				h.c.Broadcast()
				h.mu.Unlock()
			})
			h.c.Wait()
			t.Stop()
			continue
		}
		if h.eof {
			return 0, io.EOF
		}
		h.c.Wait()
	}
}

func (h *half) write(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	total := 0
	for {
		switch {
		case h.eof:
			return total, net.ErrClosed
		case h.wd.passed():
			return total, os.ErrDeadlineExceeded
		case h.err != nil:
			return total, h.err
		case h.gone:
			return total, syscall.EPIPE
		}
		if len(b) == 0 {
			return total, nil
		}
		if room := h.n.Buf - h.size; room > 0 {
			n := len(b)
			if n > room {
				n = room
			}
			h.q = append(h.q, chunk{append([]byte(nil), b[:n]...), time.Now().Add(h.n.Lag)})
			h.size += n
			total += n
			b = b[n:]
			h.c.Broadcast()
			continue
		}
		h.c.Wait()
	}
}

type conn struct {
	l      *link
	r, w   *half
	la, ra net.Addr
	once   sync.Once
}

func (c *conn) Read(b []byte) (int, error) {
	n, err := c.r.read(b)
	return n, c.wrap("read", err)
}

func (c *conn) Write(b []byte) (int, error) {
	n, err := c.w.write(b)
	return n, c.wrap("write", err)
}

func (c *conn) wrap(op string, err error) error {
	if err == nil || errors.Is(err, io.EOF) {
		return err
	}
	return &net.OpError{Op: op, Net: "tcp", Source: c.la, Addr: c.ra, Err: err}
}

func (c *conn) Close() error {
	err := net.ErrClosed
	c.once.Do(func() {
		err = nil
		c.w.mu.Lock()
		c.w.eof = true
		c.w.wd.set(c.w, time.Time{})
		c.w.mu.Unlock()
		c.r.mu.Lock()
		c.r.gone = true
		c.r.rd.set(c.r, time.Time{})
		c.r.mu.Unlock()
	})
	return err
}

func (c *conn) LocalAddr() net.Addr  { return c.la }
func (c *conn) RemoteAddr() net.Addr { return c.ra }
func (c *conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *conn) SetReadDeadline(t time.Time) error {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	c.r.rd.set(c.r, t)
	return nil
}
func (c *conn) SetWriteDeadline(t time.Time) error {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	c.w.wd.set(c.w, t)
	return nil
}
