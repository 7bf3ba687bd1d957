// Package pipe connects gNMI Subscribe clients and handlers inside one process:
// every message crosses as wire bytes, in order, through a bounded buffer.
package pipe

import (
	"context"
	"errors"
	"io"
	"net"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
)

// Opt describes the transport of one stream.
type Opt struct {
	Cap  int                 // buffered messages per direction
	Lag  time.Duration       // added before every response is received
	Cut  int                 // the connection is lost after so many responses, 0 never
	Lost func()              // called when it is
	Seen func(proto.Message) // called with every response received
}

// Handler serves one stream.
type Handler func(gpb.GNMI_SubscribeServer) error

type link struct {
	o      Opt
	ctx    context.Context
	cancel context.CancelFunc
	req    chan []byte
	resp   chan []byte
	half   chan struct{} // client sent its last request
	halfed bool
	done   chan struct{} // handler returned
	err    error
	n      int
}

// Conn returns a connection on which every stream is served by h.
func Conn(h Handler, opt func() Opt) *grpc.ClientConn {
	cc, err := grpc.NewClient("passthrough:///pipe", grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithStreamInterceptor(func(ctx context.Context, _ *grpc.StreamDesc, _ *grpc.ClientConn, _ string, _ grpc.Streamer, _ ...grpc.CallOption) (grpc.ClientStream, error) {
			return Open(ctx, h, opt()), nil
		}))
	if err != nil {
		panic(err)
	}
	return cc
}

// Open starts one stream served by h.
func Open(ctx context.Context, h Handler, o Opt) grpc.ClientStream {
	l := &link{o: o, req: make(chan []byte, o.Cap), resp: make(chan []byte, o.Cap), half: make(chan struct{}), done: make(chan struct{})}
	l.ctx, l.cancel = context.WithCancel(ctx)
	sctx := peer.NewContext(l.ctx, &peer.Peer{Addr: &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1}})
	if md, ok := metadata.FromOutgoingContext(ctx); ok {
		sctx = metadata.NewIncomingContext(sctx, md)
	}
	go func() {
		err := h(&server{l: l, ctx: sctx})
		if err != nil {
			if _, ok := status.FromError(err); !ok {
				err = status.Error(codes.Unknown, err.Error())
			}
		}
		l.err = err
		close(l.done)
	}()
	return &clientEnd{l: l}
}

func (l *link) failed() error {
	if l.ctx.Err() == context.DeadlineExceeded {
		return status.Error(codes.DeadlineExceeded, "deadline exceeded")
	}
	return status.Error(codes.Canceled, "canceled")
}

type clientEnd struct{ l *link }

func (c *clientEnd) Header() (metadata.MD, error) { return nil, nil }
func (c *clientEnd) Trailer() metadata.MD         { return nil }
func (c *clientEnd) Context() context.Context     { return c.l.ctx }
func (c *clientEnd) CloseSend() error {
	if !c.l.halfed {
		c.l.halfed = true
		close(c.l.half)
	}
	return nil
}

func (c *clientEnd) SendMsg(m any) error {
	b, err := proto.Marshal(m.(proto.Message))
	if err != nil {
		return status.Error(codes.Internal, err.Error())
	}
	select {
	case c.l.req <- b:
		return nil
	case <-c.l.done:
		return io.EOF
	case <-c.l.ctx.Done():
		return c.l.failed()
	}
}

func (c *clientEnd) RecvMsg(m any) error {
	l := c.l
	if l.o.Lag > 0 {
		time.Sleep(l.o.Lag)
	}
	var b []byte
	select {
	case b = <-l.resp:
	default:
		select {
		case b = <-l.resp:
		case <-l.ctx.Done():
			return l.failed()
		case <-l.done:
			select {
			case b = <-l.resp:
			default:
				l.cancel()
				if l.err != nil {
					return l.err
				}
				return io.EOF
			}
		}
	}
	l.n++
	if l.o.Cut > 0 && l.n > l.o.Cut {
		if l.o.Lost != nil {
			l.o.Lost()
		}
		l.cancel()
		return status.Error(codes.Unavailable, "connection lost")
	}
	if err := proto.Unmarshal(b, m.(proto.Message)); err != nil {
		l.cancel()
		return status.Error(codes.Internal, err.Error())
	}
	if l.o.Seen != nil {
		l.o.Seen(m.(proto.Message))
	}
	return nil
}

type server struct {
	l   *link
	ctx context.Context
}

func (s *server) Context() context.Context     { return s.ctx }
func (s *server) SetHeader(metadata.MD) error  { return nil }
func (s *server) SendHeader(metadata.MD) error { return nil }
func (s *server) SetTrailer(metadata.MD)       {}
func (s *server) SendMsg(m any) error {
	r, ok := m.(*gpb.SubscribeResponse)
	if !ok {
		return errors.New("unexpected message")
	}
	return s.Send(r)
}
func (s *server) RecvMsg(m any) error { return errors.New("not used") }

func (s *server) Send(r *gpb.SubscribeResponse) error {
	b, err := proto.Marshal(r)
	if err != nil {
		return status.Error(codes.Internal, err.Error())
	}
	select {
	case s.l.resp <- b:
		return nil
	case <-s.ctx.Done():
		return s.l.failed()
	}
}

func (s *server) Recv() (*gpb.SubscribeRequest, error) {
	var b []byte
	select {
	case b = <-s.l.req:
	default:
		select {
		case b = <-s.l.req:
		case <-s.l.half:
			select {
			case b = <-s.l.req:
			default:
				return nil, io.EOF
			}
		case <-s.ctx.Done():
			return nil, s.l.failed()
		}
	}
	r := &gpb.SubscribeRequest{}
	if err := proto.Unmarshal(b, r); err != nil {
		return nil, status.Error(codes.Internal, err.Error())
	}
	return r, nil
}
