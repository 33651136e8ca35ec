// Package vnet stands in for package net: TCP is an in-memory network whose
// every operation is a scheduling point. Everything else is re-exported from
// net by a generated file.
package vnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"sync"
	"syscall"
	"time"
	"unsafe"
	"weak"

	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vs"
)

// link is the shared identity of both ends of a connection.
type link struct{ _ [8]byte }

type TCPConn struct {
	lk            *link
	id            int
	server        bool
	peer          *TCPConn
	local, remote *net.TCPAddr

	segs    [][]byte // unread input, one element per write of the peer
	inBytes int
	inEOF   bool
	sockErr syscall.Errno
	reset   bool
	closed  bool
	wrShut  bool
	rdShut  bool
	linger0 bool
	rdl     time.Time
	wdl     time.Time
	cap     int // receive capacity, 0: unlimited
	blocked int
	hb      byte
	mirror  []int
}

type TCPListener struct {
	addr    *net.TCPAddr
	port    int
	backlog []*TCPConn
	closed  bool
	dl      time.Time
	hb      [8]byte
}

var (
	listeners []*TCPListener
	conns     []*TCPConn
	nextPort  int
	nextID    int
	mu        sync.Mutex // unmanaged callers only
	bcast     chan struct{}
)

func init() { vs.OnReset(resetAll) }

func resetAll() {
	for _, c := range conns {
		for _, fd := range c.mirror {
			syscall.Close(fd)
		}
		c.mirror = nil
	}
	listeners, conns = nil, nil
	nextPort, nextID = 40000, 0
	bcast = make(chan struct{})
}

// Reset drops all state (also called at the start of every execution).
func Reset() { resetAll() }

func enter() bool {
	if vs.Managed() {
		return false
	}
	mu.Lock()
	return true
}

func leave(native bool) {
	if native {
		if bcast != nil {
			close(bcast)
		}
		bcast = make(chan struct{})
		mu.Unlock()
	}
}

func await(native bool, obj unsafe.Pointer, skip int, pred func() bool, dl func() time.Time) {
	if !native {
		vs.WaitOpDyn(vs.KNet, uintptr(obj), skip+1, pred, dl)
		return
	}
	for !pred() {
		var tc <-chan time.Time
		var tm *time.Timer
		if d := dl(); !d.IsZero() {
			if !time.Now().Before(d) {
				return
			}
			tm = time.NewTimer(time.Until(d))
			tc = tm.C
		}
		ch := bcast
		mu.Unlock()
		select {
		case <-ch:
		case <-tc:
		}
		if tm != nil {
			tm.Stop()
		}
		mu.Lock()
	}
}

func (c *TCPConn) opErr(op string, err error) error {
	if e, ok := err.(syscall.Errno); ok {
		err = os.NewSyscallError(op, e)
	}
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func passed(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *TCPConn) Read(p []byte) (int, error) {
	if vs.Dying() {
		return 0, c.opErr("read", net.ErrClosed)
	}
	n := enter()
	defer leave(n)
	if c.closed {
		return 0, c.opErr("read", net.ErrClosed)
	}
	if len(p) == 0 {
		return 0, nil
	}
	c.blocked++
	if passed(c.rdl) {
		await(n, unsafe.Pointer(c.lk), 1, func() bool { return true }, c.readDl)
		c.blocked--
		return 0, c.opErr("read", os.ErrDeadlineExceeded)
	}
	await(n, unsafe.Pointer(c.lk), 1, c.Readable, c.readDl)
	c.blocked--
	if c.closed {
		return 0, c.opErr("read", net.ErrClosed)
	}
	if c.inBytes > 0 {
		k := copy(p, c.segs[0])
		if k == len(c.segs[0]) {
			c.segs = c.segs[1:]
		} else {
			c.segs[0] = c.segs[0][k:]
		}
		c.inBytes -= k
		vs.RaceAcquire(unsafe.Pointer(&c.hb))
		return k, nil
	}
	if c.sockErr != 0 && !c.inEOF { // after the end of the stream a read keeps reporting it, as Linux does
		e := c.sockErr
		c.sockErr = 0
		vs.RaceAcquire(unsafe.Pointer(&c.hb))
		return 0, c.opErr("read", e)
	}
	if c.inEOF || c.reset || c.rdShut {
		vs.RaceAcquire(unsafe.Pointer(&c.hb))
		return 0, io.EOF
	}
	return 0, c.opErr("read", os.ErrDeadlineExceeded)
}

func (c *TCPConn) readDl() time.Time  { return c.rdl }
func (c *TCPConn) writeDl() time.Time { return c.wdl }

func (c *TCPConn) room() int {
	p := c.peer
	if p.cap == 0 || p.closed {
		return 1 << 30
	}
	return p.cap - p.inBytes
}

func (c *TCPConn) Write(p []byte) (int, error) {
	if vs.Dying() {
		return 0, c.opErr("write", net.ErrClosed)
	}
	n := enter()
	defer leave(n)
	done := 0
	for first := true; first || done < len(p); first = false {
		c.blocked++
		if passed(c.wdl) {
			c.blocked--
			return done, c.opErr("write", os.ErrDeadlineExceeded)
		}
		await(n, unsafe.Pointer(c.lk), 1, func() bool {
			return c.closed || c.wrShut || c.sockErr != 0 || c.reset || c.room() > 0
		}, c.writeDl)
		c.blocked--
		switch {
		case c.closed:
			return done, c.opErr("write", net.ErrClosed)
		case c.sockErr != 0:
			e := c.sockErr
			c.sockErr = 0
			return done, c.opErr("write", e)
		case c.reset || c.wrShut:
			return done, c.opErr("write", syscall.EPIPE)
		case c.room() <= 0:
			return done, c.opErr("write", os.ErrDeadlineExceeded)
		}
		k := len(p) - done
		if r := c.room(); k > r {
			k = r
		}
		if k > 0 {
			if c.peer.closed {
				c.gotReset() // data for a closed socket is answered with a reset
			} else if c.peer.rdShut && c.peer.wrShut {
				c.peer.gotReset() // and so is data for one that shut both directions down
				c.gotReset()
			} else {
				vs.RaceRelease(unsafe.Pointer(&c.peer.hb))
				c.peer.segs = append(c.peer.segs, append([]byte(nil), p[done:done+k]...))
				c.peer.inBytes += k
			}
		}
		done += k
	}
	return done, nil
}

func (c *TCPConn) gotReset() {
	if c.reset || c.closed {
		return
	}
	c.reset = true
	if c.inEOF {
		c.sockErr = syscall.EPIPE
	} else {
		c.sockErr = syscall.ECONNRESET
	}
}

// Vanish makes the host of c disappear: nothing more arrives from it, and the
// peer's system gives up on the connection with the given error.
func (c *TCPConn) Vanish(e syscall.Errno) {
	n := enter()
	defer leave(n)
	if !n {
		vs.Point(vs.KNet, uintptr(unsafe.Pointer(c.lk)), 1)
	}
	if c.closed {
		return
	}
	vs.RaceRelease(unsafe.Pointer(&c.peer.hb))
	if p := c.peer; !p.reset && !p.closed {
		p.reset, p.sockErr = true, e
	}
	c.closed = true
	c.segs, c.inBytes = nil, 0
}

func (c *TCPConn) Close() error {
	if vs.Dying() {
		return nil
	}
	n := enter()
	defer leave(n)
	if !n {
		vs.Point(vs.KNet, uintptr(unsafe.Pointer(c.lk)), 1)
	}
	return c.closeNow()
}

func (c *TCPConn) closeNow() error {
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	vs.RaceRelease(unsafe.Pointer(&c.peer.hb))
	vs.RaceRelease(unsafe.Pointer(&c.hb))
	if !c.reset {
		if c.linger0 || c.inBytes > 0 {
			c.peer.gotReset()
		} else {
			c.peer.inEOF = true
		}
	}
	c.segs, c.inBytes = nil, 0
	return nil
}

func (c *TCPConn) CloseWrite() error {
	n := enter()
	defer leave(n)
	if !n {
		vs.Point(vs.KNet, uintptr(unsafe.Pointer(c.lk)), 1)
	}
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.wrShut = true
	vs.RaceRelease(unsafe.Pointer(&c.peer.hb))
	if !c.reset {
		c.peer.inEOF = true
	}
	return nil
}

func (c *TCPConn) CloseRead() error {
	n := enter()
	defer leave(n)
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.rdShut = true
	return nil
}

func (c *TCPConn) LocalAddr() net.Addr  { return c.local }
func (c *TCPConn) RemoteAddr() net.Addr { return c.remote }

func (c *TCPConn) setDl(r, w bool, t time.Time) error {
	if vs.Dying() {
		return nil
	}
	n := enter()
	defer leave(n)
	if !n && c.blocked > 0 {
		vs.Point(vs.KNet, uintptr(unsafe.Pointer(c.lk)), 2)
	}
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	if r {
		c.rdl = t
	}
	if w {
		c.wdl = t
	}
	return nil
}

func (c *TCPConn) SetDeadline(t time.Time) error      { return c.setDl(true, true, t) }
func (c *TCPConn) SetReadDeadline(t time.Time) error  { return c.setDl(true, false, t) }
func (c *TCPConn) SetWriteDeadline(t time.Time) error { return c.setDl(false, true, t) }

func (c *TCPConn) SetLinger(sec int) error                          { c.linger0 = sec == 0; return nil }
func (c *TCPConn) SetNoDelay(bool) error                            { return nil }
func (c *TCPConn) SetKeepAlive(bool) error                          { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error           { return nil }
func (c *TCPConn) SetKeepAliveConfig(cfg net.KeepAliveConfig) error { return nil }
func (c *TCPConn) SetReadBuffer(int) error                          { return nil }
func (c *TCPConn) SetWriteBuffer(int) error                         { return nil }
func (c *TCPConn) MultipathTCP() (bool, error)                      { return false, nil }

func (c *TCPConn) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{c}, r)
}

func (c *TCPConn) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{c})
}

// File returns a real descriptor whose readable state mirrors the connection's.
func (c *TCPConn) File() (*os.File, error) {
	if c.closed {
		return nil, c.opErr("file", net.ErrClosed)
	}
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
	if err != nil {
		return nil, err
	}
	for _, s := range c.segs {
		if len(s) > 4096 {
			s = s[:4096]
		}
		syscall.Write(fds[1], s)
		break
	}
	if c.inEOF || c.reset || c.rdShut {
		if c.sockErr != 0 && !c.inEOF && c.inBytes == 0 {
			syscall.Write(fds[0], []byte{0}) // unread data makes the close a reset
			c.sockErr = 0                    // whoever looks at it has had the error
		}
		syscall.Close(fds[1])
	} else {
		c.mirror = append(c.mirror, fds[1])
	}
	return os.NewFile(uintptr(fds[0]), "vnet"), nil
}

// rawConn lends a descriptor that mirrors the connection's state to each call.
type rawConn struct{ c *TCPConn }

func (c *TCPConn) SyscallConn() (syscall.RawConn, error) {
	if c.closed {
		return nil, c.opErr("raw-control", net.ErrClosed)
	}
	return rawConn{c}, nil
}

func (r rawConn) Control(f func(fd uintptr)) error {
	file, err := r.c.File()
	if err != nil {
		return err
	}
	defer file.Close()
	f(file.Fd())
	return nil
}

func (r rawConn) Read(f func(fd uintptr) bool) error {
	for done := false; ; {
		if err := r.Control(func(fd uintptr) { done = f(fd) }); err != nil || done {
			return err
		}
		n := enter()
		await(n, unsafe.Pointer(r.c.lk), 1, r.c.Readable, r.c.readDl)
		leave(n)
		if !r.c.Readable() {
			return r.c.opErr("raw-read", os.ErrDeadlineExceeded)
		}
	}
}

func (r rawConn) Write(f func(fd uintptr) bool) error {
	return r.Control(func(fd uintptr) { f(fd) })
}

// ---- listeners ----

func Listen(network, address string) (net.Listener, error) {
	l, err := listen(network, address)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func ListenTCP(network string, laddr *net.TCPAddr) (*TCPListener, error) {
	if laddr == nil {
		laddr = &net.TCPAddr{}
	}
	return listen(network, ":"+strconv.Itoa(laddr.Port))
}

type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	if err := ctx.Err(); err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	return Listen(network, address)
}

func listen(network, address string) (*TCPListener, error) {
	switch network {
	case "tcp", "tcp4", "tcp6":
	default:
		return nil, &net.OpError{Op: "listen", Net: network, Err: net.UnknownNetworkError(network)}
	}
	_, ps, err := net.SplitHostPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	port, err := strconv.Atoi(ps)
	if err != nil || port < 0 || port > 65535 {
		return nil, &net.OpError{Op: "listen", Net: network, Err: &net.AddrError{Err: "invalid port", Addr: address}}
	}
	n := enter()
	defer leave(n)
	if port == 0 {
		port = 55000 + len(listeners)
	}
	if !n {
		vs.Point(vs.KNet, uintptr(port), 2)
	}
	for _, l := range listeners {
		if l.port == port && !l.closed {
			return nil, &net.OpError{Op: "listen", Net: network, Addr: l.addr, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		}
	}
	l := &TCPListener{addr: &net.TCPAddr{IP: net.IPv6zero, Port: port}, port: port}
	listeners = append(listeners, l)
	return l, nil
}

func (l *TCPListener) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: l.addr, Err: err}
}

func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.accept()
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) { return l.accept() }

func (l *TCPListener) accept() (*TCPConn, error) {
	if vs.Dying() {
		return nil, l.opErr("accept", net.ErrClosed)
	}
	n := enter()
	defer leave(n)
	if l.closed {
		return nil, l.opErr("accept", net.ErrClosed)
	}
	await(n, unsafe.Pointer(&l.hb), 2, func() bool { return l.closed || len(l.backlog) > 0 }, func() time.Time { return l.dl })
	if l.closed {
		return nil, l.opErr("accept", net.ErrClosed)
	}
	if len(l.backlog) > 0 {
		c := l.backlog[0]
		l.backlog = l.backlog[1:]
		vs.RaceAcquire(unsafe.Pointer(&c.hb))
		return c, nil
	}
	return nil, l.opErr("accept", os.ErrDeadlineExceeded)
}

func (l *TCPListener) Close() error {
	if vs.Dying() {
		return nil
	}
	n := enter()
	defer leave(n)
	if !n {
		vs.Point(vs.KNet, uintptr(unsafe.Pointer(&l.hb)), 1)
	}
	if l.closed {
		return l.opErr("close", net.ErrClosed)
	}
	l.closed = true
	for _, c := range l.backlog {
		c.linger0 = true
		c.closeNow()
	}
	l.backlog = nil
	return nil
}

func (l *TCPListener) Addr() net.Addr                { return l.addr }
func (l *TCPListener) SetDeadline(t time.Time) error { l.dl = t; return nil }

// ---- connecting ----

// Connect opens a client connection to a listening port.
func Connect(port int) (*TCPConn, error) {
	if vs.Dying() {
		return nil, net.ErrClosed
	}
	n := enter()
	defer leave(n)
	if !n {
		obj := uintptr(port)
		for _, l := range listeners {
			if l.port == port && !l.closed {
				obj = uintptr(unsafe.Pointer(&l.hb))
			}
		}
		vs.Point(vs.KNet, obj, 1)
	}
	for _, l := range listeners {
		if l.port == port && !l.closed {
			lk := &link{}
			nextPort++
			nextID++
			ca := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: nextPort}
			sa := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
			a := &TCPConn{lk: lk, id: nextID, local: ca, remote: sa}
			b := &TCPConn{lk: lk, id: nextID, local: sa, remote: ca, server: true}
			a.peer, b.peer = b, a
			l.backlog = append(l.backlog, b)
			conns = append(conns, a, b)
			vs.RaceRelease(unsafe.Pointer(&b.hb))
			return a, nil
		}
	}
	return nil, &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
}

func Dial(network, address string) (net.Conn, error) {
	_, ps, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	port, err := strconv.Atoi(ps)
	if err != nil {
		return nil, err
	}
	c, err := Connect(port)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func DialTimeout(network, address string, _ time.Duration) (net.Conn, error) {
	return Dial(network, address)
}

func DialTCP(network string, laddr, raddr *net.TCPAddr) (*TCPConn, error) {
	if raddr == nil {
		return nil, errors.New("missing address")
	}
	return Connect(raddr.Port)
}

// ---- inspection (driver only) ----

// SetCap bounds the bytes this end buffers; the peer's writes block beyond it.
func (c *TCPConn) SetCap(n int) { c.cap = n }

// Pending is the number of bytes the peer sent that were not read yet.
func (c *TCPConn) Pending() int { return c.inBytes }

// PeerClosed reports whether the other end has closed its socket.
func (c *TCPConn) PeerClosed() bool { return c.peer.closed }

// PeerRead reports whether the other end has read everything sent to it.
func (c *TCPConn) PeerRead() bool { return c.peer.inBytes == 0 }

// OpenServerEnds counts accepted or queued server ends that are not closed.
func OpenServerEnds() (n int) {
	for _, c := range conns {
		if c.server && !c.closed {
			n++
		}
	}
	return
}

func OpenListeners() (n int) {
	for _, l := range listeners {
		if !l.closed {
			n++
		}
	}
	return
}

func Listening(port int) bool {
	for _, l := range listeners {
		if l.port == port && !l.closed {
			return true
		}
	}
	return false
}

// Forget drops the driver's references to a finished connection and returns a
// weak pointer to the server's end.
func Forget(c *TCPConn) weak.Pointer[TCPConn] {
	s := c.peer
	keep := conns[:0:0]
	for _, x := range conns {
		if x != c && x != s {
			keep = append(keep, x)
		}
	}
	conns = keep
	c.peer = &TCPConn{closed: true}
	s.peer = c.peer
	for _, l := range listeners {
		b := l.backlog[:0:0]
		l.backlog = append(b, l.backlog...)
	}
	return weak.Make(s)
}

// Readable reports whether a read would return without waiting.
func (c *TCPConn) Readable() bool {
	return c.closed || c.rdShut || c.inBytes > 0 || c.inEOF || c.sockErr != 0 || c.reset
}

// Ready reports whether an accept would return without waiting.
func (l *TCPListener) Ready() bool { return l.closed || len(l.backlog) > 0 }

// Drop forgets a connection (native callers).
func Drop(c *TCPConn) {
	n := enter()
	defer leave(n)
	for _, x := range []*TCPConn{c, c.peer} {
		for _, fd := range x.mirror {
			syscall.Close(fd)
		}
		x.mirror = nil
	}
	keep := conns[:0]
	for _, x := range conns {
		if x != c && x != c.peer {
			keep = append(keep, x)
		}
	}
	conns = keep
}

// CloseMirrors closes the descriptors this package holds for File.
func CloseMirrors() {
	for _, c := range conns {
		for _, fd := range c.mirror {
			syscall.Close(fd)
		}
		c.mirror = nil
	}
}
