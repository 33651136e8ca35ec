package harness

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vnet"
)

// The in-memory TCP is the environment model of every check. This test binds
// it to the real one: every sequence of operations on the two ends of a
// connection, up to a depth, runs on the model and on real loopback TCP, and
// every result has to be the same.

var fDepth = flag.Int("depth", 4, "length of the sequences of TestConform")

type endpoint interface {
	net.Conn
	CloseWrite() error
	CloseRead() error
	SetLinger(int) error
	File() (*os.File, error)
}

const confOps = "wrRcxhHp"

func errName(err error) string {
	var no syscall.Errno
	switch {
	case err == nil:
		return ""
	case err == io.EOF:
		return "EOF"
	case errors.Is(err, net.ErrClosed):
		return "closed"
	case errors.Is(err, os.ErrDeadlineExceeded):
		return "deadline"
	case errors.As(err, &no):
		return no.Error()
	}
	return "other:" + err.Error()
}

// step runs one operation; block says that the model has a read wait.
func step(c endpoint, op byte, pending int, block bool) string {
	wait := time.Second
	if block {
		wait = time.Millisecond
		if _, model := c.(*vnet.TCPConn); model {
			wait = -time.Millisecond
		}
	}
	switch op {
	case 'w':
		n, err := c.Write([]byte("abc"))
		return fmt.Sprint(n, " ", errName(err))
	case 'r', 'R':
		b := make([]byte, 2)
		c.SetReadDeadline(time.Now().Add(wait))
		defer c.SetReadDeadline(time.Time{})
		if op == 'R' && pending > 0 {
			b = make([]byte, pending)
			n, err := io.ReadFull(c, b)
			return fmt.Sprint(n, " ", errName(err))
		}
		if op == 'r' && pending > 1 {
			n, err := io.ReadFull(c, b)
			return fmt.Sprint(n, " ", errName(err))
		}
		n, err := c.Read(b)
		return fmt.Sprint(n, " ", errName(err))
	case 'c':
		return errName(c.Close())
	case 'x':
		c.SetLinger(0)
		return errName(c.Close())
	case 'h':
		err := c.CloseWrite()
		if errors.Is(err, syscall.ENOTCONN) {
			err = nil // shutting down after a reset: nothing depends on its result
		}
		return errName(err)
	case 'H':
		err := c.CloseRead()
		if errors.Is(err, syscall.ENOTCONN) {
			err = nil
		}
		return errName(err)
	case 'p':
		f, err := c.File()
		if err != nil {
			return "file " + errName(err)
		}
		defer f.Close()
		b := []byte{0}
		n, _, err := syscall.Recvfrom(int(f.Fd()), b, syscall.MSG_PEEK|syscall.MSG_DONTWAIT)
		syscall.SetNonblock(int(f.Fd()), true)
		if err != nil {
			n = 0
		}
		return fmt.Sprint(n, " ", errName(err))
	}
	panic(op)
}

func TestConform(t *testing.T) {
	depth := *fDepth
	nops := len(confOps)
	total := nops
	for i := 1; i < depth; i++ {
		total *= nops * 2
	}
	workers := runtime.NumCPU()
	var next, bad, steps atomic.Int64
	var vmu sync.Mutex // the model is one network
	vnet.Reset()
	vl, err := vnet.Listen("tcp", ":7001")
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var rls []net.Listener
			for i := 0; i < 8; i++ {
				l, err := net.Listen("tcp", fmt.Sprintf("127.0.%d.%d:0", w+1, i+1))
				if err != nil {
					t.Error(err)
					return
				}
				defer l.Close()
				rls = append(rls, l)
			}
			for {
				i := int(next.Add(1)) - 1
				if i >= total || bad.Load() > 20 {
					return
				}
				seq := make([]int, depth)
				k := i
				seq[0] = k % nops
				k /= nops
				for d := 1; d < depth; d++ {
					seq[d] = k % (2 * nops)
					k /= 2 * nops
				}
				// on the model
				want := make([]string, depth)
				pend := make([]int, depth)
				block := make([]bool, depth)
				name := ""
				func() {
					vmu.Lock()
					a, err := vnet.Connect(7001)
					if err != nil {
						panic(err)
					}
					b, err := vl.Accept()
					vmu.Unlock()
					if err != nil {
						panic(err)
					}
					e := [2]*vnet.TCPConn{a, b.(*vnet.TCPConn)}
					for d, o := range seq {
						name += string("AB"[o/nops]) + string(confOps[o%nops]) + " "
						pend[d] = e[o/nops].Pending()
						block[d] = !e[o/nops].Readable()
						want[d] = step(e[o/nops], confOps[o%nops], pend[d], block[d])
					}
					a.SetLinger(0)
					a.Close()
					b.Close()
					vnet.Drop(a)
				}()
				// on loopback TCP
				real := func(pause time.Duration) (int, string) {
					l := rls[i%len(rls)]
					a, err := net.Dial("tcp", l.Addr().String())
					if err != nil {
						return -1, err.Error()
					}
					b, err := l.Accept()
					if err != nil {
						return -1, err.Error()
					}
					defer func() {
						a.(*net.TCPConn).SetLinger(0)
						b.(*net.TCPConn).SetLinger(0)
						a.Close()
						b.Close()
					}()
					e := [2]endpoint{a.(*net.TCPConn), b.(*net.TCPConn)}
					for d, o := range seq {
						got := step(e[o/nops], confOps[o%nops], pend[d], block[d])
						steps.Add(1)
						if got != want[d] {
							return d, got
						}
						time.Sleep(pause)
					}
					return depth, ""
				}
				d, got := real(0)
				for try := 0; d < depth && try < 3; try++ {
					d, got = real(20 * time.Millisecond)
				}
				if d < depth {
					bad.Add(1)
					if d < 0 {
						t.Errorf("%s: %s", name, got)
					} else {
						t.Errorf("%s: step %d: TCP %q, model %q", name, d+1, got, want[d])
					}
				}
			}
		}()
	}
	wg.Wait()
	fmt.Printf("CONFORM %d %d %d %d\n", depth, total, steps.Load(), bad.Load())
	t.Logf("%d sequences of %d operations, %d operations compared, %d differ", total, depth, steps.Load(), bad.Load())
}

// TestConformListen does the same for listeners: connecting, accepting,
// closing the listener, listening again, and what clients in the queue see.
func TestConformListen(t *testing.T) {
	const ops = "lLCacxwrSR"
	depth := *fDepth
	total := 1
	for i := 1; i < depth; i++ {
		total *= len(ops)
	}
	type world struct {
		listen  func() (net.Listener, error)
		connect func() (endpoint, error)
		model   bool
		l       net.Listener
		cs, ss  []endpoint
	}
	last := func(e []endpoint) endpoint {
		if len(e) == 0 {
			return nil
		}
		return e[len(e)-1]
	}
	run := func(w *world, op byte, block bool) string {
		dl := func() time.Time {
			switch {
			case block && w.model:
				return time.Now().Add(-time.Millisecond)
			case block:
				return time.Now().Add(time.Millisecond)
			}
			return time.Now().Add(time.Second)
		}
		rd := func(c endpoint) string {
			if c == nil {
				return ""
			}
			c.SetReadDeadline(dl())
			n, err := c.Read(make([]byte, 1))
			return fmt.Sprint(n, " ", errName(err))
		}
		switch op {
		case 'l':
			l, err := w.listen()
			if err != nil {
				return errName(err)
			}
			w.l = l
		case 'L':
			return errName(w.l.Close())
		case 'C':
			c, err := w.connect()
			if err != nil {
				return errName(err)
			}
			w.cs = append(w.cs, c)
		case 'a':
			if x, ok := w.l.(interface{ SetDeadline(time.Time) error }); ok {
				x.SetDeadline(dl())
			}
			c, err := w.l.Accept()
			if err != nil {
				return errName(err)
			}
			w.ss = append(w.ss, c.(endpoint))
		case 'c', 'x':
			if c := last(w.cs); c != nil {
				if op == 'x' {
					c.SetLinger(0)
				}
				return errName(c.Close())
			}
		case 'w':
			if c := last(w.cs); c != nil {
				n, err := c.Write([]byte("a"))
				return fmt.Sprint(n, " ", errName(err))
			}
		case 'r':
			return rd(last(w.cs))
		case 'S':
			return rd(last(w.ss))
		case 'R':
			if len(w.cs) > 0 {
				return rd(w.cs[0])
			}
		}
		return ""
	}
	vnet.Reset()
	steps, bad := 0, 0
	for i := 0; i < total && bad < 20; i++ {
		seq := []byte{'l'}
		for d, k := 1, i; d < depth; d++ {
			seq = append(seq, ops[k%len(ops)])
			k /= len(ops)
		}
		vport := 8000
		m := &world{model: true, listen: func() (net.Listener, error) { return vnet.Listen("tcp", fmt.Sprintf(":%d", vport)) },
			connect: func() (endpoint, error) { return vnet.Connect(vport) }}
		want, block := make([]string, depth), make([]bool, depth)
		for d, op := range seq {
			c := endpoint(nil)
			switch op {
			case 'r':
				c = last(m.cs)
			case 'S':
				c = last(m.ss)
			case 'R':
				if len(m.cs) > 0 {
					c = m.cs[0]
				}
			case 'a':
				block[d] = !m.l.(*vnet.TCPListener).Ready()
			}
			if c != nil {
				block[d] = !c.(*vnet.TCPConn).Readable()
			}
			want[d] = run(m, op, block[d])
		}
		m.l.Close()
		vnet.Reset()
		play := func(pause time.Duration) (int, string) {
			addr := fmt.Sprintf("127.1.%d.%d:0", i>>8&255, i&255)
			r := &world{}
			r.listen = func() (net.Listener, error) {
				l, err := net.Listen("tcp", addr)
				if err == nil {
					addr = l.Addr().String()
				}
				return l, err
			}
			r.connect = func() (endpoint, error) {
				c, err := net.Dial("tcp", addr)
				if err != nil {
					return nil, err
				}
				return c.(*net.TCPConn), nil
			}
			defer func() {
				for _, c := range append(r.cs, r.ss...) {
					c.SetLinger(0)
					c.Close()
				}
				if r.l != nil {
					r.l.Close()
				}
			}()
			for d, op := range seq {
				got := run(r, op, block[d])
				steps++
				if got != want[d] {
					return d, got
				}
				if r.l == nil {
					return d, "no listener"
				}
				time.Sleep(pause)
			}
			return depth, ""
		}
		d, got := play(0)
		for try := 0; d < depth && try < 3; try++ {
			d, got = play(20 * time.Millisecond)
		}
		if d < depth {
			bad++
			t.Errorf("%s: step %d: TCP %q, model %q", seq, d+1, got, want[d])
		}
	}
	fmt.Printf("CONFORM-LISTEN %d %d %d %d\n", depth, total, steps, bad)
}
