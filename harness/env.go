package harness

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jimsnab/go-lane"
	kafkamock "github.com/jimsnab/kafka-mock-go"
	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vnet"
	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vs"
)

// plainMode: the code under test is not rewritten, time and the network are real.
var plainMode = os.Getenv("VERIF_PLAIN") == "1"

// E is the environment of one execution.
type E struct {
	x       *vs.X
	free    bool // unscheduled: virtual time only
	ports   int
	muts    []*M
	lane    lane.Lane // of the last mock
	oneLane bool      // all mocks share it
	corr    int32
	ops     int64
	pmu     sync.Mutex
	pfail   *vs.Failure
	pwg     sync.WaitGroup
	conns   []net.Conn // plain mode: closed before the mocks are stopped

	vary    *vary
	first   func(m *M)
	other   *M
	threads atomic.Int64
	varied  int
	kinds   map[int16]int // requests by kind, in a variation
	side    *Cli
}

type failSentinel struct{}

// Fail reports a violated property and ends the calling thread.
func (e *E) Fail(format string, args ...any) {
	if plainMode {
		e.pmu.Lock()
		if e.pfail == nil {
			e.pfail = &vs.Failure{Kind: "oracle", Msg: fmt.Sprintf(format, args...)}
		}
		e.pmu.Unlock()
		panic(failSentinel{})
	}
	e.x.Fail(format, args...)
}

// Code reports a violation with a stable code (known findings are identified by it).
func (e *E) Code(code, format string, args ...any) {
	e.Fail("["+code+"] "+format, args...)
}

func (e *E) Go(name string, g func()) {
	e.threads.Add(1)
	f := func() {
		defer e.threads.Add(-1)
		g()
	}
	if plainMode {
		e.pwg.Add(1)
		go func() {
			defer e.pwg.Done()
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(failSentinel); !is {
						panic(r)
					}
				}
			}()
			f()
		}()
		return
	}
	e.x.Go(name, f)
}

func (e *E) Join() {
	if plainMode {
		e.pwg.Wait()
		e.pmu.Lock()
		bad := e.pfail != nil
		e.pmu.Unlock()
		if bad {
			panic(failSentinel{})
		}
		return
	}
	e.x.Join()
}

// Begin and End delimit the part of an execution whose schedules are explored.
func (e *E) Begin() {
	if !plainMode {
		e.x.Begin()
	}
}

func (e *E) End() {
	if !plainMode {
		e.x.End()
	}
}

var plainEvents atomic.Int64

// Event is a tick of a global logical clock.
func (e *E) Event() int64 {
	if plainMode {
		return plainEvents.Add(1)
	}
	return e.x.Event()
}

func (e *E) Sleep(d time.Duration) {
	if plainMode || e.free {
		time.Sleep(d)
		return
	}
	vs.Sleep(d)
}

// Note adds to the outcome of the execution (distinct outcomes are counted).
func (e *E) Note(format string, args ...any) {
	if !plainMode {
		e.x.Note(format, args...)
	}
}

// Choose is an environment choice explored like a scheduling deviation.
func (e *E) Choose(n int) int {
	if plainMode {
		return 0
	}
	return vs.Choose(n)
}

// RevMaps makes map iteration go in reverse key order (it is in key order otherwise).
func (e *E) RevMaps() {
	if !plainMode {
		vs.RevMaps()
	}
}

// Op counts one transition of the model.
func (e *E) Op() { e.ops++ }

// Until waits until pred holds, at most d; pred must not have side effects.
func (e *E) Until(d time.Duration, pred func() bool) bool {
	if plainMode || e.free {
		for end := time.Now().Add(d); !pred(); time.Sleep(time.Millisecond) {
			if time.Now().After(end) {
				return false
			}
		}
		return true
	}
	return e.x.WaitUntil(d, pred)
}

// ---- the mock ----

// M is a mock instance.
type M struct {
	e    *E
	km   *kafkamock.KafkaMock
	port int
	up   bool
	gen  int // counts the restarts of a variation
}

var plainPort atomic.Int64

func (e *E) NewMock() *M { return e.MockAt(e.freePort()) }

// freePort is a port that no mock uses.
func (e *E) freePort() int {
	e.ports++
	port := 21000 + e.ports
	if plainMode {
		l, err := net.Listen("tcp", ":0")
		if err != nil {
			panic(err)
		}
		port = l.Addr().(*net.TCPAddr).Port
		l.Close()
	}
	return port
}

func (e *E) MockAt(port int) *M {
	if e.lane == nil || !e.oneLane {
		e.lane = newLane()
	}
	m := &M{e: e, km: kafkamock.NewKafkaMock(e.lane, uint(port)), port: port}
	e.muts = append(e.muts, m)
	return m
}

// StartMock creates and starts a mock.
func (e *E) StartMock() *M {
	m := e.NewMock()
	m.km.Start()
	m.WaitUp()
	if f := e.first; f != nil {
		e.first = nil
		quiet(e, func() { f(m) })
	}
	return m
}

func (m *M) WaitUp() {
	ok := m.e.Until(10*time.Second, func() bool {
		if plainMode {
			c, err := net.Dial("tcp", fmt.Sprintf("localhost:%d", m.port))
			if err == nil {
				c.Close()
			}
			return err == nil
		}
		return vnet.Listening(m.port)
	})
	if !ok {
		m.e.Fail("the mock does not listen within 10s of being started")
	}
}

func (m *M) Start()   { m.km.Start(); m.WaitUp() }
func (m *M) Stop()    { m.km.RequestStop(); m.km.WaitForTermination() }
func (m *M) Restart() { m.km.Restart() }

// ---- connections ----

type conn interface {
	net.Conn
	CloseWrite() error
	SetLinger(int) error
}

// Cli is a client connection.
type Cli struct {
	e    *E
	c    conn
	name string
	id   int32
	next int32
	m    *M
	gen  int
	out  int  // requests without an answer yet
	odd  bool // used below the level of requests
}

var errRefused = errors.New("refused")

// TryDial connects to the mock.
func (m *M) TryDial() (*Cli, error) {
	var c conn
	if plainMode {
		x, err := net.Dial("tcp", fmt.Sprintf("localhost:%d", m.port))
		if err != nil {
			return nil, err
		}
		c = x.(*net.TCPConn)
		m.e.pmu.Lock()
		m.e.conns = append(m.e.conns, x)
		m.e.pmu.Unlock()
	} else {
		x, err := vnet.Connect(m.port)
		if err != nil {
			return nil, err
		}
		c = x
	}
	m.e.corr++
	return &Cli{e: m.e, c: c, name: "verif-client", id: m.e.corr, m: m, gen: m.gen}, nil
}

func (m *M) Dial() *Cli {
	c, err := m.TryDial()
	if err != nil {
		m.e.Fail("cannot connect to the running mock: %v", err)
	}
	return c
}

func (c *Cli) V() *vnet.TCPConn { return c.c.(*vnet.TCPConn) }

// Frame builds the next request frame of this client.
func (c *Cli) Frame(api int16, body []byte) (b []byte, corr int32) {
	c.out++
	c.next++
	corr = c.id*1000 + c.next
	return frame(api, served[api], corr, &c.name, body), corr
}

// Send writes a request and returns its correlation id.
func (c *Cli) Send(api int16, body []byte) int32 {
	b, corr := c.Frame(api, body)
	if _, err := c.c.Write(b); err != nil {
		c.e.Fail("sending request api=%d: %v", api, err)
	}
	return corr
}

const answerTime = 30 * time.Second

// TryRecv reads one response frame.
func (c *Cli) TryRecv(d time.Duration) (corr int32, body []byte, err error) {
	if plainMode && d > 15*time.Second {
		d = 15 * time.Second
	}
	c.c.SetReadDeadline(time.Now().Add(d))
	var h [4]byte
	if _, err = io.ReadFull(c.c, h[:]); err != nil {
		return
	}
	n := int32(binary.BigEndian.Uint32(h[:]))
	if n < 4 || n > 1<<26 {
		err = fmt.Errorf("response length prefix %d", n)
		return
	}
	b := make([]byte, n)
	if k, e := io.ReadFull(c.c, b); e != nil {
		err = fmt.Errorf("response cut short after %d of %d bytes: %w", k, n, e)
		return
	}
	return int32(binary.BigEndian.Uint32(b)), b[4:], nil
}

// Recv reads the response with the given correlation id.
func (c *Cli) Recv(want int32, what string) []byte {
	corr, body, err := c.TryRecv(answerTime)
	if err != nil {
		c.e.Fail("%s: no complete response: %v", what, err)
	}
	c.out = max(c.out-1, 0)
	if corr != want {
		c.e.Fail("%s: response carries correlation id %d, want %d", what, corr, want)
	}
	return body
}

// Call sends a request and reads its response.
func (c *Cli) Call(api int16, body []byte, what string) []byte {
	if v := c.vary(); v != nil {
		return c.callVaried(v, api, body, what)
	}
	corr := c.Send(api, body)
	return c.Recv(corr, what)
}

// NoMore fails if further bytes have arrived.
func (c *Cli) NoMore(what string) {
	if plainMode {
		return
	}
	if n := c.V().Pending(); n != 0 {
		c.e.Fail("%s: %d bytes beyond the expected responses", what, n)
	}
}

func (c *Cli) Close() { c.c.Close() }
func (c *Cli) Reset() { c.c.SetLinger(0); c.c.Close() }

func (c *Cli) must(bad, what string) {
	if bad != "" {
		c.e.Fail("%s: malformed response: %s", what, bad)
	}
}

func (c *Cli) Fetch(wait int32, tops ...fetchTop) []fetchRespTop {
	what := fmt.Sprintf("fetch %v wait=%d", tops, wait)
	b := c.Call(apiFetch, fetchReq(wait, tops...), what)
	r, bad := fetchResp(b)
	c.must(bad, what)
	return r
}

// Fetch1 fetches one partition and returns its entry.
func (c *Cli) Fetch1(topic string, part int32, off int64, max, wait int32) fetchRespPart {
	r := c.Fetch(wait, fetchTop{topic, []fetchPart{{part, off, max}}})
	return c.one(r, topic, part)
}

func (c *Cli) one(r []fetchRespTop, topic string, part int32) fetchRespPart {
	if len(r) != 1 || r[0].Name != topic || len(r[0].Parts) != 1 || r[0].Parts[0].P != part {
		c.e.Fail("fetch of %s/%d answered with %v", topic, part, r)
	}
	return r[0].Parts[0]
}

// ReadAll reads a partition from off to the end in one fetch.
func (c *Cli) ReadAll(topic string, part int32, off int64) []msg {
	return c.Fetch1(topic, part, off, 1<<30, 0).Set
}

func (c *Cli) List(tops ...loTop) []loRespTop {
	what := fmt.Sprintf("list offsets %v", tops)
	r, bad := listResp(c.Call(apiListOffsets, listReq(tops...), what))
	c.must(bad, what)
	return r
}

func (c *Cli) List1(topic string, part int32, ts int64) loRespPart {
	r := c.List(loTop{topic, []loPart{{part, ts}}})
	if len(r) != 1 || r[0].Name != topic || len(r[0].Parts) != 1 || r[0].Parts[0].P != part {
		c.e.Fail("list offsets of %s/%d answered with %v", topic, part, r)
	}
	return r[0].Parts[0]
}

func (c *Cli) End(topic string, part int32) int64 { return c.List1(topic, part, -1).Off }

func (c *Cli) Commit(group string, tops ...ocTop) []ocRespTop {
	what := fmt.Sprintf("offset commit %s %v", group, tops)
	r, bad := commitResp(c.Call(apiCommit, commitReq(group, tops...), what))
	c.must(bad, what)
	return r
}

func (c *Cli) Commit1(group, topic string, part int32, off int64) int16 {
	r := c.Commit(group, ocTop{topic, []ocPart{{part, off}}})
	if len(r) != 1 || r[0].Name != topic || len(r[0].Parts) != 1 || r[0].Parts[0].P != part {
		c.e.Fail("offset commit of %s/%d answered with %v", topic, part, r)
	}
	return r[0].Parts[0].Err
}

func (c *Cli) Offsets(group string, tops ...ofTop) []ofRespTop {
	what := fmt.Sprintf("offset fetch %s %v", group, tops)
	r, bad := offFetchResp(c.Call(apiOffFetch, offFetchReq(group, tops...), what))
	c.must(bad, what)
	return r
}

// Committed returns the committed offset of an existing partition.
func (c *Cli) Committed(group, topic string, part int32) int64 {
	r := c.Offsets(group, ofTop{topic, []int32{part}})
	if len(r) != 1 || r[0].Name != topic || len(r[0].Parts) != 1 || r[0].Parts[0].P != part || r[0].Parts[0].Err != 0 {
		c.e.Fail("offset fetch of %s/%d (group %s) answered with %v", topic, part, group, r)
	}
	return r[0].Parts[0].Off
}

func (c *Cli) Sync(group string) []assignTop {
	what := "sync group " + group
	code, a, bad := syncResp(c.Call(apiSync, syncReq(group, "m", 0), what))
	c.must(bad, what)
	if code != 0 {
		c.e.Fail("%s: error %d", what, code)
	}
	return a
}

func (c *Cli) Meta(null bool, topics ...string) metaRsp {
	what := fmt.Sprintf("metadata null=%v %v", null, topics)
	r, bad := metaResp(c.Call(apiMetadata, metaReq(null, topics...), what))
	c.must(bad, what)
	return r
}

func (c *Cli) Heartbeat() {
	code, bad := errResp(c.Call(apiHeartbeat, heartbeatReq("g", "m", 0), "heartbeat"))
	c.must(bad, "heartbeat")
	if code != 0 {
		c.e.Fail("heartbeat: error %d", code)
	}
}

// EOF waits until the server has closed its side: nothing may arrive before.
func (c *Cli) EOF(d time.Duration, what string) {
	c.c.SetReadDeadline(time.Now().Add(d))
	var b [1]byte
	n, err := c.c.Read(b[:])
	if n > 0 {
		c.e.Fail("%s: unexpected data before the connection was closed", what)
	}
	if err == nil || errors.Is(err, os.ErrDeadlineExceeded) {
		c.e.Fail("%s: the mock did not close the connection within %v", what, d)
	}
}
