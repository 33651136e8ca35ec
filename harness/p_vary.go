package harness

import (
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vnet"
	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vs"
)

// Variations: the cases of every sequential job again, each in every one of a
// list of circumstances that must not matter: another mock in the process,
// earlier restarts, other clients, requests cut into pieces or sent in a row,
// other client ids, connections that are made anew, time that passes.

type vary struct {
	name  string
	early func(e *E)   // before the case begins
	mock  func(m *M)   // when the case's first mock has started
	call  func(c *Cli) // before a request, while nothing else goes on
	chop  func(b []byte) [][]byte
	pause time.Duration                         // between pieces
	id    *string                               // client id
	null  bool                                  // no client id
	side  func(c *Cli) (api int16, body []byte) // a request of c.e.side at the same time
	row   int                                   // 1: a request before in the same write, 2: after
}

// useful names that the jobs use too
var varyTopics = []string{"a", "b", "t", "t0"}

func quiet(e *E, f func()) {
	v := e.vary
	e.vary = nil
	f()
	e.vary = v
}

// useAll does a little of everything with a mock of its own.
func useAll(m *M, n int) {
	for i, t := range varyTopics {
		for p := 0; p <= i%2; p++ {
			for k := 0; k <= n; k++ {
				m.km.ExtendedPost(t, p, []byte(fmt.Sprintf("other %d", k)), []byte("other"), map[string][]byte{"h": {1}}, time.UnixMilli(77))
			}
		}
	}
	m.km.SimplePost("zz", 9, nil, []byte("other"))
	m.km.CreatePartitionTopics([]string{"xx", "yy"}, 3)
	m.km.SetConsumerGroupOffset("a", 0, "g", 4711)
	m.km.SetConsumerGroupOffset("a", 0, "check", 4711)
	c := m.Dial()
	askAll(c, "a", "g")
	c.Commit1("g", "b", 0, 5000)
	c.Close()
}

// askAll sends every kind of request but commits.
func askAll(c *Cli, topic, group string) {
	c.Call(apiVersions, nil, "versions")
	c.Meta(true)
	c.Meta(false, topic, topic)
	c.List(loTop{topic, []loPart{{0, -1}, {0, -2}, {1, 5}}})
	c.Fetch(0, fetchTop{topic, []fetchPart{{0, 0, 1000}, {1, 1, 1000}}})
	c.Offsets(group, ofTop{topic, []int32{0, 1}})
	c.Call(apiFindCoord, (&W{}).str(group).b, "coordinator")
	c.Call(apiJoin, (&W{}).str(group).i32(1000).i32(1000).str("").str("consumer").i32(1).str("range").bytes([]byte{0, 0}).b, "join")
	c.Sync(group)
	c.Heartbeat()
	c.Call(apiLeave, leaveReq(group, "m"), "leave")
}

func pieces(n int) func(b []byte) [][]byte {
	return func(b []byte) (s [][]byte) {
		for i := 0; len(b) > 0; i++ {
			k := min(n, len(b))
			if i > 60 {
				k = min(3001, len(b))
			}
			s = append(s, b[:k])
			b = b[k:]
		}
		return
	}
}

func (c *Cli) again() {
	c.Close()
	d := c.m.Dial()
	c.c, c.gen = d.c, c.m.gen
}

func variations() []vary {
	const unknown = "no-such-topic"
	other := func(e *E) *M {
		m := e.MockAt(61001)
		m.Start()
		useAll(m, 2)
		return m
	}
	waiter := func(m *M) *Cli {
		c := m.Dial()
		c.Send(apiFetch, fetchReq(3_600_000, fetchTop{unknown, []fetchPart{{0, 0, 1000}}}))
		m.e.Sleep(30 * time.Millisecond)
		return c
	}
	half := func(c *Cli) {
		b, _ := c.Frame(apiMetadata, metaReq(false, unknown))
		c.c.Write(b[:len(b)-3])
	}
	return []vary{
		{name: "another mock was there before", early: func(e *E) { other(e).Stop() }},
		{name: "another mock is there", early: func(e *E) { other(e).Dial() }},
		{name: "another mock is used before every request", early: func(e *E) { e.other = other(e) },
			call: func(c *Cli) { useAll(c.e.other, 0) }},
		{name: "the mock was restarted twice", mock: func(m *M) { m.Restart(); m.Restart() }},
		{name: "the mock was stopped and started", mock: func(m *M) { m.Stop(); m.Start(); m.Stop(); m.Stop(); m.Start() }},
		{name: "maps iterate in reverse", early: func(e *E) { e.RevMaps() }},
		{name: "requests were finished", mock: func(m *M) {
			for i := 0; i < 2; i++ {
				w := waiter(m)
				m.km.FinishRequests()
				w.TryRecv(time.Minute)
				w.Close()
				m.Restart()
			}
		}},
		{name: "clients came and went", mock: func(m *M) {
			c := m.Dial()
			askAll(c, unknown, "vary")
			c.Close()
			c = m.Dial()
			half(c)
			c.Close()
			c = m.Dial()
			half(c)
			c.Reset()
			c = waiter(m)
			c.Reset()
			m.e.Sleep(100 * time.Millisecond)
		}},
		{name: "a client waits in a fetch", mock: func(m *M) { waiter(m) }},
		{name: "a client stays in the middle of a request", mock: func(m *M) { half(m.Dial()) }},
		{name: "another client asks before every request", call: func(c *Cli) {
			d := c.m.Dial()
			askAll(d, unknown, "vary")
			d.Close()
		}},
		{name: "a new connection for every request", call: func(c *Cli) { c.again() }},
		{name: "a restart before every request", call: func(c *Cli) {
			c.Close()
			c.m.Restart()
			c.m.gen++
			c.again()
		}},
		{name: "requests finished before every request", call: func(c *Cli) {
			c.m.km.FinishRequests()
			c.m.Restart()
			c.m.gen++
			c.again()
		}},
		{name: "40 days before every request", call: func(c *Cli) {
			c.Close()
			c.e.pass(time.Second)
			if !plainMode && vnet.OpenServerEnds() == 0 { // the mock polls its connections
				c.e.pass(40 * 24 * time.Hour)
			}
			c.again()
		}},
		{name: "10 seconds before every request", call: func(c *Cli) { c.e.pass(10 * time.Second) }},
		{name: "byte by byte", chop: pieces(1)},
		{name: "in pieces of 3 bytes, slowly", chop: pieces(3), pause: 30 * time.Millisecond},
		{name: "no client id", null: true},
		{name: "an empty client id", id: strp("")},
		{name: "a long client id", id: strp(longName(30000, 7))},
		{name: "a request before in the same write", row: 1},
		{name: "a request after in the same write", row: 2},
		{name: "a big request before every request", call: func(c *Cli) {
			c.Meta(false, longName(32000, 1), longName(32000, 2), longName(32000, 3))
		}},
	}
}

// idle reports whether the case is at a point where its driver does nothing else.
func (c *Cli) vary() *vary {
	e := c.e
	if e.vary == nil || e.threads.Load() > 0 || c.out != 0 || c.m == nil || c.odd {
		return nil
	}
	return e.vary
}

// fresh connects the client again when its mock was restarted.
func (c *Cli) fresh() {
	if c.gen != c.m.gen {
		quiet(c.e, c.again)
	}
}

// callVaried is Call in the circumstances of a variation.
func (c *Cli) callVaried(v *vary, api int16, body []byte, what string) []byte {
	e := c.e
	e.varied++
	often := e.varied <= 30 || e.varied&(e.varied-1) == 0
	quiet(e, func() {
		if c.gen != c.m.gen {
			c.again()
		}
		// in long cases only before the first requests and some later ones
		if v.call != nil && often {
			v.call(c)
		}
	})
	id := c.name
	cid := &id
	if v.id != nil {
		cid = v.id
	}
	if v.null {
		cid = nil
	}
	c.next++
	corr := c.id*1000 + c.next
	b := frame(api, served[api], corr, cid, body)
	beat := frame(apiHeartbeat, served[apiHeartbeat], -5, cid, heartbeatReq("vary", "m", 0))
	switch v.row {
	case 1:
		b = append(append([]byte(nil), beat...), b...)
	case 2:
		b = append(append([]byte(nil), b...), beat...)
	}
	ps := [][]byte{b}
	if v.side != nil {
		return c.beside(v, api, b, corr, what)
	}
	if v.chop != nil && often {
		ps = v.chop(b)
	}
	for i, x := range ps {
		if i > 0 && i < 60 && v.pause > 0 {
			e.Sleep(v.pause)
		}
		if _, err := c.c.Write(x); err != nil {
			e.Fail("%s: sending: %v", what, err)
		}
	}
	other := func() {
		r := c.Recv(-5, "heartbeat in the same write as "+what)
		if len(r) < 2 || binary.BigEndian.Uint16(r[len(r)-2:]) != 0 {
			e.Fail("heartbeat in the same write as %s: %x", what, r)
		}
	}
	if v.row == 1 {
		other()
	}
	r := c.Recv(corr, what)
	if v.row == 2 {
		other()
	}
	return r
}

// sides are requests that go on at the same time as another client's request.
var sides = []struct {
	name string
	req  func() (int16, []byte)
}{
	{"fetch", func() (int16, []byte) {
		return apiFetch, fetchReq(0, fetchTop{"t", []fetchPart{{0, 0, 1 << 20}}}, fetchTop{"a", []fetchPart{{1, 0, 1 << 20}, {0, 1, 1 << 20}}},
			fetchTop{"b", []fetchPart{{0, 0, 70}}}, fetchTop{"no-such-topic", []fetchPart{{3, 9, 9}}})
	}},
	{"list offsets", func() (int16, []byte) {
		return apiListOffsets, listReq(loTop{"b", []loPart{{0, -1}}}, loTop{"a", []loPart{{1, -2}, {0, 5}, {0, -1}}}, loTop{"t", []loPart{{0, 3}}})
	}},
	{"metadata", func() (int16, []byte) { return apiMetadata, metaReq(true) }},
	{"metadata of one", func() (int16, []byte) { return apiMetadata, metaReq(false, "no-such-topic", "t") }},
	{"offset commit", func() (int16, []byte) {
		return apiCommit, commitReq("vary", ocTop{"a", []ocPart{{0, 4711}, {1, 4712}}}, ocTop{"t", []ocPart{{0, 4713}}})
	}},
	{"offset fetch", func() (int16, []byte) {
		return apiOffFetch, offFetchReq("vary", ofTop{"b", []int32{0}}, ofTop{"a", []int32{1, 0}}, ofTop{"t", []int32{0}})
	}},
	{"join", func() (int16, []byte) { return apiJoin, joinReq("vary", "", "range", "roundrobin") }},
	{"sync", func() (int16, []byte) { return apiSync, syncReq("vary", "m", 3) }},
	{"leave", func() (int16, []byte) { return apiLeave, leaveReq("vary", "m") }},
	{"heartbeat", func() (int16, []byte) { return apiHeartbeat, heartbeatReq("vary", "m", 1) }},
	{"coordinator", func() (int16, []byte) { return apiFindCoord, coordReq("vary") }},
	{"versions", func() (int16, []byte) { return apiVersions, nil }},
}

// beside sends a request of the side client, and b, before either is answered.
func (c *Cli) beside(v *vary, api int16, b []byte, corr int32, what string) []byte {
	e := c.e
	if e.kinds == nil {
		e.kinds = map[int16]int{}
	}
	e.kinds[api]++
	if e.kinds[api] > 1 || e.varied > 4 {
		if _, err := c.c.Write(b); err != nil {
			e.Fail("%s: sending: %v", what, err)
		}
		return c.Recv(corr, what)
	}
	d := e.side
	if d == nil || d.V().PeerClosed() { // the mock may have been restarted
		d = c.m.Dial() // its thread comes after c's
		e.side = d
		e.Sleep(time.Millisecond)
	}
	sapi, sbody := v.side(c)
	e.Begin()
	sc := d.Send(sapi, sbody)
	if _, err := c.c.Write(b); err != nil {
		e.Fail("%s: sending: %v", what, err)
	}
	r := c.Recv(corr, what)
	sr := d.Recv(sc, "the request beside "+what)
	e.End()
	if bad := decodeAny(sapi, sr); bad != "" {
		e.Fail("malformed response to request api=%d beside %s: %s", sapi, what, bad)
	}
	return r
}

// besides lists the cases of j, thinned to at most n, with every request next to
// every kind of request of another client (of the same mock, or of another mock
// in the process), in every schedule with one deviation.
func besides(prop string, j *Job, n int) *Job {
	switch prop + " " + j.Name {
	case "C01 every-offset", "C11 many", "C14 buffer-boundaries", "C14 big-request", "C23 all", "C05 growth": // long
		return nil
	}
	if prop == "C08" && j.Name != "commit-and-set" { // their threads are what is concurrent
		return nil
	}
	var cases [][]int
	cfg := j.Cfg
	cfg.Stmt = true
	dev := 1
	if vs.RaceEnabled { // the detector does not depend on the order
		dev = 0
	}
	return &Job{
		Name: "beside:" + j.Name, Cfg: cfg, Dev: dev, ByCase: true, Race: true,
		Gen: func(p *P) func(e *E) {
			if cases == nil {
				cases = casesOf(j, n, false)
			}
			si := p.Pick(len(sides))
			s := sides[si]
			how := 1
			if !varySkip(prop, j.Name, "another mock is there") {
				how = p.Pick(3)
			}
			var c []int
			if thorough() {
				c = cases[p.Pick(len(cases))]
			} else {
				c = cases[(si+how)%len(cases)]
			}
			return func(e *E) {
				body, _ := genCase(j, c)
				e.vary = &vary{name: s.name, side: func(c *Cli) (int16, []byte) { return s.req() }}
				switch how {
				case 0: // of the same mock, its thread comes first
					e.first = func(m *M) { e.side = m.Dial(); e.Sleep(time.Millisecond) }
				case 2:
					v := e.vary
					e.vary = nil
					o := e.MockAt(61001)
					o.Start()
					useAll(o, 1)
					e.side = o.Dial()
					e.Sleep(time.Millisecond)
					e.vary = v
				}
				body(e)
			}
		},
	}
}

// casesOf lists the cases of a job, thinned to at most n.
func casesOf(j *Job, n int, big bool) (cases [][]int) {
	for p := (&P{}); ; {
		j.Gen(p)
		cases = append(cases, append([]int(nil), p.vec[:p.at]...))
		if !p.next() {
			break
		}
	}
	if big && len(cases) > 2*n {
		cases = cases[:len(cases)/3+n] // the later ones are the larger ones
	}
	if len(cases) > n {
		var keep [][]int
		for i := 0; i < n; i++ {
			keep = append(keep, cases[i*(len(cases)-1)/max(n-1, 1)])
		}
		cases = keep
	}
	return
}

// varied lists the cases of j, thinned to at most n, under every variation.
func varied(prop string, j *Job, n int, big bool) *Job {
	var cases [][]int
	vs := variations()
	var use []int
	for i, v := range vs {
		if !varySkip(prop, j.Name, v.name) {
			use = append(use, i)
		}
	}
	if len(use) == 0 {
		return nil
	}
	cfg := j.Cfg
	cfg.Stmt = false
	return &Job{
		Name: "vary:" + j.Name, Fix: j.Fix, Every: 331, Cfg: cfg,
		Gen: func(p *P) func(e *E) {
			if cases == nil {
				cases = casesOf(j, n, big)
			}
			v := &vs[use[p.Pick(len(use))]]
			c := cases[p.Pick(len(cases))]
			return func(e *E) {
				body, _ := genCase(j, c)
				if v.early != nil {
					v.early(e)
				}
				e.vary = v
				e.first = v.mock
				body(e)
			}
		},
	}
}

// varySkip leaves out variations that contradict what a job itself sets up: it
// counts everything that is open in the process, keeps a second connection or
// an unread answer that a restart would end, or bounds the time it waits.
func varySkip(prop, job, v string) bool {
	another := v == "another mock is there" || v == "another mock is used before every request"
	restart := v == "a restart before every request" || v == "requests finished before every request"
	slow := v == "40 days before every request" || v == "10 seconds before every request" || v == "in pieces of 3 bytes, slowly"
	held := another || v == "a client waits in a fetch" || v == "a client stays in the middle of a request"
	if prop == "C03" || prop == "C04" { // they measure how long an answer takes
		return slow || v == "requests finished before every request" || job == "any-history" && strings.HasSuffix(v, "before every request")
	}
	if job == "ages" && held { // the mock polls connections
		return true
	}
	switch prop + " " + job {
	case "C19 every-state", "C19 crowd", "C19 ages", "C20 with-client":
		return another
	case "C19 waited-for":
		return another || restart
	case "C05 producers-and-readers", "C05 producers-readers-and-others", "C05 growth", "C05 any-history", "C27 every-state", "C27 idle", "C28 late-readers",
		"C08 other-keys", "C23 orders":
		return restart
	case "C28 behind-a-wait":
		return restart || slow
	}
	return false
}
