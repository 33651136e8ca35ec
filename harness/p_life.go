package harness

import (
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"
	"time"

	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vnet"
	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vs"
)

func init() {
	props["C19"] = c19
	props["C20"] = c20
	props["C21"] = c21
	props["C22"] = c22
	props["C25"] = c25
}

// stopTime bounds a stop: two of the mock's polling intervals, generously.
const stopTime = 5 * time.Second

// stopped checks that a terminated mock left nothing behind.
func (w *world) stopped(began time.Time, what string, cs ...*Cli) {
	e := w.e
	if d := time.Since(began); d > stopTime {
		e.Fail("%s: the stop took %v", what, d)
	}
	if !plainMode {
		for i, c := range cs {
			if c != nil && !c.V().PeerClosed() {
				e.Fail("%s: after termination the connection of client %d is still open", what, i)
			}
		}
		if vnet.Listening(w.m.port) {
			e.Fail("%s: after termination the mock still listens", what)
		}
		if n := vnet.OpenServerEnds(); n != 0 {
			e.Fail("%s: after termination %d connections are open", what, n)
		}
		if !e.Until(100*time.Millisecond, func() bool { n, _ := e.x.LiveThreads(); return n == 0 }) {
			n, d := e.x.LiveThreads()
			e.Fail("%s: after termination %d goroutines of the mock remain: %s", what, n, d)
		}
	} else {
		for _, c := range cs {
			if c != nil {
				c.drainToEnd(what)
			}
		}
	}
	if c, err := w.m.TryDial(); err == nil {
		c.Close()
		e.Fail("%s: after termination the port still accepts connections", what)
	}
	n := e.MockAt(w.m.port)
	n.Start()
	c := n.Dial()
	c.Heartbeat()
	c.Close()
	n.Stop()
}

// drainToEnd reads until the connection ends; it fails if it does not.
func (c *Cli) drainToEnd(what string) {
	c.c.SetReadDeadline(time.Now().Add(3 * time.Second))
	_, err := io.Copy(io.Discard, c.c)
	if errors.Is(err, os.ErrDeadlineExceeded) {
		c.e.Fail("%s: the mock did not close the connection", what)
	}
}

// lifeStates are the states of a client when something happens to the mock.
const lifeStates = 16

var lifeName = [lifeStates]string{"just connected", "served before", "in the middle of a size field", "in the middle of a request",
	"waiting in a fetch", "not reading its answers", "pipelining", "pipelining behind a waiting fetch", "not reading a response that does not fit",
	"closed", "reset during a waiting fetch", "half-closed during a waiting fetch", "with a request in flight", "waiting in a long fetch",
	"waiting in a fetch of nothing", "reset with unread answers"}

func (w *world) client(st int) *Cli {
	c := w.m.Dial()
	write := func(b ...byte) { c.c.Write(b) }
	switch st {
	case 1:
		c.Heartbeat()
	case 2:
		write(0, 0)
	case 3:
		c.Heartbeat()
		write(0, 0, 0, 40, 0, 12, 0, 0, 0, 0)
	case 4:
		c.Send(apiFetch, fetchReq(700, fetchTop{"a", []fetchPart{{0, 1, 1000}}}))
	case 5:
		c.Send(apiFetch, fetchReq(0, fetchTop{"a", []fetchPart{{0, 0, 1000}}}))
		c.Send(apiMetadata, metaReq(true))
	case 6:
		for i := 0; i < 4; i++ {
			c.Send(apiHeartbeat, heartbeatReq("g", "m", 0))
		}
	case 7:
		c.Send(apiFetch, fetchReq(3000, fetchTop{"a", []fetchPart{{0, 1, 1000}}}))
		c.Send(apiHeartbeat, heartbeatReq("g", "m", 0))
		c.Send(apiFetch, fetchReq(3000, fetchTop{"a", []fetchPart{{0, 1, 1000}}}))
	case 8:
		if !plainMode {
			c.V().SetCap(7)
		}
		c.Send(apiFetch, fetchReq(0, fetchTop{"a", []fetchPart{{0, 0, 1 << 20}}}))
	case 9:
		c.Heartbeat()
		c.Close()
	case 10:
		c.Send(apiFetch, fetchReq(2000, fetchTop{"a", []fetchPart{{0, 1, 1000}}}))
		w.e.Sleep(30 * time.Millisecond)
		c.Reset()
	case 11:
		c.Send(apiFetch, fetchReq(2000, fetchTop{"a", []fetchPart{{0, 1, 1000}}}))
		c.c.CloseWrite()
	case 12:
		c.Heartbeat()
		c.Send(apiListOffsets, listReq(loTop{"a", []loPart{{0, -1}}}))
	case 13:
		c.Send(apiFetch, fetchReq(1<<30, fetchTop{"a", []fetchPart{{0, 1, 1000}}}))
	case 14:
		c.Send(apiFetch, fetchReq(20000))
	case 15:
		c.Send(apiFetch, fetchReq(0, fetchTop{"a", []fetchPart{{0, 0, 1000}}}))
		w.e.Sleep(30 * time.Millisecond)
		c.Reset()
	}
	return c
}

// stopper is a way to ask for a stop; every goroutine involved must return.
const stoppers = 7

var stopperName = [stoppers]string{"stop and wait", "two goroutines stop and wait", "one waits, another stops", "finish, then stop and wait",
	"three stop, one waits", "two wait, one stops; then stop again", "finish and stop at once"}

func (w *world) stopBy(kind int) {
	e, km := w.e, w.m.km
	both := func() { km.RequestStop(); km.WaitForTermination() }
	switch kind {
	case 0:
		both()
	case 1:
		e.Go("s1", both)
		e.Go("s2", both)
	case 2:
		e.Go("s1", km.WaitForTermination)
		e.Go("s2", km.RequestStop)
	case 3:
		km.FinishRequests()
		both()
	case 4:
		e.Go("s1", km.RequestStop)
		e.Go("s2", km.RequestStop)
		e.Go("s3", both)
	case 5:
		e.Go("s1", km.WaitForTermination)
		e.Go("s2", km.WaitForTermination)
		e.Go("s3", km.RequestStop)
	case 6:
		e.Go("s1", km.FinishRequests)
		e.Go("s2", both)
	}
}

func c19() []*Job {
	return []*Job{
		{
			// every pair of client states, every way to stop, at several moments
			Name: "every-state", Fix: true, Every: 211,
			Gen: func(p *P) func(e *E) {
				s1 := p.Pick(lifeStates)
				s2 := p.Pick(lifeStates + 1)
				how := p.Pick(stoppers)
				gap := pick(p, q([]time.Duration{0, 35 * time.Millisecond}, []time.Duration{0, time.Millisecond, 35 * time.Millisecond, 999 * time.Millisecond, 1500 * time.Millisecond})...)
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 0, []byte("k"), pat(60, 1), 1)
					cs := []*Cli{w.c, w.client(s1)}
					what := fmt.Sprintf("client %s", lifeName[s1])
					if s2 < lifeStates {
						cs = append(cs, w.client(s2))
						what += ", another " + lifeName[s2]
					}
					if gap > 0 {
						e.Sleep(gap)
					}
					what += fmt.Sprintf(", %s after %v", stopperName[how], gap)
					began := time.Now()
					w.stopBy(how)
					e.Join()
					w.stopped(began, what, cs...)
				}
			},
		},
		{
			// all schedules (up to the bound) of a stop against the mock and its client
			Name: "schedules", Dev: q(1, 2), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				st := p.Pick(lifeStates)
				how := pick(p, 0, 1, 2, 6)
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 0, []byte("k"), pat(60, 1), 1)
					w.c.Heartbeat()
					var c *Cli
					began := time.Now()
					e.Begin()
					if st < 4 || st == 12 {
						// meanwhile the client arrives
						e.Go("client", func() { c, _ = w.clientDuringStop(st) })
					} else {
						c = w.client(st)
					}
					w.stopBy(how)
					e.Join()
					e.End()
					what := fmt.Sprintf("client %s, %s", lifeName[st], stopperName[how])
					w.stopped(began, what, w.c, c)
				}
			},
		},
		{
			// stop during everything: clients connect, ask, leave; producers post
			Name: "busy", Dev: q(2, 3), Race: true,
			Gen: func(p *P) func(e *E) {
				k := p.Pick(4)
				how := pick(p, 0, 1, 2)
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 0, []byte("k"), pat(60, 1), 1)
					w.c.Heartbeat()
					var c *Cli
					began := time.Now()
					e.Begin()
					e.Go("activity", func() {
						switch k {
						case 0:
							c, _ = w.m.TryDial()
							if c != nil {
								c.ask(apiHeartbeat, heartbeatReq("g", "m", 0))
							}
						case 1:
							w.c.ask(apiFetch, fetchReq(50, fetchTop{"a", []fetchPart{{0, 1, 1000}}}))
						case 2:
							w.m.km.SimplePost("a", 0, nil, []byte("x"))
							w.c.ask(apiMetadata, metaReq(true))
						case 3:
							w.c.Close()
							c, _ = w.m.TryDial()
						}
					})
					w.stopBy(how)
					e.Join()
					e.End()
					w.stopped(began, fmt.Sprintf("activity %d, %s", k, stopperName[how]), w.c, c)
				}
			},
		},
		{
			// the stop overtakes the start
			Name: "start-then-stop", Dev: q(2, 3), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				how := p.Pick(stoppers)
				return func(e *E) {
					m := e.NewMock()
					w := &world{e: e, m: m, md: model{}}
					began := time.Now()
					e.Begin()
					m.km.Start()
					w.stopBy(how)
					e.Join()
					e.End()
					w.stopped(began, "right after start: "+stopperName[how])
				}
			},
		},
		{
			// termination is waited for long before the stop; clients come and go meanwhile
			Name: "waited-for", Fix: true, Every: 17, Cfg: vs.Config{MaxSteps: 2_000_000},
			Gen: func(p *P) func(e *E) {
				n := pick(p, 0, 1, 5, 17)
				waiters := 1 + p.Pick(2)
				late := p.Pick(3) // clients that connect while it is waited for
				leave := p.Pick(goneKinds + 2)
				gap := pick(p, 40*time.Millisecond, 1200*time.Millisecond)
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 0, []byte("k"), pat(60, 1), 1)
					var cs []*Cli
					for i := 0; i < n; i++ {
						c := w.m.Dial()
						c.Heartbeat()
						cs = append(cs, c)
					}
					for i := 0; i < waiters; i++ {
						e.Go(fmt.Sprint("waits", i), w.m.km.WaitForTermination)
					}
					e.Sleep(5 * time.Millisecond)
					w.c.Heartbeat()
					w.c.Close()
					for i := 0; i < late; i++ {
						c := w.m.Dial()
						c.Heartbeat()
						cs = append(cs, c)
					}
					if leave == goneKinds {
						w.m.km.FinishRequests()
					}
					if leave < goneKinds {
						for _, c := range cs {
							c.gone(leave)
						}
					}
					e.Sleep(gap)
					began := time.Now()
					w.m.km.RequestStop()
					e.Join()
					w.stopped(began, fmt.Sprintf("%d clients, then a wait for termination, %d more, left in way %d, stopped after %v", n, late, leave, gap), cs...)
				}
			},
		},
		{
			// many clients at once
			Name: "crowd", Fix: true, Every: 17, Cfg: vs.Config{MaxSteps: 2_000_000},
			Gen: func(p *P) func(e *E) {
				n := pick(p, 3, 8, 17, 34, deep(66, 260))
				rot := p.Pick(lifeStates)
				how := p.Pick(3)
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 0, []byte("k"), pat(60, 1), 1)
					cs := []*Cli{w.c}
					for i := 0; i < n; i++ {
						cs = append(cs, w.client((i+rot)%lifeStates))
					}
					began := time.Now()
					w.stopBy(how)
					e.Join()
					w.stopped(began, fmt.Sprintf("%d clients", n), cs...)
				}
			},
		},
	}
}

// clientDuringStop is a client whose every step may fail because the mock stops.
func (w *world) clientDuringStop(st int) (*Cli, error) {
	c, err := w.m.TryDial()
	if err != nil {
		return nil, err
	}
	switch st {
	case 1:
		c.ask(apiHeartbeat, heartbeatReq("g", "m", 0))
	case 2:
		c.c.Write([]byte{0, 0})
	case 3:
		c.c.Write([]byte{0, 0, 0, 40, 0, 12, 0, 0, 0, 0})
	case 12:
		c.c.Write(frame(apiListOffsets, served[apiListOffsets], 77, nil, listReq(loTop{"a", []loPart{{0, -1}}})))
	}
	return c, nil
}

// ask sends a request to a mock that may go away; a cut response is a failure,
// as is a response that is not complete.
func (c *Cli) ask(api int16, body []byte) (resp []byte, ok bool) {
	b, corr := c.Frame(api, body)
	if _, err := c.c.Write(b); err != nil {
		return nil, false
	}
	got, resp, err := c.TryRecv(answerTime)
	if err != nil {
		if errors.Is(err, os.ErrDeadlineExceeded) {
			c.e.Fail("request type %d: neither an answer nor the end of the connection", api)
		}
		return nil, false
	}
	if got != corr {
		c.e.Fail("request type %d: answer has correlation id %d, want %d", api, got, corr)
	}
	if bad := decodeAny(api, resp); bad != "" {
		c.e.Fail("request type %d: malformed response: %s", api, bad)
	}
	return resp, true
}

// ---- C20 ----

const (
	opStart = iota
	opStop
	opWait
	opRestart
	opFinish
	opUse
)

var opNames = [...]string{"start", "stop", "wait", "restart", "finish", "use"}

// life is the model of the lifecycle: off, running, finished, stopping.
const (
	lifeOff = iota
	lifeOn
	lifeFinished
	lifeStopping
)

// lifeNext gives the state after op; legal is false for calls with no defined outcome.
func lifeNext(st, op int) (next int, refused, legal bool) {
	switch op {
	case opStart:
		switch st {
		case lifeOff:
			return lifeOn, false, true
		case lifeOn:
			return lifeOn, true, true
		}
		return st, false, false
	case opStop:
		if st == lifeOff {
			return lifeOff, false, true
		}
		return lifeStopping, false, true
	case opWait:
		if st == lifeOff || st == lifeStopping {
			return lifeOff, false, true
		}
		return st, false, false
	case opRestart:
		return lifeOn, false, true
	case opFinish:
		if st == lifeOn {
			return lifeFinished, false, true
		}
		return st, false, true
	}
	return st, false, true
}

func panics(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

type lifeRun struct {
	w     *world
	state int
	hist  string
	n     int
}

func (l *lifeRun) apply(op int) {
	e, km := l.w.e, l.w.m.km
	next, refused, _ := lifeNext(l.state, op)
	l.hist += " " + opNames[op]
	began := time.Now()
	switch op {
	case opStart:
		p := panics(km.Start)
		if (p != nil) != refused {
			e.Fail("after%s: start panics: %v, want %v", l.hist, p, refused)
		}
	case opStop:
		km.RequestStop()
	case opWait:
		km.WaitForTermination()
	case opRestart:
		km.Restart()
	case opFinish:
		km.FinishRequests()
	}
	if d := time.Since(began); d > stopTime {
		e.Fail("after%s: the call took %v", l.hist, d)
	}
	e.Op()
	l.state = next
}

// probe compares what clients see with the state.
func (l *lifeRun) probe(old *Cli) {
	e, w := l.w.e, l.w
	switch l.state {
	case lifeOn:
		w.m.WaitUp()
		c := w.m.Dial()
		w.c = c
		l.n++
		w.post("a", 0, nil, []byte(fmt.Sprint("r", l.n)), int64(l.n))
		w.checkAll()
		w.commit("g", "a", 0, int64(l.n))
		w.checkAll()
		c.Close()
	case lifeOff:
		if c, err := w.m.TryDial(); err == nil {
			c.Close()
			e.Fail("after%s: the mock accepts a client", l.hist)
		}
	case lifeFinished, lifeStopping:
		c, err := w.m.TryDial()
		if err == nil {
			if _, ok := c.ask(apiHeartbeat, heartbeatReq("g", "m", 0)); ok {
				e.Fail("after%s: the mock serves a new client", l.hist)
			}
			c.Close()
		}
	}
	if old != nil && l.state != lifeOn && !plainMode {
		if !e.Until(releaseTime, old.V().PeerClosed) {
			e.Fail("after%s: a client's connection stays open", l.hist)
		}
	}
}

func c20() []*Job {
	seq := func(p *P, depth, from int) (ops []int) {
		st := from
		for i := 0; i < depth; i++ {
			var legal []int
			for op := opStart; op <= opUse; op++ {
				if _, _, ok := lifeNext(st, op); ok {
					if op == opUse && (st != lifeOn || i > 0 && ops[i-1] == opUse) {
						continue
					}
					legal = append(legal, op)
				}
			}
			op := legal[p.Pick(len(legal))]
			ops = append(ops, op)
			st, _, _ = lifeNext(st, op)
		}
		return
	}
	return []*Job{
		{
			// every legal sequence of calls, with everything probed after each
			Name: "sequences", Fix: true, Every: q(127, 1999),
			Gen: func(p *P) func(e *E) {
				ops := seq(p, q(6, 8), lifeOff)
				return func(e *E) {
					w := &world{e: e, m: e.NewMock(), md: model{}, groups: []string{"g"}}
					w.create(0, "a")
					l := &lifeRun{w: w}
					l.probe(nil)
					for _, op := range ops {
						l.apply(op)
						if op == opUse || op == opStart || op == opRestart || plainMode {
							l.probe(nil)
						}
					}
					l.probe(nil)
					w.m.Stop()
					l.hist += " stop wait"
					l.state = lifeOff
					l.probe(nil)
				}
			},
		},
		{
			// with a client in some state throughout
			Name: "with-client", Fix: true, Every: 131,
			Gen: func(p *P) func(e *E) {
				ops := seq(p, q(3, 4), lifeOn)
				st := pick(p, q([]int{1, 3, 4, 6}, []int{0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12})...)
				return func(e *E) {
					w := &world{e: e, m: e.NewMock(), md: model{}, groups: []string{"g"}}
					w.create(0, "a")
					l := &lifeRun{w: w, state: lifeOff}
					l.apply(opStart)
					w.m.WaitUp()
					var last *Cli
					for _, op := range ops {
						if l.state == lifeOn {
							last = w.client(st)
						}
						l.apply(op)
						l.probe(last)
						if op == opRestart && last != nil && !plainMode && !last.V().PeerClosed() {
							e.Fail("after%s: the client of before the restart is still connected", l.hist)
						}
						if op == opRestart {
							last = nil
						}
					}
					l.apply(opStop)
					l.apply(opWait)
					w.stopped(time.Now(), l.hist)
				}
			},
		},
		{
			// calls from two goroutines; then the mock must be usable
			Name: "concurrent", Dev: q(2, 3), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				a := p.Pick(6)
				b := p.Pick(4)
				began := p.Pick(3) // started long before, just before, or meanwhile
				return func(e *E) {
					w := &world{e: e, m: e.NewMock(), md: model{}, groups: []string{"g"}}
					w.create(0, "a")
					km := w.m.km
					if began == 0 {
						w.m.Start()
					}
					stopWait := func() {
						km.RequestStop()
						if began != 2 {
							// a start after the stop would be waited for
							km.WaitForTermination()
						}
					}
					// what the first goroutine does
					fa := []func(){km.RequestStop, stopWait, km.FinishRequests, func() { km.FinishRequests(); stopWait() },
						func() { w.m.km.SimplePost("a", 0, nil, []byte("x")) }, func() {
							if c, err := w.m.TryDial(); err == nil {
								c.ask(apiHeartbeat, heartbeatReq("g", "m", 0))
								c.Close()
							}
						}}[a]
					fb := []func(){km.RequestStop, km.FinishRequests, stopWait, func() { km.FinishRequests(); km.RequestStop() }}[b]
					e.Begin()
					if began == 1 {
						km.Start()
					}
					e.Go("a", fa)
					if began == 2 {
						e.Go("start", km.Start)
					}
					e.Go("b", fb)
					e.Join()
					e.End()
					t := time.Now()
					w.m.Stop()
					w.stopped(t, "after calls from two goroutines")
					if a == 4 {
						w.md.get("a", 0).recs = append(w.md.get("a", 0).recs, mrec{nil, []byte("x"), 0, 1 << 60})
					}
					w.m.Start()
					w.c = w.m.Dial()
					w.checkAll()
					l := &lifeRun{w: w, state: lifeOn, n: 0}
					w.m.Restart()
					l.probe(nil)
				}
			},
		},
		{
			// a second start is refused at every point of the first one's life
			Name: "double-start", Dev: q(2, 3), Cfg: cfgStmt(),
			Gen: func(p *P) func(e *E) {
				how := p.Pick(2)
				return func(e *E) {
					m := e.NewMock()
					w := &world{e: e, m: m, md: model{}, groups: []string{"g"}}
					w.create(0, "a")
					var p1, p2 any
					e.Begin()
					if how == 0 {
						m.km.Start()
						p1 = panics(m.km.Start)
						p2 = nil
					} else {
						e.Go("s1", func() { p1 = panics(m.km.Start) })
						e.Go("s2", func() { p2 = panics(m.km.Start) })
					}
					e.Join()
					e.End()
					if (p1 != nil) == (p2 != nil) {
						e.Fail("of two starts, refused are: %v and %v", p1, p2)
					}
					m.WaitUp()
					l := &lifeRun{w: w, state: lifeOn}
					l.probe(nil)
					began := time.Now()
					m.Stop()
					w.stopped(began, "after a refused start")
				}
			},
		},
	}
}

// ---- C21 ----

func c21() []*Job {
	bounce := func(w *world, how int) {
		switch how {
		case 0:
			w.m.Restart()
		case 1:
			w.m.Stop()
			w.m.Start()
		case 2:
			w.m.km.FinishRequests()
			w.m.Restart()
		case 3:
			w.m.km.FinishRequests()
			w.m.Stop()
			w.m.Stop()
			w.m.Start()
		case 4: // changed while stopped
			w.m.Stop()
			w.post("a", 0, []byte("k"), []byte("while stopped"), 5)
			w.set("a", 0, "h", 1)
			w.create(3, "c")
			w.m.Start()
		}
		w.c = w.m.Dial()
	}
	step := func(w *world, op, i int) {
		switch op {
		case 0:
			w.post("a", 0, []byte("k"), pat(9, i), int64(i))
		case 1:
			w.simple("b", 1, nil, pat(3, i))
		case 2:
			w.commit("g", "a", 0, int64(i+1))
		case 3:
			w.create(int32(i), "c", "a")
		case 4:
			w.set("a", 0, "h", int64(5-i))
		case 5:
			w.commit("h", "b", 1, int64(i))
		}
	}
	return []*Job{
		{
			// every history, restarted after every step or before one of them
			Name: "histories", Fix: true, Every: q(199, 1777),
			Gen: func(p *P) func(e *E) {
				n := q(3, 4)
				var ops []int
				for i := 0; i < n; i++ {
					ops = append(ops, p.Pick(6))
				}
				at := p.Pick(n + 2) // n+1: after every step
				how := p.Pick(5)
				return func(e *E) {
					w := newWorld(e, "g", "h", "other")
					for i, op := range ops {
						if i == at {
							bounce(w, how)
							w.checkAll()
						}
						step(w, op, i)
						if at == n+1 {
							bounce(w, (how+i)%5)
							w.checkAll()
						}
					}
					if at == n {
						bounce(w, how)
					}
					w.checkAll()
					step(w, 0, 7)
					step(w, 2, 8)
					w.checkAll()
				}
			},
		},
		{
			// a client in every state at the restart; half-received commits
			Name: "client-states", Fix: true, Every: 61,
			Gen: func(p *P) func(e *E) {
				st := p.Pick(lifeStates)
				how := p.Pick(4)
				gap := pick(p, 0, 40*time.Millisecond)
				return func(e *E) {
					w := newWorld(e, "g", "h")
					w.post("a", 0, []byte("k"), pat(60, 1), 1)
					w.commit("g", "a", 0, 1)
					c := w.client(st)
					if gap > 0 {
						e.Sleep(gap)
					}
					bounce(w, how)
					w.checkAll()
					n := w.client(st)
					w.post("a", 0, []byte("k"), pat(6, 2), 2)
					w.commit("h", "a", 0, 2)
					w.checkAll()
					c.Close()
					n.Close()
				}
			},
		},
		{
			// commits cut anywhere by a restart: all or nothing
			Name: "cut-commit", Fix: true, Every: 47,
			Gen: func(p *P) func(e *E) {
				rs := []rawReq{{apiCommit, commitReq("g", ocTop{"a", []ocPart{{0, 2}, {1, 1}}}), strp("v")}, {apiCommit, commitReq("h", ocTop{"a", []ocPart{{1, 2}}}), nil}}
				b, ends := stream(rs, 70)
				sent := p.Pick(len(b) + 1)
				how := p.Pick(3)
				gap := pick(p, 0, 25*time.Millisecond)
				rest := p.Pick(2)
				return func(e *E) {
					w := newWorld(e, "g", "h")
					for i := 0; i < 2; i++ {
						w.post("a", 0, nil, pat(5, i), 1)
						w.post("a", 1, nil, pat(5, i), 1)
					}
					c := w.m.Dial()
					c.c.Write(b[:sent])
					if gap > 0 {
						e.Sleep(gap)
					}
					bounce(w, how)
					if rest == 1 {
						// the remaining bytes arrive too late
						c.c.Write(b[sent:])
						e.Sleep(30 * time.Millisecond)
					}
					acked := 0
					for {
						corr, body, err := c.TryRecv(time.Second)
						if err != nil {
							break
						}
						if corr != int32(70+acked) {
							e.Fail("answer has correlation id %d, want %d", corr, 70+acked)
						}
						if _, bad := commitResp(body); bad != "" {
							e.Fail("malformed response: %s", bad)
						}
						acked++
					}
					w.cutCommit(sent, ends, acked)
					w.checkAll()
					// the client reconnects and repeats what was not acknowledged
					n := w.m.Dial()
					for i := acked; i < 2; i++ {
						n.Call(apiCommit, rs[i].body, "repeated commit")
					}
					w.md.get("a", 0).com["g"], w.md.get("a", 1).com["g"], w.md.get("a", 1).com["h"] = 2, 1, 2
					w.checkAll()
					c.Close()
				}
			},
		},
		{
			// schedules of commits against a restart
			Name: "schedules", Dev: q(2, 3), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				how := p.Pick(3)
				return func(e *E) {
					w := newWorld(e, "g", "h")
					for i := 0; i < 2; i++ {
						w.post("a", 0, nil, pat(5, i), 1)
						w.post("a", 1, nil, pat(5, i), 1)
					}
					c := w.m.Dial()
					c.Heartbeat()
					acked := 0
					e.Begin()
					e.Go("client", func() {
						for i := 0; i < 2; i++ {
							body := commitReq("g", ocTop{"a", []ocPart{{0, int64(i + 1)}, {1, int64(i + 1)}}})
							if _, ok := c.ask(apiCommit, body); !ok {
								return
							}
							acked++
						}
					})
					e.Go("producer", func() { w.post("a", 0, nil, []byte("during"), 3) })
					switch how {
					case 0:
						w.m.km.Restart()
					case 1:
						w.m.km.RequestStop()
						w.m.km.WaitForTermination()
						w.m.km.Start()
					case 2:
						w.m.km.FinishRequests()
						w.m.km.Restart()
					}
					e.Join()
					e.End()
					w.m.WaitUp()
					w.c = w.m.Dial()
					g0, g1 := w.c.Committed("g", "a", 0), w.c.Committed("g", "a", 1)
					if g0 != g1 || g0 < int64(acked) || g0 > int64(acked)+1 {
						e.Fail("%d commits acknowledged before the restart; committed are %d and %d", acked, g0, g1)
					}
					e.Note("%d %d", acked, g0)
					w.md.get("a", 0).com["g"], w.md.get("a", 1).com["g"] = g0, g1
					w.checkAll()
				}
			},
		},
		{
			// a consumer that commits what it read, interrupted anywhere, misses nothing
			Name: "consumer", Fix: true, Every: 17,
			Gen: func(p *P) func(e *E) {
				n := q(4, 6)
				at := p.Pick(n + 1)
				again := p.Pick(n + 1)
				how := p.Pick(3)
				lost := p.Pick(2) // the restart comes before the commit of the record just read
				return func(e *E) {
					w := newWorld(e, "g")
					for i := 0; i < n; i++ {
						w.post("a", 0, nil, pat(5, i), int64(i))
					}
					var got []string
					pos := w.c.Committed("g", "a", 0)
					for step := 0; pos < int64(n); step++ {
						if step > 3*n {
							e.Fail("the consumer does not get to the end: position %d", pos)
						}
						fp := w.c.Fetch1("a", 0, pos, 40, 100)
						if d := diffSet(fp.Set, w.md.get("a", 0).recs, pos); d != "" {
							e.Fail("consumer at %d: %s", pos, d)
						}
						if len(fp.Set) == 0 {
							e.Fail("consumer at %d: nothing fetched, %d records exist", pos, n)
						}
						hit := step == at || step == again
						if hit && lost == 1 {
							bounce(w, how)
							pos = w.c.Committed("g", "a", 0)
							if pos != int64(len(got)) {
								e.Fail("after the restart the committed offset is %d, want %d", pos, len(got))
							}
							continue
						}
						for _, m := range fp.Set {
							got = append(got, string(m.Val))
						}
						pos += int64(len(fp.Set))
						w.commit("g", "a", 0, pos)
						if hit {
							bounce(w, how)
							if x := w.c.Committed("g", "a", 0); x != pos {
								e.Fail("after the restart the committed offset is %d, want %d", x, pos)
							}
						}
					}
					for i := range got {
						if got[i] != string(pat(5, i)) {
							e.Fail("record %d was consumed as %q", i, got[i])
						}
					}
					if len(got) != n {
						e.Fail("%d records were consumed, want %d", len(got), n)
					}
				}
			},
		},
	}
}

// cutCommit accepts the effects the requests of the cut-commit job may have had.
func (w *world) cutCommit(sent int, ends []int, acked int) {
	g0, g1, h1 := w.c.Committed("g", "a", 0), w.c.Committed("g", "a", 1), w.c.Committed("h", "a", 1)
	first := g0 == 2 && g1 == 1
	none := g0 == 0 && g1 == 0
	second := h1 == 2
	bad := ""
	switch {
	case !first && !none || h1 != 0 && h1 != 2:
		bad = "half a commit"
	case first && sent < ends[0] || second && sent < ends[1]:
		bad = "a commit that was not received"
	case second && !first:
		bad = "the second of two requests without the first"
	case acked > 0 && !first || acked > 1 && !second:
		bad = "an acknowledged commit is lost"
	}
	if bad != "" {
		w.e.Fail("%s: %d of %v bytes sent, %d acknowledged, committed g: %d, %d; h: %d", bad, sent, ends, acked, g0, g1, h1)
	}
	w.md.get("a", 0).com["g"], w.md.get("a", 1).com["g"], w.md.get("a", 1).com["h"] = g0, g1, h1
}

// ---- C22 ----

// prompt is how soon a waiting fetch is answered once requests are finished.
const prompt = 250 * time.Millisecond

// closeTime is how soon the connection is closed after that.
const closeTime = 2500 * time.Millisecond

// orderlyEnd: nothing more arrives and the connection ends without a reset.
func (c *Cli) orderlyEnd(what string) {
	c.c.SetReadDeadline(time.Now().Add(closeTime))
	var b [1]byte
	n, err := c.c.Read(b[:])
	switch {
	case n > 0:
		c.e.Fail("%s: data after the last response", what)
	case err == nil || errors.Is(err, os.ErrDeadlineExceeded):
		c.e.Fail("%s: the connection was not closed within %v", what, closeTime)
	case !errors.Is(err, io.EOF):
		c.e.Fail("%s: the connection ended with %v instead of an orderly close", what, err)
	}
}

func c22() []*Job {
	return []*Job{
		{
			// k waiting fetches, finished at every moment; data may be there already
			Name: "waiting", Fix: true, Every: 37,
			Gen: func(p *P) func(e *E) {
				k := 1 + p.Pick(q(3, 4))
				wait := pick(p, int32(400), 5000, 1<<30)
				at := time.Duration(pick(p, 3, 10, 19, 20, 21, 39, 60, 150, 399)) * time.Millisecond
				late := p.Pick(3) // a record comes before or after
				twice := p.Pick(2)
				return func(e *E) {
					w := newWorld(e, "g")
					w.post("a", 0, []byte("k"), pat(9, 1), 1)
					w.post("b", 0, []byte("k"), pat(9, 2), 1)
					w.commit("g", "a", 0, 1)
					var cs []*Cli
					var ids []int32
					for i := 0; i < k; i++ {
						c := w.m.Dial()
						cs = append(cs, c)
						var f []byte
						switch i {
						case 0:
							f = fetchReq(wait, fetchTop{"a", []fetchPart{{0, 1, 1000}}})
						case 1:
							f = fetchReq(wait, fetchTop{"a", []fetchPart{{0, 9, 1000}, {5, 0, 10}}}, fetchTop{"b", []fetchPart{{0, 1, 1000}}})
						case 2:
							f = fetchReq(wait, fetchTop{"nope", []fetchPart{{0, 0, 1000}}})
						case 3:
							f = fetchReq(wait)
						}
						ids = append(ids, c.Send(apiFetch, f))
					}
					e.Sleep(at)
					if late == 1 {
						w.post("a", 0, []byte("k"), pat(9, 3), 1)
					}
					began := time.Now()
					w.m.km.FinishRequests()
					if twice == 1 {
						w.m.km.FinishRequests()
					}
					if late == 2 {
						w.post("a", 0, []byte("k"), pat(9, 3), 1)
					}
					for i, c := range cs {
						what := fmt.Sprintf("fetch %d waiting when requests are finished", i)
						b := c.Recv(ids[i], what)
						if d := time.Since(began); d > prompt && i < 3 {
							e.Fail("%s: answered after %v", what, d)
						}
						r, bad := fetchResp(b)
						if bad != "" {
							e.Fail("%s: malformed response: %s", what, bad)
						}
						if i == 0 {
							fp := c.one(r, "a", 0)
							if d := diffSet(fp.Set, w.md.get("a", 0).recs, 1); d != "" {
								e.Fail("%s: %s", what, d)
							}
						}
						if i == 1 && (len(r) != 2 || len(r[0].Parts) != 2 || len(r[1].Parts) != 1) {
							e.Fail("%s: the answer has not all the partitions: %v", what, r)
						}
					}
					for i, c := range append(cs, w.c) {
						c.orderlyEnd(fmt.Sprintf("client %d after requests are finished", i))
						c.Close()
					}
					w.m.Restart()
					w.c = w.m.Dial()
					w.checkAll()
				}
			},
		},
		{
			// clients in every state: complete responses only, then the end
			Name: "every-state", Fix: true, Every: 11,
			Gen: func(p *P) func(e *E) {
				st := p.Pick(lifeStates)
				gap := pick(p, 2*time.Millisecond, 45*time.Millisecond, 1100*time.Millisecond)
				return func(e *E) {
					if st >= 9 && st <= 11 || st == 15 || st == 14 {
						st = 1
					}
					w := newWorld(e, "g")
					w.post("a", 0, []byte("k"), pat(60, 1), 1)
					w.commit("g", "a", 0, 1)
					c := w.client(st)
					e.Sleep(gap)
					w.m.km.FinishRequests()
					if st == 8 && !plainMode {
						// it reads at last: what was begun is completed
						e.Sleep(300 * time.Millisecond)
						c.V().SetCap(0)
					}
					n := 0
					for {
						_, body, err := c.TryRecv(closeTime)
						if errors.Is(err, os.ErrDeadlineExceeded) {
							e.Fail("client %s: neither answered nor disconnected after requests were finished", lifeName[st])
						}
						if err == io.EOF {
							break
						}
						if st == 7 && n >= 1 && errors.Is(err, syscall.ECONNRESET) {
							// what is left of its requests is not read any more
							break
						}
						if err != nil {
							e.Fail("client %s: after %d responses: %v", lifeName[st], n, err)
						}
						n++
						_ = body
					}
					want := map[int]int{4: 1, 5: 2, 6: 4, 7: 3, 8: 1, 12: 1, 13: 1}[st]
					if st == 7 && n >= 1 {
						// what is pipelined behind a waiting fetch may be left unserved
						want = n
					}
					if n != want {
						e.Fail("client %s: %d of %d requests were answered when requests were finished", lifeName[st], n, want)
					}
					w.c.orderlyEnd("idle client")
					w.m.Restart()
					w.c = w.m.Dial()
					w.checkAll()
				}
			},
		},
		{
			// schedules of finishing against a waiting fetch and a post
			Name: "schedules", Dev: q(2, 3), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				posts := p.Pick(2)
				sleep := pick(p, 0, 20*time.Millisecond)
				return func(e *E) {
					w := newWorld(e, "g")
					w.post("a", 0, []byte("k"), pat(9, 1), 1)
					c := w.m.Dial()
					c.Heartbeat()
					id := c.Send(apiFetch, fetchReq(5000, fetchTop{"a", []fetchPart{{0, 1, 1000}}}))
					e.Sleep(30 * time.Millisecond)
					began := time.Now()
					e.Begin()
					e.Go("finisher", func() {
						if sleep > 0 {
							e.Sleep(sleep)
						}
						w.m.km.FinishRequests()
					})
					if posts == 1 {
						e.Go("producer", func() { w.post("a", 0, []byte("k"), pat(9, 2), 1) })
					}
					var n int
					e.Go("client", func() {
						b := c.Recv(id, "waiting fetch")
						if d := time.Since(began); d > prompt {
							e.Fail("the waiting fetch was answered after %v", d)
						}
						r, bad := fetchResp(b)
						if bad != "" {
							e.Fail("waiting fetch: malformed response: %s", bad)
						}
						n = len(c.one(r, "a", 0).Set)
					})
					e.Join()
					e.End()
					if n > posts {
						e.Fail("%d records fetched", n)
					}
					e.Note("%d", n)
					c.orderlyEnd("waiting client")
					w.c.orderlyEnd("idle client")
					w.m.Restart()
					w.c = w.m.Dial()
					w.checkAll()
				}
			},
		},
		{
			// schedules of finishing against single requests: all of the answer or none
			Name: "request-schedules", Dev: q(1, 2), Cfg: cfgStmt(),
			Gen: func(p *P) func(e *E) {
				k := p.Pick(4)
				arrive := p.Pick(2)
				return func(e *E) {
					w := newWorld(e, "g")
					w.post("a", 0, []byte("k"), pat(9, 1), 1)
					var c *Cli
					if arrive == 0 {
						c = w.m.Dial()
						c.Heartbeat()
					}
					answered := false
					e.Begin()
					e.Go("client", func() {
						if c == nil {
							x, err := w.m.TryDial()
							if err != nil {
								e.Fail("finishing requests closed the listener: %v", err)
							}
							c = x
						}
						switch k {
						case 0:
							_, answered = c.ask(apiHeartbeat, heartbeatReq("g", "m", 0))
						case 1:
							_, answered = c.ask(apiCommit, commitReq("g", ocTop{"a", []ocPart{{0, 1}}}))
						case 2:
							_, answered = c.ask(apiFetch, fetchReq(0, fetchTop{"a", []fetchPart{{0, 0, 1000}}}))
						case 3:
							_, answered = c.ask(apiMetadata, metaReq(true))
						}
						if answered {
							c.orderlyEnd("answered client")
						}
					})
					e.Go("finisher", w.m.km.FinishRequests)
					e.Join()
					e.End()
					w.m.Restart()
					w.c = w.m.Dial()
					if k == 1 {
						g := w.c.Committed("g", "a", 0)
						if answered && g != 1 {
							e.Fail("an acknowledged commit is lost: %d", g)
						}
						w.md.get("a", 0).com["g"] = g
					}
					w.checkAll()
				}
			},
		},
	}
}

// ---- C25 ----

func c25() []*Job {
	type inst struct {
		*world
		on bool
	}
	act := func(x *inst, op, i int) {
		e := x.e
		switch op {
		case 0:
			x.post("a", 0, []byte("k"), []byte(fmt.Sprint("m", x.m.port, "-", i)), int64(i))
		case 1:
			x.create(int32(i), "a", fmt.Sprint("only-", x.m.port))
		case 2:
			if x.on {
				x.commit("g", "a", 0, int64(i+1))
			} else {
				x.set("a", 0, "g", int64(i+1))
			}
		case 3:
			if x.on {
				x.m.Stop()
			} else {
				x.m.Start()
				x.c = x.m.Dial()
			}
			x.on = !x.on
		case 4:
			if x.on {
				x.m.Restart()
				x.c = x.m.Dial()
			} else {
				x.m.Stop()
			}
		case 5:
			if x.on {
				x.m.km.FinishRequests()
				x.c.orderlyEnd("client of a finished mock")
				x.m.Stop()
				x.on = false
			}
		}
		e.Op()
	}
	check := func(x *inst) {
		if x.on {
			x.checkAll()
			if f := x.c.Call(apiFindCoord, coordReq("g"), "find coordinator"); len(f) < 4 {
				x.e.Fail("find coordinator answered with %x", f)
			}
			m := x.c.Meta(true)
			if len(m.Brokers) != 1 || int(m.Brokers[0].Port) != x.m.port {
				x.e.Fail("the mock on port %d describes itself as %+v", x.m.port, m.Brokers)
			}
		} else if c, err := x.m.TryDial(); err == nil {
			c.Close()
			x.e.Fail("the stopped mock on port %d accepts a client", x.m.port)
		}
	}
	return []*Job{
		{
			// every sequence of operations on two mocks
			Name: "two", Fix: true, Every: q(307, 4001),
			Gen: func(p *P) func(e *E) {
				n := q(3, 4)
				var ops []int
				for i := 0; i < n; i++ {
					ops = append(ops, p.Pick(12))
				}
				order := p.Pick(4)
				return func(e *E) {
					e.oneLane = order > 1
					a := &inst{world: &world{e: e, m: e.NewMock(), md: model{}, groups: []string{"g"}}}
					b := &inst{world: &world{e: e, m: e.NewMock(), md: model{}, groups: []string{"g"}}}
					both := []*inst{a, b}
					if order == 0 || order == 3 {
						act(a, 3, 0)
						act(b, 3, 0)
					} else if order == 1 {
						act(b, 3, 0)
					}
					for i, op := range ops {
						act(both[op%2], op/2, i)
						check(a)
						check(b)
					}
					for _, x := range both {
						if !x.on {
							act(x, 3, 0)
						}
						check(x)
					}
				}
			},
		},
		{
			// a mock is born, used and stopped beside another that is being used
			Name: "concurrent", Dev: q(2, 3), Cfg: vs.Config{}, Race: true,
			Gen: func(p *P) func(e *E) {
				k := p.Pick(4)
				return func(e *E) {
					e.oneLane = true // as in a test that has one
					a := newWorld(e, "g")
					a.post("a", 0, nil, []byte("first"), 1)
					a.c.Heartbeat()
					var b *world
					e.Begin()
					e.Go("second", func() {
						b = &world{e: e, m: e.MockAt(26000), md: model{}, groups: []string{"g"}}
						b.m.km.Start()
						b.post("a", 0, nil, []byte("second"), 2)
						switch k {
						case 1:
							b.m.km.FinishRequests()
							b.m.Stop()
						case 2:
							b.m.Stop()
							b.m.Start()
						case 3:
							b.m.WaitUp()
							b.c = b.m.Dial()
							b.checkLog("a", 0, 0)
							b.commit("g", "a", 0, 1)
						}
					})
					e.Go("first", func() {
						a.checkLog("a", 0, 0)
						a.commit("g", "a", 0, 1)
						a.post("a", 1, nil, []byte("more"), 3)
					})
					e.Join()
					e.End()
					a.checkAll()
					if k == 1 {
						b.m.Start()
					}
					b.m.WaitUp()
					b.c = b.m.Dial()
					b.checkAll()
				}
			},
		},
		{
			// both are created at once
			Name: "creation", Dev: q(1, 2), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				k := p.Pick(2)
				return func(e *E) {
					var a, b *world
					mk := func(w **world, port int) func() {
						return func() {
							*w = &world{e: e, m: e.MockAt(port), md: model{}, groups: []string{"g"}}
							(*w).m.km.Start()
							if k == 1 {
								(*w).m.WaitUp()
								c := (*w).m.Dial()
								c.Heartbeat()
								c.Close()
							}
						}
					}
					e.Begin()
					e.Go("a", mk(&a, 26001))
					e.Go("b", mk(&b, 26002))
					e.Join()
					e.End()
					for _, w := range []*world{a, b} {
						w.m.WaitUp()
						w.c = w.m.Dial()
						w.post("t", 0, nil, []byte(fmt.Sprint(w.m.port)), 1)
						for _, rq := range (&world{}).all11() {
							w.c.Call(rq.api, rq.body, fmt.Sprintf("request type %d", rq.api))
						}
						w.md.get("t", 0).com["g"] = 1
					}
					a.m.Stop()
					b.checkAll()
				}
			},
		},
		{
			// more mocks, some stopped: names, ports and offsets stay apart
			Name: "several", Fix: true, Every: 5,
			Gen: func(p *P) func(e *E) {
				n := 3 + p.Pick(q(2, 4))
				stop := p.Pick(n)
				reverse := p.Pick(2)
				return func(e *E) {
					var xs []*inst
					for i := 0; i < n; i++ {
						xs = append(xs, &inst{world: &world{e: e, m: e.NewMock(), md: model{}, groups: []string{"g"}}})
					}
					for i := range xs {
						j := i
						if reverse == 1 {
							j = n - 1 - i
						}
						act(xs[j], 3, 0)
						for r := 0; r <= j; r++ {
							act(xs[j], 0, r)
						}
						act(xs[j], 2, j)
					}
					act(xs[stop], 3, 0)
					for _, x := range xs {
						check(x)
					}
					act(xs[stop], 3, 0)
					for i := range xs {
						act(xs[i], 1, i)
						act(xs[i], 5, i)
						for _, x := range xs {
							check(x)
						}
					}
				}
			},
		},
	}
}

// all11 is one request of every served kind.
func (w *world) all11() []rawReq {
	return []rawReq{
		{apiMetadata, metaReq(true), nil},
		{apiFindCoord, coordReq("g"), nil},
		{apiOffFetch, offFetchReq("g", ofTop{"t", []int32{0}}), nil},
		{apiJoin, joinReq("g", "m", "range"), nil},
		{apiSync, syncReq("g", "m", 1), nil},
		{apiLeave, leaveReq("g", "m"), nil},
		{apiVersions, nil, nil},
		{apiHeartbeat, heartbeatReq("g", "m", 0), nil},
		{apiListOffsets, listReq(loTop{"t", []loPart{{0, -1}}}), nil},
		{apiFetch, fetchReq(0, fetchTop{"t", []fetchPart{{0, 0, 1000}}}), nil},
		{apiCommit, commitReq("g", ocTop{"t", []ocPart{{0, 1}}}), nil},
	}
}
