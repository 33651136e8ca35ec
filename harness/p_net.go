package harness

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"runtime"
	"slices"
	"sort"
	"strings"
	"syscall"
	"time"
	"weak"

	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vnet"
	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vs"
)

func init() {
	props["C14"] = c14
	props["C15"] = c15
	props["C18"] = c18
	props["C27"] = c27
	props["C28"] = c28
}

// rawReq is one request of a stream.
type rawReq struct {
	api    int16
	body   []byte
	client *string
}

func strp(s string) *string { return &s }

// stream builds the bytes of consecutive requests with ids first, first+1, ...
func stream(rs []rawReq, first int32) (b []byte, ends []int) {
	for i, r := range rs {
		b = append(b, frame(r.api, served[r.api], first+int32(i), r.client, r.body)...)
		ends = append(ends, len(b))
	}
	return
}

// lone answers the requests one at a time on a fresh connection.
func (w *world) lone(rs []rawReq, first int32) (out [][]byte) {
	c := w.m.Dial()
	for i, r := range rs {
		b := frame(r.api, served[r.api], first+int32(i), r.client, r.body)
		if _, err := c.c.Write(b); err != nil {
			w.e.Fail("sending request %d: %v", i, err)
		}
		out = append(out, c.Recv(first+int32(i), fmt.Sprintf("request %d (type %d)", i, r.api)))
	}
	c.Close()
	return
}

// samePort replaces the port of a mock in its metadata and coordinator answers.
func samePort(b []byte, from, to int) []byte {
	f, t := (&W{}).str("localhost").i32(int32(from)).b, (&W{}).str("localhost").i32(int32(to)).b
	return bytes.ReplaceAll(b, f, t)
}

// sameAnswer compares two answers; the order of the topics and partitions of an
// assignment and of the topics of an offset fetch is free (it is that of a map).
func sameAnswer(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	if len(a) != len(b) {
		return false
	}
	if ea, ta, bad := syncResp(a); bad == "" {
		eb, tb, bad := syncResp(b)
		return bad == "" && ea == eb && fmt.Sprint(sortedTops(ta)) == fmt.Sprint(sortedTops(tb))
	}
	if ta, bad := offFetchResp(a); bad == "" {
		tb, bad := offFetchResp(b)
		flat := func(ts []ofRespTop) (out []string) {
			for _, t := range ts {
				for i, p := range t.Parts {
					m := "null"
					if p.Meta != nil {
						m = fmt.Sprintf("%q", *p.Meta)
					}
					out = append(out, fmt.Sprintf("%q/%d %d %d %s %d", t.Name, i, p.P, p.Off, m, p.Err))
				}
				out = append(out, fmt.Sprintf("%q has %d", t.Name, len(t.Parts)))
			}
			sort.Strings(out)
			return
		}
		return bad == "" && slices.Equal(flat(ta), flat(tb))
	}
	return false
}

// wantAnswers reads one response per request, in order.
func (c *Cli) wantAnswers(want [][]byte, first int32, what string) {
	for i := range want {
		got := c.Recv(first+int32(i), fmt.Sprintf("%s: answer %d", what, i))
		if !sameAnswer(got, want[i]) {
			c.e.Fail("%s: answer %d differs from the one to the same request sent alone: %x, want %x", what, i, got, want[i])
		}
	}
}

// streams for the framing checks: few bytes, every kind of frame end
func framingStreams() [][]rawReq {
	n := strp("c")
	return [][]rawReq{
		{{apiHeartbeat, heartbeatReq("g", "m", 0), n}, {apiVersions, nil, nil}, {apiFindCoord, coordReq("g"), n}},
		{{apiCommit, commitReq("g", ocTop{"a", []ocPart{{0, 2}}}), n}, {apiOffFetch, offFetchReq("g", ofTop{"a", []int32{0}}), strp("")}},
		{{apiFetch, fetchReq(0, fetchTop{"a", []fetchPart{{0, 1, 1000}}}), n}, {apiMetadata, metaReq(false, "a"), n}},
		{{apiListOffsets, listReq(loTop{"a", []loPart{{0, 1}}}), nil}, {apiLeave, leaveReq("g", ""), n}, {apiJoin, joinReq("g", "", "range"), n}, {apiSync, syncReq("g", "1", 0), n}},
	}
}

func framingWorld(e *E) *world {
	w := newWorld(e)
	for i := 0; i < 3; i++ {
		w.post("a", 0, []byte("k"), pat(5, i), int64(i))
	}
	return w
}

func streamLens() (n []int) {
	for _, rs := range framingStreams() {
		b, _ := stream(rs, 1000)
		n = append(n, len(b))
	}
	return
}

// play sends pieces of a stream, pausing between them, and checks the answers.
func play(e *E, rs []rawReq, cuts []int, gap time.Duration, what string) {
	ref := framingWorld(e)
	want := ref.lone(rs, 500)
	w := framingWorld(e)
	for i := range want {
		want[i] = samePort(want[i], ref.m.port, w.m.port)
	}
	b, _ := stream(rs, 500)
	at := 0
	for _, c := range append(append([]int(nil), cuts...), len(b)) {
		if c <= at || c > len(b) {
			continue
		}
		if at > 0 && gap >= 0 {
			e.Sleep(gap)
		}
		if _, err := w.c.c.Write(b[at:c]); err != nil {
			e.Fail("%s: sending: %v", what, err)
		}
		e.Op()
		at = c
	}
	w.c.wantAnswers(want, 500, what)
	e.Sleep(30 * time.Millisecond)
	w.c.NoMore(what)
	w.c.Heartbeat()
}

func c14() []*Job {
	lens := streamLens()
	return []*Job{
		{
			Name: "one-cut", Fix: true, Every: 61,
			Gen: func(p *P) func(e *E) {
				s := p.Pick(len(lens))
				cut := p.Pick(lens[s])
				gap := pick(p, -1, 0, 3*time.Millisecond, 1500*time.Millisecond)
				return func(e *E) { play(e, framingStreams()[s], []int{cut}, gap, fmt.Sprintf("cut at %d", cut)) }
			},
		},
		{
			Name: "two-cuts", Fix: true, Every: 1009,
			Gen: func(p *P) func(e *E) {
				s := p.Pick(q(2, len(lens)))
				a := 1 + p.Pick(lens[s]-2)
				b := a + 1 + p.Pick(lens[s]-a-1)
				return func(e *E) {
					play(e, framingStreams()[s], []int{a, b}, time.Millisecond, fmt.Sprintf("cuts at %d and %d", a, b))
				}
			},
		},
		{
			// pieces of every fixed size, from one byte up
			Name: "pieces", Fix: true, Every: 37,
			Gen: func(p *P) func(e *E) {
				s := p.Pick(len(lens))
				n := 1 + p.Pick(q(50, 150))
				gap := pick(p, -1, time.Millisecond)
				return func(e *E) {
					var cuts []int
					for i := n; i < lens[s]; i += n {
						cuts = append(cuts, i)
					}
					play(e, framingStreams()[s], cuts, gap, fmt.Sprintf("pieces of %d", n))
				}
			},
		},
		{
			// requests larger than any buffer, in any number of small pieces
			Name: "trickle", Fix: true, Every: 43,
			Gen: func(p *P) func(e *E) {
				n := pick(p, edges(q(2500, 20000))...)
				piece := pick(p, 1, 2, 3, 7, 100)
				gap := pick(p, -1, time.Millisecond)
				k := p.Pick(3)
				return func(e *E) {
					pad := strings.Repeat("x", n)
					rs := []rawReq{
						{apiHeartbeat, heartbeatReq("g", pad, 1), strp("c")},
						{apiCommit, commitReq2("g", 1, "m", -1, &pad, "a", 0, 1), nil},
						{apiFetch, fetchReq(0, fetchTop{"a", []fetchPart{{0, 0, 1000}}}), strp(pad)},
					}
					rs = []rawReq{rs[k], rs[(k+1)%3], rs[k]} // large ones before and after
					b, _ := stream(rs, 500)
					var cuts []int
					for i := piece; i < len(b); i += piece {
						cuts = append(cuts, i)
					}
					play(e, rs, cuts, gap, fmt.Sprintf("%d bytes in pieces of %d", len(b), piece))
				}
			},
		},
		{
			// large requests among many small ones, in a few large pieces
			Name: "large-among-small", Fix: true, Every: 67, Cfg: vs.Config{MaxSteps: 2_000_000},
			Gen: func(p *P) func(e *E) {
				size := pick(p, 0, 4096, 8192, 16384, 32768, 65536, 65537, 131073, 1<<18+1, deep(1<<20+1, 1<<22+1))
				before := pick(p, 0, 250)
				after := pick(p, 0, 1, 100, 260, deep(700, 4000))
				piece := pick(p, 0, 1000, 50000)
				two := p.Pick(2)
				return func(e *E) {
					var rs []rawReq
					small := func(n int) {
						for i := 0; i < n; i++ {
							rs = append(rs, rawReq{apiHeartbeat, heartbeatReq("group", "member", int32(i)), nil})
						}
					}
					large := func() {
						var ts []string
						for i := size; i > 0; i -= 30002 {
							n := i - 2
							if n > 30000 {
								n = 30000
							} else if n < 1 {
								n = 1
							}
							ts = append(ts, strings.Repeat("t", n))
						}
						rs = append(rs, rawReq{apiMetadata, metaReq(false, ts...), nil})
					}
					small(before)
					large()
					if two == 1 {
						rs = append(rs, rawReq{apiFetch, fetchReq(0, fetchTop{"a", []fetchPart{{0, 0, 1000}}}), nil})
						large()
					}
					small(after)
					b, _ := stream(rs, 500)
					var cuts []int
					if piece > 0 {
						for i := piece; i < len(b); i += piece {
							cuts = append(cuts, i)
						}
					}
					play(e, rs, cuts, -1, fmt.Sprintf("%d, %d and %d requests, pieces of %d", before, size, after, piece))
				}
			},
		},
		{
			// every subset of the boundaries in and around the start of the second frame
			Name: "every-subset", Fix: true, Every: 499,
			Gen: func(p *P) func(e *E) {
				s := p.Pick(2)
				_, ends := stream(framingStreams()[s], 1)
				var cuts []int
				for i := 0; i < q(9, 12); i++ {
					if p.Pick(2) == 1 {
						cuts = append(cuts, ends[0]-3+i)
					}
				}
				return func(e *E) { play(e, framingStreams()[s], cuts, time.Millisecond, fmt.Sprintf("cuts at %v", cuts)) }
			},
		},
		{
			// many requests in one piece: the read buffer ends at every byte of a frame
			Name: "buffer-boundaries", Fix: true, Every: 47,
			Gen: func(p *P) func(e *E) {
				shift := p.Pick(q(70, 130))
				total := pick(p, 4096, 8192, 12288, 16384, 65536)
				piece := pick(p, 0, 1000, 4096, 8192, 8191)
				return func(e *E) {
					var rs []rawReq
					for n := 0; n < total+300; n += 35 {
						rs = append(rs, rawReq{apiHeartbeat, heartbeatReq("group", "member", int32(n)), nil})
						if n == 0 {
							rs[0].client = strp(strings.Repeat("x", shift))
						}
						if n > 0 && n%(35*29) == 0 {
							rs = append(rs, rawReq{apiFetch, fetchReq(0, fetchTop{"a", []fetchPart{{0, int64(n % 3), 1000}}}), nil})
						}
					}
					var cuts []int
					if piece > 0 {
						for i := piece; i < total+3000; i += piece {
							cuts = append(cuts, i)
						}
					}
					play(e, rs, cuts, -1, fmt.Sprintf("first client id of %d bytes, pieces of %d", shift, piece))
				}
			},
		},
		{
			// one big request cut anywhere near the interesting places
			Name: "big-request", Fix: true, Every: 101,
			Gen: func(p *P) func(e *E) {
				size := pick(p, 4090, 8180, 9000, 20000)
				a := p.Pick(q(24, 60))
				where := p.Pick(4)
				return func(e *E) {
					rs := []rawReq{{apiFindCoord, coordReq(strings.Repeat("g", size)), strp("c")}, {apiVersions, nil, strp("d")}, {apiHeartbeat, heartbeatReq("g", "m", 1), nil}}
					b, ends := stream(rs, 500)
					base := []int{0, 4096 - 12, 8192 - 12, ends[0] - 12}[where]
					cut := base + a
					if cut >= len(b) {
						cut = len(b) - 1
					}
					play(e, rs, []int{cut}, time.Millisecond, fmt.Sprintf("request of %d bytes cut at %d", size, cut))
				}
			},
		},
		{
			// schedules of the sender against the reading side
			Name: "schedules", Dev: q(1, 2), Cfg: cfgStmt(),
			Gen: func(p *P) func(e *E) {
				s := p.Pick(2)
				n := pick(p, 7, 20, 33)
				return func(e *E) {
					rs := framingStreams()[s]
					ref := framingWorld(e)
					want := ref.lone(rs, 500)
					w := framingWorld(e)
					for i := range want {
						want[i] = samePort(want[i], ref.m.port, w.m.port)
					}
					b, _ := stream(rs, 500)
					e.Begin()
					e.Go("sender", func() {
						for at := 0; at < len(b); at += n {
							if _, err := w.c.c.Write(b[at:min(at+n, len(b))]); err != nil {
								e.Fail("sending: %v", err)
							}
						}
					})
					e.Go("receiver", func() { w.c.wantAnswers(want, 500, "concurrent sender and receiver") })
					e.Join()
					e.End()
					w.c.NoMore("all answers received")
				}
			},
		},
	}
}

// goneKinds are the ways a client goes away.
const goneKinds = 5

func (c *Cli) gone(kind int) {
	if kind >= 3 { // the client's host disappears, which takes minutes to be noticed in reality
		if plainMode {
			kind = 1
		} else {
			c.V().Vanish([]syscall.Errno{syscall.ETIMEDOUT, syscall.EHOSTUNREACH}[kind-3])
		}
	}
	switch kind {
	case 0:
		c.Close()
	case 1:
		c.Reset()
	case 2:
		c.c.CloseWrite()
	}
}

var goneName = [...]string{"closes", "resets", "half-closes", "vanishes", "becomes unreachable"}

func c15() []*Job {
	// the requests of the failing client, with the effect of those with one
	type vreq struct {
		what string
		rs   []rawReq
	}
	vs1 := []vreq{
		{"heartbeat", []rawReq{{apiHeartbeat, heartbeatReq("g", "m", 0), strp("v")}}},
		{"commit", []rawReq{{apiCommit, commitReq("g", ocTop{"a", []ocPart{{0, 2}, {1, 1}}}), strp("v")}}},
		{"fetch", []rawReq{{apiFetch, fetchReq(0, fetchTop{"a", []fetchPart{{0, 0, 1000}}}), nil}}},
		{"metadata", []rawReq{{apiMetadata, metaReq(true), strp("v")}}},
		{"two requests", []rawReq{{apiVersions, nil, strp("v")}, {apiOffFetch, offFetchReq("g", ofTop{"a", []int32{0}}), strp("v")}}},
		{"two commits", []rawReq{{apiCommit, commitReq("g", ocTop{"a", []ocPart{{0, 2}}}), nil}, {apiCommit, commitReq("g", ocTop{"a", []ocPart{{1, 1}}}), nil}}},
	}
	vlen := func(i int) int { b, _ := stream(vs1[i].rs, 7000); return len(b) }
	setup := func(e *E) *world {
		w := newWorld(e, "g", "h")
		for i := 0; i < 2; i++ {
			w.post("a", 0, []byte("k"), pat(20, i), int64(i))
			w.post("a", 1, []byte("k"), pat(20, i), int64(i))
		}
		w.commit("h", "a", 0, 1)
		return w
	}
	// settle accepts the effects the failing client's requests may have had
	settle := func(w *world, i, sent int) {
		if i != 1 && i != 5 {
			return
		}
		_, ends := stream(vs1[i].rs, 7000)
		g0, g1 := w.c.Committed("g", "a", 0), w.c.Committed("g", "a", 1)
		ok := g0 == 0 && g1 == 0
		if i == 1 && sent >= ends[0] {
			ok = ok || g0 == 2 && g1 == 1
		}
		if i == 5 {
			ok = ok || sent >= ends[0] && g0 == 2 && g1 == 0 || sent >= ends[1] && g0 == 2 && g1 == 1
		}
		if !ok {
			w.e.Fail("after %d bytes of %s (request ends %v) the committed offsets are %d and %d", sent, vs1[i].what, ends, g0, g1)
		}
		w.md.get("a", 0).com["g"], w.md.get("a", 1).com["g"] = g0, g1
	}
	after := func(w *world, o *Cli) {
		w.e.Sleep(2500 * time.Millisecond)
		o.checkAll(w.md, w.groups...)
		n := w.m.Dial()
		n.checkAll(w.md, w.groups...)
		w.c = n
		w.post("a", 0, nil, []byte("after"), 9)
		w.commit("h", "a", 0, 2)
		w.checkAll()
		n.Close()
	}
	return []*Job{
		{
			// gone after every number of bytes of every request
			Name: "every-byte", Fix: true, Every: 211,
			Gen: func(p *P) func(e *E) {
				i := p.Pick(len(vs1))
				sent := p.Pick(vlen(i) + 1)
				kind := p.Pick(goneKinds)
				gap := pick(p, 0, 25*time.Millisecond)
				return func(e *E) {
					w := setup(e)
					o := w.m.Dial()
					o.Heartbeat()
					v := w.m.Dial()
					b, _ := stream(vs1[i].rs, 7000)
					if sent > 0 {
						v.c.Write(b[:sent])
					}
					if gap > 0 {
						e.Sleep(gap)
					}
					v.gone(kind)
					if gap == 0 {
						o.Heartbeat()
					}
					e.Sleep(50 * time.Millisecond)
					settle(w, i, sent)
					after(w, o)
					v.Close()
				}
			},
		},
		{
			// schedules of a client going away against the mock and another client
			Name: "schedules", Dev: q(1, 2), Cfg: cfgStmt(),
			Gen: func(p *P) func(e *E) {
				i := p.Pick(3)
				cut := p.Pick(3)
				kind := p.Pick(goneKinds)
				return func(e *E) {
					w := setup(e)
					o := w.m.Dial()
					o.Heartbeat()
					v := w.m.Dial()
					v.Heartbeat()
					b, _ := stream(vs1[i].rs, 7000)
					sent := []int{len(b), 3, len(b) - 1}[cut]
					e.Begin()
					e.Go("victim", func() {
						v.c.Write(b[:sent])
						v.gone(kind)
					})
					e.Go("other", func() {
						if n := len(o.ReadAll("a", 1, 0)); n != 2 {
							e.Fail("the other client got %d records, want 2", n)
						}
					})
					e.Join()
					e.End()
					e.Sleep(50 * time.Millisecond)
					settle(w, i, sent)
					after(w, o)
				}
			},
		},
		{
			// gone while its fetch waits, at many moments, possibly with data arriving
			Name: "waiting-fetch", Fix: true, Every: 13,
			Gen: func(p *P) func(e *E) {
				at := time.Duration(pick(p, 0, 1, 19, 20, 21, 40, 150, 990, 1010, 1900)) * time.Millisecond
				kind := p.Pick(goneKinds)
				data := p.Pick(3)
				return func(e *E) {
					w := setup(e)
					o := w.m.Dial()
					o.Heartbeat()
					v := w.m.Dial()
					v.Send(apiFetch, fetchReq(2000, fetchTop{"a", []fetchPart{{0, 2, 1000}}}))
					e.Sleep(at)
					if data == 1 {
						w.post("a", 0, nil, []byte("new"), 5)
					}
					v.gone(kind)
					if data == 2 {
						w.post("a", 0, nil, []byte("new"), 5)
					}
					o.checkLog(w.md, "a", 0, 0)
					after(w, o)
					e.Sleep(2 * time.Second)
					o.checkAll(w.md, w.groups...)
					v.Close()
				}
			},
		},
		{
			// gone while the response is being written to it, after every amount read
			Name: "during-response",
			Gen: func(p *P) func(e *E) {
				capn := 1 + p.Pick(q(20, 60))
				kind := p.Pick(2)
				read := p.Pick(4)
				wait := pick(p, 0, 5*time.Millisecond, 1200*time.Millisecond)
				return func(e *E) {
					w := setup(e)
					o := w.m.Dial()
					o.Heartbeat()
					v := w.m.Dial()
					v.V().SetCap(capn)
					v.Send(apiFetch, fetchReq(0, fetchTop{"a", []fetchPart{{0, 0, 1000}}}))
					e.Sleep(wait)
					if read > 0 {
						v.c.SetReadDeadline(time.Now().Add(time.Second))
						v.c.Read(make([]byte, read*capn))
					}
					o.checkLog(w.md, "a", 1, 0)
					v.gone(kind)
					after(w, o)
				}
			},
		},
		{
			// a client that does not read its answers harms no other
			Name: "not-reading",
			Gen: func(p *P) func(e *E) {
				capn := 1 + p.Pick(30)
				n := 1 + p.Pick(3)
				kind := p.Pick(goneKinds)
				return func(e *E) {
					w := setup(e)
					o := w.m.Dial()
					o.Heartbeat()
					v := w.m.Dial()
					v.V().SetCap(capn)
					for i := 0; i < n; i++ {
						v.Send(apiMetadata, metaReq(true))
					}
					e.Sleep(20 * time.Millisecond)
					w.post("a", 1, nil, []byte("meanwhile"), 4)
					w.c.Commit1("h", "a", 1, 1)
					w.md.get("a", 1).com["h"] = 1
					o.checkAll(w.md, w.groups...)
					w.m.Dial().checkAll(w.md, w.groups...)
					v.gone(kind)
					after(w, o)
					v.Close()
				}
			},
		},
		{
			// schedules of a reset against the response being written
			Name: "response-schedules", Dev: q(2, 3), Cfg: cfgStmt(),
			Gen: func(p *P) func(e *E) {
				capn := pick(p, 0, 2, 4, 6, 9)
				kind := p.Pick(2)
				return func(e *E) {
					w := setup(e)
					v := w.m.Dial()
					v.Heartbeat()
					v.V().SetCap(capn)
					e.Begin()
					e.Go("victim", func() {
						v.Send(apiHeartbeat, heartbeatReq("g", "m", 0))
						v.gone(kind)
					})
					e.Join()
					e.End()
					after(w, w.c)
				}
			},
		},
		{
			// clients that connect and vanish at once, also before they are accepted
			Name: "connect-and-vanish", Dev: q(1, 2), Cfg: cfgStmt(),
			Gen: func(p *P) func(e *E) {
				k1, k2 := p.Pick(goneKinds), p.Pick(goneKinds)
				return func(e *E) {
					w := setup(e)
					e.Begin()
					e.Go("v1", func() { w.m.Dial().gone(k1) })
					e.Go("v2", func() { w.m.Dial().gone(k2) })
					e.Go("other", func() { w.c.Heartbeat() })
					e.Join()
					e.End()
					after(w, w.c)
				}
			},
		},
	}
}

func c18() []*Job {
	// grow makes a request of api whose variable part has n units
	type grower struct {
		what string
		max  int
		f    func(n int) rawReq
	}
	texts := append([]string{}, confusable...)
	for b := 0; b < 256; b++ {
		texts = append(texts, string([]byte{byte(b)}), string([]byte{byte(b), 0, 'a'}), string([]byte{'a', byte(b)}))
	}
	const text = 1 << 28 // and above: a text instead of a length
	s := func(n int) string {
		if n >= text {
			return texts[n-text]
		}
		return strings.Repeat("s", n)
	}
	var gs []grower
	add := func(what string, max int, f func(n int) rawReq) { gs = append(gs, grower{what, max, f}) }
	name := strp("client")
	add("client id of versions", 32767, func(n int) rawReq { return rawReq{apiVersions, nil, strp(s(n))} })
	add("client id of heartbeat", 32767, func(n int) rawReq { return rawReq{apiHeartbeat, heartbeatReq("g", "m", 1), strp(s(n))} })
	add("topic of metadata", 32767, func(n int) rawReq { return rawReq{apiMetadata, metaReq(false, s(n)), name} })
	add("group of coordinator", 32767, func(n int) rawReq { return rawReq{apiFindCoord, coordReq(s(n)), name} })
	add("group of join", 32767, func(n int) rawReq { return rawReq{apiJoin, joinReq(s(n), "", "range"), name} })
	add("member of join", 32767, func(n int) rawReq { return rawReq{apiJoin, joinReq("g", s(n), "range"), name} })
	add("protocol of join", 32767, func(n int) rawReq { return rawReq{apiJoin, joinReq("g", "m", s(n)), name} })
	add("protocol metadata of join", 200000, func(n int) rawReq {
		w := &W{}
		return rawReq{apiJoin, w.str("g").i32(30000).i32(60000).str("m").str("consumer").i32(1).str("range").bytes(pat(n, 1)).b, name}
	})
	add("group of sync", 32767, func(n int) rawReq { return rawReq{apiSync, syncReq(s(n), "m", 0), name} })
	add("member of sync", 32767, func(n int) rawReq { return rawReq{apiSync, syncReq("g", s(n), 0), name} })
	add("group of heartbeat", 32767, func(n int) rawReq { return rawReq{apiHeartbeat, heartbeatReq(s(n), "m", 0), name} })
	add("member of heartbeat", 32767, func(n int) rawReq { return rawReq{apiHeartbeat, heartbeatReq("g", s(n), 0), name} })
	add("member of leave", 32767, func(n int) rawReq { return rawReq{apiLeave, leaveReq("g", s(n)), nil} })
	add("group of leave", 32767, func(n int) rawReq { return rawReq{apiLeave, leaveReq(s(n), "m"), nil} })
	add("topic of fetch", 32767, func(n int) rawReq {
		return rawReq{apiFetch, fetchReq(0, fetchTop{s(n), []fetchPart{{0, 0, 1000}}}, fetchTop{"a", []fetchPart{{0, 0, 1000}}}), name}
	})
	add("topic of list offsets", 32767, func(n int) rawReq {
		return rawReq{apiListOffsets, listReq(loTop{s(n), []loPart{{0, -1}}}, loTop{"a", []loPart{{0, -1}}}), name}
	})
	add("topic of offset fetch", 32767, func(n int) rawReq {
		return rawReq{apiOffFetch, offFetchReq("g", ofTop{s(n), []int32{0}}, ofTop{"a", []int32{0}}), name}
	})
	add("group of offset fetch", 32767, func(n int) rawReq { return rawReq{apiOffFetch, offFetchReq(s(n), ofTop{"a", []int32{0}}), name} })
	add("topic of commit", 32767, func(n int) rawReq {
		return rawReq{apiCommit, commitReq("g", ocTop{s(n), []ocPart{{0, 1}}}, ocTop{"a", []ocPart{{0, 1}}}), name}
	})
	add("group of commit", 32767, func(n int) rawReq { return rawReq{apiCommit, commitReq(s(n), ocTop{"a", []ocPart{{0, 1}}}), name} })
	add("metadata of commit", 32767, func(n int) rawReq {
		w := &W{}
		return rawReq{apiCommit, w.str("g").i32(0).str("m").i64(-1).i32(1).str("a").i32(1).i32(0).i64(1).str(s(n)).b, name}
	})
	// arrays
	add("topics of metadata", 4000, func(n int) rawReq {
		var t []string
		for i := 0; i < n; i++ {
			t = append(t, fmt.Sprint("t", i))
		}
		return rawReq{apiMetadata, metaReq(false, t...), name}
	})
	add("topics of fetch", 2000, func(n int) rawReq {
		var t []fetchTop
		for i := 0; i < n; i++ {
			t = append(t, fetchTop{"a", []fetchPart{{int32(i % 3), 0, 1000}}})
		}
		return rawReq{apiFetch, fetchReq(0, t...), name}
	})
	add("partitions of fetch", 3000, func(n int) rawReq {
		var t []fetchPart
		for i := 0; i < n; i++ {
			t = append(t, fetchPart{int32(i), 0, 1000})
		}
		return rawReq{apiFetch, fetchReq(0, fetchTop{"a", t}), name}
	})
	add("partitions of list offsets", 3000, func(n int) rawReq {
		var t []loPart
		for i := 0; i < n; i++ {
			t = append(t, loPart{int32(i), -1})
		}
		return rawReq{apiListOffsets, listReq(loTop{"a", t}), name}
	})
	add("topics of list offsets", 2000, func(n int) rawReq {
		var t []loTop
		for i := 0; i < n; i++ {
			t = append(t, loTop{"a", []loPart{{0, -2}}})
		}
		return rawReq{apiListOffsets, listReq(t...), name}
	})
	add("partitions of offset fetch", 3000, func(n int) rawReq {
		var t []int32
		for i := 0; i < n; i++ {
			t = append(t, int32(i))
		}
		return rawReq{apiOffFetch, offFetchReq("g", ofTop{"a", t}), name}
	})
	add("partitions of commit", 3000, func(n int) rawReq {
		var t []ocPart
		for i := 0; i < n; i++ {
			t = append(t, ocPart{int32(i), 1})
		}
		return rawReq{apiCommit, commitReq("g", ocTop{"a", t}), name}
	})
	add("topics of commit", 2000, func(n int) rawReq {
		var t []ocTop
		for i := 0; i < n; i++ {
			t = append(t, ocTop{"a", []ocPart{{0, 1}}})
		}
		return rawReq{apiCommit, commitReq("g", t...), name}
	})
	add("protocols of join", 1500, func(n int) rawReq {
		var t []string
		for i := 0; i < n; i++ {
			t = append(t, fmt.Sprint("p", i))
		}
		return rawReq{apiJoin, joinReq("g", "m", t...), name}
	})

	// check sends the request between two others and decodes the answer
	check := func(e *E, r rawReq, what string) {
		w := newWorld(e)
		w.post("a", 0, nil, []byte("v"), 1)
		w.create(1, "a")
		rs := []rawReq{r, {apiHeartbeat, heartbeatReq("g", "m", 0), nil}}
		b, _ := stream(rs, 40)
		if _, err := w.c.c.Write(b); err != nil {
			e.Fail("%s: sending: %v", what, err)
		}
		got := w.c.Recv(40, what)
		if bad := decodeAny(r.api, got); bad != "" {
			e.Fail("%s: malformed response: %s", what, bad)
		}
		n := -1
		switch r.api {
		case apiFetch:
			x, _ := fetchResp(got)
			for n = 0; len(x) > 0; x = x[1:] {
				n += 1000
				for _, fp := range x[0].Parts {
					n++
					if x[0].Name == "a" && fp.P == 0 && len(fp.Set) != 1 {
						e.Fail("%s: %d records for a/0", what, len(fp.Set))
					}
				}
			}
		case apiListOffsets:
			x, _ := listResp(got)
			for n = 0; len(x) > 0; x = x[1:] {
				n += 1000 + len(x[0].Parts)
			}
		case apiCommit:
			x, _ := commitResp(got)
			for n = 0; len(x) > 0; x = x[1:] {
				n += 1000 + len(x[0].Parts)
			}
		case apiMetadata:
			x, _ := metaResp(got)
			n = len(x.Tops)
		}
		if want := entries(r); n >= 0 && n != want {
			e.Fail("%s: the answer has %d topics*1000+entries, the request %d", what, n, want)
		}
		w.c.Recv(41, what+", the request after it")
		w.c.Heartbeat()
	}
	return []*Job{
		{
			// every variable part of every request in small and boundary sizes
			Name: "sizes", Fix: true, Every: 499,
			Gen: func(p *P) func(e *E) {
				g := gs[p.Pick(len(gs))]
				base := len(frame(g.f(0).api, 0, 0, g.f(0).client, g.f(0).body))
				unit := len(frame(g.f(0).api, 0, 0, g.f(1).client, g.f(1).body)) - base
				var ns []int
				for i := 0; i <= q(20, 140); i++ {
					ns = append(ns, i)
				}
				bounds := []int{128, 256, 1024, 2048, 4096, 8192, 16384, 32768, 65536}
				d := q(9, 40)
				for _, c := range bounds {
					n := (c - base) / unit
					for i := -d; i <= d; i++ {
						ns = append(ns, n+i)
					}
				}
				ns = append(ns, 127, 255, 5000, 10000, 20000, 32766, 32767, 100000, 200000)
				var ok []int
				seen := map[int]bool{}
				for _, n := range ns {
					if n >= 0 && n <= g.max && !seen[n] {
						seen[n] = true
						ok = append(ok, n)
					}
				}
				n := ok[p.Pick(len(ok))]
				return func(e *E) { check(e, g.f(n), fmt.Sprintf("%s, %d long", g.what, n)) }
			},
		},
		{
			// whatever a string consists of
			Name: "texts", Fix: true, Every: 311,
			Gen: func(p *P) func(e *E) {
				var strs []grower
				for _, g := range gs {
					if g.max == 32767 {
						strs = append(strs, g)
					}
				}
				g := strs[p.Pick(len(strs))]
				n := p.Pick(len(texts))
				return func(e *E) { check(e, g.f(text+n), fmt.Sprintf("%s, %q", g.what, texts[n])) }
			},
		},
		{
			// arrays beyond 16 bits, byte strings of megabytes
			Name: "huge", Every: 7, Cfg: vs.Config{MaxSteps: 5_000_000},
			Gen: func(p *P) func(e *E) {
				var big []grower
				for _, g := range gs {
					if g.max != 32767 {
						big = append(big, g)
					}
				}
				g := big[p.Pick(len(big))]
				ns := []int{g.max + 1, 10001, 32768, 65536, 100001}
				if g.max > 100000 {
					ns = []int{1<<20 - 100, 1<<20 + 1, 1<<22 + 1, 10_000_001, 1<<24 + 1}
				}
				n := pick(p, ns...)
				return func(e *E) { check(e, g.f(n), fmt.Sprintf("%s, %d long", g.what, n)) }
			},
		},
		{
			// large requests followed by more bytes that are already there, cut or whole
			Name: "two-variable-parts", Fix: true, Every: 97,
			Gen: func(p *P) func(e *E) {
				sz := []int{0, 1, 4060, 4096, 8192, 20000}
				a, b, c := pick(p, sz...), pick(p, sz...), p.Pick(4)
				return func(e *E) {
					r := []rawReq{
						{apiJoin, joinReq(s(a), "m", s(b), "range"), nil},
						{apiCommit, commitReq(s(a), ocTop{s(b), []ocPart{{0, 1}, {1, 1}}}, ocTop{"a", []ocPart{{0, 1}}}), strp("c")},
						{apiFetch, fetchReq(0, fetchTop{s(a), []fetchPart{{0, 0, 1}}}, fetchTop{s(b), nil}, fetchTop{"a", []fetchPart{{0, 0, 1000}}}), nil},
						{apiMetadata, metaReq(false, s(a), "a", s(b)+"x"), strp(s(b))},
					}[c]
					check(e, r, fmt.Sprintf("request type %d with strings of %d and %d", r.api, a, b))
				}
			},
		},
		{
			// nulls wherever the protocol allows them
			Name: "nulls", Fix: true, Every: 5,
			Gen: func(p *P) func(e *E) {
				k := p.Pick(len(allRequests()) + 3)
				cl := p.Pick(3)
				return func(e *E) {
					var r rawReq
					w := &W{}
					switch rs := allRequests(); {
					case k < len(rs):
						r = rawReq{api: rs[k].api, body: rs[k].body}
					case k == len(rs):
						r = rawReq{api: apiCommit, body: w.str("g").i32(-1).str("").i64(-1).i32(1).str("a").i32(3).i32(0).i64(1).nullStr().i32(1).i64(1).str("").i32(2).i64(-1).nullStr().b}
					case k == len(rs)+1:
						r = rawReq{api: apiMetadata, body: metaReq(true)}
					default:
						r = rawReq{api: apiJoin, body: w.str("").i32(0).i32(0).str("").str("").i32(1).str("").bytes([]byte{}).b}
					}
					r.client = []*string{nil, strp(""), strp("x")}[cl]
					w2 := newWorld(e)
					w2.create(0, "a")
					b, _ := stream([]rawReq{r}, 9)
					w2.c.c.Write(b)
					what := fmt.Sprintf("request type %d (%d)", r.api, k)
					if bad := decodeAny(r.api, w2.c.Recv(9, what)); bad != "" {
						e.Fail("%s: malformed response: %s", what, bad)
					}
					w2.c.Heartbeat()
				}
			},
		},
		{
			// every number at its extremes
			Name: "numbers", Fix: true, Every: 31,
			Gen: func(p *P) func(e *E) {
				i32s := []int32{-1 << 31, -2, -1, 0, 1, 1<<31 - 1}
				i64s := []int64{-1 << 63, -1 << 31, -2, -1, 0, 1, 1 << 31, 1 << 40, 1<<63 - 1}
				api := pick(p, int16(apiFetch), apiListOffsets, apiCommit, apiOffFetch, apiJoin, apiSync, apiHeartbeat, 0)
				var r rawReq
				var corr int32 = 3
				w := &W{}
				switch api {
				case apiFetch:
					pn, off, max := pick(p, i32s...), pick(p, i64s...), pick(p, i32s...)
					k := p.Pick(3)
					rep, wait, minb := int32(-1), int32(0), int32(1)
					switch k {
					case 1:
						rep, minb = pn, max
					case 2:
						wait, minb = -5, -1
					}
					w.i32(rep).i32(wait).i32(minb).i32(1).str("a").i32(1).i32(pn).i64(off).i32(max)
				case apiListOffsets:
					pn, ts := pick(p, i32s...), pick(p, i64s...)
					rep := pick(p, i32s...)
					w.i32(rep).i32(1).str("a").i32(1).i32(pn).i64(ts)
				case apiCommit:
					gen, ret, pn, off := pick(p, i32s...), pick(p, i64s...), pick(p, i32s...), pick(p, int64(-1<<63), -1, 0, 1, 1<<63-1)
					w.str("g").i32(gen).str("m").i64(ret).i32(1).str("a").i32(1).i32(pn).i64(off).nullStr()
				case apiOffFetch:
					a, b := pick(p, i32s...), pick(p, i32s...)
					w.b = offFetchReq("g", ofTop{"a", []int32{a, b}})
				case apiJoin:
					a, b := pick(p, i32s...), pick(p, i32s...)
					w.str("g").i32(a).i32(b).str("").str("consumer").i32(0)
				case apiSync:
					w.b = syncReq("g", "m", pick(p, i32s...))
				case apiHeartbeat:
					w.b = heartbeatReq("g", "m", pick(p, i32s...))
				case 0:
					api = apiHeartbeat
					w.b = heartbeatReq("g", "m", 0)
					corr = pick(p, i32s...)
				}
				r = rawReq{api, w.b, nil}
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 0, nil, []byte("v"), 1)
					w.create(1, "a")
					b, _ := stream([]rawReq{r}, corr)
					w.c.c.Write(b)
					what := fmt.Sprintf("request type %d %x", r.api, r.body)
					if bad := decodeAny(r.api, w.c.Recv(corr, what)); bad != "" {
						e.Fail("%s: malformed response: %s", what, bad)
					}
					w.c.Heartbeat()
					if n := len(w.c.ReadAll("a", 0, 0)); n != 1 {
						e.Fail("%s: the log has %d records afterwards", what, n)
					}
				}
			},
		},
	}
}

// entries is topics*1000 + partition entries of a request (topics for metadata).
func entries(r rawReq) (n int) {
	decode(r.body, func(d *R) {
		switch r.api {
		case apiMetadata:
			n = d.arr()
			d.off = len(d.b)
			return
		case apiFetch:
			d.take(12)
		case apiListOffsets:
			d.take(4)
		case apiCommit:
			d.str()
			d.i32()
			d.str()
			d.i64()
		default:
			n = -1
			return
		}
		for i, k := 0, d.arr(); i < k; i++ {
			n += 1000
			d.str()
			for j, z := 0, d.arr(); j < z; j++ {
				n++
				switch r.api {
				case apiFetch:
					d.take(16)
				case apiListOffsets:
					d.take(12)
				case apiCommit:
					d.take(12)
					d.nstr()
				}
			}
		}
	})
	return
}

const releaseTime = 2500 * time.Millisecond

func c27() []*Job {
	// client states: 0 just connected, 1 served before, 2 in the middle of the
	// size field, 3 in the middle of a request, 4 fetch waiting, 5 answers unread,
	// 6 several requests pipelined
	const states = 7
	bring := func(c *Cli, state int) {
		switch state {
		case 1:
			c.Heartbeat()
		case 2:
			c.c.Write([]byte{0, 0})
		case 3:
			c.Heartbeat()
			c.c.Write([]byte{0, 0, 0, 40, 0, 12, 0, 0, 0, 0})
		case 4:
			c.Send(apiFetch, fetchReq(700, fetchTop{"a", []fetchPart{{0, 1, 1000}}}))
		case 5:
			c.Send(apiFetch, fetchReq(0, fetchTop{"a", []fetchPart{{0, 0, 1000}}}))
			c.Send(apiMetadata, metaReq(true))
		case 6:
			for i := 0; i < 4; i++ {
				c.Send(apiHeartbeat, heartbeatReq("g", "m", 0))
			}
		}
	}
	released := func(e *E, c *Cli, within time.Duration, what string) {
		if plainMode {
			return
		}
		if !e.Until(within, c.V().PeerClosed) {
			e.Fail("%s: the mock has not closed its side of the connection after %v", what, within)
		}
	}
	live := func(w *world) int {
		w.c.Heartbeat()
		e := w.e
		e.Sleep(5 * time.Millisecond)
		if plainMode {
			return 0
		}
		n, _ := e.x.LiveThreads()
		return n
	}
	// the mock's threads end too
	ended := func(e *E, want int, what string) {
		if plainMode {
			return
		}
		if !e.Until(time.Second, func() bool { n, _ := e.x.LiveThreads(); return n <= want }) {
			n, d := e.x.LiveThreads()
			e.Fail("%s: %d goroutines of the mock remain, want %d: %s", what, n, want, d)
		}
	}
	return []*Job{
		{
			// one client in every state goes in every way, beside others
			Name: "every-state", Fix: true, Every: 5,
			Gen: func(p *P) func(e *E) {
				st := p.Pick(states)
				kind := p.Pick(goneKinds)
				others := p.Pick(3)
				gap := pick(p, 0, 30*time.Millisecond, 1100*time.Millisecond)
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 0, nil, []byte("v"), 1)
					var os []*Cli
					for i := 0; i < others; i++ {
						o := w.m.Dial()
						o.Heartbeat()
						os = append(os, o)
					}
					base := live(w)
					v := w.m.Dial()
					bring(v, st)
					if gap > 0 {
						e.Sleep(gap)
					}
					v.gone(kind)
					what := fmt.Sprintf("a client in state %d %s", st, goneName[kind])
					released(e, v, releaseTime, what)
					ended(e, base, what)
					for _, o := range append(os, w.c) {
						if !plainMode && o.V().PeerClosed() {
							e.Fail("%s: another client's connection was closed", what)
						}
						o.Heartbeat()
						o.checkLog(w.md, "a", 0, 0)
					}
					v.Close()
				}
			},
		},
		{
			// clients leaving in every order; the others stay, the table forgets them
			Name: "every-order", Fix: true, Every: 29,
			Gen: func(p *P) func(e *E) {
				n := q(4, 5)
				var order, kinds []int
				left := make([]int, n)
				for i := range left {
					left[i] = i
				}
				for len(left) > 1 {
					i := p.Pick(len(left))
					order = append(order, left[i])
					kinds = append(kinds, (i+len(left))%goneKinds)
					left = append(append([]int(nil), left[:i]...), left[i+1:]...)
				}
				between := p.Pick(2)
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 0, nil, []byte("v"), 1)
					base := live(w)
					cs := make([]*Cli, n)
					for i := range cs {
						cs[i] = w.m.Dial()
						cs[i].Heartbeat()
					}
					for k, i := range order {
						cs[i].gone(kinds[k])
						what := fmt.Sprintf("client %d of order %v %s", i, order, goneName[kinds[k]])
						if between == 1 {
							released(e, cs[i], releaseTime, what)
							ended(e, base+n-k-1, what)
							nc := w.m.Dial()
							nc.Heartbeat()
							nc.Close()
							released(e, nc, releaseTime, what+", and another came and went")
						}
						for j, o := range cs {
							if gone := func() bool {
								for _, x := range order[:k+1] {
									if x == j {
										return true
									}
								}
								return false
							}(); !gone {
								o.Heartbeat()
							}
						}
					}
					for _, i := range order {
						released(e, cs[i], releaseTime, fmt.Sprintf("client %d of order %v", i, order))
						cs[i].Close()
					}
					ended(e, base+1, fmt.Sprintf("order %v", order))
					left := cs[remaining(n, order)]
					left.checkLog(w.md, "a", 0, 0)
				}
			},
		},
		{
			// memory: after clients left, nothing of the mock refers to their connections
			Name: "no-reference", ByCase: true,
			Gen: func(p *P) func(e *E) {
				n := 1 + p.Pick(4)
				keep := p.Pick(n + 1) // this one stays (n: none)
				rev := p.Pick(2)
				st := p.Pick(q(4, states))
				kind := p.Pick(goneKinds)
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 0, nil, []byte("v"), 1)
					var weaks []weak.Pointer[vnet.TCPConn]
					func() {
						cs := make([]*Cli, n)
						for i := range cs {
							cs[i] = w.m.Dial()
							cs[i].Heartbeat()
						}
						for k := range cs {
							i := k
							if rev == 1 {
								i = n - 1 - k
							}
							if i == keep {
								continue
							}
							bring(cs[i], st)
							e.Sleep(3 * time.Millisecond)
							cs[i].gone(kind)
						}
						for i, c := range cs {
							if i == keep {
								continue
							}
							released(e, c, releaseTime, "a client that left")
						}
						e.Sleep(10 * time.Millisecond)
						for i, c := range cs {
							if i != keep {
								weaks = append(weaks, vnet.Forget(c.V()))
								cs[i] = nil
							}
						}
						if keep < n {
							cs[keep].Heartbeat()
							w.c = cs[keep]
						}
					}()
					w.c.Heartbeat()
					// a server may keep its newest connection in a variable
					last := w.m.Dial()
					last.Heartbeat()
					for i := 0; ; i++ {
						runtime.GC()
						held := 0
						for _, p := range weaks {
							if p.Value() != nil {
								held++
							}
						}
						if held == 0 {
							break
						}
						if i == 3 {
							e.Fail("%d of %d connections whose client left are still referred to (client %d stays, reverse %d, state %d)", held, len(weaks), keep, rev, st)
						}
					}
					w.c.Heartbeat()
					last.Heartbeat()
				}
			},
		},
		{
			// the same for each of many that come and go
			Name: "no-reference-of-many", ByCase: true,
			Gen: func(p *P) func(e *E) {
				n := pick(p, 20, 70, 140, 270, q(270, 1030))
				kind := p.Pick(goneKinds)
				together := pick(p, 1, 5, 20)
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 0, nil, []byte("v"), 1)
					var weaks []weak.Pointer[vnet.TCPConn]
					func() {
						for i := 0; i < n; i += together {
							cs := make([]*Cli, together)
							for j := range cs {
								cs[j] = w.m.Dial()
								cs[j].Heartbeat()
							}
							for _, c := range cs {
								c.gone(kind)
							}
							for j, c := range cs {
								released(e, c, releaseTime, "a client that left")
								weaks = append(weaks, vnet.Forget(c.V()))
								cs[j] = nil
							}
							e.Op()
						}
					}()
					e.Sleep(10 * time.Millisecond)
					w.c.Heartbeat()
					last := w.m.Dial()
					last.Heartbeat()
					for i := 0; ; i++ {
						runtime.GC()
						held := 0
						for _, p := range weaks {
							if p.Value() != nil {
								held++
							}
						}
						if held == 0 {
							break
						}
						if i == 3 {
							e.Fail("%d of %d connections whose client left are still referred to (%d at a time)", held, len(weaks), together)
						}
					}
					w.c.Heartbeat()
					last.Heartbeat()
				}
			},
		},
		{
			// a response that fails must not leave duplicates of the descriptor behind
			Name: "descriptors", ByCase: true,
			Gen: func(p *P) func(e *E) {
				kind := p.Pick(2)
				n := 1 + p.Pick(3)
				capn := p.Pick(12)
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 0, nil, pat(100, 1), 1)
					runtime.GC()
					before := openFds()
					for i := 0; i < n; i++ {
						v := w.m.Dial()
						v.V().SetCap(capn)
						v.Send(apiFetch, fetchReq(300, fetchTop{"a", []fetchPart{{0, int64(kind), 1000}}}))
						e.Sleep(50 * time.Millisecond)
						v.Reset()
						released(e, v, releaseTime, "a client that resets during its response")
					}
					e.Sleep(10 * time.Millisecond)
					vnet.CloseMirrors()
					if after := openFds(); after > before {
						e.Fail("%d descriptors were left open by %d failed responses", after-before, n)
					}
					w.c.Heartbeat()
				}
			},
		},
		{
			// schedules of two clients leaving at once, and one arriving
			Name: "schedules", Dev: q(2, 3), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				k1 := p.Pick(goneKinds)
				arrive := p.Pick(2)
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 0, nil, []byte("v"), 1)
					a, b := w.m.Dial(), w.m.Dial()
					a.Heartbeat()
					b.Heartbeat()
					var n *Cli
					e.Begin()
					e.Go("a", func() { a.gone(k1) })
					if arrive == 0 {
						e.Go("b", func() { b.gone(0) })
					} else {
						e.Go("n", func() { n = w.m.Dial(); n.Heartbeat() })
					}
					e.Join()
					e.End()
					released(e, a, releaseTime, "the first client")
					if arrive == 0 {
						released(e, b, releaseTime, "the second client")
						ended(e, 2, "after two clients left")
					} else {
						ended(e, 4, "after one client left and one came")
						n.checkLog(w.md, "a", 0, 0)
						b.Heartbeat()
					}
					w.c.checkLog(w.md, "a", 0, 0)
				}
			},
		},
	}
}

func remaining(n int, order []int) int {
	for i := 0; i < n; i++ {
		used := false
		for _, x := range order {
			used = used || x == i
		}
		if !used {
			return i
		}
	}
	return 0
}

func openFds() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(es)
}

func c28() []*Job {
	own := func(i int) []rawReq {
		g := fmt.Sprint("g", i)
		n := strp(fmt.Sprint("client-", i))
		return []rawReq{
			{apiCommit, commitReq(g, ocTop{"a", []ocPart{{0, int64(i + 1)}}}), n},
			{apiOffFetch, offFetchReq(g, ofTop{"a", []int32{0, 1}}), n},
			{apiFetch, fetchReq(0, fetchTop{"a", []fetchPart{{int32(i % 2), int64(i % 2), 1000}}}), n},
			{apiHeartbeat, heartbeatReq(g, "m", int32(i)), n},
			{apiListOffsets, listReq(loTop{"a", []loPart{{int32(i % 2), 1}}}), n}, // by time: the answer has no current time in it
			{apiMetadata, metaReq(false, "a", fmt.Sprint("zz", i)), n},
			{apiFindCoord, coordReq(g), n},
			{apiJoin, joinReq(g, "m", "range"), n},
			{apiSync, syncReq(g, "m", 1), n},
			{apiLeave, leaveReq(g, "m"), n},
			{apiVersions, nil, n},
		}
	}
	setup := func(e *E) *world {
		w := newWorld(e)
		for i := 0; i < 3; i++ {
			w.post("a", 0, []byte("k0"), pat(4, i), int64(i))
			w.post("a", 1, []byte("k1"), pat(4, 10+i), int64(i))
		}
		return w
	}
	// wants are the answers of lone clients, from a mock of their own
	wants := func(e *E, rss [][]rawReq) (out [][][]byte) {
		for i, rs := range rss {
			w := &world{e: e, m: e.MockAt(30000 + i), md: model{}}
			w.m.Start()
			for i := 0; i < 3; i++ {
				w.post("a", 0, []byte("k0"), pat(4, i), int64(i))
				w.post("a", 1, []byte("k1"), pat(4, 10+i), int64(i))
			}
			as := w.lone(rs, int32(1000*(i+1)))
			out = append(out, as)
		}
		return
	}
	run := func(e *E, rss [][]rawReq, explore bool, mode int, waiter bool) {
		ws := wants(e, rss)
		w := setup(e)
		for i := range ws {
			for j := range ws[i] {
				ws[i][j] = samePort(ws[i][j], 30000+i, w.m.port)
			}
		}
		cs := make([]*Cli, len(rss))
		for i := range cs {
			cs[i] = w.m.Dial()
			cs[i].Heartbeat()
		}
		var wt *Cli
		if waiter {
			wt = w.m.Dial()
			wt.Heartbeat()
		}
		if explore {
			e.Begin()
		}
		if waiter {
			e.Go("waiter", func() { wt.Fetch1("a", 0, 3, 100, 70) })
		}
		for i := range rss {
			i := i
			b, ends := stream(rss[i], int32(1000*(i+1)))
			e.Go(fmt.Sprint("client", i), func() {
				c := cs[i]
				switch mode {
				case 0: // everything at once, then read
					c.c.Write(b)
					c.wantAnswers(ws[i], int32(1000*(i+1)), fmt.Sprint("client ", i))
				case 1: // one by one
					at := 0
					for j, end := range ends {
						c.c.Write(b[at:end])
						at = end
						c.wantAnswers(ws[i][j:j+1], int32(1000*(i+1)+j), fmt.Sprint("client ", i, " request ", j))
					}
				case 2: // in pieces that do not match the requests
					for at := 0; at < len(b); at += 17 {
						c.c.Write(b[at:min(len(b), at+17)])
					}
					c.wantAnswers(ws[i], int32(1000*(i+1)), fmt.Sprint("client ", i))
				}
			})
		}
		e.Join()
		if explore {
			e.End()
		}
		e.Sleep(25 * time.Millisecond)
		for i, c := range cs {
			c.NoMore(fmt.Sprint("client ", i))
			c.Heartbeat()
		}
	}
	return []*Job{
		{
			// two clients, every pair of request kinds, all schedules up to a bound
			Name: "pairs", Dev: 1, Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				a, b := p.Pick(11), p.Pick(11)
				if b < a {
					a, b = b, a
					_ = a
				}
				return func(e *E) { run(e, [][]rawReq{own(0)[a : a+1], own(1)[b : b+1]}, true, 0, false) }
			},
		},
		{
			Name: "pairs-deeper", Dev: q(2, 3), Cfg: vs.Config{},
			Gen: func(p *P) func(e *E) {
				a, b := p.Pick(q(4, 11)), p.Pick(q(4, 11))
				return func(e *E) { run(e, [][]rawReq{own(0)[a : a+1], own(1)[b : b+1]}, true, 0, false) }
			},
		},
		{
			// three clients with everything, and one waiting in a fetch
			Name: "pipelines", Dev: 1,
			Gen: func(p *P) func(e *E) {
				mode := p.Pick(3)
				wait := p.Pick(2) == 1
				return func(e *E) { run(e, [][]rawReq{own(0), own(1), own(2)}, true, mode, wait) }
			},
		},
		{
			// pipelined behind a waiting fetch: answers stay in order
			Name: "behind-a-wait", Fix: true, Every: 3,
			Gen: func(p *P) func(e *E) {
				at := p.Pick(4)
				k := p.Pick(11)
				post := p.Pick(2)
				return func(e *E) {
					w := setup(e)
					o := w.m.Dial()
					o.Heartbeat()
					rs := own(0)
					rs = append(append([]rawReq{}, rs[k:]...), rs[:k]...)[:3]
					fetch := rawReq{apiFetch, fetchReq(300, fetchTop{"a", []fetchPart{{0, 3, 1000}}}), nil}
					rs = append(append(append([]rawReq{}, rs[:at]...), fetch), rs[at:]...)
					b, _ := stream(rs, 100)
					w.c.c.Write(b)
					e.Sleep(40 * time.Millisecond)
					o.checkLog(w.md, "a", 0, 0)
					o.Heartbeat()
					if post == 1 {
						w.post("a", 0, []byte("k"), []byte("late"), 7)
					}
					for i := range rs {
						got := w.c.Recv(100+int32(i), fmt.Sprint("pipelined request ", i))
						if bad := decodeAny(rs[i].api, got); bad != "" {
							e.Fail("pipelined request %d: malformed response: %s", i, bad)
						}
						if i == at {
							r, _ := fetchResp(got)
							if n := len(r[0].Parts[0].Set); n != post {
								e.Fail("the waiting fetch got %d records, want %d", n, post)
							}
						}
					}
					e.Sleep(25 * time.Millisecond)
					w.c.NoMore("pipelined requests")
				}
			},
		},
		{
			// answers of every size among others on one connection, beside another client
			Name: "large-answers", Fix: true, Every: 53, Cfg: vs.Config{MaxSteps: 2_000_000},
			Gen: func(p *P) func(e *E) {
				n := pick(p, edges(deep(1<<16, 1<<22))[12:]...)
				k := p.Pick(11)
				late := p.Pick(2)
				return func(e *E) {
					w := setup(e)
					w.post("big", 0, nil, pat(n, 1), 1)
					mine := own(0)[k]
					big := rawReq{apiFetch, fetchReq(0, fetchTop{"big", []fetchPart{{0, 0, int32(n + 100)}}}), nil}
					rs := []rawReq{big, mine, mine, big, big, mine}
					c2 := w.m.Dial()
					want := w.lone(rs, 3000)
					b, _ := stream(rs, 3000)
					e.Go("one", func() {
						w.c.c.Write(b)
						if late == 1 {
							e.Sleep(3 * time.Second)
						}
						w.c.wantAnswers(want, 3000, fmt.Sprintf("answers of %d bytes", n))
					})
					e.Go("two", func() {
						c2.c.Write(b)
						c2.wantAnswers(want, 3000, fmt.Sprintf("second client, answers of %d bytes", n))
					})
					e.Join()
					w.c.NoMore("large answers")
					c2.NoMore("large answers")
				}
			},
		},
		{
			// one client uses the same correlation id again and again, on one connection
			// or on a new one for every request: each request gets its own answer
			Name: "repeated-ids", Fix: true, Every: 41,
			Gen: func(p *P) func(e *E) {
				rs := append(own(0),
					rawReq{apiFetch, fetchReq(0, fetchTop{"a", []fetchPart{{0, 2, 1000}, {1, 0, 1000}}}), strp("client-0")},
					rawReq{apiOffFetch, offFetchReq("g1", ofTop{"a", []int32{0}}), strp("client-0")},
					rawReq{apiCommit, commitReq("g0", ocTop{"a", []ocPart{{0, 3}}}), strp("client-0")})
				a, b := p.Pick(len(rs)), p.Pick(len(rs))
				change := p.Pick(4)
				again := p.Pick(3) // one connection, a new one every time, pipelined
				id := pick(p, int32(0), 1, 7, -1)
				return func(e *E) {
					seq := []int{a, b, a, -1, a, a, b, -1, b, a}
					if again == 2 {
						seq = []int{a, a, b, b, a, b}
					}
					ask := func(w *world, id func(i int) int32) (out [][]byte) {
						c := w.m.Dial()
						if again == 2 {
							var all []byte
							for i, k := range seq {
								all = append(all, frame(rs[k].api, served[rs[k].api], id(i), rs[k].client, rs[k].body)...)
							}
							c.c.Write(all)
						}
						for i, k := range seq {
							if k < 0 {
								switch change {
								case 1:
									w.post("a", 0, []byte("k"), pat(4, i), 9)
								case 2:
									w.m.km.SetConsumerGroupOffset("a", 0, "g0", int64(40+i))
								case 3:
									w.m.km.CreatePartitionTopics([]string{"b", "zz0"}, i)
								}
								continue
							}
							if again == 1 && i > 0 {
								c.Close()
								c = w.m.Dial()
							}
							if again != 2 {
								c.c.Write(frame(rs[k].api, served[rs[k].api], id(i), rs[k].client, rs[k].body))
							}
							out = append(out, c.Recv(id(i), fmt.Sprint("request ", i)))
						}
						return
					}
					ref, w := setup(e), setup(e)
					want := ask(ref, func(i int) int32 { return int32(i + 100) })
					for i, got := range ask(w, func(int) int32 { return id }) {
						if x := samePort(want[i], ref.m.port, w.m.port); !sameAnswer(got, x) {
							e.Fail("answer %d of requests that all have the correlation id %d is %x, with others %x", i, id, got, x)
						}
						e.Op()
					}
				}
			},
		},
		{
			// same correlation ids, same groups, many clients
			Name: "same-ids", Fix: true, Every: 7,
			Gen: func(p *P) func(e *E) {
				n := 2 + p.Pick(q(4, 8))
				k := p.Pick(11)
				return func(e *E) {
					w := setup(e)
					var cs []*Cli
					for i := 0; i < n; i++ {
						cs = append(cs, w.m.Dial())
					}
					for r := 0; r < 3; r++ {
						for i, c := range cs {
							rq := own(i)[(k+i+r)%11]
							c.c.Write(frame(rq.api, served[rq.api], 5, rq.client, rq.body))
						}
					}
					for r := 0; r < 3; r++ {
						for i := len(cs) - 1; i >= 0; i-- {
							rq := own(i)[(k+i+r)%11]
							got := cs[i].Recv(5, fmt.Sprint("client ", i))
							if bad := decodeAny(rq.api, got); bad != "" {
								e.Fail("client %d: malformed response to request type %d: %s", i, rq.api, bad)
							}
							if rq.api == apiFetch {
								x, _ := fetchResp(got)
								if fp := x[0].Parts[0]; fp.P != int32(i%2) || diffSet(fp.Set, w.md.get("a", fp.P).recs, int64(i%2)) != "" {
									e.Fail("client %d got %v", i, x)
								}
							}
							if rq.api == apiListOffsets {
								x, _ := listResp(got)
								if x[0].Parts[0].P != int32(i%2) {
									e.Fail("client %d asked for partition %d and got %v", i, i%2, x)
								}
							}
						}
					}
				}
			},
		},
	}
}

var _ = errors.Is
