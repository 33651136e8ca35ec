package harness

import (
	"fmt"
	"time"
)

// Histories of every kind of operation, the same for many properties, which
// differ in what they look at: after every operation or at the end.

type histOp struct {
	name string
	do   func(w *world, i int)
}

func histOps() []histOp {
	k := []byte("k")
	v := func(i int) []byte { return pat(9+i, i) }
	ext := func(w *world, t string, p int32, key, val []byte, hdr map[string][]byte) {
		w.e.Op()
		at := time.Now()
		w.m.km.ExtendedPost(t, int(p), key, val, hdr, at)
		mp := w.md.create(t, p)
		mp.recs = append(mp.recs, mrec{key, val, at.UnixMilli(), at.UnixMilli()})
	}
	return []histOp{
		{"simple post", func(w *world, i int) { w.simple("a", 0, k, v(i)) }},
		{"post with headers", func(w *world, i int) { ext(w, "a", 0, nil, v(i), map[string][]byte{"h": v(i), "": nil}) }},
		{"post without headers", func(w *world, i int) { ext(w, "a", 0, []byte{}, v(i), nil) }},
		{"post of nothing", func(w *world, i int) { w.simple("a", 0, nil, nil) }},
		{"post to another partition", func(w *world, i int) { w.simple("a", 1, nil, v(i)) }},
		{"post to a new topic", func(w *world, i int) { ext(w, fmt.Sprint("new", i), int32(i), k, v(i), nil) }},
		{"create", func(w *world, i int) { w.create(int32(2*i), "a", "b") }},
		{"commit", func(w *world, i int) { w.commit("g", "a", 0, int64(i+1)) }},
		{"smaller commit", func(w *world, i int) { w.commit("g", "a", 0, 1) }},
		{"commit of many", func(w *world, i int) {
			w.c.Commit("h", ocTop{"a", []ocPart{{0, 2}, {1, int64(i)}, {0, 1}, {9, 5}}}, ocTop{"zz", []ocPart{{0, 1}}}, ocTop{"a", []ocPart{{0, 3}}})
			w.mcommit("h", "a", 0, 2)
			w.mcommit("h", "a", 1, int64(i))
			w.mcommit("h", "a", 0, 3)
		}},
		{"set", func(w *world, i int) { w.set("a", 0, "g", int64(i)) }},
		{"set another", func(w *world, i int) { w.set("a", 1, "", int64(7)); w.set("a", 77, "g", 1); w.set("zz", 0, "g", 1) }},
		{"fetch", func(w *world, i int) { w.c.Fetch1("a", 0, 0, 1000, 0) }},
		{"limited fetch", func(w *world, i int) { w.c.Fetch1("a", 0, 0, 50, 0) }},
		{"waiting fetch", func(w *world, i int) {
			w.c.Fetch(30, fetchTop{"a", []fetchPart{{0, 1 << 40, 1000}, {5, 0, 1000}, {-1, 0, 1000}}}, fetchTop{"zz", []fetchPart{{0, 0, 1000}}})
		}},
		{"negative fetch", func(w *world, i int) { w.c.Fetch1("a", 0, -1, 1000, 30) }},
		{"listing", func(w *world, i int) {
			w.c.List(loTop{"a", []loPart{{0, -1}, {0, -2}, {0, 5}, {5, -1}}}, loTop{"zz", []loPart{{0, -1}}})
		}},
		{"offset query", func(w *world, i int) {
			w.c.Offsets(fmt.Sprint("q", i), ofTop{"a", []int32{0, 1, 5}}, ofTop{"zz", []int32{0}})
		}},
		{"metadata", func(w *world, i int) { w.c.Meta(i%2 == 0, "a", "zz", "a", "") }},
		{"group requests", func(w *world, i int) {
			w.c.ask(apiFindCoord, coordReq("g"))
			w.c.ask(apiJoin, joinReq("g", "a", "sticky"))
			w.c.Sync("a")
			w.c.ask(apiHeartbeat, heartbeatReq("zz", "m", int32(i)))
			w.c.ask(apiLeave, leaveReq("g", "m"))
			w.c.ask(apiVersions, nil)
		}},
		{"another connection", func(w *world, i int) { w.c.Close(); w.c = w.m.Dial() }},
		{"restart", func(w *world, i int) { w.c.Close(); w.m.Restart(); w.c = w.m.Dial() }},
		{"used while stopped", func(w *world, i int) {
			w.c.Close()
			w.m.Stop()
			w.simple("a", 0, nil, v(i))
			ext(w, "a", 1, k, v(i), nil)
			w.create(0, fmt.Sprint("stopped", i))
			w.set("a", 0, "h", int64(i))
			w.m.Start()
			w.c = w.m.Dial()
		}},
		{"finish", func(w *world, i int) {
			c := w.m.Dial()
			c.Send(apiFetch, fetchReq(60_000, fetchTop{"a", []fetchPart{{0, 1 << 40, 1000}}}))
			w.e.Sleep(25 * time.Millisecond)
			w.m.km.FinishRequests()
			w.m.Restart()
			c.Close()
			w.c.Close()
			w.c = w.m.Dial()
		}},
		{"half a request", func(w *world, i int) {
			b, _ := w.c.Frame(apiCommit, commitReq("g", ocTop{"a", []ocPart{{0, 99}}}))
			w.c.c.Write(b[:len(b)-1])
			w.c.Close()
			w.c = w.m.Dial()
		}},
		{"another mock", func(w *world, i int) {
			o := newWorldAt(w.e, 31000+i)
			o.simple("a", 0, nil, nil)
			o.create(8, "other")
			o.commit("g", "a", 0, 9)
			o.m.Stop()
		}},
	}
}

// newWorldAt is a world of another mock.
func newWorldAt(e *E, port int) *world {
	w := &world{e: e, m: e.MockAt(port), md: model{}}
	w.m.Start()
	w.c = w.m.Dial()
	return w
}

func eachPart(w *world, f func(t string, p int32, mp *mpart)) {
	for _, t := range w.md.topics() {
		for _, p := range w.md.parts(t) {
			f(t, p, w.md[t][p])
		}
	}
}

// histViews are what the properties look at.
var histViews = map[string]func(w *world){
	"C01": func(w *world) {
		eachPart(w, func(t string, p int32, mp *mpart) {
			for off := 0; off <= len(mp.recs); off++ {
				w.checkLog(t, p, int64(off))
			}
		})
	},
	"C02": func(w *world) {
		var tops []fetchTop
		eachPart(w, func(t string, p int32, mp *mpart) {
			tops = append(tops, fetchTop{t, []fetchPart{{p, 0, 1 << 20}, {p + 1, 0, 1 << 20}, {p, 1, 1 << 20}, {-7, 0, 1 << 20}}})
		})
		w.wantFetch(0, append(tops, fetchTop{"zz", []fetchPart{{0, 0, 1000}}}, fetchTop{"a", nil})...)
	},
	"C03": func(w *world) {
		for _, max := range []int32{0, 34, 35, 44, 90, 1 << 20} {
			var tops []fetchTop
			eachPart(w, func(t string, p int32, mp *mpart) {
				tops = append(tops, fetchTop{t, []fetchPart{{p, 0, max}, {p, 1, max}}})
			})
			w.wantFetch(0, tops...)
		}
	},
	"C04": func(w *world) {
		eachPart(w, func(t string, p int32, mp *mpart) {
			for off := 0; off <= len(mp.recs); off++ {
				t0 := time.Now()
				fp := w.c.Fetch1(t, p, int64(off), 1000, 45)
				d := time.Since(t0)
				full := off < len(mp.recs)
				if full != (len(fp.Set) > 0) || !plainMode && (full && d > 15*time.Millisecond || !full && (d < 45*time.Millisecond || d > 145*time.Millisecond)) {
					w.e.Fail("a fetch of %s/%d at %d of %d that waits 45 ms got %d records after %v", t, p, off, len(mp.recs), len(fp.Set), d)
				}
			}
		})
	},
	"C05": func(w *world) {
		o := w.m.Dial()
		eachPart(w, func(t string, p int32, mp *mpart) {
			w.checkLog(t, p, 0)
			o.checkLog(w.md, t, p, 0)
		})
		o.Close()
	},
	"C07": func(w *world) {
		for _, g := range []string{"g", "h", "", "never"} {
			eachPart(w, func(t string, p int32, mp *mpart) {
				if got := w.c.Committed(g, t, p); got != mp.com[g] {
					w.e.Fail("the committed offset of %q for %s/%d is %d, want %d", g, t, p, got, mp.com[g])
				}
			})
		}
	},
	"C09": func(w *world) {
		eachPart(w, func(t string, p int32, mp *mpart) {
			n := int64(len(mp.recs))
			if l := w.c.List1(t, p, -1); l.Err != 0 || l.Off != n {
				w.e.Fail("the latest offset of %s/%d is %+v, want %d", t, p, l, n)
			}
			if l := w.c.List1(t, p, -2); l.Err != 0 || l.Off != 0 {
				w.e.Fail("the earliest offset of %s/%d is %+v", t, p, l)
			}
			for i := int64(0); i <= n; i++ {
				at, off := int64(1), int64(0) // before the first one
				if i > 0 {
					at, off = mp.recs[i-1].ts1+1, i
				}
				l := w.c.List1(t, p, at)
				if l.Err != 0 || l.Off != off || off < n && (l.Ts < mp.recs[off].ts0 || l.Ts > mp.recs[off].ts1) {
					w.e.Fail("a query of %s/%d for the time %d answers %+v, want offset %d of %v", t, p, at, l, off, mp.recs)
				}
			}
		})
	},
	"C10": func(w *world) {
		w.groups = []string{"g", "h", "never"}
		w.checkAll()
		if m := w.c.Meta(true); len(m.Tops) != len(w.md) {
			w.e.Fail("metadata lists %d topics, %d exist", len(m.Tops), len(w.md))
		}
		w.checkMeta(false, append(w.md.topics(), "zz", "q0")...)
		for _, t := range []string{"a", "zz", "q0"} {
			for _, p := range []int32{0, 5, -1, 77} {
				want := int16(3)
				if w.md.get(t, p) != nil {
					want = 0
				}
				if l := w.c.List1(t, p, -1); l.Err != want {
					w.e.Fail("a listing of %s/%d answers %+v, want error %d", t, p, l, want)
				}
			}
		}
	},
	"C11": func(w *world) { w.checkAssign() },
	"C12": func(w *world) {
		w.checkMeta(true)
		w.checkMeta(false, append(w.md.topics(), "zz", "q0")...)
		w.checkMeta(false)
	},
	"C13": func(w *world) {
		code, rs, bad := versionsResp(w.c.Call(apiVersions, nil, "versions"))
		if bad != "" || code != 0 || len(rs) != len(served) {
			w.e.Fail("versions answered with %v %v %s", code, rs, bad)
		}
		for i, r := range rs {
			if v, ok := served[r.Key]; !ok || r.Min != v || r.Max != v || i > 0 && rs[i-1].Key >= r.Key {
				w.e.Fail("versions answered with %v", rs)
			}
		}
	},
	"C20": func(w *world) {
		w.c.Close()
		w.m.Stop()
		if c, err := w.m.TryDial(); err == nil {
			c.Close()
			w.e.Fail("a stopped mock accepts a client")
		}
		w.m.Stop()
		w.m.Start()
		w.c = w.m.Dial()
		w.c.Heartbeat()
	},
	"C21": func(w *world) {
		w.groups = []string{"g", "h", ""}
		w.checkAll()
		w.c.Close()
		w.m.Restart()
		w.c = w.m.Dial()
		w.checkAll()
		w.checkMeta(true)
		w.checkAssign()
	},
	"C22": func(w *world) {
		w.groups = []string{"g", "h", ""}
		c := w.m.Dial()
		corr := c.Send(apiFetch, fetchReq(60_000, fetchTop{"a", []fetchPart{{0, 1 << 40, 1000}}}))
		w.e.Sleep(25 * time.Millisecond)
		w.m.km.FinishRequests()
		if got, _, err := c.TryRecv(releaseTime); err != nil || got != corr {
			w.e.Fail("a waiting fetch is not answered after the mock was told to finish: %v", err)
		}
		w.m.Restart()
		c.Close()
		w.c.Close()
		w.c = w.m.Dial()
		w.checkAll()
	},
	"C29": func(w *world) {
		eachPart(w, func(t string, p int32, mp *mpart) {
			for _, off := range []int64{0, int64(len(mp.recs)), -1, 99} {
				for _, max := range []int32{1 << 20, 0} {
					if fp := w.c.Fetch1(t, p, off, max, 0); fp.HW != int64(len(mp.recs)) {
						w.e.Fail("the high watermark of %s/%d in a fetch at %d is %d, want %d", t, p, off, fp.HW, len(mp.recs))
					}
				}
			}
		})
	},
}

func anyHistory(prop string) []*Job {
	view := histViews[prop]
	return []*Job{{
		Name: "any-history", Fix: true, Every: q(997, 19997),
		Gen: func(p *P) func(e *E) {
			ops := histOps()
			var is []int
			for i := 0; i < q(3, 4); i++ {
				is = append(is, p.Pick(len(ops)))
			}
			always := p.Pick(2)
			return func(e *E) {
				w := newWorld(e)
				w.simple("a", 0, nil, []byte("first"))
				for i, o := range is {
					e.Sleep(2 * time.Millisecond)
					ops[o].do(w, i)
					if always == 1 {
						view(w)
					}
				}
				view(w)
			}
		},
	}}
}

func init() {
	more["C26"] = append(more["C26"], anyKinds)
	more["C11"] = append(more["C11"], anyMember)
	for prop := range histViews {
		prop := prop
		more[prop] = append(more[prop], func() []*Job { return anyHistory(prop) })
	}
}

// anyKinds: a consumer and records of every kind, with and without keys, values and headers.
func anyKinds() []*Job {
	return []*Job{{
		Name: "kinds", Fix: true, Every: q(97, 997),
		Gen: func(p *P) func(e *E) {
			n := 1 + p.Pick(q(3, 4))
			var kinds []int
			for i := 0; i < n; i++ {
				kinds = append(kinds, p.Pick(6))
			}
			start := p.Pick(n + 1)
			how := p.Pick(3) // committed, set, or committed one by one
			max := pick(p, int32(60), 1<<20)
			return func(e *E) {
				w := newWorld(e, "g")
				w.create(0, "t")
				for i, k := range kinds {
					key, val := []byte{byte('0' + i)}, []byte{byte('a' + i)}
					switch k {
					case 0:
						val = nil
					case 1:
						val = []byte{}
					case 2:
						key = nil
					case 3:
						key, val = nil, nil
					case 4:
						key = []byte{}
					}
					if k == 5 {
						w.m.km.ExtendedPost("t", 0, key, val, map[string][]byte{"h": nil, "": {1}}, time.UnixMilli(5))
						w.md.get("t", 0).recs = append(w.md.get("t", 0).recs, mrec{key, val, 5, 5})
					} else {
						w.post("t", 0, key, val, int64(i))
					}
				}
				switch {
				case start > 0 && how == 0:
					w.commit("g", "t", 0, int64(start))
				case how == 1:
					w.set("t", 0, "g", int64(start))
				case how == 2:
					for i := 1; i <= start; i++ {
						w.commit("g", "t", 0, int64(i))
					}
				}
				k := &consumer{w: w, group: "g", topic: "t", max: max, wait: 30}
				k.join()
				if k.pos[0] != int64(start) {
					e.Fail("the consumer starts at %d, want %d", k.pos[0], start)
				}
				var got []msg
				for r := 0; r <= n; r++ {
					got = append(got, k.round(true)[0]...)
					k.commit()
					if r == 1 {
						k.c.Close()
						k.join()
					}
				}
				if d := diffSet(got, w.md.get("t", 0).recs, int64(start)); d != "" || len(got) != n-start {
					e.Fail("the consumer got %d records from %d of %d: %s", len(got), start, n, d)
				}
			}
		},
	}}
}

// anyMember: whoever asks gets the whole assignment.
func anyMember() []*Job {
	return []*Job{{
		Name: "members", Fix: true, Every: q(197, 1997),
		Gen: func(p *P) func(e *E) {
			type ask struct {
				group, member string
				gen           int32
				join, stay    bool
			}
			var as []ask
			for i := 0; i < q(2, 3); i++ {
				as = append(as, ask{pick(p, "g", "h"), pick(p, "", "1", "m", "you"), pick(p, int32(0), 1, -1), i == 0 && p.Pick(2) == 1, i > 0 && p.Pick(2) == 1})
			}
			leave := p.Pick(2)
			return func(e *E) {
				w := newWorld(e)
				w.create(0, "a", "b")
				w.create(1, "a")
				for i, a := range as {
					if !a.stay {
						w.c = w.m.Dial()
					}
					if a.join {
						w.c.ask(apiJoin, joinReq(a.group, a.member, "range"))
					}
					_, tops, bad := syncResp(w.c.Call(apiSync, syncReq(a.group, a.member, a.gen), "sync"))
					if got, want := fmt.Sprint(sortedTops(tops)), fmt.Sprint(w.md.assign()); bad != "" || got != want {
						e.Fail("the sync of %+v after %+v got the assignment %s, want %s %s", a, as[:i], got, want, bad)
					}
					if leave == 1 {
						w.c.ask(apiLeave, leaveReq(a.group, a.member))
					}
				}
			}
		},
	}}
}
