package harness

import (
	"fmt"
	"sort"
	"time"
)

func init() {
	props["C07"] = c07
	props["C08"] = c08
	props["C09"] = c09
	props["C10"] = c10
}

func (w *world) checkOffsets(groups []string) {
	w.e.Op()
	// one query per group naming everything, and single ones
	for _, g := range groups {
		var req []ofTop
		n := 0
		for _, t := range w.md.topics() {
			req = append(req, ofTop{t, w.md.parts(t)})
			n += len(w.md.parts(t))
		}
		for _, t := range w.c.Offsets(g, req...) {
			for _, pr := range t.Parts {
				n--
				mp := w.md.get(t.Name, pr.P)
				if mp == nil || pr.Err != 0 || pr.Off != mp.com[g] {
					w.e.Fail("committed offset of group %q for %s/%d: %+v, want %d", g, t.Name, pr.P, pr, mp.com[g])
				}
			}
		}
		if n != 0 {
			w.e.Fail("offset query of group %q: %d entries missing", g, n)
		}
	}
}

func c07() []*Job {
	type op struct {
		set   bool
		g, t  string
		p     int32
		off   int64
		multi bool
	}
	alphabet := []op{
		{false, "g", "a", 0, 1, false}, {false, "g", "a", 0, 2, false}, {false, "g", "a", 0, 5, false}, {false, "g", "a", 0, 0, false},
		{false, "g", "a", 0, -1, false},
		{true, "g", "a", 0, 0, false}, {true, "g", "a", 0, 3, false}, {true, "g", "a", 0, -4, false},
		{false, "h", "a", 0, 2, false}, {false, "g", "a", 1, 4, false}, {false, "g", "b", 0, 6, false},
		{true, "h", "a", 0, 1, false}, {true, "g", "b", 0, 9, false}, {false, "", "a", 0, 7, false},
		{false, "g", "a", 0, 3, true}, {true, "g", "zz", 0, 5, false},
	}
	apply := func(w *world, o op) {
		switch {
		case o.set:
			w.set(o.t, o.p, o.g, o.off)
		case o.multi:
			// one request, several entries for the same partition and others
			tops := []ocTop{{"a", []ocPart{{0, 4}, {0, o.off}, {1, 1}, {9, 9}}}, {"b", []ocPart{{0, 2}}}, {"a", []ocPart{{0, 1}}}, {"zz", []ocPart{{0, 8}}}}
			r := w.c.Commit(o.g, tops...)
			if len(r) != len(tops) {
				w.e.Fail("commit answered with %d topics, want %d", len(r), len(tops))
			}
			for i, t := range tops {
				if r[i].Name != t.Name || len(r[i].Parts) != len(t.Parts) {
					w.e.Fail("commit answered with %v", r)
				}
				for j, pp := range t.Parts {
					want := int16(3)
					if w.mcommit(o.g, t.Name, pp.P, pp.Off) {
						want = 0
					}
					if r[i].Parts[j].P != pp.P || r[i].Parts[j].Err != want {
						w.e.Fail("commit entry %s/%d answered with %+v, want error %d", t.Name, pp.P, r[i].Parts[j], want)
					}
				}
			}
		default:
			w.commit(o.g, o.t, o.p, o.off)
		}
	}
	groups := []string{"g", "h", "", "unused"}
	setup := func(e *E) *world {
		w := newWorld(e)
		w.create(0, "a", "b")
		w.create(1, "a")
		w.post("a", 0, nil, []byte("x"), 1)
		return w
	}
	return []*Job{
		{
			Name: "op-sequences", Fix: true, Every: 397,
			Gen: func(p *P) func(e *E) {
				depth := q(3, 5)
				var ops []op
				for i := 0; i < depth; i++ {
					ops = append(ops, alphabet[p.Pick(len(alphabet))])
				}
				return func(e *E) {
					w := setup(e)
					for _, o := range ops {
						apply(w, o)
						w.checkOffsets(groups)
					}
				}
			},
		},
		{
			// one group and partition, longer histories, values compared after each step
			Name: "long-history", Fix: true, Every: 997,
			Gen: func(p *P) func(e *E) {
				vals := []int64{0, 1, 2, 3, 1 << 40}
				var ops []op
				for i := 0; i < q(5, 6); i++ {
					if k := p.Pick(7); k < 5 {
						ops = append(ops, op{false, "g", "a", 0, vals[k], false})
					} else {
						ops = append(ops, op{true, "g", "a", 0, []int64{0, 2}[k-5], false})
					}
				}
				return func(e *E) {
					w := setup(e)
					for _, o := range ops {
						apply(w, o)
						if got := w.c.Committed("g", "a", 0); got != w.md.get("a", 0).com["g"] {
							e.Fail("committed offset %d, want %d", got, w.md.get("a", 0).com["g"])
						}
					}
					w.checkOffsets(groups)
				}
			},
		},
		{
			// histories through several clients, reconnects, posts and restarts
			Name: "with-other-events", Fix: true, Every: 101,
			Gen: func(p *P) func(e *E) {
				var ops []int
				for i := 0; i < q(4, 5); i++ {
					ops = append(ops, p.Pick(8))
				}
				return func(e *E) {
					w := setup(e)
					for i, o := range ops {
						switch o {
						case 0:
							w.commit("g", "a", 0, int64(i+2))
						case 1:
							w.commit("g", "a", 0, 3)
						case 2:
							w.set("a", 0, "g", 2)
						case 3:
							w.c = w.m.Dial()
						case 4:
							w.post("a", 0, nil, []byte("more"), 2)
						case 5:
							w.create(int32(i), "a", "c")
						case 6:
							w.c.Close()
							w.m.Restart()
							w.c = w.m.Dial()
						case 7:
							w.c.Call(apiJoin, joinReq("g", "", "roundrobin"), "join")
							w.c.Sync("g")
							w.c.Call(apiLeave, leaveReq("g", "1"), "leave")
						}
						w.checkOffsets([]string{"g", "h"})
					}
				}
			},
		},
	}
}

// hist is an operation with its call and return time.
type hist struct {
	call, ret int64
	kind      int // 0 commit, 1 set, 2 query
	val       int64
}

// linearizable: is there an order of the operations, respecting real time, in
// which every query returns the model's value and the last value is final?
func linearizable(hs []hist, init, final int64) bool {
	n := len(hs)
	type key struct {
		done uint32
		v    int64
	}
	seen := map[key]bool{}
	var rec func(done uint32, v int64) bool
	rec = func(done uint32, v int64) bool {
		if done == 1<<n-1 {
			return v == final
		}
		k := key{done, v}
		if seen[k] {
			return false
		}
		seen[k] = true
		for i := 0; i < n; i++ {
			if done&(1<<i) != 0 {
				continue
			}
			ok := true
			for j := 0; j < n; j++ {
				if j != i && done&(1<<j) == 0 && hs[j].ret < hs[i].call {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			nv := v
			switch hs[i].kind {
			case 0:
				if hs[i].val > nv {
					nv = hs[i].val
				}
			case 1:
				nv = hs[i].val
			case 2:
				if hs[i].val != v {
					continue
				}
			}
			if rec(done|1<<i, nv) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

type key3 struct {
	t string
	p int32
	g string
}

func c08() []*Job {
	// every thread does a list of (kind, value)
	type act struct {
		kind int
		val  int64
	}
	runThreads := func(e *E, pre int64, threads ...[]act) {
		w := newWorld(e)
		w.create(0, "a")
		if pre > 0 {
			w.commit("g", "a", 0, pre)
		}
		clis := make([]*Cli, len(threads))
		for i := range threads {
			clis[i] = w.m.Dial()
			clis[i].Heartbeat() // the connection is established
		}
		for _, c := range clis {
			c.fresh()
		}
		var hs []hist
		e.Begin()
		for i, th := range threads {
			i, th := i, th
			e.Go(fmt.Sprint("t", i), func() {
				for _, a := range th {
					h := hist{call: e.Event(), kind: a.kind, val: a.val}
					switch a.kind {
					case 0:
						if c := clis[i].Commit1("g", "a", 0, a.val); c != 0 {
							e.Fail("commit: error %d", c)
						}
					case 1:
						w.m.km.SetConsumerGroupOffset("a", 0, "g", a.val)
					case 2:
						h.val = clis[i].Committed("g", "a", 0)
					}
					h.ret = e.Event()
					hs = append(hs, h)
				}
			})
		}
		e.Join()
		e.End()
		final := w.c.Committed("g", "a", 0)
		e.Note("%d", final)
		for _, h := range hs {
			if h.kind == 2 {
				e.Note("q%d", h.val)
			}
		}
		if !linearizable(hs, pre, final) {
			e.Fail("final committed offset %d and the queries do not follow from any order of the operations %s (initially %d)", final, histString(hs), pre)
		}
	}
	C := func(v int64) act { return act{0, v} }
	S := func(v int64) act { return act{1, v} }
	Q := act{2, 0}
	return []*Job{
		{
			Name: "two-committers", Fix: true, Dev: q(2, 3), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				v := pick(p, []int64{5, 3}, []int64{3, 5})
				return func(e *E) { runThreads(e, 0, []act{C(v[0])}, []act{C(v[1])}) }
			},
		},
		{
			Name: "two-committers-and-watcher", Dev: q(1, 2), Cfg: cfgStmt(),
			Gen: func(p *P) func(e *E) {
				v := pick(p, []int64{5, 3}, []int64{3, 5})
				return func(e *E) { runThreads(e, 1, []act{C(v[0])}, []act{C(v[1])}, []act{Q, Q}) }
			},
		},
		{
			Name: "three-committers", Fix: true, Dev: q(1, 2), Cfg: cfgStmt(),
			Gen: func(p *P) func(e *E) {
				return func(e *E) { runThreads(e, 0, []act{C(4), C(7)}, []act{C(9)}, []act{C(2), C(8)}) }
			},
		},
		{
			Name: "commit-and-set", Fix: true, Dev: q(2, 3), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				v := pick(p, []int64{5, 3}, []int64{3, 5})
				return func(e *E) { runThreads(e, 2, []act{C(v[0])}, []act{S(v[1])}) }
			},
		},
		{
			Name: "sets-commits-queries", Fix: true, Dev: q(1, 2), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				return func(e *E) { runThreads(e, 6, []act{S(1), C(4)}, []act{Q, Q}, []act{S(3)}) }
			},
		},
		{
			// first use of a group while others query it
			Name: "first-commit-vs-query", Fix: true, Dev: q(2, 3), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				return func(e *E) { runThreads(e, 0, []act{C(5)}, []act{Q, Q}) }
			},
		},
		{
			// each client has a group, partition or topic of its own: nobody changes another's
			Name: "other-keys", Fix: true, Dev: q(1, 2), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				ks := pick(p, []key3{{"a", 0, "g"}, {"a", 0, "h"}}, []key3{{"a", 0, "g"}, {"a", 1, "g"}}, []key3{{"a", 0, "g"}, {"b", 0, "g"}})
				k := []int{p.Pick(3), p.Pick(3)}
				old := p.Pick(2)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a", "b")
					w.create(1, "a")
					w.commit("old", "a", 0, 4)
					want := []int64{0, 0}
					if old == 1 {
						for i, x := range ks {
							w.commit(x.g, x.t, x.p, 2)
							want[i] = 2
						}
					}
					cs := []*Cli{w.c, w.m.Dial()}
					cs[1].Heartbeat()
					e.Begin()
					for i := range ks {
						i, x := i, ks[i]
						e.Go(fmt.Sprint("t", i), func() {
							switch k[i] {
							case 0:
								if c := cs[i].Commit1(x.g, x.t, x.p, int64(10+i)); c != 0 {
									e.Fail("commit: error %d", c)
								}
								want[i] = int64(10 + i)
							case 1:
								w.m.km.SetConsumerGroupOffset(x.t, int(x.p), x.g, int64(20+i))
								want[i] = int64(20 + i)
							}
							if got := cs[i].Committed(x.g, x.t, x.p); got != want[i] {
								e.Fail("committed offset of %v is %d, want %d", x, got, want[i])
							}
						})
					}
					e.Join()
					e.End()
					for i, x := range ks {
						if got := w.c.Committed(x.g, x.t, x.p); got != want[i] {
							e.Fail("finally the committed offset of %v is %d, want %d", x, got, want[i])
						}
					}
					if got := w.c.Committed("old", "a", 0); got != 4 {
						e.Fail("the committed offset of a group that did nothing is %d, want 4", got)
					}
					e.Op()
				}
			},
		},
		{
			// one request with several partitions against another one
			Name: "multi-partition-commits", Fix: true, Dev: q(1, 2), Cfg: cfgStmt(),
			Gen: func(p *P) func(e *E) {
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					w.create(1, "a")
					c2 := w.m.Dial()
					w.c.fresh()
					e.Begin()
					e.Go("t0", func() { w.c.Commit("g", ocTop{"a", []ocPart{{0, 5}, {1, 2}}}) })
					e.Go("t1", func() { c2.Commit("g", ocTop{"a", []ocPart{{1, 6}, {0, 3}}}) })
					e.Join()
					e.End()
					if a, b := w.c.Committed("g", "a", 0), w.c.Committed("g", "a", 1); a != 5 || b != 6 {
						e.Fail("committed offsets %d and %d after commits up to 5 and 6", a, b)
					}
				}
			},
		},
	}
}

func histString(hs []hist) string {
	sort.Slice(hs, func(i, j int) bool { return hs[i].call < hs[j].call })
	s := ""
	for _, h := range hs {
		s += fmt.Sprintf("[%d-%d %s %d]", h.call, h.ret, []string{"commit", "set", "query"}[h.kind], h.val)
	}
	return s
}

func c09() []*Job {
	check := func(w *world, t string, p int32, ts int64, got loRespPart) {
		e := w.e
		mp := w.md.get(t, p)
		if mp == nil {
			return // C10
		}
		if got.Err != 0 {
			e.Fail("query %d for %s/%d: error %d", ts, t, p, got.Err)
		}
		switch ts {
		case -1:
			if got.Off != int64(len(mp.recs)) {
				e.Fail("latest offset of %s/%d: %d, want %d", t, p, got.Off, len(mp.recs))
			}
		case -2:
			if got.Off != 0 {
				e.Fail("earliest offset of %s/%d: %d", t, p, got.Off)
			}
		default:
			want, wts := int64(len(mp.recs)), int64(-1)
			for i, r := range mp.recs {
				if r.ts0 >= ts {
					want, wts = int64(i), r.ts0
					break
				}
			}
			if got.Off != want {
				e.Fail("offset for time %d in %s/%d: %d, want %d", ts, t, p, got.Off, want)
			}
			if wts >= 0 && got.Ts != wts {
				e.Fail("timestamp for time %d in %s/%d: %d, want %d", ts, t, p, got.Ts, wts)
			}
		}
	}
	return []*Job{
		{
			// every non-decreasing log over an alphabet of timestamps, every query
			Name: "every-query", Fix: true, Every: 29,
			Gen: func(p *P) func(e *E) {
				n := p.Pick(q(5, 7))
				alpha := []int64{0, 1, 4, 5, 9}
				at := 0
				var tss []int64
				for i := 0; i < n; i++ {
					at += p.Pick(len(alpha) - at)
					tss = append(tss, alpha[at])
				}
				big := p.Pick(4)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					base := []int64{0, 1_700_000_000_000, -20, -1_700_000_000_000}[big]
					for _, ts := range tss {
						w.post("a", 0, nil, nil, base+ts)
						w.post("b", 0, nil, nil, base+ts*3+1)
					}
					qs := []int64{-1, -2, -3, -4, -100, -1 << 63}
					for d := int64(0); d <= 11; d++ {
						qs = append(qs, base+d)
					}
					if big == 1 {
						qs = append(qs, 0, 1, 1<<62)
					}
					for _, ts := range qs {
						e.Op()
						check(w, "a", 0, ts, w.c.List1("a", 0, ts))
					}
				}
			},
		},
		{
			// long logs with runs of equal timestamps
			Name: "long-logs", Fix: true, Every: 7,
			Gen: func(p *P) func(e *E) {
				n := 1 + p.Pick(q(40, 90))
				run := 1 + p.Pick(3)
				return func(e *E) {
					w := newWorld(e)
					for i := 0; i < n; i++ {
						w.post("a", 0, nil, nil, int64(i/run*2+10))
					}
					for ts := int64(-5); ts < int64(n*2+14); ts++ {
						e.Op()
						check(w, "a", 0, ts, w.c.List1("a", 0, ts))
					}
				}
			},
		},
		{
			// several topics and partitions in one request
			Name: "several-entries", Fix: true, Every: 41,
			Gen: func(p *P) func(e *E) {
				var tops []loTop
				nt := 1 + p.Pick(2)
				for i := 0; i < nt; i++ {
					t := loTop{Name: pick(p, "a", "b", "zz")}
					for j, k := 0, p.Pick(3); j < k; j++ {
						t.Parts = append(t.Parts, loPart{pick(p, int32(0), 1, 9), pick(p, int64(-1), -2, q(int64(11), 11))})
					}
					tops = append(tops, t)
				}
				return func(e *E) {
					w := multiWorld(e)
					r := w.c.List(tops...)
					if len(r) != len(tops) {
						e.Fail("%d topic entries, want %d", len(r), len(tops))
					}
					for i, t := range tops {
						if r[i].Name != t.Name || len(r[i].Parts) != len(t.Parts) {
							e.Fail("list offsets %v answered with %v", tops, r)
						}
						for j, lp := range t.Parts {
							if r[i].Parts[j].P != lp.P {
								e.Fail("list offsets %v answered with %v", tops, r)
							}
							check(w, t.Name, lp.P, lp.Ts, r[i].Parts[j])
						}
					}
				}
			},
		},
		{
			// SimplePost times
			Name: "simple-posts",
			Gen: func(p *P) func(e *E) {
				gap := time.Duration(pick(p, 0, 400, 1000, 2500)) * time.Microsecond
				return func(e *E) {
					w := newWorld(e)
					t0 := time.Now().UnixMilli()
					for i := 0; i < 5; i++ {
						w.simple("a", 0, nil, nil)
						e.Sleep(gap)
					}
					for ts := t0 - 3; ts < t0+16; ts++ {
						check(w, "a", 0, ts, w.c.List1("a", 0, ts))
					}
				}
			},
		},
		{
			Name: "during-posts", Dev: q(2, 3), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				ts := pick(p, int64(-1), -2, 7)
				pre := p.Pick(2)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					for i := 0; i < pre; i++ {
						w.post("a", 0, nil, nil, 5)
					}
					var got loRespPart
					started, done, before, after := 0, 0, 0, 0
					e.Begin()
					e.Go("asker", func() {
						before = done
						got = w.c.List1("a", 0, ts)
						after = started
					})
					e.Go("producer", func() {
						for i := 0; i < 2; i++ {
							started++
							w.post("a", 0, nil, nil, int64(7+i))
							done++
						}
					})
					e.Join()
					e.End()
					e.Note("%d", got.Off)
					lo, hi := int64(pre+before), int64(pre+after)
					switch ts {
					case -2:
						lo, hi = 0, 0
					case 7:
						lo, hi = int64(pre), int64(pre)
						if before > 0 && got.Ts != 7 {
							e.Fail("timestamp %d for time 7", got.Ts)
						}
					}
					if got.Err != 0 || got.Off < lo || got.Off > hi {
						e.Fail("query %d answered %+v, want an offset in %d..%d", ts, got, lo, hi)
					}
				}
			},
		},
	}
}

func c10() []*Job {
	snapshot := func(w *world) {
		w.groups = []string{"g", "h"}
		w.checkAll()
		// nothing but the known topics in the metadata either
		m := w.c.Meta(true)
		if len(m.Tops) != len(w.md) {
			w.e.Fail("metadata lists %d topics, %d exist", len(m.Tops), len(w.md))
		}
		w.checkMeta(true)
		w.checkAssign()
	}
	setup := func(e *E, empty bool) *world {
		if empty {
			return newWorld(e)
		}
		w := multiWorld(e)
		w.commit("g", "a", 0, 2)
		w.set("b", 7, "h", 1)
		w.create(5, "c")
		return w
	}
	names := []string{"a", "c", "zz"}
	return []*Job{
		{
			Name: "commits", Fix: true, Every: 47,
			Gen: func(p *P) func(e *E) {
				empty := p.Pick(2) == 1
				var tops []ocTop
				for i, n := 0, 1+p.Pick(2); i < n; i++ {
					t := ocTop{Name: names[p.Pick(3)]}
					for j, k := 0, p.Pick(3); j < k; j++ {
						t.Parts = append(t.Parts, ocPart{pick(p, int32(0), 9, -1), int64(j + 1)})
					}
					tops = append(tops, t)
				}
				return func(e *E) {
					w := setup(e, empty)
					r := w.c.Commit("g", tops...)
					if len(r) != len(tops) {
						e.Fail("commit %v answered with %v", tops, r)
					}
					for i, t := range tops {
						if r[i].Name != t.Name || len(r[i].Parts) != len(t.Parts) {
							e.Fail("commit %v answered with %v", tops, r)
						}
						for j, cp := range t.Parts {
							want := int16(3)
							if w.mcommit("g", t.Name, cp.P, cp.Off) {
								want = 0
							}
							if got := r[i].Parts[j]; got.P != cp.P || got.Err != want {
								e.Fail("commit %v: entry %s/%d answered with %+v, want error %d", tops, t.Name, cp.P, got, want)
							}
						}
					}
					snapshot(w)
				}
			},
		},
		{
			Name: "listings", Fix: true, Every: 47,
			Gen: func(p *P) func(e *E) {
				empty := p.Pick(2) == 1
				var tops []loTop
				for i, n := 0, 1+p.Pick(2); i < n; i++ {
					t := loTop{Name: names[p.Pick(3)]}
					for j, k := 0, p.Pick(3); j < k; j++ {
						t.Parts = append(t.Parts, loPart{pick(p, int32(0), 9, -1), []int64{-1, -2, 15}[(i+j)%3]})
					}
					tops = append(tops, t)
				}
				return func(e *E) {
					w := setup(e, empty)
					r := w.c.List(tops...)
					if len(r) != len(tops) {
						e.Fail("list offsets %v answered with %v", tops, r)
					}
					for i, t := range tops {
						if r[i].Name != t.Name || len(r[i].Parts) != len(t.Parts) {
							e.Fail("list offsets %v answered with %v", tops, r)
						}
						for j, lp := range t.Parts {
							want := int16(3)
							if w.md.get(t.Name, lp.P) != nil {
								want = 0
							}
							if got := r[i].Parts[j]; got.P != lp.P || got.Err != want {
								e.Fail("list offsets %v: entry %s/%d answered with %+v, want error %d", tops, t.Name, lp.P, got, want)
							}
						}
					}
					snapshot(w)
				}
			},
		},
		{
			Name: "offset-queries", Fix: true, Every: 47,
			Gen: func(p *P) func(e *E) {
				empty := p.Pick(2) == 1
				group := pick(p, "g", "never-seen")
				var tops []ofTop
				for i, n := 0, 1+p.Pick(2); i < n; i++ {
					t := ofTop{Name: names[(p.Pick(3)+i)%3]}
					for j, k := 0, p.Pick(3); j < k; j++ {
						t.Parts = append(t.Parts, pick(p, []int32{0, 1, 9}[j%2:]...))
					}
					tops = append(tops, t)
				}
				return func(e *E) {
					w := setup(e, empty)
					got := map[string]int{}
					for _, t := range w.c.Offsets(group, tops...) {
						if w.md[t.Name] == nil {
							e.Fail("offset query %v: answered for unknown topic %s", tops, t.Name)
						}
						for _, op := range t.Parts {
							mp := w.md.get(t.Name, op.P)
							if mp == nil {
								e.Fail("offset query %v: answered for unknown partition %s/%d", tops, t.Name, op.P)
							}
							if op.Off != mp.com[group] || op.Err != 0 {
								e.Fail("offset query %v: %s/%d answered with %+v, want %d", tops, t.Name, op.P, op, mp.com[group])
							}
							got[fmt.Sprint(t.Name, "/", op.P)]++
						}
					}
					for _, t := range tops {
						for _, pn := range t.Parts {
							if k := fmt.Sprint(t.Name, "/", pn); w.md.get(t.Name, pn) != nil && got[k] == 0 {
								e.Fail("offset query %v: no answer for %s", tops, k)
							}
						}
					}
					snapshot(w)
				}
			},
		},
		{
			// pairs of requests of any kind leave everything as it was
			Name: "requests-create-nothing", Fix: true, Every: 23,
			Gen: func(p *P) func(e *E) {
				empty := p.Pick(2) == 1
				a := anyRequest(p)
				b := request{}
				if q(0, 1) == 1 {
					b = anyRequest(p)
				}
				return func(e *E) {
					w := setup(e, empty)
					for _, r := range []request{a, b} {
						if r.what == "" {
							continue
						}
						w.c.Call(r.api, r.body, r.what)
						if r.api == apiCommit {
							// the commits of the alphabet: known entries only
							w.applyAlphabetCommit(r)
						}
					}
					w.groups = []string{"g", "h", ""}
					w.checkAll()
					if m := w.c.Meta(true); len(m.Tops) != len(w.md) {
						e.Fail("metadata lists %d topics, %d exist", len(m.Tops), len(w.md))
					}
				}
			},
		},
	}
}

// applyAlphabetCommit applies a commit of allRequests to the model.
func (w *world) applyAlphabetCommit(r request) {
	for _, g := range []string{"", "g", "group-with-a-rather-long-name"} {
		if r.what == "commit "+g {
			w.mcommit(g, "a", 0, 1)
		}
	}
}
