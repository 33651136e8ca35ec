package harness

import (
	"fmt"
	"time"
)

// Fields and ages: the same guarantees whatever the fields of a request say that
// are not meant to matter, and however much time passes between two steps.

func init() {
	add := func(id string, f func() []*Job) { more[id] = append(more[id], f) }
	add("C01", func() []*Job { return append(fetchFields(0), agesData("ages", 0)...) })
	add("C04", func() []*Job { return append(fetchFields(1), agesWait()...) })
	add("C29", func() []*Job { return fetchFields(2) })
	add("C07", func() []*Job { return append(commitFields(), agesCommits()...) })
	add("C09", func() []*Job { return append(listFields(), agesList()...) })
	add("C30", func() []*Job { return append(groupFields(), agesGroups()...) })
	add("C11", func() []*Job { return agesData("ages", 1) })
	add("C12", func() []*Job { return agesData("ages", 2) })
	add("C21", func() []*Job { return agesData("ages", 3) })
	add("C14", agesFraming)
	add("C19", agesStop)
	add("C20", agesCycles)
	add("C22", agesFinish)
	add("C27", agesIdle)
	add("C28", agesAnswers)
}

func int32s() (s []int32) {
	for _, n := range pows() {
		if int64(int32(n)) == n {
			s = append(s, int32(n))
		}
	}
	return
}

// strs are strings of many kinds and lengths; the last is null.
func strs() (s []*string) {
	for i := range confusable {
		s = append(s, &confusable[i])
	}
	for _, n := range []int{127, 128, 255, 256, 4096, 32767} {
		s = append(s, strp(longName(n, n)))
	}
	return append(s, nil)
}

func (w *W) nstr(s *string) *W {
	if s == nil {
		return w.nullStr()
	}
	return w.str(*s)
}

// nn is a string for a field that cannot be null.
func nn(s *string) string {
	if s == nil {
		return "null"
	}
	return *s
}

// ages are durations: every power of two of milliseconds up to max, and minutes, hours and days.
func ages(max time.Duration) (s []time.Duration) {
	for d := time.Millisecond; d <= max; d *= 2 {
		s = append(s, d)
	}
	for _, d := range []time.Duration{time.Second + 1, 5 * time.Second, 6 * time.Second, 10 * time.Second, 30 * time.Second, time.Minute + 1, 5*time.Minute + 1, 10*time.Minute + 1,
		15*time.Minute + 1, 30*time.Minute + 1, time.Hour + 1, 24*time.Hour + 1, 7*24*time.Hour + 1, 30*24*time.Hour + 1, 366 * 24 * time.Hour} {
		if d <= max {
			s = append(s, d)
		}
	}
	return
}

// held bounds an age with a connection open (the mock polls it).
func held() time.Duration { return q(20*time.Minute, 5*time.Hour) }

const years = 3 * 366 * 24 * time.Hour

// pass lets time pass; in real time only a little of it.
func (e *E) pass(d time.Duration) {
	if plainMode {
		d = min(d, 30*time.Millisecond)
	}
	e.Sleep(d)
}

// ---- fields ----

func fetchFields(kind int) []*Job {
	return []*Job{{
		Name: "fields", Fix: true, Every: 13,
		Gen: func(p *P) func(e *E) {
			all := int32s()
			which, n := p.Pick(3), p.Pick(len(all))
			return func(e *E) {
				w := newWorld(e)
				w.post("a", 0, []byte("k"), []byte("v"), 1000)
				w.post("a", 0, nil, []byte("vv"), 1001)
				w.create(1, "a")
				w.post("b", 0, nil, []byte("b"), 1)
				rep, minb := int32(-1), int32(1)
				if which != 1 {
					rep = all[n]
				}
				if which != 0 {
					minb = all[n]
				}
				req := func(wait int32, t string, part int32, off int64) []byte {
					return (&W{}).i32(rep).i32(wait).i32(minb).i32(1).str(t).i32(1).i32(part).i64(off).i32(100000).b
				}
				what := fmt.Sprintf("fetch with replica %d and minimum bytes %d", rep, minb)
				ask := func(wait int32, t string, part int32, off int64, count int, low, high time.Duration) {
					e.Op()
					t0 := time.Now()
					b := w.c.Call(apiFetch, req(wait, t, part, off), what)
					took := time.Since(t0)
					r, bad := fetchResp(b)
					w.c.must(bad, what)
					fp := w.c.one(r, t, part)
					recs := w.md.get(t, part).recs
					if d := diffSet(fp.Set, recs, off); d != "" || len(fp.Set) != count || fp.Err != 0 {
						e.Fail("%s: %s/%d at %d: %d records, want %d, error %d %s", what, t, part, off, len(fp.Set), count, fp.Err, d)
					}
					if kind == 2 && fp.HW != int64(len(recs)) {
						e.Fail("%s: high watermark %d, want %d", what, fp.HW, len(recs))
					}
					if kind == 1 && !plainMode && (took < low || took > high+slack) {
						e.Fail("%s: answered after %v, want %v to %v", what, took, low, high)
					}
				}
				ask(1000, "a", 0, 0, 2, 0, 0)
				ask(1000, "a", 0, 1, 1, 0, 0)
				ask(0, "b", 0, 0, 1, 0, 0)
				ask(60, "a", 1, 0, 0, 60*time.Millisecond, 60*time.Millisecond)
				if kind == 1 {
					e.Go("producer", func() {
						e.Sleep(50 * time.Millisecond)
						w.post("a", 1, nil, nil, 5)
					})
					ask(3000, "a", 1, 0, 1, 50*time.Millisecond, 50*time.Millisecond)
					e.Join()
				}
			}
		},
	}}
}

func listFields() []*Job {
	return []*Job{{
		Name: "fields", Fix: true, Every: 13,
		Gen: func(p *P) func(e *E) {
			rep := pick(p, int32s()...)
			return func(e *E) {
				w := newWorld(e)
				for i := 0; i < 4; i++ {
					w.post("a", 0, nil, nil, int64(10*(i/2)))
				}
				for _, q := range []struct{ ts, off, at int64 }{{-1, 4, -1}, {-2, 0, 0}, {0, 0, 0}, {1, 2, 10}, {10, 2, 10}, {11, 4, -1}} {
					what := fmt.Sprintf("list offsets with replica %d for time %d", rep, q.ts)
					r, bad := listResp(w.c.Call(apiListOffsets, (&W{}).i32(rep).i32(1).str("a").i32(1).i32(0).i64(q.ts).b, what))
					w.c.must(bad, what)
					if len(r) != 1 || len(r[0].Parts) != 1 || r[0].Parts[0].Err != 0 || r[0].Parts[0].Off != q.off || q.at >= 0 && r[0].Parts[0].Ts != q.at {
						e.Fail("%s: %+v, want offset %d time %d", what, r, q.off, q.at)
					}
				}
			}
		},
	}}
}

// commitReq2 is a commit with every field given.
func commitReq2(group string, gen int32, member string, retention int64, meta *string, topic string, part int32, off int64) []byte {
	return (&W{}).str(group).i32(gen).str(member).i64(retention).i32(1).str(topic).i32(1).i32(part).i64(off).nstr(meta).b
}

func commitFields() []*Job {
	return []*Job{{
		Name: "fields", Fix: true, Every: 29,
		Gen: func(p *P) func(e *E) {
			gen, member, retention, meta := int32(3), "m", int64(-1), strp("")
			which := p.Pick(4)
			switch which {
			case 0:
				gen = pick(p, int32s()...)
			case 1:
				member = nn(pick(p, strs()...))
			case 2:
				retention = pick(p, pows()...)
			case 3:
				meta = pick(p, strs()...)
			}
			return func(e *E) {
				w := newWorld(e, "g", "other")
				w.create(0, "a", "b")
				w.commit("other", "a", 0, 2)
				commit := func(off int64) {
					e.Op()
					what := fmt.Sprintf("commit of %d with generation %d, member %.40q, retention %d, metadata %.40q", off, gen, member, retention, nn(meta))
					r, bad := commitResp(w.c.Call(apiCommit, commitReq2("g", gen, member, retention, meta, "a", 0, off), what))
					w.c.must(bad, what)
					if len(r) != 1 || len(r[0].Parts) != 1 || r[0].Parts[0].Err != 0 {
						e.Fail("%s: %+v", what, r)
					}
					w.mcommit("g", "a", 0, off)
					if got, want := w.c.Committed("g", "a", 0), w.md.get("a", 0).com["g"]; got != want {
						e.Fail("%s: then the committed offset is %d, want %d", what, got, want)
					}
				}
				commit(5)
				commit(3)
				commit(6)
				e.pass(20 * time.Millisecond)
				if which == 2 && retention < 1<<22 {
					e.pass(time.Duration(max(retention, 0)+1) * time.Millisecond) // past the retention
				}
				commit(4)
				w.checkAll()
			}
		},
	}}
}

func groupFields() []*Job {
	return []*Job{{
		Name: "fields", Fix: true, Every: 29,
		Gen: func(p *P) func(e *E) {
			st, rt, typ, gen, member := int32(30000), int32(60000), "consumer", int32(1), "m"
			switch p.Pick(5) {
			case 0:
				st = pick(p, int32s()...)
			case 1:
				rt = pick(p, int32s()...)
			case 2:
				typ = nn(pick(p, strs()...))
			case 3:
				gen = pick(p, int32s()...)
			case 4:
				member = nn(pick(p, strs()...))
			}
			return func(e *E) {
				w := newWorld(e, "g")
				w.post("a", 0, nil, []byte("v"), 1)
				w.commit("g", "a", 0, 1)
				what := fmt.Sprintf("group request with session timeout %d, rebalance timeout %d, type %.40q, generation %d, member %.40q", st, rt, typ, gen, member)
				for i := 0; i < 2; i++ {
					e.Op()
					j, bad := joinResp(w.c.Call(apiJoin, (&W{}).str("g").i32(st).i32(rt).str(member).str(typ).i32(1).str("range").bytes([]byte{0, 0}).b, what))
					w.c.must(bad, what)
					if j.Err != 0 || j.Member == "" || j.Proto == "" {
						e.Fail("%s: join answered with %+v", what, j)
					}
					code, _, bad := syncResp(w.c.Call(apiSync, syncReq("g", member, gen), what))
					w.c.must(bad, what)
					c2, bad := errResp(w.c.Call(apiHeartbeat, heartbeatReq("g", member, gen), what))
					w.c.must(bad, what)
					c3, bad := errResp(w.c.Call(apiLeave, leaveReq("g", member), what))
					w.c.must(bad, what)
					if code != 0 || c2 != 0 || c3 != 0 {
						e.Fail("%s: errors %d of sync, %d of heartbeat, %d of leave", what, code, c2, c3)
					}
				}
				w.checkAll()
			}
		},
	}}
}

// ---- ages ----

// agesData: what is stored is the same however long ago it was stored.
func agesData(name string, kind int) []*Job {
	return []*Job{{
		Name: name, Fix: true, Every: 7,
		Gen: func(p *P) func(e *E) {
			stay := p.Pick(2)
			d := time.Duration(0)
			if stay == 1 {
				d = pick(p, ages(held())...)
			} else {
				d = pick(p, ages(400*24*time.Hour)...)
			}
			return func(e *E) {
				w := newWorld(e, "g", "h")
				w.post("a", 0, []byte("k"), []byte("old"), 5)
				w.simple("a", 0, nil, []byte("now"))
				w.postAt("a", 0, nil, []byte("soon"), nil, time.Now().Add(time.Hour))
				w.create(1, "a")
				w.create(7, "b")
				w.commit("g", "a", 0, 2)
				w.set("b", 7, "h", 9)
				again := func() {
					if stay == 0 {
						w.c.Close()
					}
					e.pass(d)
					if stay == 0 {
						w.c = w.m.Dial()
					}
				}
				again()
				if kind == 3 {
					w.c.Close()
					w.m.Restart()
					w.c = w.m.Dial()
				}
				w.checkAll()
				w.checkMeta(true)
				w.checkMeta(false, "b", "a", "none")
				w.checkCoord("g")
				w.simple("a", 0, nil, []byte("later"))
				w.create(3, "b")
				w.commit("g", "a", 0, 3)
				again()
				if kind == 3 {
					w.c.Close()
					w.m.Stop()
					e.pass(d)
					w.m.Start()
					w.c = w.m.Dial()
				}
				w.checkAll()
				w.checkMeta(true)
				w.checkLog("a", 0, 3)
			}
		},
	}}
}

func agesCommits() []*Job {
	return []*Job{{
		Name: "ages", Fix: true, Every: 17,
		Gen: func(p *P) func(e *E) {
			stay := p.Pick(2)
			retention := pick(p, int64(-1), 0, 1, 1000)
			d := time.Duration(0)
			if stay == 1 {
				d = pick(p, ages(held())...)
			} else {
				d = pick(p, ages(400*24*time.Hour)...)
			}
			return func(e *E) {
				w := newWorld(e, "g", "h", "i")
				w.create(0, "a")
				commit := func(g string, off int64) {
					e.Op()
					w.c.Call(apiCommit, commitReq2(g, 1, "m", retention, nil, "a", 0, off), "commit")
					w.mcommit(g, "a", 0, off)
				}
				commit("g", 5)
				w.set("a", 0, "h", 7)
				commit("i", 1)
				for i := 0; i < 2; i++ {
					if stay == 0 {
						w.c.Close()
					}
					e.pass(d)
					if stay == 0 {
						w.c = w.m.Dial()
					}
					commit("g", 4)
					commit("h", 6)
					w.checkAll()
					w.set("a", 0, "g", 2)
					commit("i", int64(10+i))
					w.checkAll()
				}
			}
		},
	}}
}

func agesList() []*Job {
	return []*Job{{
		Name: "ages", Fix: true, Every: 7,
		Gen: func(p *P) func(e *E) {
			d := pick(p, ages(400*24*time.Hour)...)
			return func(e *E) {
				w := newWorld(e)
				var ts []int64
				for i := 0; i < 4; i++ {
					w.simple("a", 0, nil, nil)
					recs := w.md.get("a", 0).recs
					ts = append(ts, recs[i].ts0)
					if i == 3 {
						break
					}
					w.c.Close()
					e.pass(d)
					w.c = w.m.Dial()
				}
				if !plainMode {
					for i, t := range ts {
						for j := int64(-1); j <= 1; j++ {
							want := 0
							for want < len(ts) && ts[want] < t+j {
								want++
							}
							lo := w.c.List1("a", 0, t+j)
							if lo.Err != 0 || lo.Off != int64(want) || want < len(ts) && lo.Ts != ts[want] {
								e.Fail("records posted %v apart: query for the time of record %d%+d: %+v, want offset %d", d, i, j, lo, want)
							}
						}
					}
				}
				if lo := w.c.List1("a", 0, -2); lo.Off != 0 || lo.Err != 0 {
					e.Fail("earliest offset: %+v", lo)
				}
				if lo := w.c.List1("a", 0, -1); lo.Off != 4 || lo.Err != 0 {
					e.Fail("latest offset: %+v", lo)
				}
			}
		},
	}}
}

// agesWait: the waiting time of a fetch does not depend on what was before it.
func agesWait() []*Job {
	return []*Job{{
		Name: "ages", Fix: true, Every: 7,
		Gen: func(p *P) func(e *E) {
			d := pick(p, ages(held())...)
			wait := pick(p, int32(0), 1, 90, 1500)
			post := p.Pick(3)
			return func(e *E) {
				w := newWorld(e)
				w.create(0, "a")
				w.c.Fetch1("a", 0, 0, 100, 30)
				e.pass(d)
				t0 := time.Now()
				maxw := time.Duration(wait) * time.Millisecond
				low, n := maxw, 0
				switch post {
				case 1: // during the wait
					low = min(maxw, 45*time.Millisecond)
					if maxw > 45*time.Millisecond {
						n = 1
					}
					e.Go("producer", func() { e.Sleep(45 * time.Millisecond); w.post("a", 0, nil, nil, 3) })
				case 2: // before it
					w.post("a", 0, nil, nil, 3)
					n, low = 1, 0
				}
				fp := w.c.Fetch1("a", 0, 0, 1000, wait)
				took := time.Since(t0)
				if !plainMode && (len(fp.Set) < n || took < low || took > low+slack) {
					e.Fail("%v after connecting a fetch with a maximum wait of %v got %d records after %v, want %d after %v", d, maxw, len(fp.Set), took, n, low)
				}
				e.Join()
			}
		},
	}}
}

// agesFraming: any time between the bytes of a request.
func agesFraming() []*Job {
	rs := []rawReq{{apiHeartbeat, heartbeatReq("g", "m", 1), strp("c")}, {apiListOffsets, listReq(loTop{"a", []loPart{{0, -2}}}), nil}}
	b, ends := stream(rs, 500)
	n := len(b)
	return []*Job{{
		Name: "slow-pieces", Fix: true, Every: 29,
		Gen: func(p *P) func(e *E) {
			d := pick(p, ages(q(5*time.Minute, time.Hour))...)
			at := pick(p, 1, 3, 4, 5, 11, ends[0]-1, ends[0], ends[0]+2, ends[0]+4, ends[0]+9, n-1)
			twice := p.Pick(2)
			return func(e *E) {
				cuts := []int{at}
				if twice == 1 {
					cuts = append(cuts, at+1)
				}
				if plainMode {
					d = min(d, 30*time.Millisecond)
				}
				play(e, rs, cuts, d, fmt.Sprintf("requests with %v before byte %d", d, at))
			}
		},
	}}
}

func agesStop() []*Job {
	return []*Job{{
		Name: "ages", Fix: true, Every: 17,
		Gen: func(p *P) func(e *E) {
			st := pick(p, 0, 1, 2, 3, 5, 9, 13, 14)
			d := pick(p, ages(q(2*time.Minute, time.Hour))...)
			return func(e *E) {
				w := newWorld(e)
				w.c.Close()
				w.post("a", 0, nil, pat(100, 1), 1)
				c := w.client(st)
				e.pass(d)
				t0 := time.Now()
				w.m.Stop()
				w.stopped(t0, fmt.Sprintf("stop %v after a client was %s", d, lifeName[st]), c)
			}
		},
	}}
}

func agesCycles() []*Job {
	return []*Job{{
		Name: "ages", Fix: true, Every: 7,
		Gen: func(p *P) func(e *E) {
			d := pick(p, ages(400*24*time.Hour)...)
			how := p.Pick(4)
			return func(e *E) {
				w := newWorld(e)
				w.post("a", 0, nil, nil, 1)
				w.c.Close()
				for i := 0; i < 2; i++ {
					e.pass(d)
					w.c = w.m.Dial()
					w.checkLog("a", 0, 0)
					w.c.Close()
					switch how {
					case 0:
						w.m.Restart()
					case 1:
						w.m.Stop()
						e.pass(d)
						w.m.Start()
					case 2:
						w.m.km.FinishRequests()
						e.pass(d)
						w.m.Restart()
					case 3:
						w.m.km.RequestStop()
						e.pass(d)
						w.m.km.WaitForTermination()
						w.m.Start()
					}
					w.m.WaitUp()
				}
				w.c = w.m.Dial()
				w.checkAll()
			}
		},
	}}
}

func agesFinish() []*Job {
	return []*Job{{
		Name: "ages", Fix: true, Every: 7,
		Gen: func(p *P) func(e *E) {
			d := pick(p, ages(held())...)
			kind := p.Pick(3)
			return func(e *E) {
				w := newWorld(e)
				w.post("a", 0, nil, []byte("v"), 1)
				w.create(1, "a")
				off := int64(0)
				if kind == 1 {
					off = 5
				}
				var corr int32
				if kind < 2 {
					corr = w.c.Send(apiFetch, fetchReq(1<<31-1, fetchTop{"a", []fetchPart{{int32(1 - kind), off, 1000}}}))
				} else {
					corr = w.c.Send(apiFetch, fetchReq(1<<31-1))
				}
				e.pass(d)
				t0 := time.Now()
				w.m.km.FinishRequests()
				_, bad := fetchResp(w.c.Recv(corr, "a fetch that waits when requests are finished"))
				w.c.must(bad, "a fetch")
				if took := time.Since(t0); took > slack && !plainMode {
					e.Fail("a fetch that waited for %v was answered %v after requests were finished", d, took)
				}
				w.c.EOF(5*time.Second, "after requests were finished")
			}
		},
	}}
}

// agesIdle: a client that does nothing stays connected while others come and go.
func agesIdle() []*Job {
	return []*Job{{
		Name: "idle", Fix: true, Every: 7,
		Gen: func(p *P) func(e *E) {
			d := pick(p, ages(held())...)
			st := p.Pick(4)
			return func(e *E) {
				w := newWorld(e)
				w.create(0, "a")
				quiet := w.m.Dial()
				var corr int32
				var rest []byte
				switch st {
				case 1:
					quiet.Heartbeat()
				case 2:
					var b []byte
					b, corr = quiet.Frame(apiHeartbeat, heartbeatReq("g", "m", 0))
					quiet.c.Write(b[:7])
					rest = b[7:]
				case 3:
					corr = quiet.Send(apiFetch, fetchReq(1<<31-1, fetchTop{"a", []fetchPart{{0, 0, 1000}}}))
				}
				for i := 0; i < 2; i++ {
					e.pass(d / 2)
					o := w.m.Dial()
					o.Heartbeat()
					o.Close()
				}
				w.c.Heartbeat()
				switch st {
				case 2:
					if _, err := quiet.c.Write(rest); err != nil {
						e.Fail("the rest of a request, %v later: %v", d, err)
					}
					quiet.Recv(corr, "a request completed late")
				case 3:
					w.post("a", 0, nil, nil, 1)
					quiet.Recv(corr, "a fetch that waited long")
				}
				quiet.Heartbeat()
				quiet.Close()
				w.c.Heartbeat()
			}
		},
	}}
}

func agesAnswers() []*Job {
	return []*Job{{
		// an answer is there whenever the client comes to read it, one by one and late
		Name: "late-readers", Fix: true, Every: 7,
		Gen: func(p *P) func(e *E) {
			d := pick(p, ages(held())...)
			cap := pick(p, 0, 1, 64)
			n := pick(p, 1, 3)
			return func(e *E) {
				w := newWorld(e)
				w.post("a", 0, nil, pat(300, 1), 1)
				slow := w.m.Dial()
				if cap > 0 && !plainMode {
					slow.V().SetCap(cap)
				}
				var ids []int32
				for i := 0; i < n; i++ {
					ids = append(ids, slow.Send(apiFetch, fetchReq(0, fetchTop{"a", []fetchPart{{0, 0, 1000}}})))
				}
				e.pass(d / 2)
				w.post("a", 1, nil, nil, 1)
				w.c.Heartbeat()
				e.pass(d / 2)
				w.c.checkLog(w.md, "a", 0, 0)
				for i, id := range ids {
					r, bad := fetchResp(slow.Recv(id, fmt.Sprintf("answer %d read %v late", i, d)))
					slow.must(bad, "a late answer")
					fp := slow.one(r, "a", 0)
					if x := diffSet(fp.Set, w.md.get("a", 0).recs, 0); x != "" || len(fp.Set) != 1 {
						e.Fail("answer %d read %v late: %d records %s", i, d, len(fp.Set), x)
					}
					e.pass(d / 8)
				}
				slow.Heartbeat()
			}
		},
	}}
}

func agesGroups() []*Job {
	return []*Job{{
		Name: "ages", Fix: true, Every: 17,
		Gen: func(p *P) func(e *E) {
			d := pick(p, ages(held())...)
			session := pick(p, int32(1), 6000, 30000)
			stay := p.Pick(2)
			return func(e *E) {
				w := newWorld(e, "g")
				w.post("a", 0, nil, []byte("v"), 1)
				w.commit("g", "a", 0, 1)
				j, bad := joinResp(w.c.Call(apiJoin, (&W{}).str("g").i32(session).i32(session).str("").str("consumer").i32(1).str("range").bytes([]byte{0, 0}).b, "join"))
				w.c.must(bad, "join")
				for i := 0; i < 2; i++ {
					if stay == 0 {
						w.c.Close()
					}
					e.pass(d)
					if stay == 0 {
						w.c = w.m.Dial()
					}
					what := fmt.Sprintf("%v after joining with a session timeout of %dms", d, session)
					c1, bad := errResp(w.c.Call(apiHeartbeat, heartbeatReq("g", j.Member, j.Gen), what))
					w.c.must(bad, what)
					c2, _, bad := syncResp(w.c.Call(apiSync, syncReq("g", j.Member, j.Gen), what))
					w.c.must(bad, what)
					if c1 != 0 || c2 != 0 {
						e.Fail("%s: heartbeat %d, sync %d", what, c1, c2)
					}
				}
				if c3, _ := errResp(w.c.Call(apiLeave, leaveReq("g", j.Member), "leave")); c3 != 0 {
					e.Fail("leave: %d", c3)
				}
				w.checkAll()
			}
		},
	}}
}
