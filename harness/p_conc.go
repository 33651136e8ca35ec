package harness

import (
	"fmt"
	"time"

	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vs"
)

func init() {
	props["C05"] = c05
	props["C23"] = c23
	props["C24"] = c24
	props["C26"] = c26
}

// ---- C05 ----

// posted is a post with the logical time at which it returned.
type posted struct {
	who, i int
	p      int32
	done   int64
}

func val(who, i int) []byte { return []byte(fmt.Sprintf("w%d-%d", who, i)) }

// seen is what one fetch returned.
type seen struct {
	began int64
	p     int32
	from  int64
	set   []msg
}

// judge compares what was read with what was posted.
func judge(e *E, posts []posted, reads []seen, final map[int32][]msg) {
	at := map[string]int64{} // value -> offset in its partition
	total := 0
	for p, set := range final {
		last := map[int]int{}
		for i, m := range set {
			v := string(m.Val)
			if m.Off != int64(i) {
				e.Fail("partition %d: record %d has offset %d", p, i, m.Off)
			}
			if _, dup := at[v]; dup {
				e.Fail("record %s appears twice", v)
			}
			at[v] = m.Off
			var who, k int
			if n, _ := fmt.Sscanf(v, "w%d-%d", &who, &k); n != 2 {
				e.Fail("partition %d has record %q, which nobody posted", p, v)
			}
			if l, ok := last[who]; ok && l > k {
				e.Fail("partition %d: record %d of producer %d comes after its record %d", p, k, who, l)
			}
			last[who] = k
			total++
		}
	}
	if total != len(posts) {
		e.Fail("%d records exist after %d posts: %v", total, len(posts), at)
	}
	for _, p := range posts {
		v := string(val(p.who, p.i))
		off, ok := at[v]
		if !ok {
			e.Fail("record %s is lost", v)
		}
		if int64(len(final[p.p])) <= off || string(final[p.p][off].Val) != v {
			e.Fail("record %s is in another partition than posted", v)
		}
		for _, r := range reads {
			if r.p == p.p && r.began > p.done && off >= r.from && off >= r.from+int64(len(r.set)) {
				e.Fail("a fetch that started after the post of %s returned does not see it (offset %d, fetched %d records from %d)", v, off, len(r.set), r.from)
			}
		}
	}
	for _, r := range reads {
		for i, m := range r.set {
			off := r.from + int64(i)
			if m.Off != off || off >= int64(len(final[r.p])) || string(final[r.p][off].Val) != string(m.Val) {
				e.Fail("a fetch of partition %d saw %q at offset %d (position %d), which is not what is there later", r.p, m.Val, m.Off, off)
			}
		}
	}
}

// contest runs producers and readers concurrently.
type contest struct {
	producers, posts, readers, fetches int
	parts                              int // producer w posts its i-th record to partition (w+i)%parts
	create                             int // partitions existing before: 0 none, 1 topic only, 2 all
	meddle                             int // 1: create the same partitions concurrently, 2: set offsets, 3: list, 4: assign
	ext                                bool
}

func (k contest) run(e *E, explore bool) {
	w := newWorld(e)
	w.c.Heartbeat()
	switch k.create {
	case 1:
		w.m.km.CreatePartitionTopics([]string{"t"}, 77)
	case 2:
		for i := 0; i < k.parts; i++ {
			w.m.km.CreatePartitionTopics([]string{"t"}, i)
		}
	}
	var rs []*Cli
	for i := 0; i < k.readers; i++ {
		c := w.m.Dial()
		c.Heartbeat()
		rs = append(rs, c)
	}
	posts := make([][]posted, k.producers)
	reads := make([][]seen, k.readers)
	if explore {
		e.Begin()
	}
	for i := 0; i < k.producers; i++ {
		i := i
		e.Go(fmt.Sprint("p", i), func() {
			for j := 0; j < k.posts; j++ {
				p := int32((i + j) % k.parts)
				if k.ext {
					w.m.km.ExtendedPost("t", int(p), val(i, j), val(i, j), map[string][]byte{"h": val(i, j)}, time.UnixMilli(int64(j)))
				} else {
					w.m.km.SimplePost("t", int(p), nil, val(i, j))
				}
				posts[i] = append(posts[i], posted{i, j, p, e.Event()})
			}
		})
	}
	for i := 0; i < k.readers; i++ {
		i := i
		e.Go(fmt.Sprint("r", i), func() {
			var from int64
			for j := 0; j < k.fetches; j++ {
				p := int32((i + j) % k.parts)
				b := e.Event()
				fp := rs[i].Fetch1("t", p, from, 1<<20, 0)
				if fp.Err == 0 {
					reads[i] = append(reads[i], seen{b, p, from, fp.Set})
				} else {
					reads[i] = append(reads[i], seen{b, p, from, nil})
				}
				if k.parts == 1 && j%2 == 0 {
					from += int64(len(fp.Set))
				}
			}
		})
	}
	switch k.meddle {
	case 1:
		e.Go("creator", func() {
			for i := 0; i < k.parts; i++ {
				w.m.km.CreatePartitionTopics([]string{"t", "u"}, i)
			}
		})
	case 2:
		e.Go("setter", func() { w.m.km.SetConsumerGroupOffset("t", 0, "g", 1) })
	case 3:
		e.Go("lister", func() {
			last := int64(-1)
			for i := 0; i < 2; i++ {
				if r := w.c.List1("t", 0, -1); r.Err == 0 {
					if r.Off < last {
						e.Fail("the latest offset went back from %d to %d", last, r.Off)
					}
					last = r.Off
				} else if last >= 0 {
					e.Fail("partition 0 disappeared: error %d", r.Err)
				}
			}
		})
	case 4:
		e.Go("assign", func() { w.c.Sync("g") })
	case 5:
		e.Go("commit", func() { w.c.Commit1("g", "t", 0, 1) })
	}
	e.Join()
	if explore {
		e.End()
	}
	final := map[int32][]msg{}
	var ps []posted
	var ss []seen
	for _, x := range posts {
		ps = append(ps, x...)
	}
	for _, x := range reads {
		ss = append(ss, x...)
	}
	for p := 0; p < k.parts; p++ {
		final[int32(p)] = w.c.ReadAll("t", int32(p), 0)
	}
	judge(e, ps, ss, final)
	for _, c := range rs {
		for p := 0; p < k.parts; p++ {
			got := c.ReadAll("t", int32(p), 0)
			if len(got) != len(final[int32(p)]) {
				e.Fail("two readers see %d and %d records of partition %d", len(got), len(final[int32(p)]), p)
			}
			for i := range got {
				if string(got[i].Val) != string(final[int32(p)][i].Val) || got[i].Off != int64(i) {
					e.Fail("two readers see %q and %q at offset %d of partition %d", got[i].Val, final[int32(p)][i].Val, i, p)
				}
			}
		}
		e.Note("%d", len(final[0]))
	}
	for _, s := range ss {
		e.Note("%d:%d", s.p, len(s.set))
	}
	e.Op()
}

func c05() []*Job {
	return []*Job{
		{
			Name: "two-producers", Dev: q(2, 3), Cfg: cfgStmt(), Race: true, Fix: true,
			Gen: func(p *P) func(e *E) {
				k := contest{producers: 2, posts: 2, parts: 1, create: p.Pick(3), ext: p.Pick(2) == 1}
				return func(e *E) { k.run(e, true) }
			},
		},
		{
			Name: "two-producers-two-partitions", Dev: q(2, 3), Cfg: cfgStmt(), Race: true, Fix: true,
			Gen: func(p *P) func(e *E) {
				k := contest{producers: 2, posts: 2, parts: 2, create: p.Pick(2), meddle: p.Pick(2)}
				return func(e *E) { k.run(e, true) }
			},
		},
		{
			Name: "producers-and-readers", Dev: q(1, 2), Cfg: cfgStmt(), Race: true, Fix: true,
			Gen: func(p *P) func(e *E) {
				k := contest{producers: 1 + p.Pick(2), posts: 2, readers: 1 + p.Pick(2), fetches: 2, parts: 1, create: pick(p, 0, 2), ext: true}
				return func(e *E) { k.run(e, true) }
			},
		},
		{
			Name: "producers-readers-and-others", Dev: q(1, 2), Cfg: cfgStmt(), Race: true, Fix: true,
			Gen: func(p *P) func(e *E) {
				k := contest{producers: 2, posts: 2, readers: 1, fetches: 2, parts: 1 + p.Pick(2), create: pick(p, 0, 2), meddle: 1 + p.Pick(5)}
				return func(e *E) { k.run(e, true) }
			},
		},
		{
			// switches only at synchronisation, but more of them
			Name: "three-producers", Dev: q(3, 4), Race: true, Fix: true,
			Gen: func(p *P) func(e *E) {
				k := contest{producers: 3, posts: 2, parts: 1 + p.Pick(2), create: p.Pick(2)}
				return func(e *E) { k.run(e, true) }
			},
		},
		{
			Name: "deep", Dev: q(2, 3), Cfg: vs.Config{},
			Gen: func(p *P) func(e *E) {
				k := contest{producers: 2, posts: 3, readers: 1, fetches: 3, parts: 1, create: pick(p, 0, 2), meddle: pick(p, 0, 3)}
				return func(e *E) { k.run(e, true) }
			},
		},
		{
			// many records: the log grows through every capacity
			Name: "growth", Fix: true, Dev: q(0, 1),
			Gen: func(p *P) func(e *E) {
				k := contest{producers: 1 + p.Pick(3), posts: pick(p, 3, 9, 40, q(70, 300)), readers: 2, fetches: pick(p, 3, 20), parts: 1 + p.Pick(2), create: p.Pick(3), meddle: p.Pick(3)}
				return func(e *E) { k.run(e, false) }
			},
		},
	}
}

// ---- C23 ----

// anOp is one thing a user or a client can do at any time.
type anOp struct {
	name string
	f    func(w *world, c *Cli)
}

func everyOp() []anOp {
	req := func(api int16, body []byte) func(w *world, c *Cli) {
		return func(w *world, c *Cli) { c.ask(api, body) }
	}
	return []anOp{
		{"post", func(w *world, c *Cli) { w.m.km.SimplePost("a", 0, []byte("k"), []byte("v")) }},
		{"post to a new partition", func(w *world, c *Cli) { w.m.km.SimplePost("a", 5, nil, []byte("v")) }},
		{"post with headers to a new topic", func(w *world, c *Cli) {
			w.m.km.ExtendedPost("n", 0, nil, []byte("v"), map[string][]byte{"h": []byte("x")}, time.UnixMilli(7))
		}},
		{"create", func(w *world, c *Cli) { w.m.km.CreatePartitionTopics([]string{"a", "n"}, 5) }},
		{"set offset", func(w *world, c *Cli) { w.m.km.SetConsumerGroupOffset("a", 0, "g", 1) }},
		{"finish", func(w *world, c *Cli) { w.m.km.FinishRequests() }},
		{"stop", func(w *world, c *Cli) { w.m.km.RequestStop() }},
		{"stop and wait", func(w *world, c *Cli) { w.m.km.RequestStop(); w.m.km.WaitForTermination() }},
		{"connect", func(w *world, c *Cli) {
			if n, err := w.m.TryDial(); err == nil {
				n.ask(apiHeartbeat, heartbeatReq("g", "m", 0))
				n.Close()
			}
		}},
		{"disconnect", func(w *world, c *Cli) { c.Close() }},
		{"metadata", req(apiMetadata, metaReq(true))},
		{"find coordinator", req(apiFindCoord, coordReq("g"))},
		{"offset fetch", req(apiOffFetch, offFetchReq("g", ofTop{"a", []int32{0, 5}}, ofTop{"n", []int32{0}}))},
		{"join", req(apiJoin, joinReq("g", "m", "range"))},
		{"sync", req(apiSync, syncReq("g", "m", 1))},
		{"leave", req(apiLeave, leaveReq("g", "m"))},
		{"versions", req(apiVersions, nil)},
		{"heartbeat", req(apiHeartbeat, heartbeatReq("g", "m", 0))},
		{"list latest", req(apiListOffsets, listReq(loTop{"a", []loPart{{0, -1}, {5, -1}}}))},
		{"list by time", req(apiListOffsets, listReq(loTop{"a", []loPart{{0, 1}}}))},
		{"fetch", req(apiFetch, fetchReq(0, fetchTop{"a", []fetchPart{{0, 0, 1000}, {5, 0, 1000}}}))},
		{"waiting fetch", req(apiFetch, fetchReq(45, fetchTop{"a", []fetchPart{{0, 2, 1000}}}))},
		{"commit", req(apiCommit, commitReq("g", ocTop{"a", []ocPart{{0, 2}, {1, 1}}}))},
	}
}

// stopping ops end the service
func stopping(n string) bool { return n == "finish" || n == "stop" || n == "stop and wait" }

func runMix(e *E, is []int, explore bool) {
	ops := everyOp()
	w := newWorld(e)
	w.m.km.SimplePost("a", 0, []byte("k"), []byte("v0"))
	w.m.km.SimplePost("a", 0, []byte("k"), []byte("v1"))
	w.m.km.SimplePost("a", 1, nil, []byte("v2"))
	w.c.Heartbeat()
	var cs []*Cli
	for range is {
		c := w.m.Dial()
		c.Heartbeat()
		cs = append(cs, c)
	}
	what := ""
	stops := false
	if explore {
		e.Begin()
	}
	for n, i := range is {
		n, op := n, ops[i]
		what += op.name + "; "
		stops = stops || stopping(op.name)
		e.Go(fmt.Sprint("t", n), func() { op.f(w, cs[n]) })
	}
	e.Join()
	if explore {
		e.End()
	}
	e.ops += int64(len(is))
	if !stops {
		c := w.m.Dial()
		c.Heartbeat()
		if got := c.ReadAll("a", 1, 0); len(got) != 1 {
			e.Fail("%s: partition 1 has %d records", what, len(got))
		}
		c.Close()
	}
	began := time.Now()
	w.m.Stop()
	if d := time.Since(began); d > stopTime {
		e.Fail("%s: the stop took %v", what, d)
	}
}

func c23() []*Job {
	n := len(everyOp())
	pair := func(p *P) []int {
		a := p.Pick(n)
		return []int{a, a + p.Pick(n-a)}
	}
	return []*Job{
		{
			Name: "pairs", Dev: 1, Cfg: cfgStmt(), ByCase: true,
			Gen: func(p *P) func(e *E) {
				is := pair(p)
				return func(e *E) { runMix(e, is, true) }
			},
		},
		{
			Name: "pairs-deeper", Dev: q(1, 2), ByCase: true,
			Gen: func(p *P) func(e *E) {
				is := pair(p)
				return func(e *E) { runMix(e, is, true) }
			},
		},
		{
			// under the race detector even the default schedule shows unordered accesses
			Name: "race-pairs", Dev: 1, ByCase: true, RaceOnly: true,
			Gen: func(p *P) func(e *E) {
				is := pair(p)
				return func(e *E) { runMix(e, is, true) }
			},
		},
		{
			Name: "triples", Race: true,
			Gen: func(p *P) func(e *E) {
				a := p.Pick(n)
				b := a + p.Pick(n-a)
				c := b + p.Pick(n-b)
				return func(e *E) { runMix(e, []int{a, b, c}, true) }
			},
		},
		{
			// requests about several partitions in opposite orders, also with repeats
			Name: "orders", Dev: q(1, 2), Fix: true, Race: true,
			Gen: func(p *P) func(e *E) {
				const kinds = 8
				i := p.Pick(kinds)
				j := p.Pick(kinds)
				repeat := p.Pick(2)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a", "b", "c")
					w.create(1, "a", "b", "c")
					w.post("a", 0, nil, []byte("v"), 1)
					w.post("b", 1, nil, []byte("v"), 1)
					c2 := w.m.Dial()
					w.c.Heartbeat()
					c2.Heartbeat()
					order := func(back bool) (ts []string, ps []int32) {
						ts, ps = []string{"a", "b", "c"}, []int32{0, 1}
						if back {
							ts, ps = []string{"c", "b", "a"}, []int32{1, 0}
						}
						if repeat == 1 {
							ts, ps = append(ts, ts[0]), append(ps, ps[0])
						}
						return
					}
					do := func(c *Cli, kind int, back bool) {
						ts, ps := order(back)
						var fs []fetchTop
						var os []ocTop
						var ls []loTop
						var qs []ofTop
						for _, t := range ts {
							f, o, l := fetchTop{Name: t}, ocTop{Name: t}, loTop{Name: t}
							for _, p := range ps {
								at := int64(0)
								if kind == 1 {
									at = 1 // waits
								}
								f.Parts = append(f.Parts, fetchPart{p, at, 1000})
								o.Parts = append(o.Parts, ocPart{p, 3})
								l.Parts = append(l.Parts, loPart{p, int64(kind - 4)}) // -1, 0
							}
							fs, os, ls, qs = append(fs, f), append(os, o), append(ls, l), append(qs, ofTop{t, ps})
						}
						switch kind {
						case 0:
							c.ask(apiFetch, fetchReq(0, fs...))
						case 1:
							c.ask(apiFetch, fetchReq(45, fs...))
						case 2:
							c.ask(apiCommit, commitReq("g", os...))
						case 3, 4:
							c.ask(apiListOffsets, listReq(ls...))
						case 5:
							c.ask(apiOffFetch, offFetchReq("g", qs...))
						case 6:
							c.ask(apiMetadata, metaReq(false, ts...))
						case 7:
							for _, p := range ps {
								w.m.km.CreatePartitionTopics(ts, int(p))
							}
						}
					}
					e.Begin()
					e.Go("forth", func() { do(w.c, i, false) })
					e.Go("back", func() { do(c2, j, true) })
					e.Join()
					e.End()
					w.c.Heartbeat()
					c2.Heartbeat()
					w.checkLog("a", 0, 0)
					e.Op()
				}
			},
		},
		{
			// everything at once, in rotated orders
			Name: "all", Dev: q(0, 1), Race: true, Fix: true,
			Gen: func(p *P) func(e *E) {
				r := p.Pick(n)
				leave := p.Pick(4) // without the stops, or with one of them
				return func(e *E) {
					var is []int
					seen := 0
					for i := 0; i < n; i++ {
						j := (i + r) % n
						if stopping(everyOp()[j].name) {
							seen++
							if seen != leave {
								continue
							}
						}
						is = append(is, j)
					}
					runMix(e, is, true)
				}
			},
		},
	}
}

// ---- C24 ----

func c24() []*Job {
	scribble := func(b []byte, x byte) {
		b = b[:cap(b)]
		for i := range b {
			b[i] = x
		}
	}
	return []*Job{
		{
			// key, value and headers are slices of one buffer, which is reused for every post
			Name: "one-buffer", Fix: true, Every: 97,
			Gen: func(p *P) func(e *E) {
				kl := pick(p, -1, 0, 1, 3, q(9, 64))
				vl := pick(p, -1, 0, 1, 5, q(40, 4000))
				overlap := p.Pick(3)
				n := 1 + p.Pick(q(3, 5))
				ext := p.Pick(2) == 1
				read := p.Pick(2) == 1
				return func(e *E) {
					w := newWorld(e)
					buf := make([]byte, 8192)
					hdr := map[string][]byte{"h": buf[20:30], "none": nil, "empty": {}}
					for i := 0; i < n; i++ {
						for j := range buf {
							buf[j] = byte(i*31 + j)
						}
						cut := func(at, l int) []byte {
							if l < 0 {
								return nil
							}
							return buf[at : at+l]
						}
						k := cut(0, kl)
						v := cut([]int{100, 0, 2}[overlap], vl)
						mp := w.md.create("a", 0)
						if ext {
							w.m.km.ExtendedPost("a", 0, k, v, hdr, time.UnixMilli(int64(i)))
							mp.recs = append(mp.recs, mrec{dup(k), dup(v), int64(i), int64(i)})
						} else {
							w.m.km.SimplePost("a", 0, k, v)
							mp.recs = append(mp.recs, mrec{dup(k), dup(v), 0, 1 << 60})
						}
						if read {
							w.checkLog("a", 0, 0)
						}
						scribble(buf, byte(200+i))
						hdr["h"] = buf[5:7]
						delete(hdr, "none")
						if read {
							w.checkLog("a", 0, 0)
						}
					}
					w.checkLog("a", 0, 0)
					w.m.Restart()
					w.c = w.m.Dial()
					w.checkLog("a", 0, 0)
				}
			},
		},
		{
			// all sequences of posting and changing with two buffers in two partitions
			Name: "sequences", Fix: true, Every: q(61, 601),
			Gen: func(p *P) func(e *E) {
				var ops []int
				for i, n := 0, q(4, 5); i < n; i++ {
					ops = append(ops, p.Pick(7))
				}
				return func(e *E) {
					w := newWorld(e)
					a, b := []byte("aaaa-aaaa"), []byte("bbbb")
					grow := append(make([]byte, 0, 64), "grow"...)
					post := func(part int32, k, v []byte) {
						w.m.km.ExtendedPost("a", int(part), k, v, nil, time.UnixMilli(3))
						mp := w.md.create("a", part)
						mp.recs = append(mp.recs, mrec{dup(k), dup(v), 3, 3})
						e.Op()
					}
					w.create(0, "a")
					w.create(1, "a")
					for i, op := range ops {
						switch op {
						case 0:
							post(0, a, b)
						case 1:
							post(1, b, a)
						case 2:
							post(0, a[2:6], a)
						case 3:
							a[i%9]++
							scribble(b, byte('0'+i))
						case 4:
							post(0, grow, grow[1:3])
							grow = append(grow, byte('0'+i))
						case 5:
							w.checkLog("a", 0, 0)
						case 6:
							post(1, append([]byte{}, a...), nil2(i))
							copy(a[3:], a)
						}
					}
					for part := int32(0); part < 2; part++ {
						w.checkLog("a", part, 0)
					}
				}
			},
		},
		{
			// buffers change while clients fetch and others post
			Name: "concurrent", Dev: q(2, 3), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				k := p.Pick(4)
				return func(e *E) {
					w := newWorld(e)
					c := w.m.Dial()
					c.Heartbeat()
					w.create(0, "a")
					buf := []byte("first")
					hdr := map[string][]byte{"h": buf}
					w.m.km.ExtendedPost("a", 0, buf, buf, hdr, time.UnixMilli(1))
					mp := w.md.get("a", 0)
					mp.recs = append(mp.recs, mrec{[]byte("first"), []byte("first"), 1, 1})
					check := func(set []msg, what string) {
						for _, m := range set {
							if v := string(m.Val); v != "first" && v != "other" && v != "again" || v != string(m.Key) {
								e.Fail("%s: key %q and value %q", what, m.Key, m.Val)
							}
						}
					}
					e.Begin()
					e.Go("owner", func() {
						copy(buf, "XXXXX")
						hdr["h"] = nil
						if k == 1 || k == 3 {
							copy(buf, "again")
							w.m.km.ExtendedPost("a", 0, buf, buf, hdr, time.UnixMilli(1))
							copy(buf, "YYYYY")
						}
					})
					e.Go("reader", func() {
						check(c.ReadAll("a", 0, 0), "while the buffers change")
					})
					if k >= 2 {
						e.Go("producer", func() {
							o := []byte("other")
							w.m.km.SimplePost("a", 0, o, o)
							copy(o, "ZZZZZ")
						})
					}
					e.Join()
					e.End()
					set := c.ReadAll("a", 0, 0)
					check(set, "afterwards")
					if want := []int{1, 2, 2, 3}[k]; len(set) != want {
						e.Fail("%d records, want %d", len(set), want)
					}
				}
			},
		},
	}
}

// nil2 alternates between a null and an empty value.
func nil2(i int) []byte {
	if i%2 == 0 {
		return nil
	}
	return []byte{}
}

// dup copies a buffer, keeping null null.
func dup(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// ---- C26 ----

// consumer does what a group consumer of a client library does.
type consumer struct {
	w     *world
	c     *Cli
	group string
	topic string
	max   int32
	wait  int32
	pos   map[int32]int64
}

// join finds its assignment and its positions.
func (k *consumer) join() {
	e, w := k.w.e, k.w
	k.c = w.m.Dial()
	k.c.Call(apiVersions, nil, "api versions")
	co := k.c.Call(apiFindCoord, coordReq(k.group), "find coordinator")
	if cr, bad := coordResp(co); bad != "" || cr.Err != 0 || cr.Host != "localhost" || int(cr.Port) != w.m.port {
		e.Fail("find coordinator: %+v %s", cr, bad)
	}
	m := k.c.Meta(false, k.topic)
	if len(m.Tops) != 1 || m.Tops[0].Name != k.topic {
		e.Fail("metadata of %s: %+v", k.topic, m)
	}
	if bad := decodeAny(apiJoin, k.c.Call(apiJoin, joinReq(k.group, "", "range"), "join group")); bad != "" {
		e.Fail("join group: malformed response: %s", bad)
	}
	k.pos = map[int32]int64{}
	for _, t := range k.c.Sync(k.group) {
		if t.Name == k.topic {
			for _, p := range t.Parts {
				k.pos[p] = k.c.Committed(k.group, k.topic, p)
			}
		}
	}
	if got, want := len(k.pos), len(w.md.parts(k.topic)); got != want {
		e.Fail("the consumer is assigned %d partitions of %s, want %d", got, k.topic, want)
	}
}

// round fetches once from every partition and returns what is new.
func (k *consumer) round(c0 bool) map[int32][]msg {
	var fps []fetchPart
	for _, p := range k.w.md.parts(k.topic) {
		fps = append(fps, fetchPart{p, k.pos[p], k.max})
	}
	out := map[int32][]msg{}
	r := k.c.Fetch(k.wait, fetchTop{k.topic, fps})
	if len(r) != 1 || r[0].Name != k.topic || len(r[0].Parts) != len(fps) {
		k.w.e.Fail("fetch of %v answered with %v", fps, r)
	}
	for _, fp := range r[0].Parts {
		if fp.Err != 0 {
			k.w.e.Fail("fetch of partition %d: error %d", fp.P, fp.Err)
		}
		for _, m := range fp.Set {
			if m.Off == k.pos[fp.P] {
				out[fp.P] = append(out[fp.P], m)
				k.pos[fp.P]++
			} else if m.Off > k.pos[fp.P] {
				k.w.e.Fail("record %d of partition %d is skipped: got offset %d", k.pos[fp.P], fp.P, m.Off)
			}
		}
		if fp.HW > k.pos[fp.P] && len(fp.Set) == 0 {
			k.w.e.Fail("partition %d has records up to %d, and the fetch at %d got none", fp.P, fp.HW, k.pos[fp.P])
		}
	}
	return out
}

func (k *consumer) commit() {
	var ps []ocPart
	for _, p := range k.w.md.parts(k.topic) {
		ps = append(ps, ocPart{p, k.pos[p]})
	}
	for _, t := range k.c.Commit(k.group, ocTop{k.topic, ps}) {
		for _, p := range t.Parts {
			if p.Err != 0 {
				k.w.e.Fail("commit: error %d for partition %d", p.Err, p.P)
			}
		}
	}
}

func c26() []*Job {
	value := func(p int32, i int, size int) []byte {
		v := []byte(fmt.Sprintf("p%d-%d-", p, i))
		for len(v) < size {
			v = append(v, byte('a'+i%26))
		}
		return v
	}
	check := func(e *E, got map[int32][]string, p int32, from, n int, size func(int) int) {
		if len(got[p]) != n-from {
			e.Fail("partition %d: %d records were consumed, want %d (from %d of %d)", p, len(got[p]), n-from, from, n)
		}
		for i, v := range got[p] {
			if v != string(value(p, from+i, size(from+i))) {
				e.Fail("partition %d: record %d was consumed as %.40q", p, from+i, v)
			}
		}
	}
	return []*Job{
		{
			// the consumer of the protocol: sizes, limits, start, restarts, commits
			Name: "consumer", Fix: true, Every: q(61, 401),
			Gen: func(p *P) func(e *E) {
				parts := 1 + p.Pick(2)
				n := p.Pick(q(5, 8))
				start := p.Pick(n + 1)
				sizes := p.Pick(3)
				slack := pick(p, 0, 1, 33, 60, 4000)
				event := p.Pick(5) // none, reconnect, restart, restart after finishing, more records
				at := p.Pick(q(2, 4))
				size := func(i int) int { return []int{0, 40, (i * 37) % 90}[sizes] }
				return func(e *E) {
					w := newWorld(e, "g")
					big := 0
					total := 0
					for q := int32(0); q < int32(parts); q++ {
						w.create(q*3, "t")
						for i := 0; i < n; i++ {
							w.post("t", q*3, nil, value(q*3, i, size(i)), int64(i))
							if s := recSize(mrec{nil, value(q*3, i, size(i)), 0, 0}); s > big {
								big = s
							}
						}
						if start > 0 {
							w.set("t", q*3, "g", int64(start))
						}
					}
					total = n
					got := map[int32][]string{}
					k := &consumer{w: w, group: "g", topic: "t", max: int32(big + slack), wait: 30}
					k.join()
					for q := range k.pos {
						if k.pos[q] != int64(start) {
							e.Fail("the consumer starts at %d of partition %d, want %d", k.pos[q], q, start)
						}
					}
					for r := 0; ; r++ {
						news := k.round(true)
						for q, ms := range news {
							for _, m := range ms {
								got[q] = append(got[q], string(m.Val))
							}
						}
						if len(news) == 0 && r > at {
							break
						}
						if r > 2*total+at+8 {
							e.Fail("the consumer does not come to the end")
						}
						k.commit()
						if r == at {
							switch event {
							case 1:
								k.c.Close()
								k.join()
							case 2:
								w.m.Restart()
								k.join()
							case 3:
								w.m.km.FinishRequests()
								w.m.Stop()
								w.m.Start()
								k.join()
							case 4:
								for q := int32(0); q < int32(parts); q++ {
									w.post("t", q*3, nil, value(q*3, n, size(n)), int64(n))
								}
								total = n + 1
								if s := recSize(mrec{nil, value(3, n, size(n)), 0, 0}); int(k.max) < s {
									k.max = int32(s)
								}
							}
						}
					}
					for q := int32(0); q < int32(parts); q++ {
						check(e, got, q*3, start, total, size)
					}
					// and it resumes at the end
					k.c.Close()
					k.join()
					if news := k.round(true); len(news) != 0 {
						e.Fail("a consumer that resumes at the end got %v", news)
					}
				}
			},
		},
		{
			// schedules of the consumer against a producer
			Name: "with-producer", Dev: q(2, 3), Cfg: vs.Config{}, Race: true,
			Gen: func(p *P) func(e *E) {
				max := pick(p, 45, 1000)
				wait := pick(p, 0, 40)
				return func(e *E) {
					w := newWorld(e, "g")
					w.create(0, "t")
					w.m.km.SimplePost("t", 0, nil, value(0, 0, 0))
					k := &consumer{w: w, group: "g", topic: "t", max: int32(max), wait: int32(wait)}
					k.join()
					got := map[int32][]string{}
					e.Begin()
					e.Go("producer", func() {
						for i := 1; i < 4; i++ {
							w.m.km.SimplePost("t", 0, nil, value(0, i, 0))
						}
					})
					e.Go("consumer", func() {
						for r := 0; len(got[0]) < 4; r++ {
							if r > 400 {
								e.Fail("the consumer got %d of 4 records", len(got[0]))
							}
							for _, m := range k.round(true)[0] {
								got[0] = append(got[0], string(m.Val))
							}
							k.commit()
							if wait == 0 {
								e.Sleep(time.Millisecond)
							}
						}
					})
					e.Join()
					e.End()
					check(e, got, 0, 0, 4, func(int) int { return 0 })
					if x := w.c.Committed("g", "t", 0); x != 4 {
						e.Fail("committed is %d after everything was consumed and committed", x)
					}
				}
			},
		},
		{
			// a client library, over every combination of sizes, limits and interruptions
			Name: "kafka-go", Cfg: vs.Config{Free: true}, ByCase: true, Fix: true, Every: q(149, 311),
			Gen: func(p *P) func(e *E) {
				k := libRun{n: p.Pick(q(4, 6)), sizes: p.Pick(3), slack: pick(p, 0, 40, 5000)}
				k.start = p.Pick(k.n + 1)
				k.event = p.Pick(4)
				k.at = p.Pick(k.n - k.start + 1)
				k.late = p.Pick(2)
				k.part = pick(p, 0, 2)
				return k.run
			},
		},
	}
}
