package harness

import (
	"fmt"
	"time"

	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vs"
)

func init() {
	props["C11"] = c11
	props["C12"] = c12
	props["C13"] = c13
	props["C30"] = c30
}

// subset builds the model that a bit mask over (topic, partition) pairs describes.
type tp struct {
	t string
	p int32
}

func c11() []*Job {
	all := []tp{{"a", 0}, {"a", 1}, {"b", 0}, {"b", 1 << 30}, {"topic-with-a-long-name", 7}, {"", 3}, {"a", 2}, {"c", -1}, {"d", 0}}
	return []*Job{
		{
			// every subset of an alphabet of partitions, created in two ways
			Name: "every-set", Fix: true, Every: 37,
			Gen: func(p *P) func(e *E) {
				n := q(7, len(all))
				var set []tp
				for i := 0; i < n; i++ {
					if p.Pick(2) == 1 {
						set = append(set, all[i])
					}
				}
				how := p.Pick(3)
				return func(e *E) {
					w := newWorld(e)
					for i := range set {
						x := set[i]
						if how == 2 {
							x = set[len(set)-1-i]
						}
						if how == 1 {
							w.post(x.t, x.p, nil, []byte("v"), 1)
						} else {
							w.create(x.p, x.t)
							w.create(x.p, x.t)
						}
					}
					w.checkAssign()
				}
			},
		},
		{
			// many topics and partitions
			Name: "many", Fix: true, Every: 3,
			Gen: func(p *P) func(e *E) {
				nt := pick(p, q([]int{1, 2, 3, 9, 64}, []int{1, 2, 3, 5, 9, 64, 130, 300})...)
				np := pick(p, q([]int{1, 2, 8, 9, 64}, []int{1, 2, 3, 8, 9, 17, 64, 257, 1000})...)
				return func(e *E) {
					w := newWorld(e)
					for i := 0; i < nt; i++ {
						for j := 0; j < np; j++ {
							w.create(int32(j*3), fmt.Sprint("topic", i))
						}
					}
					w.checkAssign()
				}
			},
		},
		{
			// every history of creations, posts, commits, other requests and syncs
			Name: "histories", Fix: true, Every: 149,
			Gen: func(p *P) func(e *E) {
				var ops []int
				for i := 0; i < q(4, 5); i++ {
					ops = append(ops, p.Pick(8))
				}
				return func(e *E) {
					w := newWorld(e)
					for i, o := range ops {
						switch o {
						case 0:
							w.create(0, "a", "b")
						case 1:
							w.create(int32(i+1), "a")
						case 2:
							w.simple("c", 5, nil, []byte("x"))
						case 3:
							w.c.Commit1("g", "nope", 0, 4)
							w.c.Commit1("g", "a", 9, 4)
						case 4:
							w.c.Meta(false, "x1", "a")
							w.c.List1("x2", 0, -1)
						case 5:
							w.c.Fetch1("x3", 1, 0, 100, 0)
							w.c.Offsets("g", ofTop{"x4", []int32{0}})
						case 6:
							w.set("x5", 0, "g", 3)
							w.set("a", 8, "g", 3)
						case 7:
							w.c.Close()
							w.m.Restart()
							w.c = w.m.Dial()
						}
						w.checkAssign()
					}
				}
			},
		},
		{
			// creations while a sync is served: what existed before must be there,
			// nothing that was not being created may be, nothing twice
			Name: "during-creation", Dev: q(2, 3), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				shape := p.Pick(4)
				rev := p.Pick(2)
				return func(e *E) {
					if rev == 1 {
						e.RevMaps()
					}
					w := newWorld(e)
					w.create(0, "a")
					w.create(1, "a")
					have := map[tp]bool{{"a", 0}: true, {"a", 1}: true}
					coming := map[tp]bool{}
					add := map[int][]tp{
						0: {{"b", 0}},
						1: {{"a", 2}},
						2: {{"b", 0}, {"b", 1}},
						3: {{"a", 1}, {"a", 3}},
					}[shape]
					var got []assignTop
					before := map[tp]bool{}
					e.Begin()
					e.Go("syncer", func() {
						for k := range have {
							before[k] = true
						}
						got = w.c.Sync("g")
					})
					e.Go("creator", func() {
						for i, x := range add {
							coming[x] = true
							if (i+shape)%2 == 0 {
								w.m.km.CreatePartitionTopics([]string{x.t}, int(x.p))
							} else {
								w.m.km.SimplePost(x.t, int(x.p), nil, []byte("v"))
							}
							have[x] = true
						}
					})
					e.Join()
					e.End()
					seen := map[tp]bool{}
					names := map[string]bool{}
					for _, t := range got {
						if names[t.Name] {
							e.Fail("topic %s is assigned twice: %v", t.Name, got)
						}
						names[t.Name] = true
						for _, pn := range t.Parts {
							x := tp{t.Name, pn}
							if seen[x] {
								e.Fail("partition %v is assigned twice: %v", x, got)
							}
							seen[x] = true
							if !before[x] && !coming[x] {
								e.Fail("partition %v is assigned but was never created: %v", x, got)
							}
						}
					}
					for x := range before {
						if !seen[x] {
							e.Fail("partition %v existed when the request was sent but is not assigned: %v", x, got)
						}
					}
					e.Note("%d", len(seen))
					for _, x := range add {
						w.md.create(x.t, x.p)
					}
					w.checkAssign()
				}
			},
		},
		{
			// two groups sync while two goroutines create the same things
			Name: "two-syncs-two-creators", Dev: q(1, 2), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				rev := p.Pick(2)
				return func(e *E) {
					if rev == 1 {
						e.RevMaps()
					}
					w := newWorld(e)
					w.create(0, "a")
					c2 := w.m.Dial()
					e.Begin()
					e.Go("s1", func() { w.c.Sync("g") })
					e.Go("s2", func() { c2.Sync("h") })
					e.Go("c1", func() { w.m.km.CreatePartitionTopics([]string{"b", "a"}, 1) })
					e.Go("c2", func() { w.m.km.CreatePartitionTopics([]string{"a", "b"}, 1) })
					e.Join()
					e.End()
					w.md.create("a", 1)
					w.md.create("b", 1)
					w.checkAssign()
				}
			},
		},
	}
}

// checkAssign syncs and compares the assignment with the model.
func (w *world) checkAssign() {
	w.e.Op()
	got := w.c.Sync("g")
	names := map[string]bool{}
	for _, t := range got {
		if names[t.Name] {
			w.e.Fail("topic %q is assigned twice: %v", t.Name, got)
		}
		names[t.Name] = true
	}
	if g, want := fmt.Sprint(sortedTops(got)), fmt.Sprint(w.md.assign()); g != want {
		w.e.Fail("assignment %s, want %s", g, want)
	}
}

// checkMeta compares a metadata response with the model.
func (w *world) checkMeta(null bool, names ...string) {
	w.e.Op()
	e := w.e
	m := w.c.Meta(null, names...)
	what := fmt.Sprintf("metadata null=%v %q", null, names)
	brokers := map[int32]metaBroker{}
	for _, b := range m.Brokers {
		if _, dup := brokers[b.Id]; dup {
			e.Fail("%s: broker %d listed twice", what, b.Id)
		}
		brokers[b.Id] = b
	}
	at := func(id int32, who string) {
		b, ok := brokers[id]
		if !ok {
			e.Fail("%s: %s %d is not in the broker list %v", what, who, id, m.Brokers)
		}
		if b.Port != int32(w.m.port) || !local(b.Host) {
			e.Fail("%s: %s %d is at %s:%d, the mock is at localhost:%d", what, who, id, b.Host, b.Port, w.m.port)
		}
	}
	if len(m.Brokers) == 0 {
		e.Fail("%s: empty broker list", what)
	}
	at(m.Controller, "controller")
	if null {
		seen := map[string]bool{}
		for _, t := range m.Tops {
			if seen[t.Name] {
				e.Fail("%s: topic %q listed twice", what, t.Name)
			}
			seen[t.Name] = true
			names = append(names, t.Name)
			if w.md[t.Name] == nil {
				e.Fail("%s: topic %q does not exist", what, t.Name)
			}
		}
		for _, t := range w.md.topics() {
			if !seen[t] {
				e.Fail("%s: topic %q is missing", what, t)
			}
		}
	}
	if len(m.Tops) != len(names) {
		e.Fail("%s: %d topics listed: %v", what, len(m.Tops), m.Tops)
	}
	for i, t := range m.Tops {
		if t.Name != names[i] {
			e.Fail("%s: entry %d is %q, want %q", what, i, t.Name, names[i])
		}
		if w.md[t.Name] == nil {
			if t.Err != 3 || len(t.Parts) != 0 {
				e.Fail("%s: unknown topic %q answered with error %d and %d partitions", what, t.Name, t.Err, len(t.Parts))
			}
			continue
		}
		if t.Err != 0 || t.Internal {
			e.Fail("%s: topic %q has error %d, internal %v", what, t.Name, t.Err, t.Internal)
		}
		got := map[int32]bool{}
		for _, mp := range t.Parts {
			if got[mp.P] {
				e.Fail("%s: partition %s/%d listed twice", what, t.Name, mp.P)
			}
			got[mp.P] = true
			if w.md.get(t.Name, mp.P) == nil || mp.Err != 0 {
				e.Fail("%s: partition %s/%d (error %d); existing: %v", what, t.Name, mp.P, mp.Err, w.md.parts(t.Name))
			}
			at(mp.Leader, "leader")
			for _, id := range mp.Replicas {
				at(id, "replica")
			}
			for _, id := range mp.Isr {
				at(id, "in-sync replica")
			}
		}
		for _, pn := range w.md.parts(t.Name) {
			if !got[pn] {
				e.Fail("%s: partition %s/%d is missing", what, t.Name, pn)
			}
		}
	}
}

func local(host string) bool { return host == "localhost" || host == "127.0.0.1" || host == "::1" }

func (w *world) checkCoord(group string) {
	w.e.Op()
	what := "find coordinator " + group
	r, bad := coordResp(w.c.Call(apiFindCoord, coordReq(group), what))
	w.c.must(bad, what)
	m := w.c.Meta(false)
	for _, b := range m.Brokers {
		if b.Id == r.Id && b.Host == r.Host && b.Port == r.Port && r.Err == 0 && r.Port == int32(w.m.port) && local(r.Host) {
			return
		}
	}
	w.e.Fail("%s answered %+v, brokers are %v, the mock's port is %d", what, r, m.Brokers, w.m.port)
}

func c12() []*Job {
	all := []tp{{"a", 0}, {"a", 1}, {"b", 0}, {"a", 7}, {"b", 3}, {"c-with-a-longer-name", 2}}
	lists := [][]string{{}, {"a"}, {"b"}, {"zz"}, {"a", "b"}, {"b", "a"}, {"zz", "a"}, {"a", "zz", "b"}, {"c-with-a-longer-name", "a"}, {""}, {"x", "y", "z"}}
	return []*Job{
		{
			Name: "every-set", Fix: true, Every: 29,
			Gen: func(p *P) func(e *E) {
				var set []tp
				for i := range all {
					if p.Pick(2) == 1 {
						set = append(set, all[i])
					}
				}
				how := p.Pick(2)
				return func(e *E) {
					w := newWorld(e)
					for _, x := range set {
						if how == 1 {
							w.post(x.t, x.p, nil, []byte("v"), 1)
						} else {
							w.create(x.p, x.t)
						}
					}
					w.checkMeta(true)
					for _, l := range lists {
						w.checkMeta(false, l...)
					}
					w.checkCoord("g")
				}
			},
		},
		{
			// every ordered list of distinct names
			Name: "every-list", Fix: true, Every: 31,
			Gen: func(p *P) func(e *E) {
				pool := []string{"a", "b", "zz", "c", "yy"}
				var l []string
				for n := p.Pick(len(pool) + 1); len(l) < n; {
					i := p.Pick(len(pool))
					l = append(l, pool[i])
					pool = append(append([]string(nil), pool[:i]...), pool[i+1:]...)
				}
				return func(e *E) {
					w := multiWorld(e)
					w.create(4, "c")
					w.checkMeta(false, l...)
				}
			},
		},
		{
			Name: "ports-and-groups", Fix: true, Every: 3,
			Gen: func(p *P) func(e *E) {
				port := pick(p, 1, 80, 1024, 9092, 21001, 32767, 32768, 40000, 49152, 65535)
				g := pick(p, "", "g", "another group")
				restart := p.Pick(2)
				return func(e *E) {
					w := &world{e: e, md: model{}}
					if plainMode {
						w.m = e.NewMock()
					} else {
						w.m = e.MockAt(port)
					}
					w.m.Start()
					w.c = w.m.Dial()
					w.create(0, "a")
					if restart == 1 {
						w.c.Close()
						w.m.Restart()
						w.c = w.m.Dial()
					}
					w.checkCoord(g)
					w.checkMeta(true)
				}
			},
		},
		{
			Name: "histories", Fix: true, Every: 151,
			Gen: func(p *P) func(e *E) {
				var ops []int
				for i := 0; i < q(3, 5); i++ {
					ops = append(ops, p.Pick(8))
				}
				return func(e *E) {
					w := newWorld(e)
					for i, o := range ops {
						switch o {
						case 0:
							w.create(0, "a", "b")
						case 1:
							w.create(int32(i+1), "a")
						case 2:
							w.simple("c", 5, nil, []byte("x"))
						case 3:
							w.c.Commit1("g", "nope", 0, 4)
						case 4:
							w.checkMeta(false, "x1", "a")
						case 5:
							w.c.Fetch1("x3", 1, 0, 100, 0)
						case 6:
							w.checkCoord(fmt.Sprint("g", i))
						case 7:
							w.c.Close()
							w.m.Restart()
							w.c = w.m.Dial()
						}
						w.checkMeta(true)
						w.checkMeta(false, "a", "nope", "c")
					}
				}
			},
		},
		{
			Name: "during-creation", Dev: q(2, 3), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				null := p.Pick(2) == 1
				rev := p.Pick(2)
				return func(e *E) {
					if rev == 1 {
						e.RevMaps()
					}
					w := newWorld(e)
					w.create(0, "a")
					var m metaRsp
					e.Begin()
					e.Go("asker", func() { m = w.c.Meta(null, pick2(null, nil, []string{"b", "a"})...) })
					e.Go("creator", func() {
						w.m.km.CreatePartitionTopics([]string{"a", "b"}, 1)
					})
					e.Join()
					e.End()
					e.Note("%v", m.Tops)
					seen := map[string]bool{}
					for _, t := range m.Tops {
						if seen[t.Name] || t.Name != "a" && t.Name != "b" {
							e.Fail("metadata lists %v", m.Tops)
						}
						seen[t.Name] = true
						ps := map[int32]bool{}
						for _, mp := range t.Parts {
							if ps[mp.P] || mp.P != 1 && (mp.P != 0 || t.Name != "a") {
								e.Fail("metadata lists %v", m.Tops)
							}
							ps[mp.P] = true
						}
						if t.Name == "a" && (!ps[0] || t.Err != 0) {
							e.Fail("partition a/0 is missing: %v", m.Tops)
						}
					}
					if !seen["a"] || !null && !seen["b"] {
						e.Fail("metadata lists %v", m.Tops)
					}
					w.md.create("a", 1)
					w.md.create("b", 1)
					w.checkMeta(true)
				}
			},
		},
	}
}

// int16s are 2^k, its neighbours and their negatives, for every k.
func int16s() (s []int16) {
	for _, n := range pows() {
		if int64(int16(n)) == n {
			s = append(s, int16(n))
		}
	}
	return
}

// bodies are request bodies of any version that might be understood for a key.
func bodies(key int16) [][]byte {
	var b [][]byte
	switch key {
	case apiFetch:
		b = append(b, fetchReq(0, fetchTop{"a", []fetchPart{{0, 0, 1 << 20}}}), fetchReq(0))
		// v3: max bytes, v4: isolation level
		w := (&W{}).i32(-1).i32(0).i32(1).i32(1 << 20).i32(0)
		b = append(b, w.b)
		w = (&W{}).i32(-1).i32(0).i32(1).i32(1 << 20).i8(0).i32(0)
		b = append(b, w.b)
	case apiListOffsets:
		b = append(b, listReq(loTop{"a", []loPart{{0, -1}}}), listReq())
		b = append(b, (&W{}).i32(-1).i8(0).i32(0).b)
	case apiMetadata:
		b = append(b, metaReq(false, "a"), metaReq(true), append(metaReq(false, "a"), 1))
	case apiCommit:
		b = append(b, commitReq("g"), (&W{}).str("g").i32(0).b, (&W{}).str("g").i32(0).str("m").i32(0).b)
	case apiOffFetch:
		b = append(b, offFetchReq("g", ofTop{"a", []int32{0}}))
	case apiFindCoord:
		b = append(b, coordReq("g"), append(coordReq("g"), 0))
	case apiJoin:
		b = append(b, joinReq("g", "", "range"), (&W{}).str("g").i32(30000).str("").str("consumer").i32(0).b)
	case apiSync:
		b = append(b, syncReq("g", "m", 0))
	case apiHeartbeat:
		b = append(b, heartbeatReq("g", "m", 0))
	case apiLeave:
		b = append(b, leaveReq("g", "m"))
	}
	return append(b, nil)
}

// answered reports whether a mock answers a request of this key and version.
func answered(w *world, key, ver int16, body []byte) bool {
	e := w.e
	c := w.c
	b := frame(key, ver, 77, &c.name, body)
	if _, err := c.c.Write(b); err != nil {
		return false
	}
	corr, rb, err := c.TryRecv(5 * time.Second)
	if err != nil || e.x.Crashes() > 0 {
		return false
	}
	if corr != 77 {
		e.Fail("request %d v%d answered with correlation id %d", key, ver, corr)
	}
	return len(rb) < 2 || int16(rb[0])<<8|int16(rb[1]) != 35 // UNSUPPORTED_VERSION
}

func advertised(w *world) (m map[int16]apiRange) {
	e := w.e
	code, rs, bad := versionsResp(w.c.Call(apiVersions, nil, "api versions"))
	w.c.must(bad, "api versions")
	if code != 0 {
		e.Fail("api versions: error %d", code)
	}
	m = map[int16]apiRange{}
	last := int16(-1 << 15)
	for _, r := range rs {
		if r.Key <= last {
			e.Fail("api versions are not in ascending order, once each: %v", rs)
		}
		last = r.Key
		if r.Min > r.Max || r.Min < 0 {
			e.Fail("api versions: key %d has the range %d..%d", r.Key, r.Min, r.Max)
		}
		m[r.Key] = r
	}
	return
}

func c13() []*Job {
	return []*Job{
		{
			// every key and version: advertised exactly when answered
			Name: "every-key-and-version", Cfg: vs.Config{CrashOK: true},
			Gen: func(p *P) func(e *E) {
				key := int16(p.Pick(q(75, 130)) - 1)
				ver := int16(p.Pick(q(13, 20)) - 1)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					ad := advertised(w)
					r, is := ad[key]
					is = is && ver >= r.Min && ver <= r.Max
					bs := bodies(key)
					if served[key] == ver && key > 0 && bodies(key)[0] != nil {
						bs = bs[:1]
					}
					any := false
					for i, b := range bs {
						if i > 0 {
							w = newWorld(e)
							w.create(0, "a")
						}
						n := e.x.Crashes()
						if ok := answered(w, key, ver, b) && e.x.Crashes() == n; ok {
							any = true
							break
						}
						if e.x.Crashes() > n {
							// the mock is gone; look at the next body in a fresh execution state
							continue
						}
					}
					if any != is {
						e.Fail("request type %d version %d: advertised %v, answered %v", key, ver, is, any)
					}
				}
			},
		},
		{
			// versions and keys that are served ones in part
			Name: "far-keys-and-versions", Cfg: vs.Config{CrashOK: true}, ByCase: true,
			Gen: func(p *P) func(e *E) {
				apis := []int16{apiFetch, apiListOffsets, apiMetadata, apiCommit, apiOffFetch, apiFindCoord, apiJoin, apiHeartbeat, apiLeave, apiSync, apiVersions}
				key := apis[p.Pick(len(apis))]
				ver := served[key]
				x := int16s()[p.Pick(len(int16s()))]
				how := p.Pick(5)
				return func(e *E) {
					body := bodies(key)[0]
					switch how {
					case 0:
						ver = x
					case 1:
						ver += x
					case 2:
						ver ^= x
					case 3:
						key += x
					case 4:
						key ^= x
					}
					w := newWorld(e)
					w.create(0, "a")
					r, is := advertised(w)[key]
					if is && ver >= r.Min && ver <= r.Max {
						return // the body may not be one of this request
					}
					n := e.x.Crashes()
					if answered(w, key, ver, body) && e.x.Crashes() == n {
						e.Fail("request type %d version %d is answered but not advertised", key, ver)
					}
				}
			},
		},
		{
			// the served set, in mocks that start late, restart, or come second
			Name: "served-set", Fix: true,
			Gen: func(p *P) func(e *E) {
				how := p.Pick(4)
				api := []int16{apiFetch, apiListOffsets, apiMetadata, apiCommit, apiOffFetch, apiFindCoord, apiJoin, apiHeartbeat, apiLeave, apiSync, apiVersions}[p.Pick(11)]
				return func(e *E) {
					w := newWorld(e)
					switch how {
					case 1:
						w.c.Close()
						w.m.Restart()
						w.c = w.m.Dial()
					case 2:
						w.m = e.StartMock()
						w.c = w.m.Dial()
					case 3:
						w.c.Close()
						w.m.Stop()
						w.m.Start()
						w.c = w.m.Dial()
					}
					w.create(0, "a")
					ad := advertised(w)
					if r, ok := ad[api]; !ok || served[api] < r.Min || served[api] > r.Max {
						e.Fail("request type %d version %d is served but not advertised: %v", api, served[api], ad)
					}
					body := bodies(api)[0]
					what := fmt.Sprintf("request type %d", api)
					if bad := decodeAny(api, w.c.Call(api, body, what)); bad != "" {
						e.Fail("%s: malformed response: %s", what, bad)
					}
				}
			},
		},
		{
			// concurrent first use of the API table
			Name: "two-mocks-at-once", Dev: q(2, 3), Cfg: cfgStmt(),
			Gen: func(p *P) func(e *E) {
				return func(e *E) {
					var ad [2]map[int16]apiRange
					e.Begin()
					for i := 0; i < 2; i++ {
						i := i
						e.Go(fmt.Sprint("t", i), func() {
							m := e.MockAt(22000 + i)
							m.km.Start()
							m.WaitUp()
							w := &world{e: e, m: m, md: model{}, c: m.Dial()}
							ad[i] = advertised(w)
						})
					}
					e.Join()
					e.End()
					for i := range ad {
						for api, v := range served {
							if r, ok := ad[i][api]; !ok || r.Min > v || r.Max < v {
								e.Fail("mock %d does not advertise request type %d version %d: %v", i, api, v, ad[i])
							}
						}
					}
				}
			},
		},
	}
}

func c30() []*Job {
	type act struct {
		kind     int // join, sync, heartbeat, leave
		g, m     string
		gen      int32
		protocol int
	}
	do := func(w *world, a act) {
		w.e.Op()
		c := w.c
		switch a.kind {
		case 0:
			protos := [][]string{{"roundrobin"}, {"range", "roundrobin"}, {"range"}, {}, {"cooperative-sticky", "range"}}[a.protocol]
			what := fmt.Sprintf("join of group %q as %q with %v", a.g, a.m, protos)
			j, bad := joinResp(c.Call(apiJoin, joinReq(a.g, a.m, protos...), what))
			c.must(bad, what)
			if j.Err != 0 || j.Member == "" || j.Proto == "" {
				w.e.Fail("%s answered %+v", what, j)
			}
		case 1:
			what := fmt.Sprintf("sync of group %q as %q", a.g, a.m)
			code, _, bad := syncResp(c.Call(apiSync, syncReq(a.g, a.m, a.gen), what))
			c.must(bad, what)
			if code != 0 {
				w.e.Fail("%s: error %d", what, code)
			}
		case 2, 3:
			what := fmt.Sprintf("%s of group %q as %q", []string{"heartbeat", "leave"}[a.kind-2], a.g, a.m)
			var b []byte
			if a.kind == 2 {
				b = c.Call(apiHeartbeat, heartbeatReq(a.g, a.m, a.gen), what)
			} else {
				b = c.Call(apiLeave, leaveReq(a.g, a.m), what)
			}
			code, bad := errResp(b)
			c.must(bad, what)
			if code != 0 {
				w.e.Fail("%s: error %d", what, code)
			}
		}
	}
	setup := func(e *E) *world {
		w := multiWorld(e)
		w.groups = []string{"", "g", "h"}
		w.commit("g", "a", 0, 2)
		w.set("b", 7, "h", 1)
		return w
	}
	return []*Job{
		{
			// single requests over all groups, members, generations and protocols
			Name: "single", Fix: true, Every: 17,
			Gen: func(p *P) func(e *E) {
				a := act{kind: p.Pick(4), g: pick(p, "", "g", "h", "group-with-a-long-name"), m: pick(p, "", "1", "me", "someone-else")}
				if a.kind == 1 || a.kind == 2 {
					a.gen = pick(p, int32(-1), 0, 1, 1<<31-1, -1<<31)
				}
				if a.kind == 0 {
					a.protocol = p.Pick(5)
				}
				return func(e *E) {
					w := setup(e)
					do(w, a)
					w.checkAll()
				}
			},
		},
		{
			// what a joining member says about itself and its protocols, alone and after
			// a member that says something else
			Name: "protocols", Fix: true, Every: 97,
			Gen: func(p *P) func(e *E) {
				types := []string{"consumer", "", "connect", "Consumer", "sr", "x"}
				names := [][]string{{"range"}, {"roundrobin"}, {"sticky"}, {"cooperative-sticky"}, {""}, {"x"}, {"range", "range"}, {"x", "y", "roundrobin"}, {}}
				metas := [][]byte{{}, {0}, {0, 1, 0, 0, 0, 1, 0, 1, 'a', 0, 0, 0, 0}, {0xff, 0xff, 0xff}, pat(70, 1)}
				type say struct{ t, n, m, id int }
				ss := []say{{p.Pick(len(types)), p.Pick(len(names)), p.Pick(len(metas)), p.Pick(2)}}
				if p.Pick(2) == 1 {
					ss = append(ss, say{p.Pick(deep(3, 6)), p.Pick(deep(4, 9)), 0, 0})
				}
				return func(e *E) {
					w := setup(e)
					for i := 0; i <= len(ss); i++ {
						x := ss[i%len(ss)]
						w.c = w.m.Dial()
						b := (&W{}).str("g").i32(30000).i32(60000).str([]string{"", "1"}[x.id]).str(types[x.t]).i32(int32(len(names[x.n])))
						for _, n := range names[x.n] {
							b.str(n).bytes(metas[x.m])
						}
						what := fmt.Sprintf("join %d of %+v (type %q, protocols %q, metadata %x)", i, ss, types[x.t], names[x.n], metas[x.m])
						j, bad := joinResp(w.c.Call(apiJoin, b.b, what))
						w.c.must(bad, what)
						if j.Err != 0 || j.Member == "" || j.Proto == "" {
							e.Fail("%s answered %+v", what, j)
						}
						do(w, act{kind: 1, g: "g", m: j.Member, gen: j.Gen})
						do(w, act{kind: 2, g: "g", m: j.Member, gen: j.Gen})
						if i%2 == 1 {
							do(w, act{kind: 3, g: "g", m: j.Member})
						}
					}
				}
			},
		},
		{
			// every order of requests of two groups and two clients
			Name: "sequences", Fix: true, Every: 499,
			Gen: func(p *P) func(e *E) {
				var acts []act
				var on []int
				for i := 0; i < q(4, 5); i++ {
					k := p.Pick(4)
					who := p.Pick(2)
					acts = append(acts, act{kind: k, g: []string{"g", "h"}[who], m: "1", gen: int32(i - 1)})
					on = append(on, p.Pick(q(1, 2)))
				}
				return func(e *E) {
					w := setup(e)
					cs := []*Cli{w.c, w.m.Dial()}
					for i, a := range acts {
						w.c = cs[on[i]]
						do(w, a)
					}
					w.checkAll()
				}
			},
		},
		{
			// members of one group that come and go in any order, and commit: group
			// requests neither make commits ineffective nor change what is committed
			Name: "members-commit", Fix: true, Every: 199,
			Gen: func(p *P) func(e *E) {
				n := q(3, 4)
				var kinds, on []int
				for i := 0; i < n; i++ {
					kinds = append(kinds, p.Pick(4))
					on = append(on, p.Pick(2))
				}
				member := p.Pick(4)
				return func(e *E) {
					w := setup(e)
					cs := []*Cli{w.c, w.m.Dial()}
					ids := []string{"", ""}
					gens := []int32{-1, -1}
					off := int64(10)
					commit := func(i int) {
						off++
						m, gen := []string{ids[i], "", "someone", ids[1-i]}[member], gens[i]
						if member == 2 {
							gen += 7
						}
						what := fmt.Sprintf("commit as member %q of generation %d", m, gen)
						r, bad := commitResp(cs[i].Call(apiCommit, commitReq2("g", gen, m, -1, nil, "a", 0, off), what))
						cs[i].must(bad, what)
						if len(r) != 1 || len(r[0].Parts) != 1 || r[0].Parts[0].Err != 0 {
							e.Fail("%s: %+v", what, r)
						}
						w.mcommit("g", "a", 0, off)
						if got := cs[1-i].Committed("g", "a", 0); got != off {
							e.Fail("%s: then the committed offset is %d, want %d", what, got, off)
						}
					}
					for i, k := range kinds {
						c := cs[on[i]]
						if k == 0 {
							j, bad := joinResp(c.Call(apiJoin, joinReq("g", ids[on[i]], "range"), "join"))
							c.must(bad, "join")
							if j.Err != 0 {
								e.Fail("join answered %+v", j)
							}
							ids[on[i]], gens[on[i]] = j.Member, j.Gen
							continue
						}
						w.c = c
						do(w, act{kind: k, g: "g", m: ids[on[i]], gen: gens[on[i]]})
						w.c = cs[0]
					}
					commit(0)
					commit(1)
					commit(0)
					w.checkAll()
				}
			},
		},
		{
			// while another client waits in a fetch or consumes
			Name: "beside-others", Dev: q(1, 2), Race: true,
			Gen: func(p *P) func(e *E) {
				k1, k2 := p.Pick(4), p.Pick(4)
				return func(e *E) {
					w := setup(e)
					o := w.m.Dial()
					n := w.m.Dial()
					var got, waited fetchRespPart
					e.Begin()
					e.Go("reader", func() { got = o.Fetch1("a", 0, 0, 1<<20, 0) })
					e.Go("waiter", func() { waited = n.Fetch1("a", 2, 0, 1<<20, 60) })
					e.Go("member", func() {
						do(w, act{kind: k1, g: "g", m: "1"})
						do(w, act{kind: k2, g: "g", m: "1"})
					})
					e.Join()
					e.End()
					if d := diffSet(got.Set, w.md.get("a", 0).recs, 0); d != "" || len(got.Set) != 3 {
						e.Fail("a reader got %d messages, want 3: %s", len(got.Set), d)
					}
					if len(waited.Set) != 0 || waited.Err != 0 {
						e.Fail("a fetch at the end answered %+v", waited)
					}
					w.checkAll()
				}
			},
		},
	}
}
