package harness

import (
	"fmt"

	"sort"
	"time"
)

// Magnitudes: the same guarantees where a quantity (a size, a count, a number, a
// time, a name) crosses every power of two up to a bound, or where names are
// easily confused with each other.

func init() {
	add := func(id string, jobs func() []*Job) {
		more[id] = append(more[id], jobs)
	}
	add("C01", magLog)
	add("C02", magFetch)
	add("C03", magLimits)
	add("C04", magWaits)
	add("C06", func() []*Job { return append(magWire(), manyHeaders()) })
	add("C01", func() []*Job { return []*Job{manyHeaders()} })
	add("C03", func() []*Job { return []*Job{manyHeaders()} })
	add("C07", magCommits)
	add("C09", magListing)
	add("C10", magUnknown)
	add("C11", magAssign)
	add("C12", magMeta)
	add("C14", magPipeline)
	add("C20", magCycles)
	add("C21", magRestarts)
	add("C22", magWaiters)
	add("C24", magBuffers)
	add("C25", magMocks)
	add("C26", magConsume)
	add("C27", magClients)
	add("C28", magAnswers)
	add("C29", magHigh)
	add("C30", magGroups)
}

// more are further jobs of a property.
var more = map[string][]func() []*Job{}

func jobsOf(prop string) (jobs []*Job) {
	jobs = props[prop]()
	base := len(jobs)
	for _, f := range more[prop] {
		for _, j := range f() {
			j.Cfg.MaxSteps = 2_000_000
			j.Cfg.MaxVirtual = max(j.Cfg.MaxVirtual, years)
			jobs = append(jobs, j)
		}
	}
	for _, j := range append([]*Job(nil), jobs...) {
		if s := stalled(prop, j); s != nil {
			jobs = append(jobs, s)
		}
		if s := turned(prop, j); s != nil {
			jobs = append(jobs, s)
		}
	}
	for i, j := range append([]*Job(nil), jobs...) {
		if j.Fix && !j.RaceOnly && !j.Cfg.Free {
			n := q(12, 200)
			if i >= base { // those with large inputs
				n = q(5, 60)
			}
			if i < base {
				if b := besides(prop, j, q(2, 12)); b != nil {
					b.Cfg.MaxSteps = 2_000_000
					b.Cfg.MaxVirtual = max(b.Cfg.MaxVirtual, years)
					jobs = append(jobs, b)
				}
			}
			if v := varied(prop, j, n, i >= base); v != nil {
				v.Cfg.MaxSteps = 2_000_000
				v.Cfg.MaxVirtual = max(v.Cfg.MaxVirtual, 30*years)
				jobs = append(jobs, v)
			}
		}
	}
	return
}

// stalled is j with one thread at a time held up at every point until nothing
// else can go on (rather than until what preempted it blocks).
func stalled(prop string, j *Job) *Job {
	if j.Dev == 0 || j.RaceOnly || j.Cfg.Free {
		return nil
	}
	switch prop + " " + j.Name {
	case "C28 pipelines", "C23 pairs-deeper", "C23 orders", "C28 pairs-deeper": // too long, or like "pairs"
		return nil
	}
	s := *j
	s.Name = "stall:" + j.Name
	s.Cfg.Stmt, s.Cfg.Demote = true, true
	s.Dev = q(1, 2)
	switch prop + " " + j.Name { // the short ones
	case "C08 two-committers",
		"C08 commit-and-set",
		"C08 sets-commits-queries",
		"C08 first-commit-vs-query",
		"C08 multi-partition-commits",
		"C24 concurrent",
		"C09 during-posts",
		"C11 during-creation",
		"C19 busy",
		"C19 start-then-stop",
		"C27 schedules",
		"C04 wait-vs-post",
		"C12 during-creation",
		"C20 double-start",
		"C05 two-producers",
		"C05 two-producers-two-partitions",
		"C05 three-producers",
		"C13 two-mocks-at-once",
		"C22 schedules",
		"C22 request-schedules",
		"C15 response-schedules":
		s.Dev = q(2, 3)
	}
	s.Fix, s.Race, s.NoReduce = false, false, true
	return &s
}

// turned is j with another default schedule: what the code under test has to do
// comes first, and the driver's threads go from the last to the first.
func turned(prop string, j *Job) *Job {
	if j.Dev == 0 || j.RaceOnly || j.Cfg.Free {
		return nil
	}
	switch prop + " " + j.Name {
	case "C28 pipelines", "C23 pairs-deeper", "C23 orders", "C28 pairs-deeper": // see stalled
		return nil
	}
	s := *j
	s.Name = "turned:" + j.Name
	s.Cfg.Stmt, s.Cfg.Turned = true, true
	s.Dev = q(1, j.Dev)
	s.Fix, s.Race = false, false
	return &s
}

// edges are 0 to 3 and, up to max, every power of two, its neighbours and the powers of ten.
func edges(max int) (s []int) {
	seen := map[int]bool{}
	put := func(n int) {
		if n >= 0 && n <= max && !seen[n] {
			seen[n] = true
			s = append(s, n)
		}
	}
	for i := 0; i <= 3; i++ {
		put(i)
	}
	for c := 4; c > 0 && c-1 <= max; c <<= 1 {
		put(c - 1)
		put(c)
		put(c + 1)
	}
	for c := 10; c > 0 && c <= max; c *= 10 {
		put(c)
		put(c / 2)
		put(c + 1)
	}
	sort.Ints(s)
	return
}

// pows are 2^k-1, 2^k and 2^k+1 and their negatives, for every k below 63, and the extremes.
func pows() (s []int64) {
	seen := map[int64]bool{}
	put := func(n int64) {
		if !seen[n] {
			seen[n] = true
			s = append(s, n)
		}
	}
	for k := 0; k < 63; k++ {
		for d := int64(-1); d <= 1; d++ {
			put(1<<k + d)
			put(-(1 << k) - d)
		}
	}
	put(1<<63 - 1)
	put(-1 << 63)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return
}

func nonneg(s []int64) (o []int64) {
	for _, n := range s {
		if n >= 0 {
			o = append(o, n)
		}
	}
	return
}

// at are offsets of interest in 0..n.
func at(n int) (s []int) {
	seen := map[int]bool{}
	for _, x := range edges(n) {
		for _, v := range []int{x, n - x} {
			if !seen[v] {
				seen[v] = true
				s = append(s, v)
			}
		}
	}
	sort.Ints(s)
	return
}

// names that a careless comparison, key or encoding would confuse.
var confusable = []string{"a", "A", "a ", " a", "a1", "a11", "a-1", "a/1", "a.1", "a:1", "a_1", "aa", "", "á", "a\x00", "a\x001", "日本", "1", "11", "%s", "a,b", "-1",
	"a\n", "a\t", "\xff", "\xfe", "a\u0301", "ﬁ", "fi", "K", "\u212a", // bytes that are not text, other forms of the same text
	"_", "_a", "__a", "__consumer_offsets", "..", "*", "null", "/", // reserved or special elsewhere
	"plumless", "buckeroo", "costarring", "liquid", "creamwove", "quists", "Aa", "BB", // the same CRC-32, FNV-1a, FNV-1 and 31-hash
}

func longName(n, seed int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i*3+i>>8+seed)%26)
	}
	if n > 0 {
		b[n-1] = byte('a' + seed%26)
	}
	return string(b)
}

func (w *world) postAt(t string, p int32, key, val []byte, hdr map[string][]byte, tm time.Time) {
	w.e.Op()
	w.m.km.ExtendedPost(t, int(p), key, val, hdr, tm)
	mp := w.md.create(t, p)
	mp.recs = append(mp.recs, mrec{key, val, tm.UnixMilli(), tm.UnixMilli()})
}

// confusedWorld has one differing record in every topic of names and partition of parts.
func confusedWorld(e *E, names []string, parts []int32) *world {
	w := newWorld(e)
	for i, t := range names {
		for j, p := range parts {
			w.post(t, p, []byte(fmt.Sprintf("%d.%d", i, j)), nil, int64(100*i+j))
		}
	}
	return w
}

func magLog() []*Job {
	return []*Job{
		{
			// every power of two of milliseconds before and after 1970, below the millisecond, zones
			Name: "timestamps", Fix: true, Every: 19,
			Gen: func(p *P) func(e *E) {
				all := pows()
				const per = 10
				c := p.Pick((len(all) + per - 1) / per)
				sub := pick(p, 0, 1, 500_000, 999_999)
				zone := pick(p, time.UTC, time.FixedZone("x", 5*3600+1800), time.FixedZone("y", -11*3600))
				return func(e *E) {
					w := newWorld(e)
					for i := c * per; i < (c+1)*per && i < len(all); i++ {
						if all[i] > 1<<63-1_000_000 { // the sum must not overflow
							sub = 0
						}
						tm := time.UnixMilli(all[i]).Add(time.Duration(sub)).In(zone)
						w.postAt("a", 0, nil, []byte("v"), nil, tm)
					}
					w.postAt("a", 0, nil, nil, nil, time.Time{})
					w.postAt("a", 0, nil, nil, map[string][]byte{"h": []byte("x"), "": nil}, time.UnixMilli(1_700_000_000_123))
					w.checkLog("a", 0, 0)
				}
			},
		},
		{
			// logs of every boundary length, from offsets around every boundary
			Name: "long-logs", Fix: true, Every: 5,
			Gen: func(p *P) func(e *E) {
				n := pick(p, edges(deep(4200, 66000))...)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					for i := 0; i < n; i++ {
						w.post("a", 0, nil, []byte(fmt.Sprint(i)), int64(i))
					}
					w.checkLog("a", 0, 0)
					for _, o := range at(n) {
						w.wantFetch(0, fetchTop{"a", []fetchPart{{0, int64(o), 150}}})
					}
				}
			},
		},
		{
			// logs of records that have much in common: nothing replaces or joins them
			Name: "repeated", Fix: true, Every: 67,
			Gen: func(p *P) func(e *E) {
				n := pick(p, edges(deep(300, 1100))...)
				key, val, ts := p.Pick(4), p.Pick(4), p.Pick(3)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					for i := 0; i < n; i++ {
						k := [][]byte{[]byte("key"), {byte('a' + i%3)}, {}, nil}[key]
						v := [][]byte{[]byte(fmt.Sprint(i)), []byte("value"), nil, {byte(i % 2)}}[val]
						if val == 2 && i%2 == 0 {
							v = []byte(fmt.Sprint(i))
						}
						w.post("a", 0, k, v, []int64{7, int64(i), int64(n - i)}[ts])
						if i == n/2 {
							w.checkLog("a", 0, 0)
						}
					}
					w.checkLog("a", 0, 0)
				}
			},
		},
		{
			// many records of many sizes read in one go and in chained pieces
			Name: "big-sets", Fix: true, Every: 5,
			Gen: func(p *P) func(e *E) {
				n := pick(p, 2, 5, 17)
				total := pick(p, edges(deep(1<<21, 1<<24))[20:]...)
				return func(e *E) {
					w := newWorld(e)
					for i := 0; i < n; i++ {
						w.post("a", 0, []byte(fmt.Sprint(i)), pat(total/n, i), int64(i))
					}
					w.checkLog("a", 0, 0)
					for o := 0; o < n; {
						e.Op()
						fp := w.c.Fetch1("a", 0, int64(o), int32(total/2+total/n+100), 0)
						if d := diffSet(fp.Set, w.md.get("a", 0).recs, int64(o)); d != "" {
							e.Fail("reading on at %d: %s", o, d)
						}
						if len(fp.Set) == 0 {
							e.Fail("reading on at %d: nothing", o)
						}
						o += len(fp.Set)
					}
				}
			},
		},
		{
			// keys and values that a careless comparison or hash would take for each other
			Name: "confusable-records", Every: 171,
			Gen: func(p *P) func(e *E) {
				a, b := pick(p, confusable...), pick(p, confusable...)
				return func(e *E) {
					w := newWorld(e)
					for i, r := range [][2]string{{a, a}, {a, b}, {b, a}, {b, b}, {a + b, ""}, {"", a + b}} {
						w.post("a", 0, []byte(r[0]), []byte(r[1]), 7)
						if i%2 == 1 {
							w.post("b", 0, []byte(r[1]), []byte(r[0]), 7)
							w.post("a", 1, []byte(r[0]), nil, 7)
						}
					}
					for _, t := range []string{"a", "b"} {
						w.checkLog(t, 0, 0)
					}
					w.checkLog("a", 1, 0)
				}
			},
		},
		{
			// topics whose names are easily confused, partitions too
			Name: "confusable-names", Fix: true, Every: 3,
			Gen: func(p *P) func(e *E) {
				parts := pick(p, []int32{0}, []int32{1, 11, 0}, []int32{0, 256, 65536, 1<<31 - 1})
				lens := p.Pick(2)
				return func(e *E) {
					names := confusable
					if lens == 1 {
						names = nil
						for _, n := range edges(32767)[4:] {
							names = append(names, longName(n, 1), longName(n, 2))
						}
					}
					w := confusedWorld(e, names, parts)
					w.checkAll()
				}
			},
		},
		{
			// many topics and partitions, written in turn
			Name: "many-partitions", Fix: true, Every: 3,
			Gen: func(p *P) func(e *E) {
				nt, np := pick(p, 1, 3, 65, deep(129, 257)), pick(p, 1, 3, deep(65, 257))
				return func(e *E) {
					w := newWorld(e)
					for r := 0; r < 3; r++ {
						for i := 0; i < nt; i++ {
							for j := 0; j < np; j++ {
								if (i+j+r)%3 > 0 {
									w.post(fmt.Sprint("t", i), int32(j*j), nil, []byte(fmt.Sprint(i, " ", j, " ", r)), int64(r))
								}
							}
						}
					}
					for _, t := range w.md.topics() {
						for _, pn := range w.md.parts(t) {
							w.checkLog(t, pn, 0)
						}
					}
				}
			},
		},
	}
}

func magFetch() []*Job {
	return []*Job{
		{
			// one request for many partitions of many topics
			Name: "many", Fix: true, Every: 5,
			Gen: func(p *P) func(e *E) {
				nt := pick(p, 1, 2, 17, deep(129, 1025))
				np := pick(p, 0, 1, 2, 9, deep(130, 1030))
				if nt > 20 && np > 20 {
					np = 20
				}
				rev := p.Pick(2)
				unk := p.Pick(2)
				return func(e *E) {
					w := newWorld(e)
					var tops []fetchTop
					for i := 0; i < nt; i++ {
						t := fetchTop{Name: fmt.Sprint("t", i%(nt/2+1))}
						for j := 0; j < np; j++ {
							if (i+j)%3 > 0 {
								w.post(t.Name, int32(j), nil, []byte(fmt.Sprint(i, " ", j)), int64(i))
							}
							t.Parts = append(t.Parts, fetchPart{int32(j), int64(j % 2), 60 + int32(j%3)*40})
							if unk == 1 {
								t.Parts = append(t.Parts, fetchPart{int32(j + 100000), 0, 1000})
							}
						}
						tops = append(tops, t)
					}
					if rev == 1 {
						for a, b := 0, len(tops)-1; a < b; a, b = a+1, b-1 {
							tops[a], tops[b] = tops[b], tops[a]
						}
						for _, t := range tops {
							for a, b := 0, len(t.Parts)-1; a < b; a, b = a+1, b-1 {
								t.Parts[a], t.Parts[b] = t.Parts[b], t.Parts[a]
							}
						}
					}
					w.wantFetch(0, tops...)
				}
			},
		},
		{
			// every pair of easily confused topics in one request
			Name: "confusable-names", Fix: true, Every: 41,
			Gen: func(p *P) func(e *E) {
				a, b := pick(p, confusable...), pick(p, confusable...)
				create := p.Pick(4) // which of them exist
				return func(e *E) {
					w := newWorld(e)
					parts := []int32{0, 1, 11, 111}
					for i, t := range []string{a, b} {
						if create>>i&1 == 1 {
							for j, pn := range parts[:3] {
								w.post(t, pn, []byte(fmt.Sprint(i, j)), []byte(t), int64(j))
							}
						}
					}
					var tops []fetchTop
					for _, t := range []string{a, b, a} {
						ft := fetchTop{Name: t}
						for _, pn := range parts {
							ft.Parts = append(ft.Parts, fetchPart{pn, 0, 1 << 20})
						}
						tops = append(tops, ft)
					}
					w.wantFetch(0, tops...)
				}
			},
		},
		{
			// partition numbers around every power of two
			Name: "partition-numbers", Fix: true, Every: 2,
			Gen: func(p *P) func(e *E) {
				c := p.Pick(8)
				return func(e *E) {
					w := newWorld(e)
					t := fetchTop{Name: "a"}
					for i, n := range edges(1<<31 - 1) {
						if i%8 != c {
							w.post("a", int32(n), nil, []byte(fmt.Sprint(n)), int64(i))
						}
						t.Parts = append(t.Parts, fetchPart{int32(n), 0, 1000})
					}
					w.wantFetch(0, t)
				}
			},
		},
	}
}

func magLimits() []*Job {
	return []*Job{
		{
			// sums of record sizes around every power of two, limits at and around every sum
			Name: "big-limits", Fix: true, Every: 23,
			Gen: func(p *P) func(e *E) {
				total := pick(p, edges(deep(1<<18, 1<<22))[16:]...)
				n := 1 + p.Pick(3)
				return func(e *E) {
					w := newWorld(e)
					sum := 0
					var lim []int32
					for i := 0; i < n; i++ {
						want := total * (i + 1) / n
						l := max(want-sum-34, 0)
						w.post("a", 0, nil, pat(l, i), 1)
						sum += l + 34
						for d := int32(-1); d <= 1; d++ {
							lim = append(lim, int32(sum)+d)
						}
					}
					w.post("a", 0, nil, nil, 1)
					lim = append(lim, 1<<31-1, 1<<30, int32(sum)+33, int32(sum)+34)
					for _, m := range lim {
						w.wantFetch(0, fetchTop{"a", []fetchPart{{0, 0, m}}})
					}
				}
			},
		},
		{
			// many small records, limits around every boundary
			Name: "many-records", Fix: true, Every: 11,
			Gen: func(p *P) func(e *E) {
				n := pick(p, 65, 257, deep(1025, 5000))
				m := pick(p, edges(1<<31-1)...)
				return func(e *E) {
					w := newWorld(e)
					for i := 0; i < n; i++ {
						w.post("a", 0, nil, pat(i%3, i), 1)
					}
					for _, o := range []int{0, 1, n / 2, n - 1, n} {
						w.wantFetch(0, fetchTop{"a", []fetchPart{{0, int64(o), int32(m)}}})
					}
				}
			},
		},
		{
			// a record that does not fit, at every boundary size, with a long wait beside other partitions
			Name: "does-not-fit", Fix: true, Every: 11,
			Gen: func(p *P) func(e *E) {
				l := pick(p, edges(deep(1<<17, 1<<21))...)
				short := 1 + p.Pick(2)
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 0, nil, pat(l, 1), 1)
					w.post("a", 1, nil, []byte("x"), 1)
					w.create(2, "a")
					t0 := time.Now()
					w.wantFetch(5000, fetchTop{"a", []fetchPart{{0, 0, int32(34 + l - short)}, {1, 0, 35}, {2, 0, 100}}})
					w.wantFetch(5000, fetchTop{"a", []fetchPart{{2, 0, 100}, {0, 0, int32(34 + l - short)}}})
					if d := time.Since(t0); d > 2*slack && !plainMode {
						e.Fail("a record of %d bytes that does not fit held the answers up for %v", l+34, d)
					}
				}
			},
		},
	}
}

func magWaits() []*Job {
	return []*Job{
		{
			// waits around every power of two of milliseconds, never answered early or late
			Name: "long-waits",
			Gen: func(p *P) func(e *E) {
				wait := int32(pick(p, edges(deep(1<<17+1, 1<<20+1))...))
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					t0 := time.Now()
					maxw := time.Duration(wait) * time.Millisecond
					e.Op()
					corr := w.c.Send(apiFetch, fetchReq(wait, fetchTop{"a", []fetchPart{{0, 0, 1000}}}))
					_, body, err := w.c.TryRecv(maxw + time.Second)
					took := time.Since(t0)
					if err != nil {
						e.Fail("no answer %v after a fetch with a maximum wait of %v: %v", took, maxw, err)
					}
					if r, bad := fetchResp(body); bad != "" || len(r) != 1 || len(r[0].Parts) != 1 || len(r[0].Parts[0].Set) != 0 {
						e.Fail("fetch %d answered with %v %s", corr, r, bad)
					}
					if took < maxw || took > maxw+slack {
						e.Fail("answered after %v with a maximum wait of %v", took, maxw)
					}
				}
			},
		},
		{
			// waits up to the biggest there is, ended by a post
			Name: "endless-waits", Fix: true, Every: 5,
			Gen: func(p *P) func(e *E) {
				wait := int32(pick(p, edges(1<<31 - 1)[24:]...))
				after := time.Duration(pick(p, 30, 700, deep(5_000, 700_000))) * time.Millisecond
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					d := after
					if plainMode {
						d = 30 * time.Millisecond
					}
					if d >= time.Duration(wait)*time.Millisecond {
						return
					}
					t0 := time.Now()
					e.Go("producer", func() {
						e.Sleep(d)
						w.post("a", 0, nil, []byte("new"), 2)
					})
					corr := w.c.Send(apiFetch, fetchReq(wait, fetchTop{"a", []fetchPart{{0, 0, 1000}}}))
					_, body, err := w.c.TryRecv(d + 10*time.Second)
					took := time.Since(t0)
					r, bad := fetchResp(body)
					if err != nil || bad != "" || len(r) != 1 || len(r[0].Parts) != 1 || len(r[0].Parts[0].Set) != 1 {
						e.Fail("fetch %d with a maximum wait of %dms, a record posted after %v: answered after %v with %v %v %s", corr, wait, d, took, r, err, bad)
					}
					if took < d || took > d+slack && !plainMode {
						e.Fail("a record posted after %v was delivered after %v", d, took)
					}
					e.Join()
				}
			},
		},
		{
			// many fetches waiting at once on the same and on other partitions
			Name: "many-waiting", Fix: true, Every: 3,
			Gen: func(p *P) func(e *E) {
				n := pick(p, 2, 9, 33, deep(65, 129))
				same := p.Pick(2)
				return func(e *E) {
					w := newWorld(e)
					var cs []*Cli
					var ids []int32
					part := func(i int) int32 { return int32(i * (1 - same)) }
					for i := 0; i < n; i++ {
						c := w.m.Dial()
						w.create(part(i), "a")
						cs = append(cs, c)
						ids = append(ids, c.Send(apiFetch, fetchReq(20000, fetchTop{"a", []fetchPart{{part(i), 0, 1000}}})))
					}
					e.Sleep(50 * time.Millisecond)
					t0 := time.Now()
					for i := 0; i < n; i += 1 + same*n {
						w.post("a", part(i), nil, []byte(fmt.Sprint("v", i)), 1)
					}
					for i, c := range cs {
						r, bad := fetchResp(c.Recv(ids[i], "a waiting fetch"))
						c.must(bad, "a waiting fetch")
						fp := c.one(r, "a", part(i))
						if d := diffSet(fp.Set, w.md.get("a", part(i)).recs, 0); d != "" || len(fp.Set) != 1 {
							e.Fail("waiting fetch %d of %d: %d messages %s", i, n, len(fp.Set), d)
						}
					}
					if d := time.Since(t0); d > slack && !plainMode {
						e.Fail("%d waiting fetches were answered %v after the posts", n, d)
					}
				}
			},
		},
	}
}

// manyHeaders: records with any number of headers, of any size, read as they were posted.
func manyHeaders() *Job {
	return &Job{
		Name: "headers", Fix: true, Every: 17,
		Gen: func(p *P) func(e *E) {
			n := pick(p, edges(deep(300, 4200))...)
			size := pick(p, 0, 1, 40, deep(1000, 70000))
			return func(e *E) {
				if n*size > 1<<24 {
					return
				}
				w := newWorld(e)
				h := map[string][]byte{}
				for i := 0; i < n; i++ {
					h[fmt.Sprint("header-", i)] = pat(size, i)
				}
				for i := int64(0); i < 3; i++ {
					w.postAt("a", 0, []byte("k"), []byte{byte(i)}, h, time.UnixMilli(i))
					w.postAt("a", 0, nil, nil, nil, time.UnixMilli(i))
				}
				w.checkLog("a", 0, 0)
				for o := int64(0); o < 6; o++ {
					w.wantFetch(0, fetchTop{"a", []fetchPart{{0, o, 70}}})
				}
			}
		},
	}
}

func magWire() []*Job {
	return []*Job{
		{
			// key and value lengths around every power of two
			Name: "lengths", Fix: true, Every: 11,
			Gen: func(p *P) func(e *E) {
				l := pick(p, edges(deep(1<<20, 1<<23))...)
				which := p.Pick(3)
				return func(e *E) {
					w := newWorld(e)
					k, v := pat(l, 1), pat(3, 2)
					switch which {
					case 1:
						k, v = v, k
					case 2:
						k, v = pat(l, 1), pat(l, 2)
					}
					w.post("a", 0, k, v, 7)
					w.post("a", 0, v, nil, 8)
					w.checkLog("a", 0, 0)
					w.checkLog("a", 0, 1)
				}
			},
		},
		{
			// responses of every type whose size crosses every power of two
			Name: "response-sizes", Fix: true, Every: 23,
			Gen: func(p *P) func(e *E) {
				n := pick(p, edges(deep(2050, 20000))...)
				kind := p.Pick(6)
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 0, nil, []byte("v"), 1)
					var r request
					switch kind {
					case 0:
						var t fetchTop
						t.Name = "a"
						for i := 0; i < n; i++ {
							t.Parts = append(t.Parts, fetchPart{int32(i % 3), 0, 1000})
						}
						r = request{apiFetch, fetchReq(0, t), "fetch"}
					case 1:
						var t []loTop
						for i := 0; i < n; i++ {
							t = append(t, loTop{"a", []loPart{{int32(i % 3), -1}}})
						}
						r = request{apiListOffsets, listReq(t...), "list offsets"}
					case 2:
						var t []ocTop
						for i := 0; i < n; i++ {
							t = append(t, ocTop{"a", []ocPart{{int32(i % 3), int64(i)}}})
						}
						r = request{apiCommit, commitReq("g", t...), "commit"}
					case 3:
						t := ofTop{Name: "a"}
						for i := 0; i < n; i++ {
							t.Parts = append(t.Parts, 0)
						}
						r = request{apiOffFetch, offFetchReq("g", t), "offset fetch"}
					case 4:
						var t []string
						for i := 0; i < n; i++ {
							t = append(t, fmt.Sprint("t", i))
						}
						w.create(0, t...)
						r = request{apiMetadata, metaReq(false, t...), "metadata"}
					case 5:
						for i := 0; i < n; i++ {
							w.create(int32(i), "b")
						}
						r = request{apiSync, syncReq("g", "m", 1), "sync"}
					}
					b := w.c.Call(r.api, r.body, r.what)
					if bad := decodeAny(r.api, b); bad != "" {
						e.Fail("%s with %d entries: malformed response: %s", r.what, n, bad)
					}
					w.c.NoMore(r.what)
					w.c.Heartbeat()
				}
			},
		},
		{
			// strings in responses of every boundary length
			Name: "name-lengths", Fix: true, Every: 23,
			Gen: func(p *P) func(e *E) {
				n := pick(p, edges(32767)...)
				kind := p.Pick(7)
				return func(e *E) {
					w := newWorld(e)
					t := longName(n, 1)
					w.post(t, 0, nil, []byte("v"), 1)
					switch kind {
					case 0:
						w.wantFetch(0, fetchTop{t, []fetchPart{{0, 0, 1000}}}, fetchTop{t + "", nil})
					case 1:
						if lo := w.c.List1(t, 0, -1); lo.Off != 1 {
							e.Fail("list offsets of a topic with a name of %d bytes: %+v", n, lo)
						}
					case 2:
						w.commit("g", t, 0, 1)
						if got := w.c.Committed("g", t, 0); got != 1 {
							e.Fail("committed offset of a topic with a name of %d bytes: %d", n, got)
						}
					case 3:
						w.checkMeta(false, t, "zz")
					case 4:
						w.checkMeta(true)
					case 5:
						w.checkAssign()
					case 6:
						for _, r := range []request{
							{apiJoin, joinReq("g", t, t), "join"}, {apiSync, syncReq(t, t, 1), "sync"},
							{apiHeartbeat, heartbeatReq(t, t, 1), "heartbeat"}, {apiLeave, leaveReq(t, t), "leave"}, {apiFindCoord, coordReq(t), "coordinator"},
						} {
							if bad := decodeAny(r.api, w.c.Call(r.api, r.body, r.what)); bad != "" {
								e.Fail("%s with names of %d bytes: malformed response: %s", r.what, n, bad)
							}
						}
					}
				}
			},
		},
	}
}

func magCommits() []*Job {
	return []*Job{
		{
			// offsets around every power of two
			Name: "offset-numbers", Fix: true, Every: 5,
			Gen: func(p *P) func(e *E) {
				all := nonneg(pows())
				const per = 12
				c := p.Pick((len(all) + per - 1) / per)
				how := p.Pick(3) // rising commits, falling commits, sets and commits
				return func(e *E) {
					w := newWorld(e, "g", "other")
					w.create(0, "a")
					w.create(1, "a")
					vs := all[c*per : min((c+1)*per, len(all))]
					for i := range vs {
						v := vs[i]
						if how == 1 {
							v = vs[len(vs)-1-i]
						}
						if how == 2 && i%3 == 0 {
							w.set("a", 0, "g", v)
						}
						w.commit("g", "a", 0, v)
						if got, want := w.c.Committed("g", "a", 0), w.md.get("a", 0).com["g"]; got != want {
							e.Fail("committed offset %d, want %d", got, want)
						}
					}
					w.checkAll()
				}
			},
		},
		{
			// groups, topics and partitions that are easily confused: each pair in its own run
			Name: "confusable", Fix: true, Every: 41,
			Gen: func(p *P) func(e *E) {
				a, b := pick(p, confusable...), pick(p, confusable...)
				what := p.Pick(3)
				return func(e *E) {
					if a == b {
						return
					}
					groups := []string{"g", "ga"}
					tops := []string{"a", "b"}
					if what != 1 {
						groups = []string{a, b}
					}
					if what != 0 {
						tops = []string{a, b}
					}
					w := newWorld(e, groups...)
					for _, t := range tops {
						for _, pn := range []int32{0, 1, 11} {
							w.create(pn, t)
						}
					}
					n := int64(1)
					for _, g := range groups {
						for _, t := range tops {
							for _, pn := range []int32{0, 1, 11} {
								if n%5 == 0 {
									w.set(t, pn, g, n)
								} else if n%7 != 0 {
									w.commit(g, t, pn, n)
								}
								n++
							}
						}
					}
					w.checkAll()
				}
			},
		},
		{
			// many groups, partitions, entries of one request
			Name: "many", Fix: true, Every: 3,
			Gen: func(p *P) func(e *E) {
				ng := pick(p, 1, 2, 17, deep(129, 1025))
				np := pick(p, 1, 2, 17, deep(129, 1025))
				one := p.Pick(2) // one request or many
				return func(e *E) {
					if ng > 20 && np > 20 {
						return
					}
					w := newWorld(e)
					for i := 0; i < np; i++ {
						w.create(int32(i), "a")
					}
					for round := 0; round < 2; round++ {
						for g := 0; g < ng; g++ {
							gn := fmt.Sprint("g", g)
							t := ocTop{Name: "a"}
							for i := 0; i < np; i++ {
								off := int64((g*7+i*3+round*5)%11 + 1)
								if one == 1 {
									t.Parts = append(t.Parts, ocPart{int32(i), off})
									w.mcommit(gn, "a", int32(i), off)
								} else {
									w.commit(gn, "a", int32(i), off)
								}
							}
							if one == 1 {
								w.e.Op()
								w.c.Commit(gn, t)
							}
						}
					}
					for g := 0; g < ng; g++ {
						gn := fmt.Sprint("g", g)
						var ps []int32
						for i := 0; i < np; i++ {
							ps = append(ps, int32(i))
						}
						r := w.c.Offsets(gn, ofTop{"a", ps})
						if len(r) != 1 || len(r[0].Parts) != np {
							e.Fail("offset query of %d partitions: %v", np, r)
						}
						for i, x := range r[0].Parts {
							if want := w.md.get("a", int32(i)).com[gn]; x.P != int32(i) || x.Off != want || x.Err != 0 {
								e.Fail("group %d partition %d: %+v, want %d", g, i, x, want)
							}
						}
					}
				}
			},
		},
	}
}

// checkList compares a listing for a time with the model.
func (w *world) checkList(t string, p int32, ts int64) {
	w.e.Op()
	recs := w.md.get(t, p).recs
	got := w.c.List1(t, p, ts)
	want, wts := int64(len(recs)), int64(-1)
	switch ts {
	case -1:
	case -2:
		want = 0
	default:
		for i, r := range recs {
			if r.ts0 >= ts {
				want, wts = int64(i), r.ts0
				break
			}
		}
	}
	if got.Err != 0 || got.Off != want || wts >= 0 && got.Ts != wts {
		w.e.Fail("query %d for %s/%d with %d records: %+v, want offset %d timestamp %d", ts, t, p, len(recs), got, want, wts)
	}
}

func magListing() []*Job {
	return []*Job{
		{
			// logs of every boundary length, queries around every boundary position
			Name: "lengths", Fix: true, Every: 7,
			Gen: func(p *P) func(e *E) {
				n := pick(p, edges(deep(4200, 66000))...)
				run := pick(p, 1, 3, 100, 600)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					for i := 0; i < n; i++ {
						w.post("a", 0, nil, nil, int64(i/run*2+10))
					}
					w.checkList("a", 0, -1)
					w.checkList("a", 0, -2)
					seen := map[int64]bool{}
					for _, o := range at(n) {
						for d := int64(-1); d <= 1; d++ {
							if ts := int64(o/run*2+10) + d; !seen[ts] {
								seen[ts] = true
								w.checkList("a", 0, ts)
							}
						}
					}
				}
			},
		},
		{
			// timestamps around every power of two, queried around each of them
			Name: "times", Fix: true, Every: 3,
			Gen: func(p *P) func(e *E) {
				step := 1 + p.Pick(4)
				from := p.Pick(2)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					all := pows()
					if from == 1 {
						all = nonneg(all)
					}
					for i := 0; i < len(all); i += step {
						w.post("a", 0, nil, nil, all[i])
					}
					for _, ts := range all {
						w.checkList("a", 0, ts)
					}
				}
			},
		},
	}
}

func magUnknown() []*Job {
	return []*Job{
		{
			// an unknown partition whose number differs from a known one's in any one bit,
			// or by any power of two or ten
			Name: "far-numbers", Fix: true, Every: 61,
			Gen: func(p *P) func(e *E) {
				base := pick(p, int32(0), 1, 11, 1<<30, -5)
				var ns []int32
				seen := map[int32]bool{base: true}
				add := func(n int32) {
					if !seen[n] {
						seen[n] = true
						ns = append(ns, n)
					}
				}
				add(-base)
				add(-base - 1)
				for k := 0; k < 32; k++ {
					add(base ^ 1<<k)
					add(base + 1<<k)
					add(base - 1<<k)
				}
				for k := int32(1); k <= 1e9 && k > 0; k *= 10 {
					add(base + k)
					add(base - k)
					if k == 1e9 {
						break
					}
				}
				pn := ns[p.Pick(len(ns))]
				both := p.Pick(2)
				return func(e *E) {
					w := newWorld(e, "g")
					w.post("a", base, nil, []byte("v"), 5)
					w.commit("g", "a", base, 1)
					w.create(base+1, "b")
					w.commit("g", "a", pn, 7)
					w.commit("g", "b", pn, 7)
					if both == 1 {
						w.create(pn, "c")
						w.commit("g", "c", pn, 3)
						w.commit("g", "c", base, 4)
					}
					for _, t := range []string{"a", "b", "c"} {
						known := func(p int32) bool { return w.md.get(t, p) != nil }
						for _, at := range []int64{-1, -2, 0} {
							if lo := w.c.List1(t, pn, at); (lo.Err == 0) != known(pn) || !known(pn) && lo.Err != 3 {
								e.Fail("list offsets of %s/%d for %d: %+v", t, pn, at, lo)
							}
						}
						n := 0
						for _, x := range w.c.Offsets("g", ofTop{t, []int32{pn, base}}) {
							for _, y := range x.Parts {
								n++
								if !known(y.P) {
									e.Fail("offset query of %s/%d and %d names %+v", t, pn, base, y)
								}
							}
						}
						if want := map[bool]int{true: 1}[known(pn)] + map[bool]int{true: 1}[known(base)]; n != want {
							e.Fail("offset query of %s/%d and %d names %d partitions, want %d", t, pn, base, n, want)
						}
						w.wantFetch(0, fetchTop{t, []fetchPart{{pn, 0, 1000}, {base, 0, 1000}}})
					}
					w.set("a", pn, "g", 9)
					w.checkAll()
				}
			},
		},
		{
			// an unknown name beside names easily confused with it
			Name: "confusable", Fix: true, Every: 7,
			Gen: func(p *P) func(e *E) {
				u := p.Pick(len(confusable))
				kind := p.Pick(5)
				return func(e *E) {
					w := newWorld(e, "g")
					name := confusable[u]
					for i, t := range confusable {
						if i != u {
							w.create(0, t)
							w.create(11, t)
						}
					}
					for i, t := range confusable {
						ps := []int32{0, 1, 11, -1, 1<<31 - 1, 65536, 256}
						known := func(p int32) bool { return t != name && w.md.get(t, p) != nil }
						_ = i
						switch kind {
						case 0:
							for _, pn := range ps {
								w.commit("g", t, pn, 1)
							}
						case 1:
							for _, pn := range ps {
								lo := w.c.List1(t, pn, -1)
								if want := map[bool]int16{true: 0, false: 3}[known(pn)]; lo.Err != want {
									e.Fail("list offsets of %q/%d: %+v, want error %d", t, pn, lo, want)
								}
							}
						case 2:
							n := 0
							r := w.c.Offsets("g", ofTop{t, ps})
							for _, x := range r {
								for _, y := range x.Parts {
									n++
									if !known(y.P) {
										e.Fail("offset query of %q: %+v", t, r)
									}
								}
							}
							if want := len(w.md[t]); n != want {
								e.Fail("offset query of %q names %d partitions, want %d: %+v", t, n, want, r)
							}
						case 3:
							w.checkMeta(false, t, t)
						case 4:
							var f fetchTop
							f.Name = t
							for _, pn := range ps {
								f.Parts = append(f.Parts, fetchPart{pn, 0, 1000})
							}
							w.wantFetch(0, f)
						}
					}
					w.checkAll()
				}
			},
		},
	}
}

func magAssign() []*Job {
	return []*Job{
		{
			Name: "big", Fix: true, Every: 11,
			Gen: func(p *P) func(e *E) {
				n := pick(p, edges(deep(4200, 33000))...)
				kind := p.Pick(3)
				return func(e *E) {
					w := newWorld(e)
					for i := 0; i < n; i++ {
						switch kind {
						case 0:
							w.create(int32(i), "a")
						case 1:
							w.create(0, fmt.Sprint("t", i))
						case 2:
							w.create(int32(i/64*1000), fmt.Sprint("t", i%64))
						}
					}
					w.checkAssign()
				}
			},
		},
		{
			Name: "names-and-numbers", Fix: true,
			Gen: func(p *P) func(e *E) {
				kind := p.Pick(3)
				return func(e *E) {
					w := newWorld(e)
					switch kind {
					case 0:
						for i, t := range confusable {
							w.create(int32(i%3), t)
						}
					case 1:
						for _, n := range edges(1<<31 - 1) {
							w.create(int32(n), "a", "b")
						}
					case 2:
						for _, n := range edges(32767) {
							w.create(7, longName(n, 1))
						}
					}
					w.checkAssign()
				}
			},
		},
	}
}

func magMeta() []*Job {
	return []*Job{
		{
			Name: "big", Fix: true, Every: 11,
			Gen: func(p *P) func(e *E) {
				n := pick(p, edges(deep(2100, 33000))...)
				kind := p.Pick(4)
				return func(e *E) {
					w := newWorld(e)
					var names []string
					for i := 0; i < n; i++ {
						switch kind {
						case 0:
							w.create(int32(i), "a")
						case 1:
							w.create(0, fmt.Sprint("t", i))
						case 2:
							names = append(names, fmt.Sprint("t", i))
							w.create(0, names[i])
						case 3: // mostly unknown ones
							names = append(names, fmt.Sprint("t", i))
							if i%5 == 0 {
								w.create(int32(i), names[i])
							}
						}
					}
					w.checkMeta(kind < 2, names...)
				}
			},
		},
		{
			Name: "names-and-numbers", Fix: true,
			Gen: func(p *P) func(e *E) {
				kind := p.Pick(3)
				null := p.Pick(2) == 1
				return func(e *E) {
					w := newWorld(e)
					var names []string
					switch kind {
					case 0:
						names = confusable
						for i, t := range confusable {
							if i%4 > 0 {
								w.create(int32(i%3), t)
							}
						}
					case 1:
						names = []string{"a", "c", "b"}
						for _, n := range edges(1<<31 - 1) {
							w.create(int32(n), "a", "b")
						}
					case 2:
						for _, n := range edges(32767) {
							names = append(names, longName(n, 1))
							w.create(7, names[len(names)-1])
						}
					}
					if null {
						w.checkMeta(true)
						return
					}
					w.checkMeta(false, names...)
				}
			},
		},
	}
}

func magPipeline() []*Job {
	return []*Job{
		{
			// many requests at once in one write, read while they are written
			Name: "long-pipelines", Fix: true, Every: 7,
			Gen: func(p *P) func(e *E) {
				n := pick(p, edges(deep(600, 5000))...)
				cut := p.Pick(3)
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 0, nil, []byte("v"), 1)
					rs := allRequests()
					var all []byte
					var kinds []int
					for i := 0; i < n; i++ {
						k := (i*5 + 3) % len(rs)
						kinds = append(kinds, k)
						name := "pipeline"
						all = append(all, frame(rs[k].api, served[rs[k].api], int32(i), &name, rs[k].body)...)
					}
					e.Go("writer", func() {
						step := []int{len(all) + 1, 4096, 1000}[cut]
						for len(all) > 0 {
							k := min(step, len(all))
							if _, err := w.c.c.Write(all[:k]); err != nil {
								e.Fail("writing: %v", err)
							}
							all = all[k:]
						}
					})
					for i := 0; i < n; i++ {
						what := fmt.Sprintf("pipelined request %d of %d", i, n)
						if bad := decodeAny(rs[kinds[i]].api, w.c.Recv(int32(i), what)); bad != "" {
							e.Fail("%s: malformed response: %s", what, bad)
						}
						e.Op()
					}
					e.Join()
					w.c.NoMore("the pipeline")
				}
			},
		},
	}
}

func magCycles() []*Job {
	return []*Job{
		{
			// many lifecycle rounds of one mock
			Name: "many-rounds", Fix: true, Every: 5,
			Gen: func(p *P) func(e *E) {
				n := pick(p, 3, 9, 17, 33, deep(66, 258))
				how := p.Pick(4)
				busy := p.Pick(2)
				return func(e *E) {
					if plainMode {
						n = min(n, 9)
					}
					w := newWorld(e)
					w.c.Close()
					for i := 0; i < n; i++ {
						e.Op()
						var c *Cli
						if busy == 1 {
							c = w.m.Dial()
							c.Heartbeat()
						}
						switch how {
						case 0:
							w.m.Restart()
						case 1:
							w.m.Stop()
							w.m.Start()
						case 2:
							w.m.km.FinishRequests()
							w.m.Restart()
						case 3:
							w.m.Stop()
							w.m.Stop()
							w.m.Restart()
						}
						w.m.WaitUp()
						if c != nil {
							c.EOF(5*time.Second, "after the restart")
							c.Close()
						}
						c = w.m.Dial()
						c.Heartbeat()
						c.Close()
					}
				}
			},
		},
	}
}

func magRestarts() []*Job {
	return []*Job{
		{
			// data that grows over many restarts
			Name: "many-restarts", Fix: true, Every: 3,
			Gen: func(p *P) func(e *E) {
				n := pick(p, 3, 9, deep(33, 130))
				per := pick(p, 0, 1, 40)
				how := p.Pick(3)
				return func(e *E) {
					if plainMode {
						n = min(n, 5)
					}
					w := newWorld(e, "g", "")
					w.create(3, "empty", "")
					for i := 0; i < n; i++ {
						for j := 0; j < per; j++ {
							w.post("a", int32(j%2), []byte(fmt.Sprint(i)), pat(j, i), int64(i))
						}
						w.create(int32(i), "b")
						w.commit("g", "b", int32(i/2), int64(i))
						w.set("b", int32(i), "", int64(i*i))
						switch how {
						case 0:
							w.c.Close()
							w.m.Restart()
						case 1:
							w.m.Stop()
							w.m.Start()
						case 2:
							w.m.km.FinishRequests()
							w.m.Stop()
							w.post("late", int32(i), nil, []byte("stopped"), int64(i))
							w.m.Start()
						}
						w.m.WaitUp()
						w.c.Close()
						w.c = w.m.Dial()
						if i%8 == 0 {
							w.checkAll()
						}
					}
					w.checkAll()
				}
			},
		},
	}
}

func magWaiters() []*Job {
	return []*Job{
		{
			// many fetches waiting when requests are finished
			Name: "many-waiting", Fix: true, Every: 3,
			Gen: func(p *P) func(e *E) {
				n := pick(p, 2, 5, 17, 33, deep(66, 130))
				parts := pick(p, 1, 40)
				wait := pick(p, int32(30000), 1<<31-1)
				return func(e *E) {
					w := newWorld(e)
					t := fetchTop{Name: "a"}
					for i := 0; i < parts; i++ {
						w.create(int32(i), "a")
						t.Parts = append(t.Parts, fetchPart{int32(i), 0, 1000})
					}
					var cs []*Cli
					var ids []int32
					for i := 0; i < n; i++ {
						c := w.m.Dial()
						cs = append(cs, c)
						ids = append(ids, c.Send(apiFetch, fetchReq(wait, t)))
					}
					e.Sleep(45 * time.Millisecond)
					t0 := time.Now()
					w.m.km.FinishRequests()
					for i, c := range cs {
						r, bad := fetchResp(c.Recv(ids[i], "a waiting fetch when requests are finished"))
						c.must(bad, "a waiting fetch when requests are finished")
						if len(r) != 1 || len(r[0].Parts) != parts {
							e.Fail("a waiting fetch of %d partitions answered with %v", parts, r)
						}
						e.Op()
					}
					for _, c := range cs {
						c.EOF(2*time.Second, "after requests were finished")
					}
					if d := time.Since(t0); d > 200*time.Millisecond && !plainMode {
						e.Fail("%d waiting fetches were released in %v", n, d)
					}
				}
			},
		},
	}
}

func magBuffers() []*Job {
	return []*Job{
		{
			// megabytes: a key, a value or a header of its own size
			Name: "huge", Fix: true, Every: 5, ByCase: true,
			Gen: func(p *P) func(e *E) {
				l := pick(p, 1<<18, 1<<20-1, 1<<20, 1<<20+1, 1<<21+1, 1<<22+1, 10_000_000, 1<<24+1)
				which := p.Pick(3)
				return func(e *E) {
					w := newWorld(e)
					k, v, h := []byte("key"), []byte("value"), []byte("header")
					switch which {
					case 0:
						v = pat(l, 1)
					case 1:
						k = pat(l, 2)
					case 2:
						k, v, h = pat(l/3, 3), pat(l/3, 4), pat(l/3, 5)
					}
					k0, v0 := append([]byte{}, k...), append([]byte{}, v...)
					for i := int64(0); i < 2; i++ {
						e.Op()
						w.m.km.ExtendedPost("a", 0, k, v, map[string][]byte{"h": h}, time.UnixMilli(5+i))
						mp := w.md.create("a", 0)
						mp.recs = append(mp.recs, mrec{append([]byte{}, k...), append([]byte{}, v...), 5 + i, 5 + i})
						for _, b := range [][]byte{k, v, h} {
							for j := range b {
								b[j] ^= 0x55
							}
						}
					}
					mp := w.md.get("a", 0)
					mp.recs[0].key, mp.recs[0].val = k0, v0
					for off := int64(0); off < 2; off++ {
						fp := w.c.Fetch1("a", 0, off, int32(recSize(mp.recs[off])), 0)
						if d := diffSet(fp.Set, mp.recs, off); d != "" || len(fp.Set) != 1 {
							e.Fail("fetch of a/0 at %d: %d messages %s", off, len(fp.Set), d)
						}
					}
				}
			},
		},
		{
			// one buffer for many records of every boundary size, changed after every post
			Name: "sizes", Fix: true, Every: 7,
			Gen: func(p *P) func(e *E) {
				l := pick(p, edges(deep(1<<17, 1<<20))...)
				n := pick(p, 2, 5, 40)
				spare := p.Pick(2)
				return func(e *E) {
					if l*n > deep(1<<21, 1<<24) {
						return
					}
					w := newWorld(e)
					kb, vb := make([]byte, 0, l+8), make([]byte, 0, l+spare*64)
					hb := make([]byte, l)
					for i := 0; i < n; i++ {
						k, v := kb[:l/2], vb[:l]
						copy(k, pat(l/2, i))
						copy(v, pat(l, i+1))
						e.Op()
						w.m.km.ExtendedPost("a", i%2, k, v, map[string][]byte{"h": hb}, time.UnixMilli(int64(i)))
						mp := w.md.create("a", int32(i%2))
						mp.recs = append(mp.recs, mrec{pat(l/2, i), pat(l, i+1), int64(i), int64(i)})
						for j := range vb[:cap(vb)] {
							vb[:cap(vb)][j] = 0xEE
						}
						for j := range kb[:cap(kb)] {
							kb[:cap(kb)][j] = 0xDD
						}
					}
					w.checkAll()
				}
			},
		},
		{
			// many small records: nothing posted later overwrites an earlier one
			Name: "many-records", Fix: true, Every: 3,
			Gen: func(p *P) func(e *E) {
				n := pick(p, edges(deep(4200, 33000))[10:]...)
				l := pick(p, 1, 30, 100)
				return func(e *E) {
					w := newWorld(e)
					buf := make([]byte, l)
					for i := 0; i < n; i++ {
						copy(buf, fmt.Sprint(i, "          "))
						e.Op()
						w.m.km.ExtendedPost("a", 0, buf[:l/2], buf, nil, time.UnixMilli(int64(i)))
						mp := w.md.create("a", 0)
						c := append([]byte{}, buf...)
						mp.recs = append(mp.recs, mrec{c[:l/2], c, int64(i), int64(i)})
						if n < 300 {
							w.checkLog("a", 0, int64(i))
						}
					}
					w.checkLog("a", 0, 0)
				}
			},
		},
	}
}

func magMocks() []*Job {
	return []*Job{
		{
			// mocks that take turns at one port, created at once or when first used
			Name: "turns", Fix: true, Every: 7,
			Gen: func(p *P) func(e *E) {
				lazy := p.Pick(2)
				idle := p.Pick(2) // the others are posted to as well
				how := p.Pick(3)
				var turns []int
				used := 0
				for i := 0; i < q(4, 5); i++ {
					k := p.Pick(min(used+1, 3))
					turns = append(turns, k)
					used = max(used, k+1)
				}
				return func(e *E) {
					port := e.freePort()
					ws := make([]*world, 3)
					make1 := func(i int) {
						if ws[i] == nil {
							ws[i] = &world{e: e, m: e.MockAt(port), md: model{}, groups: []string{"g", "h"}}
						}
					}
					for i := range ws {
						if lazy == 0 {
							make1(i)
						}
					}
					for n, k := range turns {
						make1(k)
						w := ws[k]
						w.m.Start()
						w.c = w.m.Dial()
						w.checkAll()
						w.checkMeta(true)
						w.post("a", int32(n%2), nil, []byte(fmt.Sprint("mock ", k, " turn ", n)), int64(n))
						w.commit("g", "a", int32(n%2), int64(k*10+n+1))
						w.set("a", int32(n%2), "h", int64(k))
						for i, o := range ws {
							if idle == 1 && o != nil && i != k {
								o.post("a", 0, nil, []byte(fmt.Sprint("idle mock ", i, " turn ", n)), int64(n))
								o.create(int32(i), "b")
								o.set("a", 0, "h", int64(100+i))
							}
						}
						w.checkAll()
						w.checkMeta(true)
						w.checkAssign()
						w.checkCoord("g")
						switch how {
						case 1:
							w.c.Close()
						case 2:
							w.m.km.FinishRequests()
						}
						w.m.Stop()
						w.c.Close()
					}
				}
			},
		},
		{
			Name: "many", Fix: true,
			Gen: func(p *P) func(e *E) {
				n := pick(p, 3, 9, 17, deep(33, 65))
				stop := p.Pick(2)
				return func(e *E) {
					var ws []*world
					for i := 0; i < n; i++ {
						ws = append(ws, newWorld(e, "g"))
					}
					for r := 0; r < 3; r++ {
						for i, w := range ws {
							if (i+r)%3 > 0 {
								w.post("a", int32(r), nil, []byte(fmt.Sprint("mock ", i, " ", r)), int64(r))
								w.commit("g", "a", int32(r), int64(i+1))
							}
						}
					}
					if stop == 1 {
						for i, w := range ws {
							if i%2 == 0 {
								w.m.Stop()
							}
						}
					}
					for i, w := range ws {
						if stop == 0 || i%2 == 1 {
							w.checkAll()
							w.checkMeta(true)
						}
					}
				}
			},
		},
	}
}

func magClients() []*Job {
	return []*Job{
		{
			// very many clients come and go, a few stay
			Name: "many-come-and-go", Fix: true, Every: 3,
			Gen: func(p *P) func(e *E) {
				n := pick(p, 9, 33, 129, deep(300, 1100))
				kind := p.Pick(goneKinds)
				waves := pick(p, 1, 7)
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 0, nil, []byte("v"), 1)
					stay := w.m.Dial()
					stay.Heartbeat()
					w.c.Heartbeat()
					e.Sleep(2 * time.Millisecond)
					base := 0
					if !plainMode {
						base, _ = e.x.LiveThreads()
					} else {
						n = min(n, 33)
					}
					for i := 0; i < n; {
						var cs []*Cli
						for j := 0; j < waves && i < n; j++ {
							c := w.m.Dial()
							c.Heartbeat()
							cs = append(cs, c)
							i++
						}
						for j := range cs {
							c := cs[(j*3+1)%len(cs)]
							if len(cs)%3 == 0 {
								c = cs[j]
							}
							c.gone(kind)
							if !plainMode && !e.Until(releaseTime, c.V().PeerClosed) {
								e.Fail("client %d %s: the mock has not closed its side of the connection after %v", i, goneName[kind], releaseTime)
							}
							c.Close()
							e.Op()
						}
						stay.Heartbeat()
					}
					if !plainMode && !e.Until(time.Second, func() bool { n, _ := e.x.LiveThreads(); return n <= base }) {
						k, d := e.x.LiveThreads()
						e.Fail("%d goroutines of the mock remain after %d clients came and went, want %d: %s", k, n, base, d)
					}
					w.c.Heartbeat()
					stay.checkLog(w.md, "a", 0, 0)
				}
			},
		},
	}
}

func magAnswers() []*Job {
	return []*Job{
		{
			// correlation ids around every power of two, and every client id
			Name: "correlation-ids", Fix: true, Every: 7,
			Gen: func(p *P) func(e *E) {
				k := p.Pick(len(allRequests()))
				cl := p.Pick(3)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					other := w.m.Dial()
					r := allRequests()[k]
					for _, n := range pows() {
						if n != int64(int32(n)) {
							continue
						}
						name := []*string{nil, strp(""), strp(longName(300, 1))}[cl]
						other.c.Write(frame(apiHeartbeat, 0, int32(^n), name, heartbeatReq("g", "m", 1)))
						w.c.c.Write(frame(r.api, served[r.api], int32(n), name, r.body))
						w.c.Recv(int32(n), r.what)
						other.Recv(int32(^n), "heartbeat")
						e.Op()
					}
				}
			},
		},
		{
			// many clients, each with its own data and its own big answers
			Name: "many", Fix: true, Every: 3,
			Gen: func(p *P) func(e *E) {
				n := pick(p, 3, 9, 33, deep(65, 200))
				l := pick(p, 0, 100, 5000, 20000)
				return func(e *E) {
					w := newWorld(e)
					var cs []*Cli
					for i := 0; i < n; i++ {
						cs = append(cs, w.m.Dial())
						w.post("a", int32(i), nil, pat(l+i, i), int64(i))
						w.post("a", int32(i), nil, pat(i, i+1), int64(i))
					}
					var ids []int32
					for i, c := range cs {
						ids = append(ids, c.Send(apiFetch, fetchReq(0, fetchTop{"a", []fetchPart{{int32(i), 0, 1 << 20}}})))
					}
					for i := range cs {
						i = (i*7 + 3) % n
						if n%7 == 0 {
							break
						}
						r, bad := fetchResp(cs[i].Recv(ids[i], "fetch"))
						cs[i].must(bad, "fetch")
						fp := cs[i].one(r, "a", int32(i))
						if d := diffSet(fp.Set, w.md.get("a", int32(i)).recs, 0); d != "" || len(fp.Set) != 2 {
							e.Fail("client %d of %d: %d messages %s", i, n, len(fp.Set), d)
						}
						e.Op()
					}
				}
			},
		},
	}
}

func magHigh() []*Job {
	return []*Job{
		{
			Name: "long-logs", Fix: true, Every: 5,
			Gen: func(p *P) func(e *E) {
				n := pick(p, edges(deep(4200, 66000))...)
				lim := pick(p, int32(0), 20, 150, 40000)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					for i := 0; i < n; i++ {
						w.post("a", 0, nil, nil, int64(i))
					}
					for _, o := range at(n) {
						w.wantFetch(0, fetchTop{"a", []fetchPart{{0, int64(o), lim}}})
					}
					for _, o := range []int64{int64(n) + 1, 1 << 31, 1 << 32, 1<<63 - 1} {
						fp := w.c.Fetch1("a", 0, o, 1000, 0)
						if fp.HW != int64(n) || len(fp.Set) != 0 {
							e.Fail("fetch at %d of %d records: high watermark %d, %d messages", o, n, fp.HW, len(fp.Set))
						}
					}
				}
			},
		},
	}
}

func magGroups() []*Job {
	return []*Job{
		{
			// generations around every power of two, many members, many protocols, long metadata
			Name: "numbers", Fix: true, Every: 5,
			Gen: func(p *P) func(e *E) {
				kind := p.Pick(4)
				n := pick(p, edges(deep(1030, 20000))...)
				return func(e *E) {
					w := newWorld(e, "g")
					w.post("a", 0, nil, []byte("v"), 1)
					w.commit("g", "a", 0, 1)
					group := func(g, m string, gen int32, protos ...string) {
						e.Op()
						for _, r := range []request{
							{apiJoin, joinReq(g, m, protos...), "join"}, {apiSync, syncReq(g, m, gen), "sync"},
							{apiHeartbeat, heartbeatReq(g, m, gen), "heartbeat"}, {apiLeave, leaveReq(g, m), "leave"},
						} {
							b := w.c.Call(r.api, r.body, r.what)
							if bad := decodeAny(r.api, b); bad != "" {
								e.Fail("%s: malformed response: %s", r.what, bad)
							}
							switch r.api {
							case apiJoin:
								j, _ := joinResp(b)
								if j.Err != 0 || j.Member == "" || len(protos) > 0 && protos[0] != "" && j.Proto == "" {
									e.Fail("join of group %q member %q with %d protocols: %+v", g, m, len(protos), j)
								}
							case apiSync:
								if code, _, _ := syncResp(b); code != 0 {
									e.Fail("sync of group %q member %q generation %d: error %d", g, m, gen, code)
								}
							default:
								if code, _ := errResp(b); code != 0 {
									e.Fail("%s of group %q member %q generation %d: error %d", r.what, g, m, gen, code)
								}
							}
						}
					}
					switch kind {
					case 0:
						for d := int32(-1); d <= 1; d++ {
							group("g", "m", int32(n)+d, "range")
							group("g", "m", int32(n)<<12+d, "range")
							group("g", "m", -int32(n)+d, "range")
						}
					case 1:
						for i := 0; i < n && i < 300; i++ {
							group(fmt.Sprint("g", i%7), fmt.Sprint("m", i), int32(i), "range")
						}
					case 2:
						var ps []string
						for i := 0; i < n; i++ {
							ps = append(ps, fmt.Sprint("proto", i))
						}
						group("g", "m", 1, ps...)
					case 3:
						group(longName(n, 1), longName(n, 2), 1, longName(n, 3), longName(n, 4))
					}
					w.checkAll()
				}
			},
		},
	}
}

// deep is the bound in both tiers, but the conformance replay (real time) keeps the smaller one.
func deep(small, big int) int {
	if plainMode {
		return small
	}
	return big
}

// magConsume: long topics, resumed after every commit.
func magConsume() []*Job {
	return []*Job{{
		// very many records in one answer
		Name: "backlog", Fix: true, Every: 5,
		Gen: func(p *P) func(e *E) {
			total := pick(p, deep(130, 1030), deep(260, 2100), deep(520, 4200), deep(600, q(5000, 20000)))
			max := pick(p, 1<<20, 1<<30)
			again := p.Pick(2) // one is posted after the first answer
			return func(e *E) {
				n, more := total, again
				w := newWorld(e, "g")
				w.create(0, "t")
				for i := 0; i < n; i++ {
					w.post("t", 0, nil, []byte{byte(i), byte(i >> 8)}, int64(i))
				}
				k := &consumer{w: w, group: "g", topic: "t", max: int32(max)}
				k.join()
				for at := 0; at < n; {
					ms := k.round(true)[0]
					if len(ms) == 0 {
						e.Fail("from %d of %d: nothing", at, n)
					}
					if d := diffSet(ms, w.md.get("t", 0).recs, int64(at)); d != "" {
						e.Fail("%s", d)
					}
					at += len(ms)
					k.commit()
					if more == 1 {
						more = 2
						w.post("t", 0, nil, []byte("more"), 5)
						n++
					}
				}
				if k.pos[0] != int64(n) || len(k.round(true)[0]) != 0 {
					e.Fail("everything of %d was consumed, and the consumer is at %d", n, k.pos[0])
				}
			}
		},
	}, {
		Name: "long", Fix: true, Every: 13,
		Gen: func(p *P) func(e *E) {
			n := pick(p, edges(q(300, 2100))...)
			batch := pick(p, 1, 7, 1000)
			how := p.Pick(3)
			return func(e *E) {
				w := newWorld(e, "g")
				w.create(0, "t")
				for i := 0; i < n; i++ {
					w.post("t", 0, nil, []byte{byte(i), byte(i >> 8)}, int64(i))
				}
				k := &consumer{w: w, group: "g", topic: "t", max: int32(36 * batch)}
				k.join()
				for at := 0; ; {
					if k.pos[0] != int64(at) {
						e.Fail("of %d records %d were consumed and committed, and the consumer resumes at %d", n, at, k.pos[0])
					}
					ms := k.round(true)[0]
					if len(ms) != min(batch, n-at) {
						e.Fail("from %d of %d: %d records at a time, got %d", at, n, batch, len(ms))
					}
					if d := diffSet(ms, w.md.get("t", 0).recs, int64(at)); d != "" {
						e.Fail("%s", d)
					}
					at += len(ms)
					if len(ms) > 0 || how == 0 {
						k.commit()
					}
					switch how {
					case 0:
						k.c.Close()
						k.join()
					case 1:
						k.c.Close()
						w.m.Restart()
						k.join()
					}
					if len(ms) == 0 {
						if how == 2 {
							break
						}
						if k.pos[0] != int64(n) {
							e.Fail("everything of %d was committed, and the consumer resumes at %d", n, k.pos[0])
						}
						break
					}
				}
			}
		},
	}}
}
