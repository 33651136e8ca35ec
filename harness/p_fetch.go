package harness

import (
	"bytes"
	"fmt"
	"time"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
	props["C03"] = c03
	props["C04"] = c04
	props["C06"] = c06
	props["C29"] = c29
}

func rep(n int, b byte) []byte { return bytes.Repeat([]byte{b}, n) }

// body of n distinct bytes depending on a seed
func pat(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8 + seed*31 + 1)
	}
	return b
}

func c01() []*Job {
	return []*Job{
		{
			// every log of up to n records over an alphabet of shapes, read from every offset
			Name: "record-shapes", Fix: true, Every: 97,
			Gen: func(p *P) func(e *E) {
				keys := [][]byte{nil, {}, []byte("k"), pat(300, 1)}
				vals := [][]byte{nil, {}, []byte("v"), {0, 255, 128}, pat(5000, 2)}
				tss := []int64{-1 << 60, 0, 1, 1_700_000_000_123}
				n := 1 + p.Pick(q(2, 2))
				type sh struct{ k, v, t int }
				var s []sh
				for i := 0; i < n; i++ {
					s = append(s, sh{p.Pick(len(keys)), p.Pick(len(vals)), p.Pick(len(tss))})
				}
				return func(e *E) {
					w := newWorld(e)
					for i, x := range s {
						if tss[x.t] == -1<<60 {
							w.simple("topic", 0, keys[x.k], vals[x.v])
						} else {
							w.post("topic", 0, keys[x.k], vals[x.v], tss[x.t]+int64(i))
						}
						e.Sleep(1700 * time.Microsecond)
					}
					for o := 0; o <= n; o++ {
						w.checkLog("topic", 0, int64(o))
					}
				}
			},
		},
		{
			Name: "record-lengths", Fix: true, Every: 23,
			Gen: func(p *P) func(e *E) {
				var ls []int
				for i := 0; i <= q(70, 300); i++ {
					ls = append(ls, i)
				}
				for _, c := range []int{127, 128, 255, 256, 1024, 2048, 4096, 8192, 16384, 32768, 65536} {
					for d := -2; d <= 2; d++ {
						ls = append(ls, c+d)
					}
				}
				ls = append(ls, 100_000, 1<<20)
				l := pick(p, ls...)
				which := p.Pick(3)
				return func(e *E) {
					w := newWorld(e)
					w.post("a", 1, []byte("first"), []byte("x"), 5)
					switch which {
					case 0:
						w.post("a", 1, pat(l, 3), []byte("v"), 6)
					case 1:
						w.post("a", 1, nil, pat(l, 4), 6)
					case 2:
						w.post("a", 1, pat(l/2, 5), pat(l-l/2, 6), 6)
					}
					w.post("a", 1, []byte("k"), []byte("last"), 7)
					for o := int64(0); o <= 3; o++ {
						w.checkLog("a", 1, o)
					}
				}
			},
		},
		{
			// long logs, every offset, whole and in chained pieces of every small limit
			Name: "every-offset", Fix: true, Every: 5,
			Gen: func(p *P) func(e *E) {
				n := pick(p, q([]int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100}, seq(0, 140))...)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					for i := 0; i < n; i++ {
						w.post("a", 0, []byte(fmt.Sprint(i)), pat(i%40, i), int64(1000+i))
						w.post("b", 0, []byte("other"), []byte("topic"), 3)
						w.post("a", 1, []byte("other"), []byte("partition"), 3)
					}
					for o := 0; o <= n; o++ {
						w.checkLog("a", 0, int64(o))
					}
				}
			},
		},
		{
			Name: "chained-reading", Fix: true, Every: 11,
			Gen: func(p *P) func(e *E) {
				n := 1 + p.Pick(q(6, 9))
				grow := p.Pick(3)
				max := 34 + 9*2 + p.Pick(q(120, 260))
				return func(e *E) {
					w := newWorld(e)
					for i := 0; i < n; i++ {
						l := []int{i * 2, (n - i) * 2, i % 2 * 9}[grow]
						w.post("a", 2, nil, pat(l, i), int64(i))
					}
					off := int64(0)
					recs := w.md.get("a", 2).recs
					for off < int64(n) {
						e.Op()
						fp := w.c.Fetch1("a", 2, off, int32(max), 0)
						if d := diffSet(fp.Set, recs, off); d != "" {
							e.Fail("reading on at %d with limit %d: %s", off, max, d)
						}
						if want := fitCount(recs, off, max); len(fp.Set) != want || want == 0 {
							e.Fail("reading on at %d with limit %d: %d messages, %d fit", off, max, len(fp.Set), want)
						}
						off += int64(len(fp.Set))
					}
				}
			},
		},
		{
			// every sequence of operations up to a depth, then everything is compared
			Name: "op-sequences", Fix: true, Every: 211,
			Gen: func(p *P) func(e *E) {
				depth := q(4, 5)
				var ops []int
				for i := 0; i < depth; i++ {
					ops = append(ops, p.Pick(9))
				}
				return func(e *E) {
					w := newWorld(e, "g")
					w.create(0, "a")
					w.create(1, "a")
					for i, op := range ops {
						v := []byte(fmt.Sprintf("v%d", i))
						switch op {
						case 0:
							w.simple("a", 0, nil, v)
						case 1:
							w.post("a", 1, v, nil, int64(i))
						case 2:
							w.post("b", 0, []byte("k"), v, int64(100-i))
						case 3:
							w.checkLog("a", 0, 0)
						case 4:
							o := int64(len(w.md.get("a", 1).recs))
							if o > 0 {
								o--
							}
							w.checkLog("a", 1, o)
						case 5:
							w.commit("g", "a", 0, int64(i))
						case 6:
							if lo := w.c.List1("a", 0, -1); lo.Off != int64(len(w.md.get("a", 0).recs)) {
								e.Fail("latest offset %d after %d posts", lo.Off, len(w.md.get("a", 0).recs))
							}
						case 7:
							w.c.Fetch1("a", 0, 0, 36, 0)
						case 8:
							w.c = w.m.Dial()
						}
					}
					for _, t := range w.md.topics() {
						for _, pn := range w.md.parts(t) {
							for o := range append(w.md.get(t, pn).recs, mrec{}) {
								w.checkLog(t, pn, int64(o))
							}
						}
					}
				}
			},
		},
		{
			// two readers and a producer: each answer is a prefix of the final log
			Name: "readers-and-producer", Dev: q(2, 3), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				start := pick(p, q([]int{1}, []int{0, 1, 2})...)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					for i := 0; i < start; i++ {
						w.post("a", 0, nil, []byte(fmt.Sprint("s", i)), int64(i))
					}
					c2 := w.m.Dial()
					var got [2][]msg
					e.Begin()
					for i, c := range []*Cli{w.c, c2} {
						i, c := i, c
						e.Go(fmt.Sprint("reader", i), func() {
							got[i] = c.Fetch1("a", 0, int64(i), 1<<20, 0).Set
						})
					}
					e.Go("producer", func() {
						w.post("a", 0, []byte("k"), []byte("n0"), 10)
						w.post("a", 0, []byte("k"), []byte("n1"), 11)
					})
					e.Join()
					e.End()
					for i := range got {
						e.Note("%d", len(got[i]))
						if d := diffSet(got[i], w.md.get("a", 0).recs, int64(i)); d != "" {
							e.Fail("reader %d: %s", i, d)
						}
						if len(got[i])+i < start {
							e.Fail("reader %d at offset %d got %d messages, %d were there before it asked", i, i, len(got[i]), start)
						}
					}
					w.checkLog("a", 0, 0)
				}
			},
		},
	}
}

func seq(a, b int) (s []int) {
	for i := a; i <= b; i++ {
		s = append(s, i)
	}
	return
}

// wantFetch checks a whole fetch response against the model (all data at rest).
func (w *world) wantFetch(wait int32, tops ...fetchTop) {
	w.e.Op()
	r := w.c.Fetch(wait, tops...)
	what := fmt.Sprintf("fetch %v", tops)
	if len(r) != len(tops) {
		w.e.Fail("%s: %d topic entries, want %d", what, len(r), len(tops))
	}
	for i, t := range tops {
		if r[i].Name != t.Name || len(r[i].Parts) != len(t.Parts) {
			w.e.Fail("%s: entry %d is %s with %d partitions, want %s with %d", what, i, r[i].Name, len(r[i].Parts), t.Name, len(t.Parts))
		}
		for j, fp := range t.Parts {
			got := r[i].Parts[j]
			at := fmt.Sprintf("%s: entry %d.%d (%s/%d at %d)", what, i, j, t.Name, fp.P, fp.Off)
			if got.P != fp.P {
				w.e.Fail("%s: partition number %d", at, got.P)
			}
			mp := w.md.get(t.Name, fp.P)
			if mp == nil {
				if len(got.Set) != 0 {
					w.e.Fail("%s: %d messages for an unknown partition", at, len(got.Set))
				}
				continue
			}
			if got.Err != 0 {
				w.e.Fail("%s: error %d", at, got.Err)
			}
			if d := diffSet(got.Set, mp.recs, fp.Off); d != "" {
				w.e.Fail("%s: %s", at, d)
			}
			if want := fitCount(mp.recs, fp.Off, int(fp.Max)); len(got.Set) != want {
				w.e.Fail("%s: %d messages, %d fit in %d bytes", at, len(got.Set), want, fp.Max)
			}
			if got.HW != int64(len(mp.recs)) {
				w.e.Fail("%s: high watermark %d, log end %d", at, got.HW, len(mp.recs))
			}
		}
	}
}

// multiWorld has a/0 (3), a/1 (2), a/2 (empty), b/0 (2), b/7 (1).
func multiWorld(e *E) *world {
	w := newWorld(e)
	for i := 0; i < 3; i++ {
		w.post("a", 0, nil, []byte(fmt.Sprintf("a0-%d", i)), int64(i))
	}
	for i := 0; i < 2; i++ {
		w.post("a", 1, []byte("k1"), []byte(fmt.Sprintf("a1-%d", i)), int64(10+i))
		w.post("b", 0, []byte("kb"), []byte(fmt.Sprintf("b0-%d", i)), int64(20+i))
	}
	w.create(2, "a")
	w.post("b", 7, nil, pat(100, 7), 30)
	return w
}

func c02() []*Job {
	entry := func(p *P, n int) fetchPart {
		max := int32(1 << 20)
		return []fetchPart{{0, 0, max}, {1, 1, max}, {0, 2, 60}, {9, 0, max}, {2, 0, max}, {7, 0, max}, {1, 0, 50}}[p.Pick(n)]
	}
	top := func(p *P, maxParts, n int) fetchTop {
		t := fetchTop{Name: []string{"a", "b", "zz"}[p.Pick(3)]}
		for i, k := 0, p.Pick(maxParts+1); i < k; i++ {
			t.Parts = append(t.Parts, entry(p, n))
		}
		return t
	}
	return []*Job{
		{
			// one topic, up to three partitions
			Name: "one-topic", Fix: true, Every: 41,
			Gen: func(p *P) func(e *E) {
				t := top(p, q(3, 4), 7)
				return func(e *E) {
					multiWorld(e).wantFetch(0, t)
				}
			},
		},
		{
			Name: "two-topics", Fix: true, Every: 83,
			Gen: func(p *P) func(e *E) {
				t1 := top(p, 2, q(4, 7))
				t2 := top(p, 2, q(4, 7))
				return func(e *E) { multiWorld(e).wantFetch(0, t1, t2) }
			},
		},
		{
			Name: "three-topics", Fix: true, Every: 83,
			Gen: func(p *P) func(e *E) {
				n := p.Pick(2)
				var ts []fetchTop
				for i := 0; i < 3+n; i++ {
					ts = append(ts, top(p, 1, q(2, 3)))
				}
				return func(e *E) { multiWorld(e).wantFetch(0, ts...) }
			},
		},
		{
			// data arriving during the wait in any one of the requested partitions
			Name: "arrives-during-wait",
			Gen: func(p *P) func(e *E) {
				where := p.Pick(4)
				order := p.Pick(6)
				delay := time.Duration(p.Pick(4)) * 15 * time.Millisecond
				return func(e *E) {
					w := newWorld(e)
					names := []string{"a", "a", "b", "b"}
					nums := []int32{0, 1, 0, 1}
					for i := range names {
						w.create(nums[i], names[i])
					}
					req := [][]fetchTop{
						{{"a", []fetchPart{{0, 0, 1000}, {1, 0, 1000}}}, {"b", []fetchPart{{0, 0, 1000}, {1, 0, 1000}}}},
						{{"b", []fetchPart{{1, 0, 1000}, {0, 0, 1000}}}, {"a", []fetchPart{{1, 0, 1000}, {0, 0, 1000}}}},
						{{"a", []fetchPart{{0, 0, 1000}}}, {"b", []fetchPart{{0, 0, 1000}}}, {"a", []fetchPart{{1, 0, 1000}}}, {"b", []fetchPart{{1, 0, 1000}}}},
						{{"zz", []fetchPart{{1, 0, 1000}}}, {"a", []fetchPart{{1, 0, 1000}, {0, 0, 1000}, {1, 0, 1000}}}, {"b", []fetchPart{{0, 0, 1000}, {1, 0, 1000}}}},
						{{"b", []fetchPart{{0, 0, 1000}, {9, 0, 10}, {1, 0, 1000}}}, {"a", []fetchPart{{0, 0, 1000}, {1, 0, 1000}}}},
						{{"a", nil}, {"a", []fetchPart{{1, 0, 1000}, {0, 0, 1000}}}, {"b", nil}, {"b", []fetchPart{{1, 0, 1000}, {0, 0, 1000}}}},
					}[order]
					e.Go("producer", func() {
						e.Sleep(delay)
						w.post(names[where], nums[where], []byte("k"), []byte("v"), 1)
					})
					e.Sleep(time.Millisecond) // the post at delay 0 comes first
					w.wantFetch(2000, req...)
					e.Join()
				}
			},
		},
	}
}

func c03() []*Job {
	return []*Job{
		{
			Name: "every-limit", Fix: true, Every: 401,
			Gen: func(p *P) func(e *E) {
				n := 1 + p.Pick(q(3, 4))
				var ls []int
				sum := 0
				for i := 0; i < n; i++ {
					l := pick(p, 0, 3, 40)
					ls = append(ls, l)
					sum += 34 + l
				}
				// every limit that could matter and its neighbours
				lim := p.Pick(sum + 3)
				off := p.Pick(n + 1)
				return func(e *E) {
					w := newWorld(e)
					for i, l := range ls {
						w.post("a", 0, nil, pat(l, i), int64(i))
					}
					t0 := time.Now()
					w.wantFetch(pick2(off < n, int32(3000), 0), fetchTop{"a", []fetchPart{{0, int64(off), int32(lim)}}})
					if d := time.Since(t0); d > 100*time.Millisecond && !plainMode {
						e.Fail("the answer took %v with data present", d)
					}
				}
			},
		},
		{
			// several partitions with limits of their own
			Name: "several-partitions", Fix: true, Every: 61,
			Gen: func(p *P) func(e *E) {
				lims := []int32{0, 33, 34, 35, 68, 69, 77, 120, 1 << 20}
				if !thorough() {
					lims = []int32{0, 34, 35, 69, 77, 1 << 20}
				}
				a, b, c := pick(p, lims...), pick(p, lims...), pick(p, lims...)
				shape := p.Pick(3)
				return func(e *E) {
					w := newWorld(e)
					for i := 0; i < 3; i++ {
						w.post("a", 0, nil, pat(i, i), 1)
						w.post("a", 1, nil, pat(8*i, i), 1)
						w.post("b", 0, []byte("k"), pat(3, i), 1)
					}
					t0 := time.Now()
					switch shape {
					case 0:
						w.wantFetch(3000, fetchTop{"a", []fetchPart{{0, 0, a}, {1, 0, b}}}, fetchTop{"b", []fetchPart{{0, 0, c}}})
					case 1:
						w.wantFetch(3000, fetchTop{"b", []fetchPart{{0, 2, c}}}, fetchTop{"a", []fetchPart{{1, 1, b}, {0, 0, a}, {1, 0, c}}})
					case 2:
						w.wantFetch(3000, fetchTop{"a", []fetchPart{{0, 0, a}, {0, 0, b}, {0, 1, c}}})
					}
					if d := time.Since(t0); d > 100*time.Millisecond && !plainMode {
						e.Fail("the answer took %v with data present", d)
					}
				}
			},
		},
		{
			// a waiting fetch that is woken by a record that does not fit, or fits exactly
			Name: "limit-and-wait",
			Gen: func(p *P) func(e *E) {
				lim := p.Pick(q(90, 150))
				l := pick(p, 0, 5, 40)
				also := p.Pick(2)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					w.create(1, "a")
					e.Go("producer", func() {
						e.Sleep(50 * time.Millisecond)
						w.post("a", 0, nil, pat(l, 1), 1)
						w.post("a", 0, nil, pat(l, 2), 1)
						if also == 1 {
							w.post("a", 1, nil, pat(2, 2), 1)
						}
					})
					t0 := time.Now()
					w.wantFetch(3000, fetchTop{"a", []fetchPart{{0, 0, int32(lim)}, {1, 0, 1000}}})
					if d := time.Since(t0); d > 150*time.Millisecond {
						e.Fail("the answer came %v after the post", d-50*time.Millisecond)
					}
					e.Join()
				}
			},
		},
	}
}

func pick2[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

const slack = 100 * time.Millisecond

func c04() []*Job {
	return []*Job{
		{
			// wait and post times on a grid
			Name: "wait-grid",
			Gen: func(p *P) func(e *E) {
				waits := []int32{-1, 0, 1, 19, 20, 21, 39, 50, 100, 400, 1000, 2500, 20000}
				wait := pick(p, waits...)
				posts := []int{-1, 0, 1, 10, 19, 20, 21, 45, 90, 101, 390, 999, 1400, 6000}
				at := pick(p, posts...) // -1: never
				where := p.Pick(3)      // requested partition, second requested, not requested
				off := p.Pick(2)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a", "b")
					w.create(1, "a")
					w.create(2, "a")
					if off == 1 {
						w.post("a", 0, nil, []byte("old"), 1)
					}
					pt := []string{"a", "b", "a"}[where]
					pp := []int32{0, 0, 2}[where]
					t0 := time.Now()
					if at >= 0 {
						e.Go("producer", func() {
							e.Sleep(time.Duration(at) * time.Millisecond)
							w.post(pt, pp, nil, []byte("new"), 2)
						})
					}
					e.Sleep(500 * time.Microsecond)
					r := w.c.Fetch(wait, fetchTop{"a", []fetchPart{{0, int64(off), 1000}, {1, 0, 1000}}}, fetchTop{"b", []fetchPart{{0, 0, 1000}}})
					took := time.Since(t0)
					n := len(r[0].Parts[0].Set) + len(r[0].Parts[1].Set) + len(r[1].Parts[0].Set)
					maxw := time.Duration(max(wait, 0)) * time.Millisecond
					postAt := time.Duration(at) * time.Millisecond
					relevant := at >= 0 && where < 2
					switch {
					case n == 0 && took < maxw:
						e.Fail("empty answer after %v with a maximum wait of %v", took, maxw)
					case n == 0 && relevant && postAt+slack < maxw:
						e.Fail("empty answer after %v although a record was posted at %v (maximum wait %v)", took, postAt, maxw)
					case n > 0 && !relevant:
						e.Fail("%d messages out of nowhere", n)
					case took > maxw+slack:
						e.Fail("answered after %v with a maximum wait of %v", took, maxw)
					case relevant && postAt < maxw && took > postAt+slack:
						e.Fail("answered %v after the record was posted", took-postAt)
					}
					e.Join()
				}
			},
		},
		{
			// data present at one requested partition: no wait, wherever it is
			Name: "data-present", Fix: true, Every: 7,
			Gen: func(p *P) func(e *E) {
				where := p.Pick(4)
				unknown := p.Pick(3)
				wait := pick(p, int32(0), 300, 30000)
				return func(e *E) {
					w := newWorld(e)
					names := []string{"a", "a", "b", "b"}
					nums := []int32{0, 1, 0, 1}
					for i := range names {
						w.create(nums[i], names[i])
					}
					w.post(names[where], nums[where], nil, []byte("x"), 1)
					req := []fetchTop{{"a", []fetchPart{{0, 0, 1000}, {1, 0, 1000}}}, {"b", []fetchPart{{0, 0, 1000}, {1, 0, 1000}}}}
					switch unknown {
					case 1:
						req = append([]fetchTop{{"zz", []fetchPart{{0, 0, 1000}}}}, req...)
					case 2:
						req[0].Parts = append([]fetchPart{{5, 0, 1000}}, req[0].Parts...)
					}
					t0 := time.Now()
					w.wantFetch(wait, req...)
					if d := time.Since(t0); d > slack && !plainMode {
						e.Fail("the answer took %v with data present", d)
					}
				}
			},
		},
		{
			// finish or stop during the wait
			Name: "finish-or-stop",
			Gen: func(p *P) func(e *E) {
				how := p.Pick(3)
				at := time.Duration(pick(p, 0, 1, 10, 20, 35, 500, 1500, 4000)) * time.Millisecond
				posted := p.Pick(2)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					t0 := time.Now()
					e.Go("ctl", func() {
						e.Sleep(at)
						if posted == 1 {
							w.post("a", 0, nil, []byte("x"), 1)
						}
						switch how {
						case 0:
							w.m.km.FinishRequests()
						case 1:
							w.m.km.RequestStop()
						case 2:
							w.m.Stop()
						}
					})
					e.Sleep(100 * time.Microsecond)
					if at == 0 {
						// the request may come too late to be served
						return
					}
					r := w.c.Fetch1("a", 0, 0, 1000, 30000)
					if d := time.Since(t0); d < at {
						e.Fail("answered after %v, finished at %v", d, at)
					} else if d > at+slack {
						e.Fail("answered %v after the mock was told to finish or stop", d-at)
					}
					_ = r
					e.Join()
				}
			},
		},
		{
			// a waiting fetch blocks neither producers nor other clients
			Name: "others-go-on", Fix: true, Every: 3,
			Gen: func(p *P) func(e *E) {
				api := p.Pick(13)
				waiters := 1 + p.Pick(2)
				return func(e *E) {
					w := newWorld(e, "g")
					w.create(0, "a")
					w.post("b", 0, nil, []byte("b"), 1)
					for i := 0; i < waiters; i++ {
						c := w.m.Dial()
						e.Go(fmt.Sprint("waiter", i), func() { c.Fetch1("a", 0, 5, 1000, 1500) })
					}
					e.Sleep(130 * time.Millisecond)
					t0 := time.Now()
					switch api {
					case 0:
						w.simple("a", 0, nil, []byte("x"))
					case 1:
						w.post("a", 1, nil, []byte("x"), 2)
					case 2:
						w.create(3, "a", "new")
					case 3:
						w.set("a", 0, "g", 4)
					case 4:
						w.commit("g", "a", 0, 3)
					case 5:
						w.c.List1("a", 0, -1)
					case 6:
						w.c.Committed("g", "a", 0)
					case 7:
						w.c.Sync("g")
					case 8:
						w.c.Meta(true)
					case 9:
						w.c.Heartbeat()
					case 10:
						w.checkLog("b", 0, 0)
					case 11:
						w.m.Dial().checkLog(w.md, "b", 0, 0)
					case 12:
						w.c.Call(apiVersions, nil, "api versions")
					}
					if d := time.Since(t0); d > slack && !plainMode {
						e.Fail("operation %d took %v while a fetch was waiting", api, d)
					}
					e.Join()
					w.checkAll()
				}
			},
		},
		{
			// schedules of a waiting fetch against a post
			Name: "wait-vs-post", Dev: q(2, 3), Cfg: cfgStmt(),
			Gen: func(p *P) func(e *E) {
				wait := pick(p, int32(0), 30, 1000)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					t0 := time.Now()
					var took time.Duration
					var r fetchRespPart
					var postedAt time.Duration
					e.Begin()
					e.Go("reader", func() {
						r = w.c.Fetch1("a", 0, 0, 1000, wait)
						took = time.Since(t0)
					})
					e.Go("producer", func() {
						w.post("a", 0, nil, []byte("x"), 1)
						postedAt = time.Since(t0)
					})
					e.Join()
					e.End()
					e.Note("%d", len(r.Set))
					if len(r.Set) == 0 && took < time.Duration(wait)*time.Millisecond {
						e.Fail("empty answer after %v with a maximum wait of %dms", took, wait)
					}
					if len(r.Set) == 0 && wait > 100 {
						e.Fail("a record posted at %v was not delivered to a fetch that waited %v", postedAt, took)
					}
					if took > time.Duration(wait)*time.Millisecond+slack || wait > 100 && took > postedAt+slack {
						e.Fail("answered after %v, posted at %v, maximum wait %dms", took, postedAt, wait)
					}
				}
			},
		},
	}
}

func c06() []*Job {
	return []*Job{
		{
			Name: "message-sets", Fix: true, Every: 97,
			Gen: func(p *P) func(e *E) {
				keys := [][]byte{nil, {}, []byte("k"), pat(130, 1)}
				vals := [][]byte{nil, {}, []byte("v"), pat(257, 1), pat(9000, 1)}
				n := 1 + p.Pick(2)
				var ks, vs []int
				var ts []int64
				for i := 0; i < n; i++ {
					ks, vs = append(ks, p.Pick(len(keys))), append(vs, p.Pick(len(vals)))
					ts = append(ts, pick(p, int64(0), 1, 1_700_000_000_000))
				}
				off := p.Pick(n)
				return func(e *E) {
					w := newWorld(e)
					for i := range ks {
						w.post("a", 0, keys[ks[i]], vals[vs[i]], ts[i])
					}
					w.checkLog("a", 0, int64(off)) // decodes strictly
				}
			},
		},
		{
			// multi-partition responses, byte limits that cut at every place
			Name: "cut-sets", Fix: true, Every: 23,
			Gen: func(p *P) func(e *E) {
				a := p.Pick(q(125, 200))
				b := pick(p, 0, 36, 80, 1000)
				unk := p.Pick(3)
				return func(e *E) {
					w := multiWorld(e)
					req := []fetchTop{{"a", []fetchPart{{0, 0, int32(a)}, {1, 0, int32(b)}}}, {"b", []fetchPart{{7, 0, 134}}}}
					switch unk {
					case 1:
						req[0].Parts = append(req[0].Parts, fetchPart{44, 3, 10})
					case 2:
						req = append(req, fetchTop{"", nil}, fetchTop{"zz", []fetchPart{{0, 7, 5}}})
					}
					w.wantFetch(0, req...)
				}
			},
		},
		{
			// every request type over an alphabet of requests, decoded strictly
			Name: "every-response", Fix: true, Every: 5,
			Gen: func(p *P) func(e *E) {
				r := anyRequest(p)
				state := p.Pick(3)
				return func(e *E) {
					w := newWorld(e)
					if state > 0 {
						w.post("a", 0, []byte("k"), []byte("v"), 4)
						w.create(1, "a", "topic-with-a-long-name")
					}
					if state > 1 {
						w.commit("g", "a", 0, 1)
						w.set("a", 1, "g", 77)
					}
					b := w.c.Call(r.api, r.body, r.what)
					if bad := decodeAny(r.api, b); bad != "" {
						e.Fail("%s: malformed response: %s", r.what, bad)
					}
					w.c.NoMore(r.what)
				}
			},
		},
	}
}

type request struct {
	api  int16
	body []byte
	what string
}

// anyRequest enumerates an alphabet of well-formed requests of every type.
func anyRequest(p *P) request {
	rs := allRequests()
	return rs[p.Pick(len(rs))]
}

func allRequests() []request {
	m := int32(1 << 20)
	var rs []request
	add := func(api int16, what string, body []byte) { rs = append(rs, request{api, body, what}) }
	add(apiVersions, "api versions", nil)
	for _, ts := range [][]string{{}, {"a"}, {"a", "zz"}, {""}} {
		add(apiMetadata, fmt.Sprint("metadata ", ts), metaReq(false, ts...))
	}
	add(apiMetadata, "metadata null", metaReq(true))
	for _, g := range []string{"", "g", "group-with-a-rather-long-name"} {
		add(apiFindCoord, "find coordinator "+g, coordReq(g))
		add(apiJoin, "join "+g, joinReq(g, "", "range", "roundrobin"))
		add(apiSync, "sync "+g, syncReq(g, "m", 3))
		add(apiHeartbeat, "heartbeat "+g, heartbeatReq(g, "m", 1))
		add(apiLeave, "leave "+g, leaveReq(g, "m"))
		add(apiOffFetch, "offset fetch "+g, offFetchReq(g, ofTop{"a", []int32{0, 1, 5}}, ofTop{"zz", []int32{0}}))
		add(apiCommit, "commit "+g, commitReq(g, ocTop{"a", []ocPart{{0, 1}, {9, 1}}}, ocTop{"zz", []ocPart{{0, 1}}}))
	}
	add(apiJoin, "join without protocols", joinReq("g", "member-1"))
	add(apiOffFetch, "offset fetch of nothing", offFetchReq("g"))
	add(apiOffFetch, "offset fetch of no partitions", offFetchReq("g", ofTop{"a", nil}))
	add(apiCommit, "commit of nothing", commitReq("g"))
	add(apiCommit, "commit of no partitions", commitReq("g", ocTop{"a", nil}))
	for _, ts := range []int64{-2, -1, 0, 4, 5} {
		add(apiListOffsets, fmt.Sprint("list ", ts), listReq(loTop{"a", []loPart{{0, ts}, {7, ts}}}, loTop{"zz", []loPart{{0, ts}}}))
	}
	add(apiListOffsets, "list nothing", listReq())
	add(apiListOffsets, "list no partitions", listReq(loTop{"a", nil}))
	add(apiFetch, "fetch", fetchReq(0, fetchTop{"a", []fetchPart{{0, 0, m}, {1, 0, m}, {8, 0, m}}}, fetchTop{"zz", []fetchPart{{0, 0, m}}}))
	add(apiFetch, "fetch at end", fetchReq(0, fetchTop{"a", []fetchPart{{0, 1, m}}}))
	add(apiFetch, "fetch with limit 0", fetchReq(0, fetchTop{"a", []fetchPart{{0, 0, 0}}}))
	add(apiFetch, "fetch nothing", fetchReq(0))
	add(apiFetch, "fetch no partitions", fetchReq(0, fetchTop{"a", nil}))
	return rs
}

func c29() []*Job {
	return []*Job{
		{
			Name: "at-rest", Fix: true, Every: 53,
			Gen: func(p *P) func(e *E) {
				n := p.Pick(q(6, 12))
				off := p.Pick(n + 2)
				max := pick(p, int32(0), 35, 36, 70, 71, 105, 1000)
				other := p.Pick(3)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					for i := 0; i < n; i++ {
						w.post("a", 0, nil, []byte{byte(i)}, int64(i))
					}
					for i := 0; i < other; i++ {
						w.post("a", 1, nil, []byte{byte(i)}, int64(i))
					}
					w.wantFetch(0, fetchTop{"a", []fetchPart{{1, 0, 1000}, {0, int64(off), max}}})
				}
			},
			// an offset past the end, unknown partitions and negative offsets do not hide the log end
		},
		{
			Name: "negative-and-unknown",
			Gen: func(p *P) func(e *E) {
				n := p.Pick(4)
				off := pick(p, int64(-1), -2, -1<<63)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					for i := 0; i < n; i++ {
						w.post("a", 0, nil, []byte{byte(i)}, int64(i))
					}
					r := w.c.Fetch(0, fetchTop{"a", []fetchPart{{0, off, 1000}, {0, 0, 1000}}})
					for _, fp := range r[0].Parts {
						if fp.HW != int64(n) {
							e.Fail("high watermark %d, log end %d", fp.HW, n)
						}
					}
				}
			},
		},
		{
			Name: "during-posts", Dev: q(2, 3), Cfg: cfgStmt(), Race: true,
			Gen: func(p *P) func(e *E) {
				max := pick(p, int32(36), 1000)
				wait := pick(p, int32(0), 500)
				pre := p.Pick(2)
				return func(e *E) {
					w := newWorld(e)
					w.create(0, "a")
					for i := 0; i < pre; i++ {
						w.post("a", 0, nil, []byte{byte(i)}, int64(i))
					}
					var fp fetchRespPart
					var before, after int
					started := 0
					done := 0
					e.Begin()
					e.Go("reader", func() {
						before = done
						fp = w.c.Fetch1("a", 0, 0, max, wait)
						after = started
						if fp.HW > 0 { // then there is a record before it
							if end := w.c.End("a", 0); end < fp.HW {
								e.Fail("high watermark %d, but then the latest offset is %d", fp.HW, end)
							}
							last := w.c.Fetch1("a", 0, fp.HW-1, max, 0)
							if len(last.Set) == 0 || last.Set[0].Off != fp.HW-1 || last.HW < fp.HW {
								e.Fail("high watermark %d, but then a fetch at %d answers %+v", fp.HW, fp.HW-1, last)
							}
						}
					})
					e.Go("producer", func() {
						for i := 0; i < 2; i++ {
							started++
							w.post("a", 0, nil, []byte{byte(10 + i)}, 50)
							done++
						}
					})
					e.Join()
					e.End()
					e.Note("%d/%d", len(fp.Set), fp.HW)
					lo := int64(pre + before)
					if n := int64(len(fp.Set)); n > lo {
						lo = n
					}
					if fp.HW < lo || fp.HW > int64(pre+after) {
						e.Fail("high watermark %d, but the log end was between %d and %d while the request was served (%d messages returned)", fp.HW, lo, pre+after, len(fp.Set))
					}
				}
			},
		},
	}
}
