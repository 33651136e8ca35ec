package harness

import (
	"bytes"
	"fmt"
	"sort"
	"time"
)

// The reference model: topics of partitions of records and committed offsets.

type mrec struct {
	key, val []byte
	ts0, ts1 int64 // allowed timestamps
}

type mpart struct {
	recs []mrec
	com  map[string]int64
}

type model map[string]map[int32]*mpart

func (md model) create(t string, p int32) *mpart {
	if md[t] == nil {
		md[t] = map[int32]*mpart{}
	}
	if md[t][p] == nil {
		md[t][p] = &mpart{com: map[string]int64{}}
	}
	return md[t][p]
}

func (md model) get(t string, p int32) *mpart { return md[t][p] }

func (md model) topics() []string {
	var ts []string
	for t := range md {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	return ts
}

func (md model) parts(t string) []int32 {
	var ps []int32
	for p := range md[t] {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
	return ps
}

func show(b []byte) string {
	switch {
	case b == nil:
		return "null"
	case len(b) > 24:
		return fmt.Sprintf("%d bytes %q...", len(b), b[:16])
	}
	return fmt.Sprintf("%q", b)
}

func sameBytes(a, b []byte) bool { return (a == nil) == (b == nil) && bytes.Equal(a, b) }

// diffRec describes how a fetched message differs from the record at offset off.
func diffRec(m msg, r mrec, off int64) string {
	switch {
	case m.Off != off:
		return fmt.Sprintf("carries offset %d, want %d", m.Off, off)
	case !sameBytes(m.Key, r.key):
		return fmt.Sprintf("at offset %d has key %s, posted %s", off, show(m.Key), show(r.key))
	case !sameBytes(m.Val, r.val):
		return fmt.Sprintf("at offset %d has value %s, posted %s", off, show(m.Val), show(r.val))
	case m.Ts < r.ts0 || m.Ts > r.ts1:
		return fmt.Sprintf("at offset %d has timestamp %d, posted with %d..%d", off, m.Ts, r.ts0, r.ts1)
	}
	return ""
}

// diffSet compares a message set with the records from off on.
func diffSet(ms []msg, recs []mrec, off int64) string {
	for i, m := range ms {
		at := off + int64(i)
		if at >= int64(len(recs)) {
			return fmt.Sprintf("%d messages from offset %d, but only %d records were posted", len(ms), off, len(recs))
		}
		if d := diffRec(m, recs[at], at); d != "" {
			return "message " + d
		}
	}
	return ""
}

func recSize(r mrec) int { return 34 + len(r.key) + len(r.val) }

// fitCount is how many records from off fit in max bytes.
func fitCount(recs []mrec, off int64, max int) int {
	n, sum := 0, 0
	for i := int(off); i < len(recs); i++ {
		sum += recSize(recs[i])
		if sum > max {
			break
		}
		n++
	}
	return n
}

// ---- world: a mock, its model and a client ----

type world struct {
	e  *E
	m  *M
	md model
	c  *Cli
	// groups whose offsets are compared by checkAll
	groups []string
}

func newWorld(e *E, groups ...string) *world {
	w := &world{e: e, m: e.StartMock(), md: model{}, groups: groups}
	w.c = w.m.Dial()
	return w
}

func (w *world) create(p int32, topics ...string) {
	w.e.Op()
	w.m.km.CreatePartitionTopics(topics, int(p))
	for _, t := range topics {
		w.md.create(t, p)
	}
}

func (w *world) simple(t string, p int32, key, val []byte) {
	w.e.Op()
	t0 := time.Now().UnixMilli()
	w.m.km.SimplePost(t, int(p), key, val)
	t1 := time.Now().UnixMilli()
	mp := w.md.create(t, p)
	mp.recs = append(mp.recs, mrec{key, val, t0, t1})
}

func (w *world) post(t string, p int32, key, val []byte, ts int64) {
	w.e.Op()
	w.m.km.ExtendedPost(t, int(p), key, val, nil, time.UnixMilli(ts))
	mp := w.md.create(t, p)
	mp.recs = append(mp.recs, mrec{key, val, ts, ts})
}

func (w *world) set(t string, p int32, g string, off int64) {
	w.e.Op()
	w.m.km.SetConsumerGroupOffset(t, int(p), g, off)
	if mp := w.md.get(t, p); mp != nil {
		mp.com[g] = off
	}
}

func (w *world) mcommit(g, t string, p int32, off int64) (known bool) {
	mp := w.md.get(t, p)
	if mp == nil {
		return false
	}
	if mp.com[g] < off {
		mp.com[g] = off
	}
	return true
}

func (w *world) commit(g, t string, p int32, off int64) {
	w.e.Op()
	code := w.c.Commit1(g, t, p, off)
	want := int16(3)
	if w.mcommit(g, t, p, off) {
		want = 0
	}
	if code != want {
		w.e.Fail("commit of %d for %s/%d answered with error %d, want %d", off, t, p, code, want)
	}
}

func (w *world) checkLog(t string, p int32, off int64) {
	w.e.Op()
	w.c.checkLog(w.md, t, p, off)
}

// checkLog reads a partition from off to the end and compares it.
func (c *Cli) checkLog(md model, t string, p int32, off int64) {
	mp := md.get(t, p)
	fp := c.Fetch1(t, p, off, 1<<30, 0)
	var recs []mrec
	if mp != nil {
		recs = mp.recs
	}
	if fp.Err != 0 && mp != nil {
		c.e.Fail("fetch of %s/%d at %d: error %d", t, p, off, fp.Err)
	}
	if d := diffSet(fp.Set, recs, off); d != "" {
		c.e.Fail("fetch of %s/%d at %d: %s", t, p, off, d)
	}
	if want := int64(len(recs)) - off; int64(len(fp.Set)) != want && !(want < 0 && len(fp.Set) == 0) {
		c.e.Fail("fetch of %s/%d at %d: %d messages, want %d", t, p, off, len(fp.Set), want)
	}
}

func sortedTops(a []assignTop) []assignTop {
	for _, t := range a {
		sort.Slice(t.Parts, func(i, j int) bool { return t.Parts[i] < t.Parts[j] })
	}
	sort.Slice(a, func(i, j int) bool { return a[i].Name < a[j].Name })
	return a
}

func (md model) assign() []assignTop {
	var a []assignTop
	for _, t := range md.topics() {
		a = append(a, assignTop{t, md.parts(t)})
	}
	return a
}

// checkAll compares everything observable with the model.
func (w *world) checkAll() { w.c.checkAll(w.md, w.groups...) }

func (c *Cli) checkAll(md model, groups ...string) {
	if got, want := fmt.Sprint(sortedTops(c.Sync("check"))), fmt.Sprint(md.assign()); got != want {
		c.e.Fail("existing topics and partitions: %s, want %s", got, want)
	}
	for _, t := range md.topics() {
		for _, p := range md.parts(t) {
			mp := md[t][p]
			c.checkLog(md, t, p, 0)
			if lo := c.List1(t, p, -1); lo.Err != 0 || lo.Off != int64(len(mp.recs)) {
				c.e.Fail("latest offset of %s/%d: %+v, want %d", t, p, lo, len(mp.recs))
			}
			for _, g := range groups {
				if got := c.Committed(g, t, p); got != mp.com[g] {
					c.e.Fail("committed offset of group %s for %s/%d: %d, want %d", g, t, p, got, mp.com[g])
				}
			}
		}
	}
}
