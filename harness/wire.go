package harness

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"math"
)

// W writes Kafka primitive types.
type W struct{ b []byte }

func (w *W) i8(v int8) *W   { w.b = append(w.b, byte(v)); return w }
func (w *W) i16(v int16) *W { w.b = binary.BigEndian.AppendUint16(w.b, uint16(v)); return w }
func (w *W) i32(v int32) *W { w.b = binary.BigEndian.AppendUint32(w.b, uint32(v)); return w }
func (w *W) i64(v int64) *W { w.b = binary.BigEndian.AppendUint64(w.b, uint64(v)); return w }
func (w *W) str(s string) *W {
	if len(s) > math.MaxInt16 {
		panic("string too long")
	}
	w.i16(int16(len(s)))
	w.b = append(w.b, s...)
	return w
}
func (w *W) nullStr() *W { return w.i16(-1) }
func (w *W) bytes(b []byte) *W {
	if b == nil {
		return w.i32(-1)
	}
	w.i32(int32(len(b)))
	w.b = append(w.b, b...)
	return w
}
func (w *W) raw(b []byte) *W { w.b = append(w.b, b...); return w }

// wireErr is raised by the strict decoder.
type wireErr string

// R reads Kafka primitive types strictly.
type R struct {
	b   []byte
	off int
}

func (r *R) bad(f string, a ...any) { panic(wireErr(fmt.Sprintf(f, a...))) }

func (r *R) take(n int) []byte {
	if n < 0 || r.off+n > len(r.b) {
		r.bad("response is missing bytes: need %d at %d of %d", n, r.off, len(r.b))
	}
	x := r.b[r.off : r.off+n]
	r.off += n
	return x
}

func (r *R) i8() int8   { return int8(r.take(1)[0]) }
func (r *R) i16() int16 { return int16(binary.BigEndian.Uint16(r.take(2))) }
func (r *R) i32() int32 { return int32(binary.BigEndian.Uint32(r.take(4))) }
func (r *R) i64() int64 { return int64(binary.BigEndian.Uint64(r.take(8))) }

func (r *R) str() string {
	n := r.i16()
	if n < 0 {
		r.bad("null for a non-nullable string at %d", r.off)
	}
	return string(r.take(int(n)))
}

func (r *R) nstr() *string {
	n := r.i16()
	if n == -1 {
		return nil
	}
	if n < 0 {
		r.bad("bad string length %d", n)
	}
	s := string(r.take(int(n)))
	return &s
}

func (r *R) nbytes() []byte {
	n := r.i32()
	if n == -1 {
		return nil
	}
	if n < 0 {
		r.bad("bad bytes length %d", n)
	}
	return append([]byte{}, r.take(int(n))...)
}

func (r *R) arr() int {
	n := r.i32()
	if n < -1 || int(n) > len(r.b) {
		r.bad("bad array length %d", n)
	}
	if n < 0 {
		return 0
	}
	return int(n)
}

func (r *R) boolean() bool {
	switch b := r.take(1)[0]; b {
	case 0:
		return false
	case 1:
		return true
	default:
		r.bad("bad boolean %d", b)
	}
	return false
}

func (r *R) done() {
	if r.off != len(r.b) {
		r.bad("%d bytes left over after the response", len(r.b)-r.off)
	}
}

// decode runs f strictly and returns the violation, if any.
func decode(b []byte, f func(r *R)) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(wireErr); ok {
				msg = string(e)
				return
			}
			panic(x)
		}
	}()
	r := &R{b: b}
	f(r)
	r.done()
	return ""
}

// ---- requests ----

const (
	apiFetch       = 1
	apiListOffsets = 2
	apiMetadata    = 3
	apiCommit      = 8
	apiOffFetch    = 9
	apiFindCoord   = 10
	apiJoin        = 11
	apiHeartbeat   = 12
	apiLeave       = 13
	apiSync        = 14
	apiVersions    = 18
)

var served = map[int16]int16{apiFetch: 2, apiListOffsets: 1, apiMetadata: 1, apiCommit: 2, apiOffFetch: 1,
	apiFindCoord: 0, apiJoin: 1, apiHeartbeat: 0, apiLeave: 0, apiSync: 0, apiVersions: 0}

func frame(api, ver int16, corr int32, client *string, body []byte) []byte {
	w := &W{}
	w.i32(0).i16(api).i16(ver).i32(corr)
	if client == nil {
		w.nullStr()
	} else {
		w.str(*client)
	}
	w.raw(body)
	binary.BigEndian.PutUint32(w.b, uint32(len(w.b)-4))
	return w.b
}

type fetchPart struct {
	P   int32
	Off int64
	Max int32
}
type fetchTop struct {
	Name  string
	Parts []fetchPart
}

func fetchReq(wait int32, tops ...fetchTop) []byte {
	w := &W{}
	w.i32(-1).i32(wait).i32(1).i32(int32(len(tops)))
	for _, t := range tops {
		w.str(t.Name).i32(int32(len(t.Parts)))
		for _, p := range t.Parts {
			w.i32(p.P).i64(p.Off).i32(p.Max)
		}
	}
	return w.b
}

type msg struct {
	Off      int64
	Attr     int8
	Ts       int64
	Key, Val []byte
	Size     int // bytes on the wire including offset and size field
}
type fetchRespPart struct {
	P    int32
	Err  int16
	HW   int64
	Set  []msg
	Size int32
}
type fetchRespTop struct {
	Name  string
	Parts []fetchRespPart
}

// decodeSet decodes a message set strictly (every message whole and valid).
func decodeSet(r *R, size int32) (ms []msg) {
	if size < 0 {
		r.bad("record set length %d", size)
	}
	set := &R{b: r.take(int(size))}
	for set.off < len(set.b) {
		start := set.off
		m := msg{Off: set.i64()}
		n := set.i32()
		if n < 14 || set.off+int(n) > len(set.b) {
			r.bad("message at record-set position %d declares %d bytes, %d follow", start, n, len(set.b)-set.off)
		}
		body := &R{b: set.take(int(n))}
		crc := uint32(body.i32())
		if c := crc32.ChecksumIEEE(body.b[4:]); c != crc {
			r.bad("message %d: checksum %08x, computed %08x", m.Off, crc, c)
		}
		if mg := body.i8(); mg != 1 {
			r.bad("message %d: magic %d", m.Off, mg)
		}
		if m.Attr = body.i8(); m.Attr != 0 {
			r.bad("message %d: attributes %d", m.Off, m.Attr)
		}
		m.Ts = body.i64()
		m.Key = body.nbytes()
		m.Val = body.nbytes()
		body.done()
		m.Size = set.off - start
		ms = append(ms, m)
	}
	return
}

func fetchResp(b []byte) (tops []fetchRespTop, bad string) {
	bad = decode(b, func(r *R) {
		if th := r.i32(); th != 0 {
			r.bad("throttle time %d", th)
		}
		for i, n := 0, r.arr(); i < n; i++ {
			t := fetchRespTop{Name: r.str()}
			for j, k := 0, r.arr(); j < k; j++ {
				p := fetchRespPart{P: r.i32(), Err: r.i16(), HW: r.i64()}
				p.Size = r.i32()
				p.Set = decodeSet(r, p.Size)
				t.Parts = append(t.Parts, p)
			}
			tops = append(tops, t)
		}
	})
	return
}

type loPart struct {
	P  int32
	Ts int64
}
type loTop struct {
	Name  string
	Parts []loPart
}

func listReq(tops ...loTop) []byte {
	w := &W{}
	w.i32(-1).i32(int32(len(tops)))
	for _, t := range tops {
		w.str(t.Name).i32(int32(len(t.Parts)))
		for _, p := range t.Parts {
			w.i32(p.P).i64(p.Ts)
		}
	}
	return w.b
}

type loRespPart struct {
	P   int32
	Err int16
	Ts  int64
	Off int64
}
type loRespTop struct {
	Name  string
	Parts []loRespPart
}

func listResp(b []byte) (tops []loRespTop, bad string) {
	bad = decode(b, func(r *R) {
		for i, n := 0, r.arr(); i < n; i++ {
			t := loRespTop{Name: r.str()}
			for j, k := 0, r.arr(); j < k; j++ {
				t.Parts = append(t.Parts, loRespPart{r.i32(), r.i16(), r.i64(), r.i64()})
			}
			tops = append(tops, t)
		}
	})
	return
}

type ocPart struct {
	P   int32
	Off int64
}
type ocTop struct {
	Name  string
	Parts []ocPart
}

func commitReq(group string, tops ...ocTop) []byte {
	w := &W{}
	w.str(group).i32(0).str("m").i64(-1).i32(int32(len(tops)))
	for _, t := range tops {
		w.str(t.Name).i32(int32(len(t.Parts)))
		for i, p := range t.Parts {
			w.i32(p.P).i64(p.Off)
			if i%2 == 0 {
				w.nullStr()
			} else {
				w.str("meta")
			}
		}
	}
	return w.b
}

type ocRespPart struct {
	P   int32
	Err int16
}
type ocRespTop struct {
	Name  string
	Parts []ocRespPart
}

func commitResp(b []byte) (tops []ocRespTop, bad string) {
	bad = decode(b, func(r *R) {
		for i, n := 0, r.arr(); i < n; i++ {
			t := ocRespTop{Name: r.str()}
			for j, k := 0, r.arr(); j < k; j++ {
				t.Parts = append(t.Parts, ocRespPart{r.i32(), r.i16()})
			}
			tops = append(tops, t)
		}
	})
	return
}

type ofTop struct {
	Name  string
	Parts []int32
}

func offFetchReq(group string, tops ...ofTop) []byte {
	w := &W{}
	w.str(group).i32(int32(len(tops)))
	for _, t := range tops {
		w.str(t.Name).i32(int32(len(t.Parts)))
		for _, p := range t.Parts {
			w.i32(p)
		}
	}
	return w.b
}

type ofRespPart struct {
	P    int32
	Off  int64
	Meta *string
	Err  int16
}
type ofRespTop struct {
	Name  string
	Parts []ofRespPart
}

func offFetchResp(b []byte) (tops []ofRespTop, bad string) {
	bad = decode(b, func(r *R) {
		for i, n := 0, r.arr(); i < n; i++ {
			t := ofRespTop{Name: r.str()}
			for j, k := 0, r.arr(); j < k; j++ {
				t.Parts = append(t.Parts, ofRespPart{r.i32(), r.i64(), r.nstr(), r.i16()})
			}
			tops = append(tops, t)
		}
	})
	return
}

func syncReq(group, member string, gen int32) []byte {
	w := &W{}
	return w.str(group).i32(gen).str(member).i32(0).b
}

type assignTop struct {
	Name  string
	Parts []int32
}

func syncResp(b []byte) (errCode int16, tops []assignTop, bad string) {
	var a []byte
	bad = decode(b, func(r *R) {
		errCode = r.i16()
		a = r.nbytes()
	})
	if bad != "" {
		return
	}
	bad = decode(a, func(r *R) {
		if v := r.i16(); v < 0 || v > 3 {
			r.bad("assignment version %d", v)
		}
		for i, n := 0, r.arr(); i < n; i++ {
			t := assignTop{Name: r.str()}
			for j, k := 0, r.arr(); j < k; j++ {
				t.Parts = append(t.Parts, r.i32())
			}
			tops = append(tops, t)
		}
		r.nbytes() // user data
	})
	return
}

func joinReq(group, member string, protos ...string) []byte {
	w := &W{}
	w.str(group).i32(30000).i32(60000).str(member).str("consumer").i32(int32(len(protos)))
	for _, p := range protos {
		w.str(p).bytes([]byte{0, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff})
	}
	return w.b
}

type joinRsp struct {
	Err     int16
	Gen     int32
	Proto   string
	Leader  string
	Member  string
	Members []string
}

func joinResp(b []byte) (j joinRsp, bad string) {
	bad = decode(b, func(r *R) {
		j.Err, j.Gen, j.Proto, j.Leader, j.Member = r.i16(), r.i32(), r.str(), r.str(), r.str()
		for i, n := 0, r.arr(); i < n; i++ {
			j.Members = append(j.Members, r.str())
			r.nbytes()
		}
	})
	return
}

func heartbeatReq(group, member string, gen int32) []byte {
	return (&W{}).str(group).i32(gen).str(member).b
}

func leaveReq(group, member string) []byte { return (&W{}).str(group).str(member).b }

func errResp(b []byte) (code int16, bad string) {
	bad = decode(b, func(r *R) { code = r.i16() })
	return
}

func metaReq(null bool, topics ...string) []byte {
	w := &W{}
	if null {
		return w.i32(-1).b
	}
	w.i32(int32(len(topics)))
	for _, t := range topics {
		w.str(t)
	}
	return w.b
}

type metaBroker struct {
	Id   int32
	Host string
	Port int32
}
type metaPart struct {
	Err           int16
	P             int32
	Leader        int32
	Replicas, Isr []int32
}
type metaTop struct {
	Err      int16
	Name     string
	Internal bool
	Parts    []metaPart
}
type metaRsp struct {
	Brokers    []metaBroker
	Controller int32
	Tops       []metaTop
}

func metaResp(b []byte) (m metaRsp, bad string) {
	bad = decode(b, func(r *R) {
		for i, n := 0, r.arr(); i < n; i++ {
			m.Brokers = append(m.Brokers, metaBroker{r.i32(), r.str(), r.i32()})
			r.nstr()
		}
		m.Controller = r.i32()
		for i, n := 0, r.arr(); i < n; i++ {
			t := metaTop{Err: r.i16(), Name: r.str(), Internal: r.boolean()}
			for j, k := 0, r.arr(); j < k; j++ {
				p := metaPart{Err: r.i16(), P: r.i32(), Leader: r.i32()}
				for a, z := 0, r.arr(); a < z; a++ {
					p.Replicas = append(p.Replicas, r.i32())
				}
				for a, z := 0, r.arr(); a < z; a++ {
					p.Isr = append(p.Isr, r.i32())
				}
				t.Parts = append(t.Parts, p)
			}
			m.Tops = append(m.Tops, t)
		}
	})
	return
}

func coordReq(group string) []byte { return (&W{}).str(group).b }

type coordRsp struct {
	Err  int16
	Id   int32
	Host string
	Port int32
}

func coordResp(b []byte) (c coordRsp, bad string) {
	bad = decode(b, func(r *R) { c = coordRsp{r.i16(), r.i32(), r.str(), r.i32()} })
	return
}

type apiRange struct{ Key, Min, Max int16 }

func versionsResp(b []byte) (code int16, rs []apiRange, bad string) {
	bad = decode(b, func(r *R) {
		code = r.i16()
		for i, n := 0, r.arr(); i < n; i++ {
			rs = append(rs, apiRange{r.i16(), r.i16(), r.i16()})
		}
	})
	return
}

// decodeAny decodes a response of any served type strictly.
func decodeAny(api int16, b []byte) (bad string) {
	switch api {
	case apiFetch:
		_, bad = fetchResp(b)
	case apiListOffsets:
		_, bad = listResp(b)
	case apiMetadata:
		_, bad = metaResp(b)
	case apiCommit:
		_, bad = commitResp(b)
	case apiOffFetch:
		_, bad = offFetchResp(b)
	case apiFindCoord:
		_, bad = coordResp(b)
	case apiJoin:
		_, bad = joinResp(b)
	case apiSync:
		_, _, bad = syncResp(b)
	case apiHeartbeat, apiLeave:
		_, bad = errResp(b)
	case apiVersions:
		_, _, bad = versionsResp(b)
	}
	return
}
