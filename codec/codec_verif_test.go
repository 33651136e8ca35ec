package kafkamock

// Exhaustive exploration of the wire codec: every value of bounded domains of
// every supported type, in every placement, and every arrival state (every
// strict prefix, fed to one reader that stays alive). The reference bytes come
// from the independent encoder in this file.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"os"
	"reflect"
	"runtime/debug"
	"testing"
	"time"

	"github.com/google/uuid"
)

var (
	vProp   = flag.String("prop", "", "")
	vShard  = flag.Int("shard", 0, "")
	vOf     = flag.Int("of", 1, "")
	vBudget = flag.Duration("budget", time.Minute, "")
	vOut    = flag.String("out", "", "")
	vReplay = flag.String("replay", "", "")
	_       = flag.String("known", "", "")
	vSpec   = flag.String("spec", "", "")
	vVerb   = flag.Bool("vv", false, "")
)

type (
	vSpecT struct {
		Job   string `json:"job"`
		Picks []int  `json:"picks"`
		Devs  []int  `json:"devs"`
	}
	vFail struct {
		Kind string `json:"kind"`
		Msg  string `json:"msg"`
	}
	vCand struct {
		Spec  vSpecT   `json:"spec"`
		Fail  vFail    `json:"fail"`
		Trace []string `json:"trace"`
	}
	vStat struct {
		Job        string `json:"job"`
		Cases      int64  `json:"cases"`
		Execs      int64  `json:"execs"`
		Steps      int64  `json:"steps"`
		Ops        int64  `json:"ops"`
		Nodes      int64  `json:"nodes"`
		Outcomes   int64  `json:"outcomes"`
		DevBound   int    `json:"dev_bound"`
		DevDone    int    `json:"dev_done"`
		Exhaustive bool   `json:"exhaustive"`
		Diverged   int64  `json:"diverged"`
		Unstable   int64  `json:"unstable"`
		Reduced    int64  `json:"reduced"`
	}
	vResult struct {
		Property string   `json:"property"`
		Jobs     []*vStat `json:"jobs"`
		Fail     *vCand   `json:"fail"`
		Known    []vCand  `json:"known"`
		Samples  []string `json:"samples"`
		Complete bool     `json:"complete"`
		Note     string   `json:"note"`
	}

	// one value: what to encode, the reference bytes (nil where the protocol
	// leaves the form to this codec), and the known tag types for tag maps
	vCase struct {
		v      any
		ref    []byte
		tags   map[int]any
		known  map[int]bool
		always func() string // an extra check
	}
	vJob struct {
		name string
		gen  func(yield func(vCase) bool)
	}
)

// ---- reference encoder: standard Kafka primitive types ----

func rInt(n int, v uint64) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

func rVarint(v uint64) (b []byte) {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func rZig(v int64) []byte { return rVarint(uint64(v)<<1 ^ uint64(v>>63)) }

func rStr(s string) []byte { return append(rInt(2, uint64(len(s))), s...) }

func rBytes(s []byte) []byte {
	if s == nil {
		return rInt(4, math.MaxUint64)
	}
	return append(rInt(4, uint64(len(s))), s...)
}

// ref encodes v by the protocol's rules, ok = false for forms whose bytes are
// not prescribed (compact ones).
func ref(v reflect.Value) (out []byte, ok bool) {
	tt := v.Type()
	switch tt {
	case reflect.TypeOf(VarInt(0)), reflect.TypeOf(VarInt64(0)):
		return rZig(v.Int()), true
	case reflect.TypeOf(VarUint(0)), reflect.TypeOf(VarUint64(0)):
		return rVarint(v.Uint()), true
	case reflect.TypeOf(NullableString(nil)):
		if v.IsNil() {
			return rInt(2, math.MaxUint64), true
		}
		return rStr(v.Elem().String()), true
	case reflect.TypeOf(CompactString("")), reflect.TypeOf(CompactNullableString(nil)),
		reflect.TypeOf(CompactNullableBytes(nil)), reflect.TypeOf(CompactBytes(nil)):
		return nil, false
	case reflect.TypeOf(uuid.UUID{}):
		u := v.Interface().(uuid.UUID)
		return u[:], true
	}
	switch tt.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return []byte{1}, true
		}
		return []byte{0}, true
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return rInt(int(tt.Size()), uint64(v.Int())), true
	case reflect.Int:
		return rInt(4, uint64(v.Int())), true
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return rInt(int(tt.Size()), v.Uint()), true
	case reflect.Uint:
		return rInt(4, v.Uint()), true
	case reflect.Float64:
		return rInt(8, math.Float64bits(v.Float())), true
	case reflect.String:
		return rStr(v.String()), true
	case reflect.Slice:
		if tt.Elem().Kind() == reflect.Uint8 {
			return rBytes(v.Bytes()), true
		}
		if v.IsNil() {
			return rInt(4, math.MaxUint64), true
		}
		out = rInt(4, uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			b, ok := ref(v.Index(i))
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, true
	case reflect.Pointer:
		return ref(v.Elem())
	case reflect.Struct:
		for i := 0; i < tt.NumField(); i++ {
			if tag := tt.Field(i).Tag; tag != "" && tag != `kafka:"nullable"` {
				return nil, false
			}
			b, ok := ref(v.Field(i))
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, true
	}
	return nil, false
}

// ---- equality: NaN by its bits, null by nil-ness ----

func same(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		// a null array decodes to no value at all
		return null(a) && null(b)
	}
	if a.Kind() != b.Kind() {
		return false
	}
	switch a.Kind() {
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		if a.Type().Elem().Kind() == reflect.Uint8 {
			return bytes.Equal(a.Bytes(), b.Bytes())
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		if a.Type() != b.Type() {
			return false
		}
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	return a.Interface() == b.Interface()
}

func null(v reflect.Value) bool {
	if !v.IsValid() {
		return true
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Pointer:
		return v.IsNil()
	}
	return false
}

// ---- the stream: a source that can be fed, so that one reader lives through
// every arrival state ----

type feed struct {
	data []byte
	one  bool // hand out a single byte per read
}

func (f *feed) Read(p []byte) (int, error) {
	if len(f.data) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if f.one && n > 1 {
		n = 1
	}
	n = copy(p[:n], f.data)
	f.data = f.data[n:]
	return n, nil
}

func (c *vCase) encode(prefix, suffix []byte) []byte {
	var buf bytes.Buffer
	w := bufio.NewWriterSize(&buf, 16)
	w.Write(prefix)
	if c.tags != nil {
		encodeTags(w, c.tags)
	} else {
		encodeObject(w, c.v)
	}
	w.Write(suffix)
	w.Flush()
	return buf.Bytes()
}

func (c *vCase) decode(r *bufio.Reader, at int) (next int, ok bool) {
	if c.tags != nil {
		fields := map[int]*kafkaField{}
		for id, v := range c.tags {
			if c.known[id] {
				fields[id] = &kafkaField{valType: reflect.TypeOf(v)}
			}
		}
		next, got := peekTags(r, at, fields)
		if next < 0 {
			return next, false
		}
		if len(got) != len(c.tags) {
			return next, false
		}
		for id, v := range c.tags {
			g, has := got[id]
			if !has {
				return next, false
			}
			if c.known[id] {
				if !same(reflect.ValueOf(v), reflect.ValueOf(g)) {
					return next, false
				}
			} else {
				x := vCase{v: v}
				b, isB := g.([]byte)
				if !isB || !bytes.Equal(b, x.encode(nil, nil)) {
					return next, false
				}
			}
		}
		return next, true
	}
	next, got := peekObject(r, at, reflect.TypeOf(c.v))
	if next < 0 {
		return next, false
	}
	return next, same(reflect.ValueOf(c.v), reflect.ValueOf(got))
}

// tail is what is still readable.
func tail(r *bufio.Reader) []byte {
	b, _ := io.ReadAll(r)
	return b
}

var placements = []struct{ pre, suf []byte }{
	{nil, nil},
	{[]byte{0x81}, []byte{0xff, 0xff}},
	{[]byte{0, 0, 0}, []byte{0}},
	{nil, []byte{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80}},
	{[]byte("\x00\x04abcdefghijklmnopqrstuvwxyz0123456789"), []byte{0x7f}},
}

func (c *vCase) roundTrip(st *vStat, places int) string {
	plain := c.encode(nil, nil)
	if c.ref != nil && !bytes.Equal(plain, c.ref) {
		return fmt.Sprintf("encoded as %s, the protocol prescribes %s", hx(plain), hx(c.ref))
	}
	for i, pl := range placements[:places] {
		enc := plain
		if i > 0 {
			enc = c.encode(pl.pre, pl.suf)
			if !bytes.Equal(enc[len(pl.pre):len(enc)-len(pl.suf)], plain) {
				return fmt.Sprintf("encoded differently in placement %d: %s, alone %s", i, hx(enc), hx(plain))
			}
		}
		r := bufio.NewReaderSize(&feed{data: append([]byte(nil), enc...), one: i == 2}, len(enc)+16)
		next, ok := c.decode(r, len(pl.pre))
		st.Execs++
		st.Nodes++
		st.Steps += int64(len(enc))
		if next < 0 {
			return fmt.Sprintf("placement %d: reported incomplete although complete: %s", i, hx(enc))
		}
		if !ok {
			return fmt.Sprintf("placement %d: decoded to a different value from %s", i, hx(enc))
		}
		if next != len(pl.pre)+len(plain) {
			return fmt.Sprintf("placement %d: consumed %d bytes, the value has %d: %s", i, next-len(pl.pre), len(plain), hx(enc))
		}
		if t := tail(r); !bytes.Equal(t, enc) {
			return fmt.Sprintf("placement %d: decoding changed the stream: %s, was %s", i, hx(t), hx(enc))
		}
	}
	return ""
}

// arrival explores the states of the value's arrival: a reader that sees one
// more byte at a time, and for each prefix a fresh reader that then gets the
// whole rest at once.
func (c *vCase) arrival(st *vStat, offsets int) string {
	plain := c.encode(nil, nil)
	pres := [][]byte{nil, {0x80, 1, 2}, []byte("\xff\xff\xff\xff\xff\xff\xff")}
	for _, pre := range pres[:offsets] {
		at := len(pre)
		enc := append(append([]byte(nil), pre...), plain...)
		src := &feed{data: append([]byte(nil), pre...)}
		live := bufio.NewReaderSize(src, len(enc)+16)
		// long data: every byte near both ends, 40 states in between
		step, edge := 1, 300
		if len(enc) > 700 {
			step = len(enc)/40 + 1
		}
		if len(enc) > 5000 {
			edge = 20
		}
		for k := len(pre); k < len(enc); {
			next, _ := c.decode(live, at)
			st.Execs++
			st.Nodes++
			st.Steps++
			if next >= 0 {
				return fmt.Sprintf("%d of %d bytes yield a value: %s", k-at, len(plain), hx(enc[:k]))
			}
			fs := &feed{data: append([]byte(nil), enc[:k]...)}
			fresh := bufio.NewReaderSize(fs, len(enc)+16)
			if next, _ := c.decode(fresh, at); next >= 0 {
				return fmt.Sprintf("%d of %d bytes yield a value: %s", k-at, len(plain), hx(enc[:k]))
			}
			fs.data = append(fs.data, enc[k:]...)
			next, ok := c.decode(fresh, at)
			st.Execs += 2
			if next != len(enc) || !ok {
				return fmt.Sprintf("after an incomplete attempt at %d of %d bytes the whole value decodes to next=%d equal=%v: %s", k-at, len(plain), next, ok, hx(enc))
			}
			if t := tail(fresh); !bytes.Equal(t, enc) {
				return fmt.Sprintf("an incomplete attempt at %d bytes changed the stream: %s, was %s", k-at, hx(t), hx(enc))
			}
			n := 1
			// boundaries get every byte, the middle of long data not
			if step > 1 && k > edge && k < len(enc)-edge {
				n = step
			}
			src.data = append(src.data, enc[k:min(k+n, len(enc))]...)
			k += n
		}
		next, ok := c.decode(live, at)
		st.Execs++
		if next != len(enc) || !ok {
			return fmt.Sprintf("arrived byte by byte it decodes to next=%d equal=%v: %s", next, ok, hx(enc))
		}
		if t := tail(live); !bytes.Equal(t, enc) {
			return fmt.Sprintf("incomplete attempts changed the stream: %s, was %s", hx(t), hx(enc))
		}
	}
	return ""
}

func hx(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x... (%d bytes)", b[:80], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// ---- domains ----

func ints(bits int, full bool) (out []uint64) {
	seen := map[uint64]bool{}
	mask := uint64(math.MaxUint64)
	if bits < 64 {
		mask = 1<<bits - 1
	}
	add := func(v uint64) {
		v &= mask
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for k := 0; k < bits; k++ {
		for d := -2; d <= 2; d++ {
			add(uint64(1)<<k + uint64(d))
			add(-(uint64(1) << k) + uint64(d))
		}
		add(uint64(0x5555555555555555) << k)
		add(uint64(0xff) << k)
	}
	n := uint64(300)
	if full {
		n = 1 << 17
		if thorough() {
			n = 1 << 21
		}
	}
	for v := uint64(0); v < n; v++ {
		add(v)
		add(-v)
	}
	if full {
		// every byte (and every 7-bit group) from a small alphabet
		al := []uint64{0, 1, 0x7f, 0x80, 0xff}
		nb := bits / 8
		if nb == 8 && !thorough() {
			al = []uint64{0, 0x7f, 0x80}
		}
		var rec func(i int, v uint64)
		rec = func(i int, v uint64) {
			if i == nb {
				add(v)
				return
			}
			for _, a := range al {
				rec(i+1, v<<8|a)
			}
		}
		rec(0, 0)
		g := []uint64{0, 1, 0x40, 0x7f}
		if bits == 64 && !thorough() {
			g = []uint64{0, 0x7f}
		}
		ng := (bits + 6) / 7
		var rec7 func(i int, v uint64)
		rec7 = func(i int, v uint64) {
			if i == ng {
				add(v)
				return
			}
			for _, a := range g {
				rec7(i+1, v<<7|a)
			}
		}
		rec7(0, 0)
	}
	return
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// texts are byte strings: all short ones over an alphabet, and every length
// around the places where a length field changes its width or sign.
func texts(max int) (out [][]byte) {
	out = append(out, []byte{})
	al := []byte{0, 'a', 0x7f, 0x80, 0xff}
	depth := 3
	if thorough() {
		depth = 5
	}
	level := [][]byte{{}}
	for d := 0; d < depth; d++ {
		var nl [][]byte
		for _, p := range level {
			for _, a := range al {
				nl = append(nl, append(append([]byte(nil), p...), a))
			}
		}
		out = append(out, nl...)
		level = nl
	}
	for b := 0; b < 256; b++ {
		out = append(out, []byte{byte(b)}, []byte{byte(b), byte(b)})
	}
	lens := []int{}
	for n := 3; n <= 300; n++ {
		lens = append(lens, n)
	}
	for _, b := range []int{511, 1023, 4095, 8190, 8191, 16382, 16383, 32765, 32766} {
		lens = append(lens, b-1, b, b+1)
	}
	if max > 40000 {
		lens = append(lens, 65534, 65535, 65536, 131071)
		if thorough() && *vProp == "C16" {
			lens = append(lens, 1<<20-2, 1<<20-1, 1<<20, 1<<21)
		}
	}
	for _, n := range lens {
		if n > max {
			continue
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + n)
		}
		out = append(out, b)
	}
	return
}

// small gives a few telling values of every supported type.
func small() []any {
	s := "ab"
	e := ""
	c := CompactString("xyz")
	ce := CompactString("")
	id := uuid.UUID{0xff, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 0x80}
	return []any{
		true, int8(-3), int16(-300), int32(math.MinInt32), int64(math.MinInt64 + 5), int(-7), uint8(200), uint16(65535),
		uint32(math.MaxUint32), uint64(math.MaxUint64), uint(4000000000), VarInt(-70000), VarUint(1 << 31), VarInt64(math.MinInt64),
		VarUint64(math.MaxUint64), math.Inf(-1), "hello", e, NullableString(&s), NullableString(nil), CompactString("hi"), CompactString(""),
		CompactNullableString(&c), CompactNullableString(&ce), CompactNullableString(nil), []byte{1, 2, 3}, []byte{}, []byte(nil),
		NullableBytes{9, 8}, NullableBytes{}, NullableBytes(nil), CompactNullableBytes{7}, CompactNullableBytes{}, CompactNullableBytes(nil),
		CompactBytes{5, 6}, CompactBytes{}, CompactBytes(nil),
		id, []int32{1, -1}, []int32{}, []int32(nil), []string{"a", ""}, [][]int16{{1}, {}, {2, 3}}, [][]int16{nil, {4}}, []CompactString{"q", ""},
		[]NullableString{nil, &s}, []uuid.UUID{id}, []VarInt{-1, 1 << 20}, []bool{true, false}, []float64{1.5, math.NaN()},
		[]NullableBytes{nil, {1}, {}}, []testVInner{{A: 1, B: "x"}, {A: 2}}, testVInner{A: 77, B: "in", C: []int8{1}}, &testVInner{A: 78, B: "ptr"},
	}
}

type testVInner struct {
	A int32
	B string
	C []int8
}

type testVTagged struct {
	A int32   `kafka:"compact"`
	B uint32  `kafka:"compact"`
	C int64   `kafka:"compact"`
	D uint64  `kafka:"compact"`
	E string  `kafka:"compact"`
	F []byte  `kafka:"compact"`
	G []int16 `kafka:"compact"`
	H int     `kafka:"compact"`
	I uint    `kafka:"compact"`
	J int32
}

func one(v any) vCase {
	c := vCase{v: v}
	if b, ok := ref(reflect.ValueOf(v)); ok {
		c.ref = b
	}
	return c
}

// num makes the job of one integer type.
func num[T any](name string, vals func() []uint64, conv func(uint64) T) vJob {
	return vJob{name, func(yield func(vCase) bool) {
		for _, v := range vals() {
			if !yield(one(conv(v))) {
				return
			}
		}
	}}
}

func jobs(full bool) []vJob {
	all := func(bits int) func() []uint64 {
		return func() []uint64 {
			if bits <= 16 && full {
				out := make([]uint64, 1<<bits)
				for i := range out {
					out[i] = uint64(i)
				}
				return out
			}
			return ints(bits, full)
		}
	}
	str := func(name string, max int, conv func([]byte) any, null any) vJob {
		return vJob{name, func(yield func(vCase) bool) {
			if null != nil && !yield(one(null)) {
				return
			}
			for _, b := range texts(max) {
				if !yield(one(conv(b))) {
					return
				}
			}
		}}
	}
	js := []vJob{
		{"bool", func(y func(vCase) bool) { _ = y(one(true)) && y(one(false)) }},
		num("int8", all(8), func(v uint64) int8 { return int8(v) }),
		num("uint8", all(8), func(v uint64) uint8 { return uint8(v) }),
		num("int16", all(16), func(v uint64) int16 { return int16(v) }),
		num("uint16", all(16), func(v uint64) uint16 { return uint16(v) }),
		num("int32", all(32), func(v uint64) int32 { return int32(v) }),
		num("uint32", all(32), func(v uint64) uint32 { return uint32(v) }),
		num("int", all(32), func(v uint64) int { return int(int32(v)) }),
		num("uint", all(32), func(v uint64) uint { return uint(uint32(v)) }),
		num("int64", all(64), func(v uint64) int64 { return int64(v) }),
		num("uint64", all(64), func(v uint64) uint64 { return v }),
		num("varint", all(32), func(v uint64) VarInt { return VarInt(v) }),
		num("varuint", all(32), func(v uint64) VarUint { return VarUint(v) }),
		num("varint64", all(64), func(v uint64) VarInt64 { return VarInt64(v) }),
		num("varuint64", all(64), func(v uint64) VarUint64 { return VarUint64(v) }),
		num("float64", all(64), func(v uint64) float64 { return math.Float64frombits(v) }),
		str("string", math.MaxInt16, func(b []byte) any { return string(b) }, nil),
		str("nullable string", math.MaxInt16, func(b []byte) any { s := string(b); return NullableString(&s) }, NullableString(nil)),
		str("compact string", 1<<22, func(b []byte) any { return CompactString(b) }, nil),
		str("compact nullable string", 1<<22, func(b []byte) any { s := CompactString(b); return CompactNullableString(&s) }, CompactNullableString(nil)),
		str("bytes", 1<<16, func(b []byte) any { return b }, []byte(nil)),
		str("nullable bytes", 1<<22, func(b []byte) any { return NullableBytes(b) }, NullableBytes(nil)),
		str("compact nullable bytes", 1<<22, func(b []byte) any { return CompactNullableBytes(b) }, CompactNullableBytes(nil)),
		str("compact bytes", 1<<22, func(b []byte) any { return CompactBytes(b) }, CompactBytes(nil)),
		{"uuid", func(y func(vCase) bool) {
			for i := 0; i < 16; i++ {
				for b := 0; b < 256; b++ {
					u := uuid.UUID{}
					for k := range u {
						u[k] = byte(k * 17)
					}
					u[i] = byte(b)
					if !y(one(u)) {
						return
					}
				}
			}
		}},
	}
	// arrays: null, empty and every length, over every element type, and every
	// short sequence of boundary values
	js = append(js, vJob{"arrays of every type", func(y func(vCase) bool) {
		for _, v := range small() {
			tt := reflect.TypeOf(v)
			if tt.Kind() == reflect.Uint8 {
				continue
			}
			st := reflect.SliceOf(tt)
			if !y(one(reflect.Zero(st).Interface())) {
				return
			}
			for n := 0; n <= 9; n++ {
				a := reflect.MakeSlice(st, n, n)
				for i := 0; i < n; i++ {
					a.Index(i).Set(reflect.ValueOf(v))
				}
				if !y(one(a.Interface())) {
					return
				}
				// and an array of such arrays, with null and empty ones
				sst := reflect.SliceOf(st)
				o := reflect.MakeSlice(sst, 0, 4)
				o = reflect.Append(o, a, reflect.Zero(st), reflect.MakeSlice(st, 0, 0), a)
				if !y(one(o.Interface())) {
					return
				}
			}
		}
	}})
	js = append(js, vJob{"array lengths", func(y func(vCase) bool) {
		lens := []int{127, 128, 129, 255, 256, 257}
		if full {
			lens = append(lens, 32767, 32768, 65535, 65536)
		}
		for n := 0; n <= 70; n++ {
			lens = append(lens, n)
		}
		for _, n := range lens {
			a, b, c, d := make([]int16, n), make([]string, n), make([]VarInt, n), make([]testVInner, n)
			for i := range a {
				a[i], b[i], c[i], d[i] = int16(i*31), fmt.Sprint(i), VarInt(i-100), testVInner{A: int32(i), B: "b", C: []int8{int8(i)}}
			}
			for _, v := range []any{a, b, c, d} {
				if !y(one(v)) {
					return
				}
			}
		}
	}})
	// structures: every combination of field types (nulls and empties are
	// separate entries of the domain)
	structs := func(name string, nf int, wrap int) vJob {
		return vJob{name, func(y func(vCase) bool) {
			dom := small()
			idx := make([]int, nf)
			for {
				var fs []reflect.StructField
				for i, k := range idx {
					fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(dom[k])})
				}
				s := reflect.New(reflect.StructOf(fs)).Elem()
				for i, k := range idx {
					s.Field(i).Set(reflect.ValueOf(dom[k]))
				}
				v := s
				switch wrap {
				case 1: // an array of them
					v = reflect.Append(reflect.MakeSlice(reflect.SliceOf(s.Type()), 0, 2), s, s)
				case 2: // inside another structure, directly and by pointer
					p := reflect.New(s.Type())
					p.Elem().Set(s)
					o := reflect.New(reflect.StructOf([]reflect.StructField{
						{Name: "H", Type: reflect.TypeOf(int16(0))}, {Name: "S", Type: s.Type()},
						{Name: "P", Type: p.Type()}, {Name: "T", Type: reflect.TypeOf("")}})).Elem()
					o.Field(0).SetInt(-2)
					o.Field(1).Set(s)
					o.Field(2).Set(p)
					o.Field(3).SetString("t")
					v = o
				}
				if !y(one(v.Interface())) {
					return
				}
				i := nf - 1
				for ; i >= 0; i-- {
					idx[i]++
					if idx[i] < len(dom) {
						break
					}
					idx[i] = 0
				}
				if i < 0 {
					return
				}
			}
		}}
	}
	js = append(js, structs("structures of one field", 1, 0), structs("arrays of structures", 1, 1), structs("nested structures", 1, 2),
		structs("structures of two fields", 2, 0), structs("arrays of structures of two fields", 2, 1))
	if full && thorough() {
		js = append(js, structs("structures of three fields", 3, 0), structs("nested structures of two fields", 2, 2))
	}
	js = append(js, vJob{"compact fields", func(y func(vCase) bool) {
		n32, n64 := ints(32, false), ints(64, false)
		for i, v := range n64 {
			w := n32[i%len(n32)]
			t := testVTagged{A: int32(w), B: uint32(w), C: int64(v), D: v, E: fmt.Sprint(v), F: rInt(i%300, v), G: make([]int16, i%150), H: int(int32(w)), I: uint(uint32(w)), J: int32(w)}
			if i%7 == 0 {
				t.E = ""
			}
			if i%5 == 0 {
				t.F, t.G = nil, nil
			}
			if !y(one(t)) {
				return
			}
		}
	}})
	// every type under every field tag, in every position of a structure; the
	// types that name their form themselves take no tag
	js = append(js, vJob{"tagged fields", func(y func(vCase) bool) {
		for _, v := range small() {
			tt := reflect.TypeOf(v)
			if tt.Kind() == reflect.Slice && tt.Elem().Kind() == reflect.Uint8 && tt.Name() != "" {
				continue
			}
			for _, tag := range []reflect.StructTag{`kafka:"nullable"`, `kafka:"compact"`, `kafka:"compact,nullable"`, `kafka:"nullable,compact"`} {
				for n := 1; n <= 3; n++ {
					for mask := 1; mask < 1<<n; mask++ {
						var fs []reflect.StructField
						for i := 0; i < n; i++ {
							f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(int16(0))}
							if mask>>i&1 == 1 {
								f.Type, f.Tag = tt, tag
							}
							fs = append(fs, f)
						}
						s := reflect.New(reflect.StructOf(fs)).Elem()
						for i := 0; i < n; i++ {
							if mask>>i&1 == 1 {
								s.Field(i).Set(reflect.ValueOf(v))
							} else {
								s.Field(i).SetInt(int64(-2 - i))
							}
						}
						o := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "S", Type: s.Type()}, {Name: "T", Type: reflect.TypeOf("")}})).Elem()
						o.Field(0).Set(s)
						o.Field(1).SetString("t")
						if !y(one(s.Interface())) || !y(one(o.Interface())) || !y(one(reflect.Append(reflect.MakeSlice(reflect.SliceOf(s.Type()), 0, 2), s, s).Interface())) {
							return
						}
					}
				}
			}
		}
	}})
	// tags: every subset of a set of ids, every value type, known and unknown
	js = append(js, vJob{"tags", func(y func(vCase) bool) {
		ids := []int{0, 1, 127, 128, 16384, math.MaxInt32}
		if !y(vCase{tags: map[int]any{}}) {
			return
		}
		for _, v := range small() {
			for k := 0; k < 2; k++ {
				for _, id := range ids {
					if !y(vCase{tags: map[int]any{id: v}, known: map[int]bool{id: k == 0}}) {
						return
					}
				}
			}
		}
		vals := []any{"", int32(-1), CompactString("abc"), []byte(nil), testVInner{A: 3, B: "z"}, make([]int16, 100)}
		for set := 0; set < 1<<len(ids); set++ {
			for mask := 0; mask < 1<<len(ids); mask++ {
				if mask&^set != 0 {
					continue
				}
				c := vCase{tags: map[int]any{}, known: map[int]bool{}}
				for i, id := range ids {
					if set>>i&1 == 1 {
						c.tags[id] = vals[(i+set)%len(vals)]
						c.known[id] = mask>>i&1 == 1
					}
				}
				if !y(c) {
					return
				}
			}
		}
	}})
	return js
}

func (c *vCase) check(st *vStat, small bool) (f *vFail) {
	defer func() {
		if r := recover(); r != nil {
			f = &vFail{"panic", fmt.Sprintf("%s: %v\n%s", c.desc(), r, debug.Stack())}
		}
	}()
	msg := ""
	if *vProp == "C16" {
		n := len(placements)
		if small {
			n = 3
		}
		msg = c.roundTrip(st, n)
	} else {
		n := 3
		if small {
			n = 2
		}
		msg = c.arrival(st, n)
	}
	if msg != "" {
		return &vFail{"codec", c.desc() + ": " + msg}
	}
	return nil
}

func (c *vCase) desc() string {
	s := fmt.Sprintf("%T(%#v)", c.v, c.v)
	if c.tags != nil {
		s = fmt.Sprintf("tags %#v known %v", c.tags, c.known)
	}
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func TestExplore(t *testing.T) {
	debug.SetGCPercent(400)
	js := jobs(*vProp == "C16" || thorough())
	if *vReplay != "" {
		b, err := os.ReadFile(*vReplay)
		if err != nil {
			t.Fatal(err)
		}
		var c vCand
		if err := json.Unmarshal(b, &c); err != nil {
			t.Fatal(err)
		}
		for _, j := range js {
			if j.name != c.Spec.Job {
				continue
			}
			i := 0
			j.gen(func(vc vCase) bool {
				if i == c.Spec.Picks[0] {
					if f := vc.check(&vStat{}, false); f != nil {
						fmt.Printf("REPLAY-FAIL %s %.400q\n", f.Kind, f.Msg)
					} else {
						fmt.Println("REPLAY-PASS")
					}
					return false
				}
				i++
				return true
			})
			return
		}
		fmt.Println("REPLAY-NOJOB")
		return
	}
	res := &vResult{Property: *vProp}
	deadline := time.Now().Add(*vBudget)
	var specFile *os.File
	if *vSpec != "" {
		specFile, _ = os.Create(*vSpec)
	}
	write := func() {
		if *vOut != "" {
			b, _ := json.Marshal(res)
			os.WriteFile(*vOut, b, 0o644)
		}
	}
	for _, j := range js {
		st := &vStat{Job: j.name, Exhaustive: true}
		res.Jobs = append(res.Jobs, st)
		i := 0
		distinct := map[uint64]bool{}
		sampled := false
		t0 := time.Now()
		j.gen(func(c vCase) bool {
			at := i
			i++
			if at%*vOf != *vShard {
				return true
			}
			if time.Now().After(deadline) {
				st.Exhaustive = false
				return false
			}
			if specFile != nil && at%64 < *vOf {
				sp, _ := json.Marshal(vSpecT{Job: j.name, Picks: []int{at}})
				specFile.WriteAt(append(sp, '\n'), 0)
				specFile.Truncate(int64(len(sp)))
			}
			st.Cases++
			st.Ops++
			f := c.check(st, st.Cases > 2000)
			if !thoroughBig(st.Cases) {
				h := fnv.New64a()
				func() {
					defer func() { recover() }()
					h.Write(c.encode(nil, nil))
				}()
				distinct[h.Sum64()] = true
			}
			if !sampled && at > 3 {
				sampled = true
				if len(res.Samples) < 40 {
					res.Samples = append(res.Samples, j.name+": "+c.desc())
				}
			}
			if f != nil {
				res.Fail = &vCand{Spec: vSpecT{Job: j.name, Picks: []int{at}}, Fail: *f}
				return false
			}
			return true
		})
		st.Outcomes = int64(len(distinct))
		if *vVerb {
			b, _ := json.Marshal(st)
			fmt.Println(string(b), time.Since(t0).Round(time.Millisecond))
		}
		if res.Fail != nil {
			break
		}
	}
	res.Complete = true
	write()
	if res.Fail != nil && *vVerb {
		fmt.Println(res.Fail.Spec, res.Fail.Fail.Msg)
	}
}

func thoroughBig(n int64) bool { return n > 200000 }
