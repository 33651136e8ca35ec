// Package vs is the controlled scheduler: every goroutine of the code under
// test and of the driver is a managed thread; exactly one runs at a time, and
// control changes hands only at scheduling points. An execution lives in a
// testing/synctest bubble, so time is virtual.
//
// This package (and vnet) is compiled without race instrumentation, and its
// hand-offs are hidden from the race detector, so that in -race builds only
// the happens-before edges of the code under test count.
package vs

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"
)

type Kind uint8

const (
	KStart Kind = iota
	KLock
	KAtomic
	KWG
	KNet
	KSleep
	KChan
	KStmt
	KUser
	KCond
)

var kindNames = [...]string{"start", "lock", "atomic", "wg", "net", "sleep", "chan", "stmt", "user", "cond"}

func (k Kind) String() string { return kindNames[k] }

const (
	stRunning = iota
	stParked
	stNative // inside a native channel operation
	stDone
)

// Thread is a managed goroutine.
type Thread struct {
	ID       int
	Name     string
	Driver   bool
	wake     chan struct{}
	state    int
	kind     Kind
	obj      uintptr
	site     uintptr
	pred     func() bool
	deadline time.Time
	dlFn     func() time.Time
	dying    bool
	started  bool
	demoted  bool
}

// Dev is one deviation from the default schedule: at decision Pos take
// alternative Alt. Sig guards against divergence while replaying.
type Dev struct {
	Pos int    `json:"pos"`
	Alt int    `json:"alt"`
	Sig uint32 `json:"sig"`
}

// Decision is a recorded point with more than one alternative.
type Decision struct {
	N       int     // number of alternatives
	Chosen  int     // taken
	Cost    int     // cost of taking a non-default alternative
	Site    uintptr // pending operation of the thread that would be preempted (0: always relevant)
	Sig     uint32
	running bool
}

type Config struct {
	MaxSteps    int           // livelock verdict
	MaxVirtual  time.Duration // no-progress verdict
	FreeSwitch  bool          // a non-default choice costs nothing when the previous thread blocked
	Stmt        bool          // statement-level scheduling points
	Tick        time.Duration // if > 0: "time passes" is an alternative at decisions
	Demote      bool          // a preempted thread waits until no other can run
	Turned      bool          // by default, the code's own threads go first and the driver's in reverse order
	RevMaps     bool          // iterate maps in reverse key order
	Free        bool          // no scheduling control (unmanaged client library)
	Trace       bool
	EveryFair   int // consecutive steps before a forced switch
	AllDecision bool
	CrashOK     bool // a panic of the code under test is recorded, not a failure
}

type Failure struct {
	Kind string `json:"kind"` // oracle, crash, deadlock, livelock, stuck, race
	Msg  string `json:"msg"`
}

// Ticks counts the steps of all executions (a watchdog looks at it).
var Ticks atomic.Int64

type Result struct {
	Decisions []Decision
	Steps     int
	Fail      *Failure
	Diverged  bool
	Outcome   string
	Trace     []string
	Leaked    int
	SitePairs []siteObj
}

type siteObj struct {
	site uintptr
	obj  uintptr
	mask uint64
}

type Sched struct {
	cfg          Config
	teardown     byte
	T            *testing.T
	threads      []*Thread
	nthreads     int
	last         *Thread
	devs         []Dev
	devIdx       int
	dec          []Decision
	steps        int
	consec       int
	exploring    bool
	fail         *Failure
	diverged     bool
	aborting     bool
	abortCh      chan struct{}
	arrive       chan struct{}
	mainTh       *Thread
	outcome      string
	trace        []string
	objs         []siteObj
	objIdx       map[[2]uintptr]int
	events       int64
	epoch        int64
	start        time.Time
	wg           sync.WaitGroup
	raceBase     int
	lastProgress time.Time
	progressSeen int64
	crashes      int
}

var (
	S         *Sched // current execution, nil outside
	epochCtr  int64
	onReset   []func()
	sharedSet = map[uintptr]bool{} // sites that touch an object used by two or more threads
)

// OnReset registers a hook run at the start of every execution.
func OnReset(f func()) { onReset = append(onReset, f) }

//go:linkname setProfLabel runtime/pprof.runtime_setProfLabel
func setProfLabel(p unsafe.Pointer)

//go:linkname getProfLabel runtime/pprof.runtime_getProfLabel
func getProfLabel() unsafe.Pointer

// cur returns the managed thread of the calling goroutine, or nil.
func cur() *Thread {
	if S == nil || S.cfg.Free {
		return nil
	}
	raceOff()
	p := getProfLabel()
	raceOn()
	return (*Thread)(p)
}

func setCur(t *Thread) {
	raceOff()
	setProfLabel(unsafe.Pointer(t))
	raceOn()
}

// Epoch identifies the current execution (0: none).
func Epoch() int64 {
	if S == nil {
		return 0
	}
	return S.epoch
}

// Managed reports whether the caller is under scheduler control.
func Managed() bool { return cur() != nil }

// Dying reports whether the calling thread is being torn down.
func Dying() bool {
	t := cur()
	return t != nil && t.dying
}

func CurThread() *Thread { return cur() }

func callsite(skip int) uintptr {
	var pcs [1]uintptr
	if runtime.Callers(skip+2, pcs[:]) == 0 {
		return 0
	}
	return pcs[0]
}

// ---- threads ----

func (s *Sched) newThread(name string, driver bool) *Thread {
	t := &Thread{ID: s.nthreads, Name: name, Driver: driver, wake: make(chan struct{}, 1), state: stParked, kind: KStart}
	s.threads = append(s.threads, t)
	s.nthreads++
	return t
}

func (s *Sched) spawn(name string, driver bool, f func()) *Thread {
	t := s.newThread(name, driver)
	s.wg.Add(1)
	go s.body(t, f)
	return t
}

func (s *Sched) body(t *Thread, f func()) {
	setCur(t)
	defer s.wg.Done()
	defer func() {
		r := recover()
		if r != nil && !t.dying {
			if _, is := r.(failSentinel); !is {
				s.crashes++
				if !s.cfg.CrashOK || t.Driver {
					s.setFail("crash", fmt.Sprintf("panic in %s: %v\n%s", t.Name, r, trimStack(debug.Stack())))
				}
			}
		}
		if t.Driver {
			RaceRelease(unsafe.Pointer(&s.events))
		}
		RaceRelease(unsafe.Pointer(&s.teardown))
		t.state = stDone
		setCur(nil)
	}()
	s.park(t)
	t.started = true
	f()
}

func trimStack(b []byte) string {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

type failSentinel struct{}

func (s *Sched) setFail(kind, msg string) {
	if s.fail == nil {
		s.fail = &Failure{kind, msg}
	}
}

// park hands control to the scheduler until it wakes this thread.
func (s *Sched) park(t *Thread) {
	if t.dying {
		return
	}
	t.state = stParked
	RaceRelease(unsafe.Pointer(&s.teardown))
	select {
	case s.arrive <- struct{}{}:
	default:
	}
	raceOff()
	<-t.wake
	raceOn()
	t.state = stRunning
	if s.aborting {
		t.dying = true
		// the locks are not taken any more: order the end of the execution
		RaceAcquire(unsafe.Pointer(&s.teardown))
		runtime.Goexit()
	}
}

// Go starts a managed goroutine.
func Go(f func()) {
	s := S
	t := cur()
	if s == nil || s.cfg.Free || t == nil {
		go f()
		return
	}
	if t.dying {
		return
	}
	s.spawn(fmt.Sprintf("g%d", s.nthreads), false, f)
}

// Adopt runs f as a managed thread on the calling (unmanaged) goroutine.
func Adopt(f func()) {
	s := S
	if s == nil || s.cfg.Free || s.aborting {
		f()
		return
	}
	t := s.newThread(fmt.Sprintf("cb%d", s.nthreads), false)
	s.wg.Add(1)
	s.body(t, f)
}

// ---- points ----

// Point is a scheduling point before an operation on obj.
func Point(k Kind, obj uintptr, skip int) {
	t := cur()
	if t == nil || t.dying {
		return
	}
	t.kind, t.obj, t.site = k, obj, callsite(skip+1)
	t.pred, t.deadline = nil, time.Time{}
	S.park(t)
}

// Stmt is a statement-level scheduling point (inserted by the rewriter).
func Stmt() {
	if S == nil || !S.cfg.Stmt || !S.exploring {
		return
	}
	t := cur()
	if t == nil || t.dying {
		return
	}
	t.kind, t.obj, t.site = KStmt, 0, 0
	t.pred, t.deadline = nil, time.Time{}
	S.park(t)
}

// WaitOp parks until pred holds (nil: never) or the deadline (zero: none) has passed.
// It reports whether pred held when the thread was resumed.
func WaitOp(k Kind, obj uintptr, skip int, pred func() bool, deadline time.Time) bool {
	t := cur()
	if t == nil || t.dying {
		return true
	}
	t.kind, t.obj, t.site = k, obj, callsite(skip+1)
	if pred == nil {
		pred = never
	}
	t.pred, t.deadline = pred, deadline
	S.park(t)
	ok := pred()
	t.pred, t.deadline = nil, time.Time{}
	return ok
}

// WaitOpDyn is WaitOp with a deadline that may change while waiting.
func WaitOpDyn(k Kind, obj uintptr, skip int, pred func() bool, dl func() time.Time) {
	t := cur()
	if t == nil || t.dying {
		return
	}
	t.kind, t.obj, t.site = k, obj, callsite(skip+1)
	t.pred, t.dlFn = pred, dl
	S.park(t)
	t.pred, t.dlFn, t.deadline = nil, nil, time.Time{}
}

func never() bool { return false }

// Sleep is the managed time.Sleep.
func Sleep(d time.Duration) {
	t := cur()
	if t == nil {
		time.Sleep(d)
		return
	}
	if t.dying {
		return
	}
	if d < 0 {
		d = 0
	}
	WaitOp(KSleep, 0, 1, nil, time.Now().Add(d))
}

func Gosched() {
	if cur() == nil {
		runtime.Gosched()
		return
	}
	Point(KUser, 0, 1)
}

// ---- channels ----

func enterNative() *Thread {
	t := cur()
	if t == nil || t.dying {
		return t
	}
	Point(KChan, 0, 2)
	t.state = stNative
	return t
}

func leaveNative(t *Thread) {
	if t == nil || t.dying {
		return
	}
	t.kind, t.obj, t.site = KChan, 0, 0
	t.pred = nil
	S.park(t)
}

// SelectBefore precedes a rewritten select statement.
func SelectBefore() { enterNative() }

// SelectAfter is the first statement of every select case.
func SelectAfter() { leaveNative(cur()) }

// AbortCh is an extra case in every blocking select.
func AbortCh() <-chan struct{} {
	if S == nil {
		return nil
	}
	return S.abortCh
}

func Exit() {
	t := cur()
	if t != nil {
		t.dying = true
	}
	runtime.Goexit()
}

func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

func Recv2[T any](c <-chan T) (T, bool) {
	t := enterNative()
	select {
	case v, ok := <-c:
		leaveNative(t)
		return v, ok
	case <-AbortCh():
		Exit()
	}
	panic("unreachable")
}

// Send is used as Send(c)(v), so that v is converted to the element type.
func Send[T any](c chan<- T) func(T) {
	return func(v T) {
		t := enterNative()
		select {
		case c <- v:
			leaveNative(t)
		case <-AbortCh():
			Exit()
		}
	}
}

func Close[T any](c chan<- T) {
	Point(KChan, 0, 1)
	close(c)
}

// ChanRange iterates over a channel: for it, v := ChanIter(c); it.Next(&v); {}
type ChanRange[T any] struct{ c <-chan T }

func ChanIter[T any](c <-chan T) (*ChanRange[T], T) {
	var z T
	return &ChanRange[T]{c}, z
}

func (r *ChanRange[T]) Next(v *T) bool {
	x, ok := Recv2(r.c)
	if ok && v != nil {
		*v = x
	}
	return ok
}

// V is a scheduling point between computing a value and storing it.
func V[T any](v T) T {
	Stmt()
	return v
}

// ---- map iteration ----

type Entry[K comparable, V any] struct {
	m map[K]V
	k K
}

func (e Entry[K, V]) Get() (K, V, bool) {
	v, ok := e.m[e.k]
	return e.k, v, ok
}

func MapEntries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	es := make([]Entry[K, V], 0, len(m))
	for k := range m {
		es = append(es, Entry[K, V]{m, k})
	}
	sort.Slice(es, func(i, j int) bool { return lessAny(es[i].k, es[j].k) })
	if S != nil && S.cfg.RevMaps {
		for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
			es[i], es[j] = es[j], es[i]
		}
	}
	return es
}

// MapRange iterates over a map: for it, k, v := MapIter(m); it.Next(&k, &v); {}
type MapRange[K comparable, V any] struct {
	es []Entry[K, V]
	i  int
}

func MapIter[K comparable, V any](m map[K]V) (*MapRange[K, V], K, V) {
	var k K
	var v V
	return &MapRange[K, V]{es: MapEntries(m)}, k, v
}

func (r *MapRange[K, V]) Next(k *K, v *V) bool {
	for r.i < len(r.es) {
		kk, vv, ok := r.es[r.i].Get()
		r.i++
		if !ok {
			continue
		}
		if k != nil {
			*k = kk
		}
		if v != nil {
			*v = vv
		}
		return true
	}
	return false
}

func lessAny(a, b any) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	switch x.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return x.Int() < y.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return x.Uint() < y.Uint()
	case reflect.String:
		return x.String() < y.String()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// ---- choices ----

// RevMaps makes the rest of the execution iterate over maps in reverse key order.
func RevMaps() {
	if S != nil {
		S.cfg.RevMaps = true
	}
}

// Choose is a data choice with n alternatives (0 is the default).
func Choose(n int) int {
	s := S
	t := cur()
	if s == nil || t == nil || t.dying || n <= 1 {
		return 0
	}
	if !s.exploring {
		return 0
	}
	return s.decide(n, 1, 0, uint32(n)*2654435761)
}

func (s *Sched) decide(n, cost int, site uintptr, sig uint32) int {
	pos := len(s.dec)
	alt := 0
	if s.devIdx < len(s.devs) && s.devs[s.devIdx].Pos == pos {
		d := s.devs[s.devIdx]
		s.devIdx++
		if d.Alt >= n || d.Sig != sig {
			s.diverged = true
		} else {
			alt = d.Alt
		}
	}
	s.dec = append(s.dec, Decision{N: n, Chosen: alt, Cost: cost, Site: site, Sig: sig})
	return alt
}

// ---- scheduler ----

func (s *Sched) touch(t *Thread) {
	if t.obj == 0 || t.site == 0 {
		return
	}
	key := [2]uintptr{t.site, t.obj}
	i, ok := s.objIdx[key]
	if !ok {
		i = len(s.objs)
		s.objs = append(s.objs, siteObj{t.site, t.obj, 0})
		s.objIdx[key] = i
	}
	s.objs[i].mask |= 1 << (uint(t.ID) & 63)
}

func (s *Sched) wait() {
	raceOff()
	synctest.Wait()
	raceOn()
}

func (s *Sched) loop() {
	var enabled []*Thread
	for {
		s.wait()
		if s.fail != nil || s.mainTh.state == stDone {
			return
		}
		if RaceEnabled {
			if s.raced() {
				return
			}
		}
		now := time.Now()
		enabled = enabled[:0]
		var minDl time.Time
		native := false
		n := len(s.threads)
		first := 0
		if s.last != nil {
			first = s.last.ID
		}
		for k := 0; k < n; k++ {
			t := s.threads[(first+k)%n]
			switch t.state {
			case stParked:
				if t.dlFn != nil {
					t.deadline = t.dlFn()
				}
				if t.pred == nil || t.pred() || (!t.deadline.IsZero() && !now.Before(t.deadline)) {
					enabled = append(enabled, t)
				} else if !t.deadline.IsZero() && (minDl.IsZero() || t.deadline.Before(minDl)) {
					minDl = t.deadline
				}
			case stNative, stRunning:
				native = true
			}
		}
		if len(enabled) == 0 {
			if now.Sub(s.lastProgress) > s.cfg.MaxVirtual {
				s.setFail("stuck", fmt.Sprintf("driver made no progress for %v of virtual time; %s", s.cfg.MaxVirtual, s.describe()))
				return
			}
			if minDl.IsZero() && !native {
				s.setFail("deadlock", "no thread can run: "+s.describe())
				return
			}
			d := s.cfg.MaxVirtual + time.Second
			if !minDl.IsZero() {
				d = minDl.Sub(now)
			}
			tm := time.NewTimer(d)
			raceOff()
			select {
			case <-s.arrive:
			case <-tm.C:
			}
			raceOn()
			tm.Stop()
			s.consec = 0
			continue
		}
		if s.cfg.Turned {
			rank := func(t *Thread) int {
				switch {
				case t == s.last:
					return -1
				case t.Driver:
					return 2*n - t.ID
				}
				return n - t.ID
			}
			for i := 1; i < len(enabled); i++ {
				for k := i; k > 0 && rank(enabled[k]) < rank(enabled[k-1]); k-- {
					enabled[k], enabled[k-1] = enabled[k-1], enabled[k]
				}
			}
		}
		if s.cfg.Demote {
			k := 0
			for i, t := range enabled {
				if !t.demoted {
					copy(enabled[k+1:i+1], enabled[k:i])
					enabled[k] = t
					k++
				}
			}
		}
		pick := 0
		runningStill := s.last != nil && enabled[0] == s.last
		forced := false
		if runningStill && s.consec >= s.cfg.EveryFair {
			// fairness: a spinning thread must let others (or time) make progress
			s.consec = 0
			if len(enabled) > 1 {
				pick = 1
				forced = true
			} else {
				time.Sleep(time.Millisecond)
				continue
			}
		}
		if s.exploring && !forced {
			nalt := len(enabled)
			if s.cfg.Tick > 0 {
				nalt++
			}
			if nalt > 1 {
				cost, site := 1, uintptr(0)
				if s.cfg.FreeSwitch {
					cost = 0
				}
				if runningStill {
					cost = 1
					site = s.last.site
				}
				sig := uint32(nalt)
				for _, t := range enabled {
					sig = sig*16777619 ^ uint32(t.ID+1) ^ uint32(t.kind)<<8
				}
				pick = s.decide(nalt, cost, site, sig)
				if s.diverged {
					return
				}
				if pick == len(enabled) {
					if s.cfg.Trace {
						s.trace = append(s.trace, fmt.Sprintf("tick %v", s.cfg.Tick))
					}
					time.Sleep(s.cfg.Tick)
					continue
				}
			}
		}
		t := enabled[pick]
		if s.cfg.Demote {
			if pick > 0 && runningStill && !forced {
				s.last.demoted = true
			}
			t.demoted = false
		}
		if t == s.last {
			s.consec++
		} else {
			s.consec = 0
		}
		s.last = t
		s.steps++
		Ticks.Add(1)
		if t.Driver && t.kind != KStart {
			s.lastProgress = now
		}
		if s.steps > s.cfg.MaxSteps {
			s.setFail("livelock", fmt.Sprintf("more than %d scheduling steps: %s", s.cfg.MaxSteps, s.describe()))
			return
		}
		s.touch(t)
		if s.cfg.Trace {
			f, _ := runtime.CallersFrames([]uintptr{t.site}).Next()
			s.trace = append(s.trace, fmt.Sprintf("%s@%s %s %s:%d", t.Name, now.Sub(s.start), t.kind, shortFile(f.File), f.Line))
		}
		t.state = stRunning
		raceOff()
		t.wake <- struct{}{}
		raceOn()
	}
}

// raced looks for new reports of the race detector that concern the code under
// test (the drivers and the scheduler are not instrumented, but the runtime
// reports their map operations).
func (s *Sched) raced() bool {
	n := RaceErrors()
	if n == s.raceBase {
		return false
	}
	s.raceBase = n
	if m := raceReport(); m != "" {
		s.setFail("race", "data race: "+m)
		return true
	}
	return false
}

var raceLogAt int64

// raceReport reads the reports written since the last call and returns the
// first whose accesses (both) are of the code under test.
func raceReport() string {
	path := os.Getenv("VERIF_RACELOG")
	if path == "" {
		return "reported"
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", path, os.Getpid()))
	if err != nil || int64(len(b)) <= raceLogAt {
		return ""
	}
	text := string(b[raceLogAt:])
	raceLogAt = int64(len(b))
	for _, rep := range strings.Split(text, "==================") {
		i := strings.Index(rep, "DATA RACE\n")
		if i < 0 {
			continue
		}
		rep = rep[i+10:]
		if i := strings.Index(rep, "\nGoroutine "); i >= 0 {
			rep = rep[:i]
		}
		parts := strings.Split(rep, "\n\n")
		ours := 0
		for _, p := range parts {
			for _, l := range strings.Split(p, "\n")[1:] {
				if strings.Contains(l, "zzverif") {
					break
				}
				// a function of the package under test: module path, dot, name
				if strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "   ") && strings.Contains(l, Module+".") {
					ours++
					break
				}
			}
		}
		if ours > 0 {
			if len(rep) > 1500 {
				rep = rep[:1500]
			}
			return rep
		}
	}
	return ""
}

// Module is the import path of the code under test.
var Module = "kafka-mock-go"

func shortFile(f string) string {
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '/' {
			return f[i+1:]
		}
	}
	return f
}

func (s *Sched) describe() string {
	out := ""
	for _, t := range s.threads {
		if t.state == stDone {
			continue
		}
		f, _ := runtime.CallersFrames([]uintptr{t.site}).Next()
		st := [...]string{"running", "parked", "native", "done"}[t.state]
		out += fmt.Sprintf("[%s %s %s %s:%d] ", t.Name, st, t.kind, shortFile(f.File), f.Line)
	}
	return out
}

func (s *Sched) abort() {
	s.aborting = true
	close(s.abortCh)
	for round := 0; round < 1000; round++ {
		s.wait()
		any := false
		for _, t := range s.threads {
			if t.state == stParked {
				any = true
				t.state = stRunning
				raceOff()
				t.wake <- struct{}{}
				raceOn()
				s.wait()
			}
		}
		if !any {
			break
		}
	}
	s.wait()
	for _, t := range s.threads {
		if t.state != stDone {
			return // leaked native block; reported by the caller
		}
	}
	s.wg.Wait() // happens-before edge from every thread to the checker
}

// Run performs one execution of body (as the "main" driver thread).
func Run(t *testing.T, cfg Config, devs []Dev, body func(x *X)) (res *Result) {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 40000
	}
	if cfg.MaxVirtual == 0 {
		cfg.MaxVirtual = 2 * time.Minute
	}
	if cfg.EveryFair == 0 {
		cfg.EveryFair = 400
	}
	bubble := synctest.Test
	if RaceEnabled {
		// a bubble with a race report ends its test
		bubble = func(t *testing.T, f func(t *testing.T)) {
			t.Run("x", func(t *testing.T) { synctest.Test(t, f) })
		}
	}
	bubble(t, func(t *testing.T) {
		epochCtr++
		s := &Sched{cfg: cfg, T: t, devs: devs, abortCh: make(chan struct{}), arrive: make(chan struct{}, 1),
			objIdx: map[[2]uintptr]int{}, epoch: epochCtr, start: time.Now(), raceBase: RaceErrors()}
		s.lastProgress = s.start
		S = s
		for _, f := range onReset {
			f()
		}
		x := &X{s: s}
		if cfg.Free {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(failSentinel); !is {
							s.setFail("crash", fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack())))
						}
					}
				}()
				body(x)
			}()
			for _, f := range x.cleanup {
				f()
			}
		} else {
			s.mainTh = s.spawn("main", true, func() { body(x) })
			s.loop()
			if RaceEnabled && s.fail == nil {
				s.raced()
			}
			s.exploring = false
			s.abort()
		}
		if s.fail == nil && s.mainTh != nil && len(x.late) > 0 {
			for _, f := range x.late {
				if m := f(); m != "" {
					s.setFail("oracle", m)
					break
				}
			}
		}
		leaked := 0
		for _, th := range s.threads {
			if th.state != stDone {
				leaked++
			}
		}
		if s.devIdx < len(s.devs) && s.fail == nil {
			s.diverged = true
		}
		res = &Result{Decisions: s.dec, Steps: s.steps, Fail: s.fail, Diverged: s.diverged, Outcome: s.outcome, Trace: s.trace, Leaked: leaked, SitePairs: s.objs}
		S = nil
		if leaked > 0 {
			OnLeak(res)
		}
	})
	// learn which sites touch objects shared between threads
	byObj := map[uintptr]uint64{}
	for _, so := range res.SitePairs {
		byObj[so.obj] |= so.mask
	}
	for _, so := range res.SitePairs {
		m := byObj[so.obj]
		if m&(m-1) != 0 {
			sharedSet[so.site] = true
		}
	}
	return
}

// OnLeak is called when goroutines cannot be torn down (the bubble cannot end).
var OnLeak = func(r *Result) {}

func SiteShared(site uintptr) bool { return site == 0 || sharedSet[site] }
func NumShared() int               { return len(sharedSet) }

// ---- driver interface ----

type X struct {
	s       *Sched
	joins   []*Thread
	cleanup []func()
	late    []func() string
}

// Go starts a driver thread.
func (x *X) Go(name string, f func()) {
	if x.s.cfg.Free {
		panic("Go in free mode")
	}
	x.joins = append(x.joins, x.s.spawn(name, true, f))
}

// Join waits for all driver threads started so far.
func (x *X) Join() {
	js := x.joins
	x.joins = nil
	WaitOp(KUser, 0, 1, func() bool {
		for _, t := range js {
			if t.state != stDone {
				return false
			}
		}
		return true
	}, time.Time{})
	// the joined threads' effects happen before what follows
	RaceAcquire(unsafe.Pointer(&x.s.events))
}

func (x *X) Begin() { x.s.exploring = true }
func (x *X) End()   { x.s.exploring = false }

// Event is a global logical clock.
func (x *X) Event() int64 {
	x.s.events++
	return x.s.events
}

func (x *X) Since() time.Duration { return time.Since(x.s.start) }

func (x *X) Fail(format string, args ...any) {
	x.s.setFail("oracle", fmt.Sprintf(format, args...))
	panic(failSentinel{})
}

func (x *X) FailKind(kind, format string, args ...any) {
	x.s.setFail(kind, fmt.Sprintf(format, args...))
	panic(failSentinel{})
}

// Note adds to the observable outcome of this execution.
func (x *X) Note(format string, args ...any) {
	x.s.outcome += fmt.Sprintf(format, args...) + ";"
}

// Crashes counts panics of the code under test (Config.CrashOK).
func (x *X) Crashes() int { return x.s.crashes }

func (x *X) OnEnd(f func() string) { x.late = append(x.late, f) }
func (x *X) Cleanup(f func())      { x.cleanup = append(x.cleanup, f) }
func (x *X) Failed() bool          { return x.s.fail != nil }

// LiveThreads counts mock (non-driver) threads that have not finished.
func (x *X) LiveThreads() (n int, desc string) {
	for _, t := range x.s.threads {
		if !t.Driver && t.state != stDone {
			n++
		}
	}
	return n, x.s.describe()
}

// WaitUntil blocks the driver until pred holds or d of virtual time has passed.
func (x *X) WaitUntil(d time.Duration, pred func() bool) bool {
	return WaitOp(KUser, 0, 1, pred, time.Now().Add(d))
}

// CurName names the calling thread.
func (x *X) CurName() string {
	if t := cur(); t != nil {
		return t.Name
	}
	return "?"
}
