package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vs"
)

// P enumerates the inputs of a job exhaustively.
type P struct {
	vec  []int
	size []int
	at   int
	desc []string
}

// Pick chooses one of n inputs.
func (p *P) Pick(n int) int {
	if n <= 0 {
		panic("pick of nothing")
	}
	if p.at == len(p.vec) {
		p.vec = append(p.vec, 0)
		p.size = append(p.size, n)
	}
	p.size[p.at] = n
	v := p.vec[p.at]
	p.at++
	return v
}

func (p *P) next() bool {
	p.vec = p.vec[:p.at]
	p.size = p.size[:p.at]
	for i := len(p.vec) - 1; i >= 0; i-- {
		if p.vec[i]+1 < p.size[i] {
			p.vec[i]++
			p.vec = p.vec[:i+1]
			p.size = p.size[:i+1]
			p.at = 0
			return true
		}
	}
	return false
}

// pick returns one of the values.
func pick[T any](p *P, vs ...T) T { return vs[p.Pick(len(vs))] }

// Job is a family of executions: all inputs made by Gen, each explored with up
// to Dev deviations from the default schedule.
type Job struct {
	Name string
	Cfg  vs.Config
	Dev  int
	Gen  func(p *P) func(e *E)
	Fix  bool // replayed against the unmodified code over real TCP
	// Every: only in the conformance replay, run every n-th case
	Every int
	// NoReduce: do not apply the "site not shared" reduction
	NoReduce bool
	// ByCase: shards divide the cases instead of the deviations
	ByCase bool
	// Race: also run in the race-detector build; RaceOnly: only there
	Race, RaceOnly bool
}

type Spec struct {
	Job   string   `json:"job"`
	Picks []int    `json:"picks"`
	Devs  []vs.Dev `json:"devs"`
}

type JobStat struct {
	Job        string `json:"job"`
	Cases      int64  `json:"cases"`
	Execs      int64  `json:"execs"`
	Steps      int64  `json:"steps"`
	Ops        int64  `json:"ops"`
	Nodes      int64  `json:"nodes"`
	Outcomes   int64  `json:"outcomes"`
	DevBound   int    `json:"dev_bound"`
	DevDone    int    `json:"dev_done"`
	Exhaustive bool   `json:"exhaustive"`
	Diverged   int64  `json:"diverged"`
	Unstable   int64  `json:"unstable"`
	Skipped    int64  `json:"reduced"`
}

type Candidate struct {
	Spec  Spec       `json:"spec"`
	Fail  vs.Failure `json:"fail"`
	Trace []string   `json:"trace"`
}

type ShardResult struct {
	Property string      `json:"property"`
	Jobs     []*JobStat  `json:"jobs"`
	Fail     *Candidate  `json:"fail"`
	Known    []Candidate `json:"known"`
	Samples  []string    `json:"samples"`
	Complete bool        `json:"complete"`
	Note     string      `json:"note"`
}

type explorer struct {
	t         *testing.T
	prop      string
	shard, of int
	deadline  time.Time
	res       *ShardResult
	known     []string
	resPath   string
	progress  atomic.Int64
	specFile  *os.File
	stop      bool
	lastOps   int64
	curSpec   *Spec
}

func (x *explorer) late() bool { return time.Now().After(x.deadline) }

func genCase(j *Job, picks []int) (func(e *E), *P) {
	p := &P{vec: append([]int(nil), picks...), size: make([]int, len(picks))}
	return j.Gen(p), p
}

// exec runs one execution.
func (x *explorer) exec(j *Job, body func(e *E), sp *Spec, trace bool) *vs.Result {
	x.progress.Add(1)
	x.curSpec = sp
	if x.specFile != nil {
		b, _ := json.Marshal(sp)
		x.specFile.Truncate(0)
		x.specFile.WriteAt(b, 0)
	}
	if plainMode {
		return x.execPlain(j, body)
	}
	cfg := j.Cfg
	cfg.Trace = trace
	var e *E
	r := vs.Run(x.t, cfg, sp.Devs, func(vx *vs.X) {
		e = &E{x: vx, free: j.Cfg.Free}
		body(e)
	})
	x.lastOps = e.opsOrZero()
	return r
}

func (e *E) opsOrZero() int64 {
	if e == nil {
		return 0
	}
	return e.ops
}

func (x *explorer) execPlain(j *Job, body func(e *E)) *vs.Result {
	e := &E{}
	r := &vs.Result{}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, is := p.(failSentinel); !is {
					panic(p)
				}
			}
		}()
		body(e)
	}()
	e.pwg.Wait()
	for _, c := range e.conns {
		c.Close()
	}
	for _, m := range e.muts {
		m.km.RequestStop()
	}
	for _, m := range e.muts {
		done := make(chan bool)
		go func(m *M) { m.km.WaitForTermination(); close(done) }(m)
		select {
		case <-done:
		case <-time.After(10 * time.Second):
		}
	}
	r.Fail = e.pfail
	x.lastOps = e.ops
	return r
}

func hash32(parts ...any) uint32 {
	h := fnv.New32a()
	fmt.Fprint(h, parts...)
	x := h.Sum32()
	x ^= x >> 16
	x *= 0x85ebca6b
	x ^= x >> 13
	x *= 0xc2b2ae35
	x ^= x >> 16
	return x
}

// fails runs sp n times and reports whether every run failed in the same way.
func (x *explorer) confirm(j *Job, body func(e *E), sp *Spec, first *vs.Failure, n int) bool {
	for i := 0; i < n; i++ {
		r := x.exec(j, body, sp, false)
		if r.Diverged || r.Fail == nil || r.Fail.Kind != first.Kind {
			return false
		}
	}
	return true
}

// knownAs returns the known finding a failure matches, if any.
func (x *explorer) knownAs(f *vs.Failure) string {
	for _, k := range x.known {
		if strings.HasPrefix(f.Msg, "["+k+"]") {
			return k
		}
	}
	return ""
}

// failed handles a failing execution; it returns true if exploration must end.
func (x *explorer) failed(j *Job, st *JobStat, body func(e *E), sp *Spec, r *vs.Result) bool {
	if k := x.knownAs(r.Fail); k != "" {
		for _, c := range x.res.Known {
			if x.knownAs(&c.Fail) == k {
				return false
			}
		}
		x.res.Known = append(x.res.Known, Candidate{Spec: *sp, Fail: *r.Fail})
		return false
	}
	// races are reported once per process: confirmed by the caller in fresh ones
	if r.Fail.Kind != "race" && r.Leaked == 0 && !x.confirm(j, body, sp, r.Fail, 5) {
		st.Unstable++
		return false
	}
	c := &Candidate{Spec: *sp, Fail: *r.Fail}
	if r.Fail.Kind != "race" && r.Leaked == 0 && !plainMode {
		c.Trace = x.exec(j, body, sp, true).Trace
	}
	x.res.Fail = c
	x.stop = true
	return true
}

type node struct {
	ci   int // case
	devs []vs.Dev
}

type skippedNode struct {
	node
	site uintptr
}

func (x *explorer) run(jobs []*Job, budget time.Duration) {
	type cse struct {
		picks []int
		body  func(e *E)
	}
	type jobRun struct {
		j        *Job
		st       *JobStat
		cases    []cse
		frontier []node
		skipped  []skippedNode
		outcomes map[uint32]bool
	}
	var runs []*jobRun
	start := time.Now()
	// warm-up: executions before measuring fill caches and learn shared sites
	for _, j := range jobs {
		jr := &jobRun{j: j, st: &JobStat{Job: j.Name, DevBound: j.Dev, DevDone: -1}, outcomes: map[uint32]bool{}}
		runs = append(runs, jr)
		x.res.Jobs = append(x.res.Jobs, jr.st)
	}
	record := func(jr *jobRun, r *vs.Result, depthNew int) {
		jr.st.Execs++
		jr.st.Steps += int64(r.Steps)
		jr.st.Ops += x.lastOps
		jr.st.Nodes += int64(depthNew)
		if len(jr.outcomes) < 1<<20 {
			h := fnv.New32a()
			h.Write([]byte(r.Outcome))
			jr.outcomes[h.Sum32()] = true
		}
	}
	// expand lists the children of an execution
	expand := func(jr *jobRun, n node, r *vs.Result, level int) {
		first := 0
		used := 0
		if k := len(n.devs); k > 0 {
			first = n.devs[k-1].Pos + 1
		}
		for _, d := range n.devs {
			used += r.Decisions[d.Pos].Cost
		}
		for pos := first; pos < len(r.Decisions); pos++ {
			d := r.Decisions[pos]
			if used+d.Cost > jr.j.Dev {
				continue
			}
			for alt := 0; alt < d.N; alt++ {
				if alt == d.Chosen {
					continue
				}
				dv := vs.Dev{Pos: pos, Alt: alt, Sig: d.Sig}
				if len(n.devs) == 0 && x.of > 1 && !jr.j.ByCase && int(hash32(jr.j.Name, n.ci, pos, alt)%uint32(x.of)) != x.shard {
					continue
				}
				c := node{n.ci, append(append([]vs.Dev(nil), n.devs...), dv)}
				if !jr.j.NoReduce && !vs.SiteShared(d.Site) {
					jr.skipped = append(jr.skipped, skippedNode{c, d.Site})
					continue
				}
				jr.frontier = append(jr.frontier, c)
			}
		}
	}
	seq := 0
	for _, jr := range runs {
		// level 0: every input
		p := &P{}
		complete := true
		for {
			body := jr.j.Gen(p)
			picks := append([]int(nil), p.vec[:p.at]...)
			seq++
			mine := x.of <= 1 || (jr.j.Dev > 0 && !jr.j.ByCase) || int(hash32(jr.j.Name, fmt.Sprint(picks))%uint32(x.of)) == x.shard
			if plainMode && jr.j.Every > 1 && hash32("e", fmt.Sprint(picks))%uint32(jr.j.Every) != 0 {
				mine = false
			}
			if mine {
				if x.late() {
					complete = false
					break
				}
				sp := &Spec{Job: jr.j.Name, Picks: picks}
				r := x.exec(jr.j, body, sp, false)
				if r.Diverged {
					jr.st.Diverged++
				}
				own := jr.j.Dev == 0 || jr.j.ByCase || x.shard == 0
				if own {
					jr.st.Cases++
					record(jr, r, 1+len(r.Decisions))
					if len(x.res.Samples) < 4 {
						x.res.Samples = append(x.res.Samples, fmt.Sprintf("%s %v: %d steps, %d decision points, outcome %.200s", jr.j.Name, picks, r.Steps, len(r.Decisions), r.Outcome))
					}
				}
				if r.Fail != nil {
					if x.failed(jr.j, jr.st, body, sp, r) {
						return
					}
				} else if jr.j.Dev > 0 && !plainMode {
					jr.cases = append(jr.cases, cse{picks, body})
					expand(jr, node{len(jr.cases) - 1, nil}, r, 0)
				}
			}
			if !p.next() {
				break
			}
		}
		if complete {
			jr.st.DevDone = 0
		}
	}
	maxDev := 0
	for _, jr := range runs {
		if jr.j.Dev > maxDev {
			maxDev = jr.j.Dev
		}
	}
	_ = start
	if !plainMode {
		for level := 1; level <= maxDev; level++ {
			for _, jr := range runs {
				if jr.j.Dev < level || jr.st.DevDone < level-1 {
					continue
				}
				cur := jr.frontier
				jr.frontier = nil
				ok := true
				for round := 0; ok; round++ {
					for _, n := range cur {
						if x.late() {
							ok = false
							break
						}
						c := jr.cases[n.ci]
						sp := &Spec{Job: jr.j.Name, Picks: c.picks, Devs: n.devs}
						r := x.exec(jr.j, c.body, sp, false)
						if r.Diverged {
							jr.st.Diverged++
							if os.Getenv("VERIF_DIV") != "" {
								fmt.Println("DIVERGED", mustJSON(sp))
							}
							continue
						}
						record(jr, r, 1+len(r.Decisions)-(n.devs[len(n.devs)-1].Pos+1))
						if r.Fail != nil {
							if x.failed(jr.j, jr.st, c.body, sp, r) {
								return
							}
							continue
						}
						if level < jr.j.Dev {
							if len(jr.frontier) > 3_000_000 {
								ok = false
								jr.st.DevBound = level
								break
							}
							expand(jr, n, r, level)
						}
					}
					if !ok {
						break
					}
					// skipped preemptions whose site turned out to be shared
					cur = nil
					var keep []skippedNode
					for _, s := range jr.skipped {
						if vs.SiteShared(s.site) {
							if len(s.devs) <= level {
								cur = append(cur, s.node)
							} else {
								jr.frontier = append(jr.frontier, s.node)
							}
						} else {
							keep = append(keep, s)
						}
					}
					jr.skipped = keep
					if len(cur) == 0 {
						break
					}
				}
				if ok {
					jr.st.DevDone = level
				}
			}
		}
	}
	for _, jr := range runs {
		jr.st.Skipped = int64(len(jr.skipped))
		jr.st.Outcomes = int64(len(jr.outcomes))
		jr.st.Exhaustive = jr.st.DevDone == jr.j.Dev && jr.st.Diverged == 0 && jr.st.Unstable == 0
	}
}

func (x *explorer) write() {
	if x.resPath == "" {
		return
	}
	b, _ := json.Marshal(x.res)
	tmp := x.resPath + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		panic(err)
	}
	os.Rename(tmp, x.resPath)
}

var _ = sort.Ints
var _ = runtime.NumGoroutine
