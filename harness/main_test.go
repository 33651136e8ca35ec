package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vs"
)

var (
	fProp    = flag.String("prop", "", "property")
	fShard   = flag.Int("shard", 0, "")
	fOf      = flag.Int("of", 1, "")
	fBudget  = flag.Duration("budget", time.Minute, "")
	fOut     = flag.String("out", "", "result file")
	fReplay  = flag.String("replay", "", "replay file")
	fKnown   = flag.String("known", "", "known finding codes, comma separated")
	fSpec    = flag.String("spec", "", "write every spec here before executing it")
	fJob     = flag.String("job", "", "only this job")
	fTrace   = flag.Bool("trace", false, "")
	fVerbose = flag.Bool("vv", false, "")
)

func TestMain(m *testing.M) {
	flag.Parse()
	debug.SetGCPercent(400)
	os.Exit(m.Run())
}

func TestExplore(t *testing.T) {
	if props[*fProp] == nil {
		t.Fatalf("unknown property %q", *fProp)
	}
	jobs := jobsOf(*fProp)
	if *fJob != "" {
		var keep []*Job
		for _, j := range jobs {
			if strings.HasPrefix(j.Name, *fJob) {
				keep = append(keep, j)
			}
		}
		jobs = keep
	}
	if vs.RaceEnabled || !plainMode {
		var keep []*Job
		for _, j := range jobs {
			if vs.RaceEnabled && (j.Race || j.RaceOnly) || !vs.RaceEnabled && !j.RaceOnly {
				keep = append(keep, j)
			}
		}
		jobs = keep
	}
	if plainMode {
		var keep []*Job
		for _, j := range jobs {
			if j.Fix && !j.RaceOnly {
				keep = append(keep, j)
			}
		}
		jobs = keep
	}
	x := &explorer{t: t, prop: *fProp, shard: *fShard, of: *fOf, deadline: time.Now().Add(*fBudget), resPath: *fOut,
		res: &ShardResult{Property: *fProp}}
	if *fKnown != "" {
		x.known = strings.Split(*fKnown, ",")
	}
	if *fSpec != "" {
		f, err := os.Create(*fSpec)
		if err != nil {
			t.Fatal(err)
		}
		x.specFile = f
	}
	// a thread that loops without any scheduling point cannot be interrupted:
	// the process is ended and the orchestrator looks at the spec file
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(250 * time.Millisecond)
			if n := x.progress.Load() + vs.Ticks.Load(); n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > 60*time.Second {
				fmt.Fprintln(os.Stderr, "WATCHDOG: an execution makes no progress")
				debug.SetTraceback("all")
				panic("watchdog")
			}
		}
	}()
	vs.OnLeak = func(r *vs.Result) {
		// the bubble cannot end; report and leave
		x.leak(r)
	}
	if *fReplay != "" {
		replay(t, x, jobs)
		return
	}
	x.run(jobs, *fBudget)
	x.res.Complete = true
	x.write()
	if *fVerbose {
		for _, j := range x.res.Jobs {
			b, _ := json.Marshal(j)
			fmt.Println(string(b))
		}
		if x.res.Fail != nil {
			for _, l := range x.res.Fail.Trace {
				fmt.Println(l)
			}
			fmt.Printf("FAIL %s: %s %s\n", mustJSON(x.res.Fail.Spec), x.res.Fail.Fail.Kind, x.res.Fail.Fail.Msg)
		}
		for _, s := range x.res.Samples {
			fmt.Println(s)
		}
	}
}

func mustJSON(v any) string { b, _ := json.Marshal(v); return string(b) }

// replay runs the execution of a replay file once and prints FAIL or PASS.
func replay(t *testing.T, x *explorer, jobs []*Job) {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		t.Fatal(err)
	}
	var c Candidate
	if err := json.Unmarshal(b, &c); err != nil {
		t.Fatal(err)
	}
	for _, j := range jobs {
		if j.Name != c.Spec.Job {
			continue
		}
		body, _ := genCase(j, c.Spec.Picks)
		r := x.exec(j, body, &c.Spec, *fTrace)
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		if r.Diverged {
			fmt.Println("REPLAY-DIVERGED")
			return
		}
		if r.Fail != nil {
			fmt.Printf("REPLAY-FAIL %s %s\n", r.Fail.Kind, r.Fail.Msg)
			return
		}
		fmt.Println("REPLAY-PASS")
		return
	}
	fmt.Println("REPLAY-NOJOB")
}

func (x *explorer) leak(r *vs.Result) {
	if *fReplay != "" {
		if r.Fail != nil {
			fmt.Printf("REPLAY-FAIL %s %s\n", r.Fail.Kind, r.Fail.Msg)
		} else {
			fmt.Println("REPLAY-LEAK")
		}
		os.Exit(0)
	}
	x.res.Note = "an execution left goroutines that cannot be ended"
	if r.Fail != nil && x.curSpec != nil {
		x.res.Fail = &Candidate{Spec: *x.curSpec, Fail: *r.Fail}
	}
	x.write()
	os.Exit(0)
}
