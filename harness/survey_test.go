package harness

import (
	"fmt"
	"strings"
	"testing"
	"time"
)

// TestSurvey lists, for the variation jobs of a property, what fails under which variation.
func TestSurvey(t *testing.T) {
	x := &explorer{t: t, prop: *fProp, of: 1, deadline: time.Now().Add(*fBudget), res: &ShardResult{}}
	for _, j := range jobsOf(*fProp) {
		if !strings.HasPrefix(j.Name, "vary:"+*fJob) {
			continue
		}
		fails := map[int]int{}
		first := map[int]string{}
		n := 0
		t0 := time.Now()
		slow := map[int]time.Duration{}
		for p := (&P{}); ; {
			body := j.Gen(p)
			picks := append([]int(nil), p.vec[:p.at]...)
			t1 := time.Now()
			r := x.exec(j, body, &Spec{Job: j.Name, Picks: picks}, false)
			slow[picks[0]] += time.Since(t1)
			n++
			if r.Fail != nil {
				fails[picks[0]]++
				if first[picks[0]] == "" {
					first[picks[0]] = fmt.Sprintf("%v %s: %.200s", picks, r.Fail.Kind, r.Fail.Msg)
				}
			}
			if !p.next() {
				break
			}
		}
		fmt.Printf("%s %s: %d cases, %v, %d variations fail\n", *fProp, j.Name, n, time.Since(t0).Round(time.Millisecond), len(fails))
		for i := range variations() {
			if slow[i] > time.Second {
				fmt.Printf("   slow %d %v\n", i, slow[i])
			}
			if fails[i] > 0 {
				fmt.Printf("   %2d %-45s %d  %s\n", i, variations()[i].name, fails[i], first[i])
			}
		}
	}
}

// TestListJobs prints the names of a property's jobs.
func TestListJobs(t *testing.T) {
	for _, j := range jobsOf(*fProp) {
		fmt.Println(j.Name)
	}
}
