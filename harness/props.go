package harness

import (
	"os"

	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vs"
)

// tier is quick or thorough.
var tier = os.Getenv("VERIF_TIER")

func thorough() bool { return tier == "thorough" }

// props maps a property to the jobs that decide it.
var props = map[string]func() []*Job{}

func q[T any](quick, deep T) T {
	if thorough() {
		return deep
	}
	return quick
}

func cfgStmt() vs.Config { return vs.Config{Stmt: true} }
