package harness

import (
	"os"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"
)

func TestCheck(t *testing.T) {
	f := checks[checkID]
	if f == nil {
		infra("no such check %q", checkID)
	}
	must(os.MkdirAll(workDir, 0o755))
	defer writeStats()
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	start := time.Now()
	rapid.Check(t, func(t *rapid.T) {
		if budget > 0 && time.Since(start) > time.Duration(budget)*time.Second {
			return // slow machine: what has been explored is reported
		}
		f(t)
	})
}
