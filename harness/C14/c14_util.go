package util

import (
	"github.com/LogicalOverflow/music-sync/zzverif"
	"strings"
)

type zzErr struct{ text string }

func (e *zzErr) Error() string { return e.text }

// ZZ_C14_Collector: adders run concurrently; afterwards the errors are read.
func ZZ_C14_Collector() {
	texts := []string{"FAIL-A", "FAIL-B", "FAIL-C", "FAIL-D", "FAIL-E", "FAIL-F"}
	if zzverif.Choose("same text", 2) == 1 { // different errors that say the same
		texts = []string{"FAIL-A", "FAIL-A", "FAIL-A", "FAIL-A", "FAIL-A", "FAIL-A"}
	}
	var ec ErrorCollector
	n, k := zzverif.Bound("adders"), 0
	total := 0
	done := 0
	for i := 0; i < n; i++ {
		c := zzverif.Choose("errors", zzverif.Bound("each")+1)
		first := k
		k += c
		total += c
		go func() {
			for j := 0; j < c; j++ {
				ec.Add(&zzErr{texts[first+j]})
			}
			done++
		}()
	}
	zzverif.WaitUntil(func() bool { return done == n })
	if zzverif.Choose("wait", 2) == 1 {
		ec.Wait()
	}
	err := ec.Err("base")
	if total == 0 {
		zzverif.Assert(err == nil, "without an error none is reported")
		zzverif.Reach("none")
		return
	}
	zzverif.Assert(err != nil, "errors are reported")
	text := err.Error()
	for _, t := range texts {
		times := 0
		for i := 0; i < total; i++ {
			if texts[i] == t {
				times++
			}
		}
		zzverif.Assert(strings.Count(text, t) == times, "every error is reported once, and nothing else")
	}
	again := ec.Err("base")
	zzverif.Assert(again != nil && len(again.Error()) == len(text), "reading the errors does not change them")
	zzverif.Reach("some")
}
