package timing

import (
	"github.com/LogicalOverflow/music-sync/zzverif"
)

func zzT(name string, max int) int64 { return int64(zzverif.IntRange(name, 0, max)) }

type zzExchange struct{ cs, sr, ss, cr int64 }

// zzExchange is an exchange of which the server's clock is ahead by theta.
func zzNewExchange(theta int64) (e zzExchange, rtt int64) {
	e.cs = zzT("send", 1<<57)
	there, proc, back := zzT("there", 1<<57), zzT("processing", 1<<57), zzT("back", 1<<57)
	e.sr = e.cs + there + theta
	e.ss = e.sr + proc
	e.cr = e.ss - theta + back
	return e, there + back
}

func zzOffset() int64 {
	t := uint64(zzT("now", 1<<57))
	ZZMonotime_Now = func() uint64 { return t }
	zzverif.Assert(GetRawTime() == int64(t), "the raw time is the clock's")
	return GetSyncedTime() - int64(t)
}

func zzInRound(n int) []zzExchange {
	theta := int64(zzverif.IntRange("theta", -1<<57, 1<<57))
	es := make([]zzExchange, n)
	for i := range es {
		es[i], _ = zzNewExchange(theta)
	}
	return es
}

func (e zzExchange) twice() int64 { return (e.sr - e.cs) + (e.ss - e.cr) }

// zzIsMean: |got - sum/2n| < 2, and between the smallest and the largest.
func zzIsMean(got int64, es []zzExchange) bool {
	sum, min, max := int64(0), es[0].twice(), es[0].twice()
	for _, e := range es {
		t := e.twice()
		sum += t
		if t < min {
			min = t
		}
		if max < t {
			max = t
		}
	}
	n := int64(len(es))
	d := 2*n*got - sum
	return -4*n < d && d < 4*n && min-4 < 2*got && 2*got < max+4
}

// ZZ_C09_Mean: one round, with the distance to the true offset.
func ZZ_C09_Mean() {
	n := 1 + zzverif.Choose("n", zzverif.Bound("n"))
	old := int64(zzverif.IntRange("old", -1<<57, 1<<57))
	offset = old
	theta := int64(zzverif.IntRange("theta", -1<<57, 1<<57))
	ResetOffsets(n)
	es := make([]zzExchange, n)
	worst := int64(0)
	for i := range es {
		var rtt int64
		es[i], rtt = zzNewExchange(theta)
		if worst < rtt {
			worst = rtt
		}
	}
	for _, e := range es {
		zzverif.Assert(zzOffset() == old, "the previous offset stays in force during a round")
		UpdateOffset(e.cs, e.sr, e.ss, e.cr)
	}
	got := zzOffset()
	zzverif.Assert(zzIsMean(got, es), "the offset is the mean of the measured ones")
	d := 2 * (got - theta)
	zzverif.Assert(-worst-4 < d && d < worst+4, "the offset is off by at most half the largest round-trip")
}

// ZZ_C09_Rounds: a second round replaces the result of the first, whatever its size.
func ZZ_C09_Rounds() {
	for r := 0; r < 2; r++ {
		n := 1 + zzverif.Choose("n", zzverif.Bound("n"))
		old := offset
		ResetOffsets(n)
		es := zzInRound(n)
		for _, e := range es {
			zzverif.Assert(zzOffset() == old, "the previous offset stays in force during a round")
			UpdateOffset(e.cs, e.sr, e.ss, e.cr)
		}
		zzverif.Assert(zzIsMean(zzOffset(), es), "the offset is the mean of the round's measured ones")
	}
}

// ZZ_C09_Concurrent: the replies of a round handled concurrently.
func ZZ_C09_Concurrent() {
	n := zzverif.Bound("n")
	old := int64(zzverif.IntRange("old", -1<<57, 1<<57))
	offset = old
	ResetOffsets(n)
	es := make([]zzExchange, n)
	started, done := 0, 0
	for i := range es {
		es[i], _ = zzNewExchange(0)
	}
	for i := range es {
		e := es[i]
		go func() {
			zzverif.Atomic(1)
			started++
			zzverif.Atomic(-1)
			UpdateOffset(e.cs, e.sr, e.ss, e.cr)
			zzverif.Atomic(1)
			done++
			zzverif.Atomic(-1)
		}()
	}
	looked := false
	go func() {
		zzverif.Atomic(1)
		defer zzverif.Atomic(-1)
		if started < n {
			zzverif.Reach("during")
			zzverif.Assert(zzOffset() == old, "the previous offset stays in force during a round")
		}
		looked = true
	}()
	zzverif.WaitUntil(func() bool { return done == n && looked })
	zzverif.Reach("after")
	sum := int64(0)
	for _, e := range es {
		sum += e.twice()
	}
	d := 2*int64(n)*zzOffset() - sum
	zzverif.Assert(-4*int64(n) < d && d < 4*int64(n), "replies handled in any order give the mean")
}

// ZZ_C09_Far: the clocks are so far apart that the sum of the offsets exceeds 64 bits.
func ZZ_C09_Far() {
	n := 3 + zzverif.Choose("n", zzverif.Bound("n")-2)
	theta := int64(zzverif.IntRange("theta", -3<<60, 3<<60))
	ResetOffsets(n)
	es := make([]zzExchange, n)
	worst := int64(0)
	for i := range es {
		var rtt int64
		es[i], rtt = zzNewExchange(theta)
		if worst < rtt {
			worst = rtt
		}
	}
	for _, e := range es {
		UpdateOffset(e.cs, e.sr, e.ss, e.cr)
	}
	got := zzOffset()
	d := got - theta
	zzverif.Assert(-worst-4 < 2*d && 2*d < worst+4, "the offset is off by at most half the largest round-trip")
	sum := int64(0)
	for _, e := range es {
		sum += (e.sr - e.cs - theta) + (e.ss - e.cr - theta) // twice the distance to theta, small
	}
	k := int64(n)
	zzverif.Assert(-4*k < 2*k*d-sum && 2*k*d-sum < 4*k, "the offset is the mean of the measured ones")
}
