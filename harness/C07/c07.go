package playback

import (
	"context"

	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/faiface/beep"
)

// ZZ_C07_Combine: left and right lists of every length up to the bound.
func ZZ_C07_Combine() {
	list := func(name string) []float64 {
		l := make([]float64, zzverif.Choose("len "+name, zzverif.Bound("len")+1))
		for i := range l {
			l[i] = zzverif.Float64(name)
			zzverif.Assume(l[i] == l[i])
		}
		return l
	}
	low, high := list("low"), list("high")
	l0, h0 := append([]float64{}, low...), append([]float64{}, high...)
	s := CombineSamples(low, high)
	n := len(low)
	if len(high) < n {
		n = len(high)
	}
	zzverif.Assert(len(s) == n, "as many samples as the shorter list")
	for i := range s {
		zzverif.Assert(s[i][0] == l0[i] && s[i][1] == h0[i], "samples are combined pairwise")
		s[i] = [2]float64{0, 0}
	}
	for i := range low {
		zzverif.Assert(low[i] == l0[i], "the left list is unchanged")
	}
	for i := range high {
		zzverif.Assert(high[i] == h0[i], "the right list is unchanged")
	}
}

type zzTimed struct {
	s [2]float64
	t int64
}

func zzRun(rate int) {
	cap := 1 + zzverif.Choose("cap", zzverif.Bound("cap"))
	streamer = &timedMultiStreamer{
		format:  beep.Format{SampleRate: beep.SampleRate(rate)},
		chunks:  make([]*queuedChunk, 0),
		samples: newTimedSampleQueue(cap),
	}
	n := zzverif.Bound("chunks")
	var want []zzTimed
	var starts []int64
	var chunks [][][2]float64
	for c := 0; c < n; c++ {
		st := int64(zzverif.IntRange("start", -1<<60, 1<<60))
		ss := make([][2]float64, zzverif.Choose("size", zzverif.Bound("size")+1))
		for i := range ss {
			l, r := zzverif.Float64("l"), zzverif.Float64("r")
			zzverif.Assume(l == l && r == r)
			ss[i] = [2]float64{l, r}
			want = append(want, zzTimed{ss[i], st + int64(i)*1000000000/int64(rate)})
		}
		starts, chunks = append(starts, st), append(chunks, ss)
	}
	go streamer.ReadChunks(context.Background())
	go func() {
		for c := range chunks {
			QueueChunk(starts[c], int64(c), chunks[c])
		}
	}()
	for _, w := range want {
		s, t := streamer.samples.Remove()
		zzverif.Assert(s == w.s, "samples are queued in order, none lost or duplicated")
		zzverif.Assert(t == w.t, "sample i of a chunk is due i sample durations after its start")
	}
	zzverif.Reach("all")
	for i := 0; i < zzverif.Bound("idle"); i++ {
		zzverif.Yield()
	}
	zzverif.Assert(streamer.samples.Len() == 0, "nothing else is queued")
}

// ZZ_C07_Schedules: queueing, reading and rendering interleaved.
func ZZ_C07_Schedules() { zzRun(zzverif.Bound("rate")) }

// ZZ_C07_Sizes: more chunks of more sizes under one schedule.
func ZZ_C07_Sizes() { zzRun(zzverif.Bound("rate")) }
