package playback

import (
	"math"

	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/faiface/beep"
)

type zzQueued struct {
	nan bool
	t   int64
}

// zzPlay renders calls buffers of n frames from k queued samples with arbitrary times. Samples may arrive
// when the queue has run empty.
func zzPlay(rate, k, n, calls int, tol int64, late bool) {
	dur := int64(1000000000) / int64(rate)
	format = beep.Format{SampleRate: beep.SampleRate(rate), NumChannels: 2, Precision: 2}
	initStreamer()
	q := make([]zzQueued, k+1) // 1..k
	last := int64(0)
	var add []func()
	for i := 1; i <= k; i++ {
		q[i].t = int64(zzverif.IntRange("t", 0, 1<<50))
		zzverif.Assume(last <= q[i].t)
		last = q[i].t
		s := [2]float64{float64(i), -float64(i)}
		if zzverif.Bool("nan") {
			q[i].nan = true
			s = [2]float64{math.NaN(), math.NaN()}
		}
		t := q[i].t
		add = append(add, func() { streamer.samples.Add(s, t) })
	}
	// the stream goes on much later
	add = append(add, func() { streamer.samples.Add([2]float64{math.NaN(), math.NaN()}, 1<<60) })
	add = append(add, func() { streamer.samples.Add([2]float64{-1, 1}, 1<<60) })
	first := len(add)
	if late {
		first = zzverif.Choose("there at first", k+1)
	}
	for _, a := range add[:first] {
		a()
	}
	if late {
		samples := streamer.samples
		go func() {
			for _, a := range add[first:] {
				zzverif.WaitUntil(func() bool { return samples.Len() == 0 })
				a()
			}
		}()
	}

	p, playing := 0, false // the last sample accounted for; whether samples follow back to back
	for c := 0; c < calls; c++ {
		now := int64(zzverif.IntRange("now", 0, 1<<50))
		timing.ZZMonotime_Now = func() uint64 { return uint64(now) }
		out := make([][2]float64, n)
		for i := range out {
			out[i] = [2]float64{-7, -7} // garbage of the previous buffer
		}
		streamer.Stream(out)
		next := 0    // the sample the silence waits for
		skipAt := -1 // the slot at which the silence began
		for i, o := range out {
			x := now + int64(i)*dur
			id := int(o[0])
			zzverif.Assert(o[0] == float64(id) && o[1] == -o[0] && 0 <= id && id <= k, "only queued samples or silence are emitted")
			if playing && p < k && !q[p+1].nan {
				zzverif.Reach("direct")
				zzverif.Assert(id == p+1, "once started samples follow back to back")
				p = id
				continue
			}
			playing = false
			if skipAt < 0 {
				skipAt = i
				// the first sample whose time has not passed
				for next = p + 1; next <= k && (q[next].nan || q[next].t < x); next++ {
				}
				p = next - 1
			}
			if id == 0 {
				zzverif.Reach("silence")
				zzverif.Assert(next == k+1 || x < q[next].t+tol, "no silence once the sample's time is reached")
				continue
			}
			zzverif.Reach("start")
			zzverif.Assert(id == next || 0 < tol && q[id].t <= x+tol && p <= id, "only samples whose time has passed are skipped")
			zzverif.Assert(q[id].t-x < dur+tol, "a sample starts at most one sample duration early")
			zzverif.Assert(x-q[id].t < dur+tol, "a sample starts at most one sample duration late")
			p, playing, skipAt = id, true, -1
		}
	}
}

// ZZ_C06_Play: a sample rate of which the sample duration is exact.
func ZZ_C06_Play() {
	zzPlay(1000, zzverif.Bound("samples"), zzverif.Bound("frames"), zzverif.Bound("calls"), 0, false)
}

// ZZ_C06_Rounding: 44.1 kHz.
func ZZ_C06_Rounding() {
	zzPlay(44100, zzverif.Bound("samples"), zzverif.Bound("frames"), 1, 10, false)
}

// ZZ_C06_Arriving: samples arrive when the player waits for them.
func ZZ_C06_Arriving() {
	zzPlay(1000, zzverif.Bound("samples"), zzverif.Bound("frames"), zzverif.Bound("calls"), 0, true)
}
