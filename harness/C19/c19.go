package main

import "github.com/LogicalOverflow/music-sync/zzverif"

func zzRange(name string, lo, hi int64) int64 {
	v := zzverif.Int64(name)
	zzverif.Assume(lo <= v && v <= hi)
	return v
}

// zzToggles builds n toggles in stream order with arbitrary states, redundant ones included.
func zzToggles(n int) []pauseToggle {
	ts := make([]pauseToggle, n)
	var idx int64
	for i := range ts {
		idx += zzRange("gap", 0, 1<<40)
		ts[i] = pauseToggle{playing: zzverif.Bool("playing"), toggleIndex: uint64(idx)}
	}
	return ts
}

func zzMax(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func zzMin(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// zzModel: the number of samples in [start, sample) streamed while paused, and the state just before sample.
func zzModel(ts []pauseToggle, start, sample int64) (count int64, playing bool) {
	playing = true
	for i, t := range ts {
		if int64(t.toggleIndex) < sample {
			playing = t.playing
		}
		if !t.playing {
			from := zzMax(int64(t.toggleIndex), start)
			to := sample
			if i+1 < len(ts) {
				to = zzMin(int64(ts[i+1].toggleIndex), sample)
			}
			if from < to {
				count += to - from
			}
		}
	}
	return
}

// ZZ_C19_Count: the count and the flag for every toggle history, song start and sample.
func ZZ_C19_Count() {
	ts := zzToggles(zzverif.Choose("toggles", zzverif.Bound("toggles")+1))
	st := &state{Pauses: append([]pauseToggle{}, ts...)}
	start := zzRange("start", 0, 1<<44)
	sample := zzRange("sample", -(1 << 44), 1<<45)
	zzverif.Assume(start == 0 || start < sample)
	got, playing := st.pausesInCurrentSong(sample, upcomingSong{startIndex: uint64(start)})
	want, wp := zzModel(ts, start, sample)
	zzverif.Assert(got == want, "the paused samples between the song's start and the current sample")
	zzverif.Assert(playing == wp, "the playing flag is the state at the current sample")
	if want > 0 {
		zzverif.Reach("paused")
	}
	zzverif.Observe("count", got)
}

// ZZ_C19_Prune: forgetting old toggles never changes the answer for the current or a later song or sample.
func ZZ_C19_Prune() {
	ts := zzToggles(zzverif.Choose("toggles", zzverif.Bound("toggles")+1))
	st := &state{Pauses: append([]pauseToggle{}, ts...)}
	start := zzRange("start", 0, 1<<44)
	st.removeOldPauses(upcomingSong{startIndex: uint64(start)})
	if zzverif.Bool("again") {
		st.removeOldPauses(upcomingSong{startIndex: uint64(start)})
	}
	if len(st.Pauses) < len(ts) {
		zzverif.Reach("pruned")
	}
	start2 := start + zzRange("later", 0, 1<<40)
	sample := start2 + zzRange("in", 1, 1<<44)
	got, playing := st.pausesInCurrentSong(sample, upcomingSong{startIndex: uint64(start2)})
	want, wp := zzModel(ts, start2, sample)
	zzverif.Assert(got == want, "pruning does not change the count")
	zzverif.Assert(playing == wp, "pruning does not change the flag")
	zzverif.Observe("count", got)
}

// ZZ_C19_Info: the same through the information shown, for two songs and advancing time.
func ZZ_C19_Info() {
	ts := zzToggles(zzverif.Choose("toggles", zzverif.Bound("toggles")+1))
	st := &state{Pauses: append([]pauseToggle{}, ts...)}
	st.Chunks = []upcomingChunk{{startTime: 0, startIndex: uint64(zzRange("first", 0, 1<<40)), size: 1 << 24}}
	var idx int64
	for i := 0; i < 2; i++ {
		idx += zzRange("gap", 1, 1<<40)
		st.Songs = append(st.Songs, upcomingSong{filename: string(rune('a' + i)), startIndex: uint64(idx)})
	}
	now := zzRange("now", -1000000000, 100000000000)
	for i := 0; i < 2; i++ {
		info := st.Info(now)
		want, wp := zzModel(ts, int64(info.CurrentSong.startIndex), info.CurrentSample)
		zzverif.Assert(info.PausesInCurrentSong == want, "the shown number of paused samples")
		zzverif.Assert(info.Playing == wp, "the shown state")
		zzverif.Assert(info.playingString() == map[bool]string{true: "Playing", false: "Paused"}[wp], "the name of the state")
		now += zzRange("wait", 0, 100000000000)
	}
}
