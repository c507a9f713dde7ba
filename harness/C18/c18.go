package main

import (
	"time"

	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/zzverif"
)

func zzRange(name string, lo, hi int64) int64 {
	v := zzverif.Int64(name)
	zzverif.Assume(lo <= v && v <= hi)
	return v
}

func zzRate() {
	schedule.SampleRate = []int{44100, 48000, 1, 8000, 192000}[zzverif.Choose("rate", zzverif.Bound("rates"))]
}

const (
	zzDay  = int64(24 * time.Hour)
	zzYear = 365 * zzDay
)

func zzChunks(n int, now int64) []upcomingChunk {
	cs := make([]upcomingChunk, n)
	var idx uint64
	for i := range cs {
		start := zzRange("start", now-zzYear, now+zzDay)
		size := zzRange("size", 0, 1<<24)
		idx += uint64(zzRange("gap", 0, 1<<30))
		cs[i] = upcomingChunk{startTime: start, startIndex: idx, size: uint64(size)}
	}
	return cs
}

func zzDup(cs []upcomingChunk) []upcomingChunk { return append([]upcomingChunk{}, cs...) }

// zzSampleOK: sample is what the chunks say is playing at now.
func zzSampleOK(cs []upcomingChunk, now, sample int64, what string) {
	sr := int64(schedule.SampleRate)
	for _, c := range cs {
		end := c.startTime + int64(c.size)*int64(time.Second)/sr
		if now > end {
			continue
		}
		zzverif.Reach("chunk")
		// samples elapsed since the chunk's start, less than one sample off
		d := (sample-int64(c.startIndex))*int64(time.Second) - (now-c.startTime)*sr
		zzverif.Assert(-int64(time.Second) < d && d < int64(time.Second), what+": the first index of the earliest chunk that has not ended plus the elapsed samples")
		return
	}
	zzverif.Reach("none")
	zzverif.Assert(sample == 0, what+": 0 when no chunk is known")
}

// ZZ_C18_Sample: the current sample for every set of chunks and every time.
func ZZ_C18_Sample() {
	zzRate()
	now := zzRange("now", 0, 100*zzYear)
	cs := zzChunks(zzverif.Choose("chunks", zzverif.Bound("chunks")+1), now)
	st := &state{Chunks: zzDup(cs)}
	sample := st.currentSample(now)
	zzSampleOK(cs, now, sample, "current sample")
	zzverif.Observe("sample", sample)
}

// ZZ_C18_Prune: dropping finished chunks at one time never changes the answer for the present or a later time.
func ZZ_C18_Prune() {
	zzRate()
	now := zzRange("now", 0, 100*zzYear)
	later := now + zzRange("later", 0, zzYear)
	cs := zzChunks(zzverif.Choose("chunks", zzverif.Bound("chunks")+1), now)
	a := &state{Chunks: zzDup(cs)}
	b := &state{Chunks: zzDup(cs)}
	first := a.Info(now).CurrentSample
	a.removeOldChunks(now)
	again := a.currentSample(now)
	zzverif.Assert(first == again, "dropping finished chunks does not change the answer for the present")
	x, y := a.currentSample(later), b.currentSample(later)
	zzverif.Assert(x == y, "dropping finished chunks does not change the answer for a later time")
	zzverif.Assert(len(b.Chunks) <= len(cs), "no chunks appear")
	zzverif.Observe("later", x)
}

// ZZ_C18_Song: the current song for every set of songs and every sample.
func ZZ_C18_Song() {
	n := zzverif.Choose("songs", zzverif.Bound("songs")+1)
	st := &state{}
	var idx int64
	for i := 0; i < n; i++ {
		idx += zzRange("gap", 1, 1<<40)
		st.Songs = append(st.Songs, upcomingSong{filename: string(rune('a' + i)), startIndex: uint64(idx), length: zzRange("length", 0, 1<<40)})
	}
	sample := zzRange("sample", -(1 << 40), 1<<45)
	got := st.currentSong(sample)
	zzverif.Assert(len(st.Songs) == n, "looking does not change the songs")
	best := -1
	for i := range st.Songs {
		if int64(st.Songs[i].startIndex) < sample {
			best = i
		}
	}
	if best < 0 {
		zzverif.Assert(got.startIndex == 0 && got.length == 0 && got.filename == "None", "no song before the first one")
	} else {
		zzverif.Reach("song")
		zzverif.Assert(got.filename == st.Songs[best].filename && got.startIndex == st.Songs[best].startIndex &&
			got.length == st.Songs[best].length, "the song with the largest start index below the current sample")
	}
	zzverif.ObserveStr("song", got.filename)
}

// ZZ_C18_Info: time, length and progress.
func ZZ_C18_Info() {
	zzRate()
	sr := int64(schedule.SampleRate)
	now := zzRange("now", 0, 100*zzYear)
	st := &state{Chunks: zzChunks(zzverif.Choose("chunks", 2), now)}
	n := zzverif.Choose("songs", zzverif.Bound("songs")+1)
	var idx int64
	for i := 0; i < n; i++ {
		idx += zzRange("gap", 1, 1<<28)
		st.Songs = append(st.Songs, upcomingSong{filename: string(rune('a' + i)), startIndex: uint64(idx), length: zzRange("length", 0, 1<<28)})
	}
	if zzverif.Bool("paused") {
		st.Pauses = []pauseToggle{{false, uint64(zzRange("pause", 0, 1<<30))}}
	}
	st.Volume = zzverif.Float64("volume")
	zzverif.Assume(st.Volume == st.Volume)
	info := st.Info(now)
	zzverif.Assert(info.Now == now && info.Volume == st.Volume, "time and volume are passed on")
	want := st.currentSong(info.CurrentSample)
	zzverif.Assert(info.CurrentSong.filename == want.filename && info.CurrentSong.startIndex == want.startIndex, "the shown song is the one of the shown sample")
	zzverif.Assert(info.CurrentSample == st.currentSample(now), "the shown sample is the current one")
	if want.startIndex == 0 {
		zzverif.Assert(info.TimeInSong == 0 && info.SongLength == 0 && info.ProgressInSong == 0, "no time without a song")
		return
	}
	zzverif.Reach("insong")
	elapsed := info.CurrentSample - int64(want.startIndex) - info.PausesInCurrentSong
	zzverif.Assert(0 <= elapsed, "the elapsed time is not negative")
	d := int64(info.TimeInSong)*sr - elapsed*int64(time.Second)
	zzverif.Assert(-sr < d && d < sr, "time in song is the elapsed unpaused samples")
	d = int64(info.SongLength)*sr - want.length*int64(time.Second)
	zzverif.Assert(-sr < d && d < sr, "song length")
	if want.length > 0 {
		zzverif.Reach("progress")
		zzverif.Assert(info.ProgressInSong == float64(elapsed)/float64(want.length), "progress is elapsed over length")
	} else {
		zzverif.Assert(info.ProgressInSong == 0, "no progress in a song without length")
	}
}
