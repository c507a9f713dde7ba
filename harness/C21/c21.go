package main

import (
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/golang/protobuf/proto"
)

var zzNames = []string{"a.mp3", "b.mp3", "c.mp3", "d.mp3", "e.mp3"}

type zzNotes struct {
	msgs  []proto.Message
	state *state // the state with every notification recorded once, in stream order
}

// zzNotifications yields n notifications; those of one kind have distinct indices.
func zzNotifications(n int) *zzNotes {
	z := &zzNotes{state: &state{}}
	st := z.state
	for i := 0; i < n; i++ {
		idx := zzverif.Uint64("index")
		zzverif.Assume(idx < 1<<62)
		switch zzverif.Choose("kind", 3) {
		case 0:
			l := len(st.Songs)
			zzverif.Assume(l == 0 || st.Songs[max0(l-1)].startIndex < idx)
			m := &comm.NewSongInfo{FirstSampleOfSongIndex: idx, SongFileName: zzNames[i], SongLength: zzverif.Int64("length")}
			z.msgs = append(z.msgs, m)
			st.Songs = append(st.Songs, upcomingSong{filename: m.SongFileName, startIndex: idx, length: m.SongLength})
		case 1:
			l := len(st.Chunks)
			zzverif.Assume(l == 0 || st.Chunks[max0(l-1)].startIndex < idx)
			m := &comm.ChunkInfo{StartTime: zzverif.Int64("time"), FirstSampleIndex: idx, ChunkSize: zzverif.Uint64("size")}
			zzverif.Assume(0 <= m.StartTime && m.StartTime < 1<<60 && 0 < m.ChunkSize && m.ChunkSize < 1<<20)
			if 0 < l {
				// chunks follow each other
				zzverif.Assume(st.Chunks[l-1].startTime < m.StartTime)
			}
			z.msgs = append(z.msgs, m)
			st.Chunks = append(st.Chunks, upcomingChunk{startTime: m.StartTime, startIndex: idx, size: m.ChunkSize})
		case 2:
			l := len(st.Pauses)
			zzverif.Assume(l == 0 || st.Pauses[max0(l-1)].toggleIndex < idx)
			m := &comm.PauseInfo{Playing: zzverif.Bool("playing"), ToggleSampleIndex: idx}
			z.msgs = append(z.msgs, m)
			st.Pauses = append(st.Pauses, pauseToggle{playing: m.Playing, toggleIndex: idx})
		}
	}
	return z
}

func max0(a int) int {
	if a < 0 {
		return 0
	}
	return a
}

func zzReset() {
	currentState.Songs, currentState.Chunks, currentState.Pauses = nil, nil, nil
	currentState.Volume = 0
}

func zzCheck(want *state, forgot bool) {
	got := currentState
	zzverif.Assert(len(got.Songs) == len(want.Songs) && len(got.Chunks) == len(want.Chunks) && (forgot || len(got.Pauses) == len(want.Pauses)), "every notification is recorded exactly once")
	for i, s := range got.Songs {
		w := want.Songs[i]
		zzverif.Assert(s.startIndex == w.startIndex && s.filename == w.filename && s.length == w.length, "songs are ordered by their start")
	}
	for i, c := range got.Chunks {
		zzverif.Assert(c == want.Chunks[i], "chunks are ordered by their start")
	}
	if forgot {
		want.Pauses, got.Pauses = nil, nil
	}
	for i, p := range got.Pauses {
		zzverif.Assert(p == want.Pauses[i], "pauses are ordered by their index")
	}
}

func zzCheckShown(want *state) {
	now, got := zzverif.Int64("now"), currentState
	a, b := got.Info(now), want.Info(now)
	zzverif.Assert(a.CurrentSample == b.CurrentSample && a.CurrentSong.startIndex == b.CurrentSong.startIndex && a.CurrentSong.filename == b.CurrentSong.filename &&
		a.PausesInCurrentSong == b.PausesInCurrentSong && a.Playing == b.Playing && a.SongLength == b.SongLength && a.TimeInSong == b.TimeInSong,
		"the same information is shown")
}

// ZZ_C21_Order: the notifications are handled one after the other in every order.
func ZZ_C21_Order() {
	z := zzNotifications(zzverif.Bound("n"))
	zzReset()
	h := newInfoerPackageHandler()
	left := append([]proto.Message{}, z.msgs...)
	for 0 < len(left) {
		k := zzverif.Choose("next", len(left))
		h.Handle(left[k], nil)
		zzverif.Quiesce()
		left = append(left[:k:k], left[k+1:]...)
	}
	zzCheck(z.state, false)
	zzCheckShown(z.state)
	zzverif.Reach("end")
}

// ZZ_C21_Concurrent: the notifications are handled at the same time, while the information is shown.
func ZZ_C21_Concurrent() {
	z := zzNotifications(zzverif.Bound("n"))
	zzReset()
	h := newInfoerPackageHandler()
	if zzverif.Choose("reverse", 2) == 1 {
		for i := len(z.msgs) - 1; 0 <= i; i-- {
			h.Handle(z.msgs[i], nil)
		}
	} else {
		for _, m := range z.msgs {
			h.Handle(m, nil)
		}
	}
	forgot := false
	if zzverif.Choose("show", 2) == 1 {
		// at the time 0 no chunk is over; pauses before the current song may be forgotten (C19)
		currentState.Info(0)
		forgot = 0 < len(z.state.Songs)
	}
	zzverif.Quiesce()
	zzCheck(z.state, forgot)
	zzverif.Reach("end")
}
