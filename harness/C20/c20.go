package schedule

import (
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/zzverif"
)

type zzEvent struct {
	song    bool
	playing bool
	index   uint64
	name    string
	length  int64
}

var zzSongNames = []string{"a.mp3", "b.mp3", "c.mp3", "d.mp3", "e.mp3", "f.mp3"}

// zzEvents yields n notifications with distinct indices, in stream order.
func zzEvents(n int) []zzEvent {
	es := make([]zzEvent, n)
	for i := range es {
		es[i].index = zzverif.Uint64("index")
		if 0 < i {
			zzverif.Assume(es[i-1].index < es[i].index)
		}
		switch zzverif.Choose("kind", 3) {
		case 0:
			es[i].song, es[i].name, es[i].length = true, zzSongNames[i], zzverif.Int64("length")
		case 1:
			es[i].playing = true
		}
	}
	return es
}

// zzCheckClient decides whether a client that connects now knows what one that saw everything knows.
func zzCheckClient(s *zzServer, seen []zzEvent) {
	c := s.connect(comm.Channel_META)
	zzverif.Quiesce()
	_, songs, pauses := zzReceived(c)
	newest := -1
	for i, e := range seen {
		if e.song && (newest < 0 || seen[newest].index < e.index) {
			newest = i
		}
	}
	if newest < 0 {
		zzverif.Assert(len(songs) == 0, "no song, nothing sent")
	} else {
		e := seen[newest]
		zzverif.Assert(len(songs) == 1, "new clients receive one song")
		zzverif.Assert(zzHasSong(songs, e.index, e.name, e.length), "the song kept for new clients is the one that starts last")
		zzverif.Reach("newest")
	}
	for i, p := range pauses {
		zzverif.Assert(i == 0 || pauses[i-1].ToggleSampleIndex < p.ToggleSampleIndex, "recorded pauses are in stream order, each once")
	}
	for _, p := range pauses {
		ok := false
		for _, e := range seen {
			if !e.song && e.playing == p.Playing && e.index == p.ToggleSampleIndex {
				ok = true
			}
		}
		zzverif.Assert(ok, "only pauses that happened are recorded")
	}
	for _, e := range seen {
		if e.song {
			continue
		}
		// is there a later resume up to the newest song?
		past := false
		if 0 <= newest {
			for _, r := range seen {
				if !r.song && r.playing && e.index < r.index && r.index <= seen[newest].index {
					past = true
				}
			}
		}
		if past {
			zzverif.Reach("past")
			continue
		}
		zzverif.Assert(zzHasPause(pauses, e.playing, e.index), "only pauses before the last resume before the newest song are forgotten")
		zzverif.Reach("kept")
	}
}

// ZZ_C20_Concurrent: the notifications are handled at the same time.
func ZZ_C20_Concurrent() {
	s := zzListen()
	Server(s.sender)
	old := s.connect(comm.Channel_META)
	zzverif.Quiesce()
	newSong, toggle := s.playlist.ZZHandlers()
	n := zzverif.Bound("events")
	es := zzEvents(n)
	done, left := 0, make([]int, n)
	for i := range left {
		left[i] = i
	}
	if 2 < n {
		// a pause that was handled before
		zzverif.Assume(!es[0].song && !es[0].playing)
		toggle(false, es[0].index)
		zzverif.Quiesce()
		done, left = 1, left[1:]
	}
	for 0 < len(left) {
		k := zzverif.Choose("next", len(left))
		e := es[left[k]]
		left = append(left[:k:k], left[k+1:]...)
		comm.ZZGo(func() {
			if e.song {
				newSong(e.index, e.name, e.length)
			} else {
				toggle(e.playing, e.index)
			}
			done++
		})
	}
	zzverif.WaitUntil(func() bool { return done == n })
	zzverif.Quiesce()
	_, songs, pauses := zzReceived(old)
	ns := 0
	for _, e := range es {
		if e.song {
			ns++
			zzverif.Assert(zzHasSong(songs, e.index, e.name, e.length), "every song is broadcast")
		} else {
			zzverif.Assert(zzHasPause(pauses, e.playing, e.index), "every pause and resume is broadcast")
		}
	}
	zzverif.Assert(len(songs) == ns && len(pauses) == n-ns, "every notification is broadcast once")
	zzCheckClient(s, es)
}

// ZZ_C20_History: the notifications are handled one after the other, in any order.
func ZZ_C20_History() {
	s := zzListen()
	Server(s.sender)
	zzverif.Quiesce()
	newSong, toggle := s.playlist.ZZHandlers()
	es := zzEvents(zzverif.Bound("events"))
	swap := zzverif.Choose("swap", len(es))
	if 0 < swap {
		es[swap-1], es[swap] = es[swap], es[swap-1]
	}
	for _, e := range es {
		if e.song {
			newSong(e.index, e.name, e.length)
		} else {
			toggle(e.playing, e.index)
		}
		zzverif.Quiesce()
	}
	zzCheckClient(s, es)
}
