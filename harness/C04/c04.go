package playback

import (
	"context"
	"errors"
	"io"
	"os"

	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/faiface/beep"
)

type zzTrack struct {
	name    string
	samples [][2]float64
}

type zzStreamer struct {
	t   *zzTrack
	pos int
}

func (s *zzStreamer) Err() error       { return nil }
func (s *zzStreamer) Len() int         { return len(s.t.samples) }
func (s *zzStreamer) Position() int    { return s.pos }
func (s *zzStreamer) Seek(p int) error { s.pos = p; return nil }
func (s *zzStreamer) Close() error     { return nil }
func (s *zzStreamer) Stream(samples [][2]float64) (n int, ok bool) {
	n = copy(samples, s.t.samples[s.pos:])
	s.pos += n
	return n, 0 < n
}

// zzTracks stubs the file system and the decoder: the songs have arbitrary samples.
func zzTracks(n, maxLen int) (ts []*zzTrack, names []string) {
	for i := 0; i < n; i++ {
		t := &zzTrack{name: string(rune('a' + i))}
		for k := zzverif.Choose("len", maxLen+1); 0 < k; k-- {
			l, r := zzverif.Float64("l"), zzverif.Float64("r")
			zzverif.Assume(l == l && r == r)
			t.samples = append(t.samples, [2]float64{l, r})
		}
		ts, names = append(ts, t), append(names, t.name)
	}
	opened := ""
	ZZOs_Open = func(name string) (*os.File, error) {
		opened = name
		return nil, nil
	}
	ZZMp3_Decode = func(rc io.ReadCloser) (beep.StreamSeekCloser, beep.Format, error) {
		for _, t := range ts {
			if t.name == opened {
				return &zzStreamer{t: t}, beep.Format{}, nil
			}
		}
		return nil, beep.Format{}, errors.New("no such song")
	}
	return
}


type zzToggle struct {
	playing bool
	index   uint64
}

// ZZ_C04_Toggles: SetPlaying calls at arbitrary moments of the streaming.
func ZZ_C04_Toggles() { zzToggles() }

// ZZ_C04_Races: fewer samples and calls, more deviations from the round-robin schedule.
func ZZ_C04_Races() { zzToggles() }

func zzToggles() {
	brk := zzverif.Bound("break")
	ts, names := zzTracks(1, zzverif.Bound("len"))
	t := ts[0]
	zzverif.Assume(0 < len(t.samples))
	total := zzverif.Bound("total")
	pl := NewPlaylist(zzverif.Bound("buffer"), names, brk)
	var toggles []zzToggle
	pl.SetPauseToggleHandler(func(playing bool, sample uint64) {
		zzverif.Atomic(1)
		toggles = append(toggles, zzToggle{playing, sample})
		zzverif.Atomic(-1)
	})
	first := zzverif.Bool("playing")
	pl.SetPlaying(first)
	go pl.StreamLoop(context.Background())
	set := make(chan bool, 1)
	go func() {
		for i := 0; i < zzverif.Bound("sets"); i++ {
			p := zzverif.Bool("playing")
			pl.SetPlaying(p)
			zzverif.Assert(pl.Playing() == p, "SetPlaying sets the state")
		}
		set <- true
	}()

	low, high := make([]float64, total), make([]float64, total)
	pl.Fill(low, high)
	<-set
	zzverif.Quiesce()

	// the announced state at every index; state changes alternate
	state, last, n := true, uint64(0), 0
	j, brks := 0, 0
	for i := 0; i < total; i++ {
		for k := 0; k < len(toggles); k++ {
			if toggles[k].index == uint64(i) {
				zzverif.Assert(toggles[k].playing != state, "announcements alternate, one per index")
				zzverif.Assert(n == 0 || last < uint64(i), "announcements alternate, one per index")
				state, last = toggles[k].playing, uint64(i)
				n++
			}
		}
		if !state {
			zzverif.Reach("paused")
			zzverif.Assert(low[i] != low[i] && high[i] != high[i], "only NaN samples while paused")
			continue
		}
		if low[i] != low[i] {
			zzverif.Assert(high[i] != high[i], "both channels are NaN")
			brks++
			zzverif.Assert(j == len(t.samples) && brks <= brk, "NaN samples while playing only between songs")
			continue
		}
		zzverif.Reach("played")
		if j == len(t.samples) {
			zzverif.Assert(brks == brk, "the song ends with the NaN break")
			j, brks = 0, 0
		}
		zzverif.Assert(low[i] == t.samples[j][0] && high[i] == t.samples[j][1], "the song continues with exactly the next sample")
		j++
	}
}
