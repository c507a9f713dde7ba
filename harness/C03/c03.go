package playback

import (
	"context"
	"errors"
	"io"
	"os"

	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/faiface/beep"
)

type zzTrack struct {
	name    string
	samples [][2]float64
}

type zzStreamer struct {
	t    *zzTrack
	pos  int
	seek bool
}

func (s *zzStreamer) Err() error       { return nil }
func (s *zzStreamer) Len() int {
	if !s.seek {
		return -1 // the decoder cannot find out how long the song is
	}
	return len(s.t.samples)
}
func (s *zzStreamer) Position() int    { return s.pos }
func (s *zzStreamer) Seek(p int) error { s.pos = p; return nil }
func (s *zzStreamer) Close() error     { return nil }
func (s *zzStreamer) Stream(samples [][2]float64) (n int, ok bool) {
	n = copy(samples, s.t.samples[s.pos:])
	s.pos += n
	return n, 0 < n
}

// zzTracks stubs the file system and the decoder: the songs have arbitrary samples.
func zzTracks(n, maxLen int) (ts []*zzTrack, names []string) {
	for i := 0; i < n; i++ {
		t := &zzTrack{name: string(rune('a' + i))}
		for k := zzverif.Choose("len", maxLen+1); 0 < k; k-- {
			l, r := zzverif.Float64("l"), zzverif.Float64("r")
			t.samples = append(t.samples, [2]float64{l, r})
		}
		ts, names = append(ts, t), append(names, t.name)
	}
	opened := ""
	ZZOs_Open = func(name string) (*os.File, error) {
		opened = name
		return nil, nil
	}
	ZZMp3_Decode = func(rc io.ReadCloser) (beep.StreamSeekCloser, beep.Format, error) {
		for _, t := range ts {
			if t.name == opened {
				_, seek := rc.(io.Seeker)
				return &zzStreamer{t: t, seek: seek}, beep.Format{}, nil
			}
		}
		return nil, beep.Format{}, errors.New("no such song")
	}
	return
}

type zzStart struct {
	index  uint64
	name   string
	length int64
}

func zzStreamed(maxLen, total int) {
	brk := zzverif.Choose("break", zzverif.Bound("break")+1)
	ts, names := zzTracks(zzverif.Bound("songs"), maxLen)
	sum := 0
	for _, t := range ts {
		sum += len(t.samples) + brk
	}
	zzverif.Assume(0 < sum)
	pl := NewPlaylist(1+zzverif.Choose("buffer", zzverif.Bound("buffer")), names, brk)
	pl.SetPlaying(true)
	var starts []zzStart
	pl.SetNewSongHandler(func(i uint64, name string, l int64) {
		zzverif.Atomic(1)
		starts = append(starts, zzStart{i, name, l})
		zzverif.Atomic(-1)
	})
	go pl.StreamLoop(context.Background())

	var got [][2]float64
	for len(got) < total {
		n := total - len(got)
		if 0 < zzverif.Bound("read") {
			n = 1 + zzverif.Choose("read", zzverif.Bound("read"))
		}
		low, high := make([]float64, n), make([]float64, n)
		at := pl.Fill(low, high)
		zzverif.Assert(at == uint64(len(got)), "the index of a read is the number of samples read before")
		for i := range low {
			got = append(got, [2]float64{low[i], high[i]})
		}
	}
	zzverif.Quiesce()

	i, k := 0, 0
	for ; i < len(got); k++ {
		t := ts[k%len(ts)]
		found := 0
		for _, s := range starts {
			if s.index == uint64(i) && s.name == t.name {
				found++
				zzverif.Assert(s.length == int64(len(t.samples)), "the announced length is the song's")
			}
		}
		if 0 < len(t.samples)+brk {
			zzverif.Assert(found == 1, "the song is announced once, at the index of its first sample")
		}
		for j := 0; j < len(t.samples) && i < len(got); j++ {
			zzverif.Assert(zzverif.SameFloat(got[i][0], t.samples[j][0]), "every sample of every song appears once, in order, both channels together")
			zzverif.Assert(zzverif.SameFloat(got[i][1], t.samples[j][1]), "every sample of every song appears once, in order, both channels together")
			i++
		}
		for j := 0; j < brk && i < len(got); j++ {
			zzverif.Assert(got[i][0] != got[i][0] && got[i][1] != got[i][1], "between songs come NaN samples")
			i++
		}
	}
	if len(ts) < k {
		zzverif.Reach("wrapped")
	}
	for _, s := range starts {
		if s.index < uint64(len(got)) {
			k--
		}
	}
	if 0 < brk {
		zzverif.Assert(k == 0, "nothing else is announced")
	}
}

// ZZ_C03_Lengths: songs of every length below the bound.
func ZZ_C03_Lengths() { zzStreamed(zzverif.Bound("len"), zzverif.Bound("total")) }

// ZZ_C03_Schedules: short songs, with the schedules of the producer and the reader.
func ZZ_C03_Schedules() { zzStreamed(zzverif.Bound("len"), zzverif.Bound("total")) }
