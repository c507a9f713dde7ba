package playback

import (
	"context"
	"errors"
	"io"
	"os"

	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/faiface/beep"
)

// zzPlay is one song start, with what was streamed of it.
type zzPlay struct {
	song   int
	blocks int  // number of calls of Stream
	done   bool // streamed to its end
	after  int  // calls of Stream that began after the last jump returned
}

var (
	zzPlays  []*zzPlay
	zzJumped bool
)

// zzStreamer has n full blocks of samples.
type zzStreamer struct {
	p *zzPlay
	n int
}

func (s *zzStreamer) Err() error       { return nil }
func (s *zzStreamer) Len() int         { return s.n * streamerBufferSize }
func (s *zzStreamer) Position() int    { return s.p.blocks * streamerBufferSize }
func (s *zzStreamer) Seek(p int) error { return nil }
func (s *zzStreamer) Close() error     { return nil }
func (s *zzStreamer) Stream(samples [][2]float64) (n int, ok bool) {
	zzverif.Atomic(1)
	defer zzverif.Atomic(-1)
	if zzJumped {
		s.p.after++
	}
	if s.p.blocks == s.n {
		s.p.done = true
		return 0, false
	}
	for i := range samples {
		samples[i] = [2]float64{float64(s.p.song), float64(s.p.blocks)}
	}
	s.p.blocks++
	return len(samples), true
}

func zzName(i int) string { return string(rune('a' + i)) }

// zzOpener lets songs be opened except those that fail; every attempt is recorded.
func zzOpener(fails []bool, blocks int) {
	opened := 0
	ZZOs_Open = func(name string) (*os.File, error) {
		zzverif.Atomic(1)
		defer zzverif.Atomic(-1)
		opened = int(name[0] - 'a')
		if fails[opened] && zzverif.Bound("openfails") == 1 {
			zzPlays = append(zzPlays, &zzPlay{song: opened, done: true})
			return nil, errors.New("cannot open")
		}
		return nil, nil
	}
	ZZMp3_Decode = func(rc io.ReadCloser) (beep.StreamSeekCloser, beep.Format, error) {
		zzverif.Atomic(1)
		defer zzverif.Atomic(-1)
		p := &zzPlay{song: opened}
		zzPlays = append(zzPlays, p)
		if fails[opened] {
			p.done = true
			return nil, beep.Format{}, errors.New("cannot decode")
		}
		return &zzStreamer{p: p, n: blocks}, beep.Format{}, nil
	}
}

func zzRead(pl *Playlist, n int) {
	low, high := make([]float64, n), make([]float64, n)
	pl.Fill(low, high)
}

// ZZ_C02_Order: without jumps every song is followed by its successor, from any position.
func ZZ_C02_Order() {
	n := 1 + zzverif.Choose("songs", zzverif.Bound("songs"))
	fails := make([]bool, n)
	var names []string
	some := false
	for i := range fails {
		fails[i] = zzverif.Bool("fails")
		names = append(names, zzName(i))
		some = some || !fails[i]
	}
	zzverif.Assume(some)
	zzOpener(fails, zzverif.Choose("blocks", zzverif.Bound("blocks")+1))
	pl := NewPlaylist(1, names, 1)
	pl.SetPlaying(true)
	start := zzverif.Int("start")
	want := 0
	if zzverif.Bool("jump") {
		pl.SetPos(start)
		if 0 < start {
			want = start % n
		}
		zzverif.Assert(pl.Pos() == want, "the position is the one jumped to")
	}
	go pl.StreamLoop(context.Background())
	zzRead(pl, zzverif.Bound("total"))
	zzverif.Quiesce()
	for k, p := range zzPlays {
		zzverif.Assert(p.song == want, "the song that starts is the next one")
		zzverif.Assert(p.done || k == len(zzPlays)-1, "a song is played to its end")
		if want++; want == n {
			want = 0
			zzverif.Reach("wrapped")
		}
		if fails[p.song] {
			zzverif.Reach("skipped")
		}
	}
}

// ZZ_C02_Jump: jumps at arbitrary moments of the streaming.
func ZZ_C02_Jump() { zzJumps(false, false) }

// ZZ_C02_JumpAny: the same with arbitrary numbers as positions.
func ZZ_C02_JumpAny() { zzJumps(true, false) }

// ZZ_C02_JumpFail: jumps while a song that cannot be opened may be up next.
func ZZ_C02_JumpFail() { zzJumps(false, true) }

func zzJumps(any, failing bool) {
	n := zzverif.Bound("songs")
	fails := make([]bool, n)
	var names []string
	for i := range fails {
		names = append(names, zzName(i))
	}
	if failing {
		fails[zzverif.Choose("failing", n)] = true
	}
	blocks := zzverif.Bound("blocks")
	zzOpener(fails, blocks)
	pl := NewPlaylist(1, names, 1)
	pl.SetPlaying(true)
	mark, target := -1, 0
	go pl.StreamLoop(context.Background())
	jumps := zzverif.Bound("jumps")
	go func() {
		for i := 0; i < jumps; i++ {
			p := 0
			if any {
				p = zzverif.Int("pos")
			} else {
				p = zzverif.Choose("pos", 2*n+1) - 1
			}
			pl.SetPos(p)
			target = 0
			if 0 < p {
				target = p % n
			}
		}
		zzverif.Atomic(1)
		mark, zzJumped = len(zzPlays), true
		zzverif.Atomic(-1)
	}()
	zzRead(pl, zzverif.Bound("total"))
	zzverif.Quiesce()
	zzverif.Assert(0 <= mark, "a jump does not block")

	// The songs before the jump follow one another. When it returns, the song jumped to has
	// just been started, or is started after the one playing and perhaps another one about to start.
	for i := 0; i < mark-1 && jumps == 1; i++ {
		zzverif.Assert(zzPlays[i].song == i%n && (zzPlays[i].done || i == mark-2), "before the jump songs follow in order")
	}
	found := false
	for i := mark - 1; i <= mark+1 && !found; i++ {
		if 0 <= i {
			found = zzFrom(i, mark, target, n, blocks, fails)
		}
	}
	zzverif.Assert(found, "the interrupted song ends, the one jumped to is next and the others follow in order")
}

// zzFrom: the song jumped to is the i-th one started.
func zzFrom(i, mark, target, n, blocks int, fails []bool) bool {
	for k := mark - 1; k < i && k < len(zzPlays); k++ {
		if 0 <= k && 1 < zzPlays[k].after {
			return false
		}
	}
	for ; i < len(zzPlays); i++ {
		zzverif.Reach("target")
		p := zzPlays[i]
		if p.song != target || i < len(zzPlays)-1 && !(p.done && (p.blocks == blocks || fails[p.song])) {
			return false
		}
		if target++; target == n {
			target = 0
		}
	}
	return true
}

// ZZ_C02_Empty: jumps on an empty playlist, then songs are added.
func ZZ_C02_Empty() {
	n := zzverif.Bound("songs")
	fails := make([]bool, n)
	blocks := zzverif.Bound("blocks")
	zzOpener(fails, blocks)
	pl := NewPlaylist(1, nil, 1)
	pl.SetPlaying(true)
	go pl.StreamLoop(context.Background())
	want := 0
	for i := 0; i < zzverif.Bound("jumps"); i++ {
		zzverif.Assert(pl.Pos() == 0 || 0 < i, "position in an empty playlist")
		p := zzverif.Int("pos")
		pl.SetPos(p)
		want = 0
		if 0 < p {
			want = p % n
		}
	}
	for i := 0; i < n; i++ {
		pl.InsertSong(zzName(n-1-i), 0)
	}
	zzRead(pl, zzverif.Bound("total"))
	zzverif.Quiesce()
	for i, p := range zzPlays {
		if i == 0 {
			continue // started while songs were being added
		}
		zzverif.Assert(p.song == (zzPlays[0].song+i)%n, "songs follow in order")
		zzverif.Assert(zzPlays[i-1].done && zzPlays[i-1].blocks == blocks, "a song is played to its end")
	}
	if 0 < len(zzPlays) {
		zzverif.Reach("started")
		zzverif.Assert(zzPlays[0].song == want, "the first song is the one jumped to")
	}
}
