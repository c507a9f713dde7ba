package schedule

import (
	"context"
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/metadata"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/golang/protobuf/proto"
	"math"
	"time"
)

type zzSender struct {
	chunks []*comm.QueueChunkRequest
	infos  []*comm.ChunkInfo
	other  int
}

func (s *zzSender) SendMessage(m proto.Message) error {
	zzverif.Atomic(1)
	defer zzverif.Atomic(-1)
	switch m := m.(type) {
	case *comm.QueueChunkRequest:
		s.chunks = append(s.chunks, m)
	case *comm.ChunkInfo:
		s.infos = append(s.infos, m)
	case *comm.SetVolumeRequest:
	default:
		s.other++
	}
	return nil
}

// ZZ_C17_Timeline: the server streams a number of chunks.
func ZZ_C17_Timeline() {
	n, size := zzverif.Bound("ticks"), 1+zzverif.Choose("size", zzverif.Bound("size"))
	StreamChunkSize, SampleRate = size, n*size+1
	StreamChunkTime = time.Duration(zzverif.Int64("chunk time"))
	StreamDelay = time.Duration(zzverif.Int64("stream delay"))
	StreamStartDelay = time.Duration(zzverif.Int64("start delay"))
	zzverif.Assume(0 < StreamChunkTime && StreamChunkTime < 1<<50 && 0 <= StreamDelay && StreamDelay < 1<<50)

	clock := int64(0)
	offset := zzverif.IntRange("offset", -1<<40, 1<<40)
	slept := false
	timing.ZZMonotime_Now = func() uint64 { return uint64(clock) }
	timing.ResetOffsets(1)
	timing.UpdateOffset(0, int64(offset), int64(offset), 0)
	later := int64(zzverif.IntRange("clock", 1, 1<<50))
	ZZTime_Sleep = func(d time.Duration) {
		zzverif.Assert(!slept && d == StreamStartDelay, "the stream starts after the configured delay")
		slept = true
		clock = later
	}
	ticks := make(chan time.Time, n)
	ZZTime_Tick = func(d time.Duration) <-chan time.Time {
		zzverif.Assert(d == StreamChunkTime, "a chunk is sent every chunk duration")
		zzverif.Assert(slept, "the stream starts after the configured delay")
		return ticks
	}
	ZZContext_Background = func() context.Context {
		ctx, cancel := context.WithCancel(context.Background())
		cancel() // the harness provides the stream
		return ctx
	}
	ZZMetadata_GetLyricsProvider = func() metadata.LyricsProvider { return nil }
	ZZMetadata_GetProvider = func() metadata.Provider { return nil }
	ZZSsh_RegisterCommand = func(c ssh.Command) {}
	var pl *playback.Playlist
	ZZPlayback_NewPlaylist = func(n int, songs []string, b int) *playback.Playlist {
		pl = playback.NewPlaylist(n, songs, b)
		return pl
	}
	s := &zzSender{}
	Server(s)
	lows, highs := make([]float64, n*size), make([]float64, n*size)
	for i := range lows {
		lows[i], highs[i] = zzverif.Float64("low"), zzverif.Float64("high")
		pl.ZZPush(lows[i], highs[i])
	}
	zzverif.Quiesce()
	for i := 0; i < n; i++ {
		clock += int64(zzverif.IntRange("late", 0, 1<<40))
		ticks <- time.Time{}
		if zzverif.Choose("burst", 2) == 0 {
			zzverif.Quiesce()
		}
	}
	zzverif.Quiesce()
	zzverif.Assert(len(s.chunks) == n && len(s.infos) == n && s.other == 0, "every tick sends one chunk and one chunk info")
	base := later + int64(offset) + int64(StreamDelay)
	seen := make([]bool, n)
	for _, c := range s.chunks {
		k := int(c.ChunkId)
		zzverif.Assert(0 <= k && k < n && !seen[k], "chunk numbers count up from 0")
		seen[k] = true
		zzverif.Assert(c.StartTime == base+int64(k)*int64(StreamChunkTime), "chunk k starts k chunk durations after the base")
		zzverif.Assert(c.FirstSampleIndex == uint64(k*size), "the first sample index is the number of samples sent before")
		zzverif.Assert(len(c.SampleLow) == size && len(c.SampleHigh) == size, "a chunk holds chunk-size samples")
		same := true
		for i := 0; i < size; i++ {
			same = zzAnd(same, math.Float64bits(c.SampleLow[i]) == math.Float64bits(lows[k*size+i]))
			same = zzAnd(same, math.Float64bits(c.SampleHigh[i]) == math.Float64bits(highs[k*size+i]))
		}
		zzverif.Assert(same, "a chunk holds exactly the next samples of the stream")
		found := 0
		for _, ci := range s.infos {
			if ci.FirstSampleIndex == c.FirstSampleIndex && ci.StartTime == c.StartTime && ci.ChunkSize == uint64(size) {
				found++
			}
		}
		zzverif.Assert(found == 1, "the chunk info agrees with the chunk")
	}
	zzverif.Reach("end")
}

func zzAnd(a, b bool) bool {
	if !a {
		return false
	}
	return b
}
