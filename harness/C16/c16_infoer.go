package main

import (
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/zzverif"
)

// ZZ_C16_Infoer: the infoer records songs, chunks, pauses and the volume, updates its offset,
// answers pings and ignores everything else.
func ZZ_C16_Infoer() {
	comm.ZZWire()
	currentState.Songs, currentState.Chunks, currentState.Pauses = nil, nil, nil
	old := zzverif.Float64("old")
	zzverif.Assume(old == old)
	currentState.Volume = old
	type offset struct{ a, b, c, d int64 }
	var offsets []offset
	ZZTiming_UpdateOffset = func(a, b, c, d int64) { offsets = append(offsets, offset{a, b, c, d}) }
	now := uint64(zzverif.IntRange("now", 0, 1<<57))
	timing.ZZMonotime_Now = func() uint64 { return now }
	m := comm.ZZMessage(comm.ZZKind())
	c := &comm.ZZConn{}
	newInfoerPackageHandler().Handle(m, c)
	zzverif.Quiesce()
	got, ok := comm.ZZDecode(c.Out)
	zzverif.Assert(ok && c.Closed == 0, "only complete messages are sent")
	pongs, s, k, p, o := 0, 0, 0, 0, 0
	volume := old
	switch m := m.(type) {
	case *comm.PingMessage:
		pongs = 1
		zzverif.Assert(len(got) == 1 && comm.ZZSame(got[0], &comm.PongMessage{}), "a ping is answered by a pong")
	case *comm.SetVolumeRequest:
		volume = m.Volume
		zzverif.Reach("volume")
	case *comm.NewSongInfo:
		s = 1
		zzverif.Assert(len(currentState.Songs) == 1 && currentState.Songs[0].startIndex == m.FirstSampleOfSongIndex, "a song is recorded")
		zzverif.Reach("song")
	case *comm.ChunkInfo:
		k = 1
		zzverif.Assert(len(currentState.Chunks) == 1 && currentState.Chunks[0] == upcomingChunk{startTime: m.StartTime, startIndex: m.FirstSampleIndex, size: m.ChunkSize}, "a chunk is recorded")
		zzverif.Reach("chunk")
	case *comm.PauseInfo:
		p = 1
		zzverif.Assert(len(currentState.Pauses) == 1 && currentState.Pauses[0] == pauseToggle{playing: m.Playing, toggleIndex: m.ToggleSampleIndex}, "a pause is recorded")
		zzverif.Reach("pause")
	case *comm.TimeSyncResponse:
		o = 1
		zzverif.Assert(len(offsets) == 1 && offsets[0] == offset{m.ClientSendTime, m.ServerRecvTime, m.ServerSendTime, int64(now)}, "the offset is updated with the reply's times and the time of its receipt")
		zzverif.Reach("offset")
	}
	zzverif.Assert(len(got) == pongs && len(currentState.Songs) == s && len(currentState.Chunks) == k && len(currentState.Pauses) == p && len(offsets) == o, "the infoer reacts only to messages addressed to it")
	zzverif.Assert(currentState.Volume == volume || volume != volume && currentState.Volume != currentState.Volume, "the volume is the one received last")
	zzverif.Reach("end")
}
