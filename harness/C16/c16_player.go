package main

import (
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/zzverif"
)

func zzBits(f float64, g float64) bool { return f == g || f != f && g != g }

// ZZ_C16_Player: the player queues chunks, sets the volume, updates its offset, answers pings
// and ignores everything else.
func ZZ_C16_Player() {
	comm.ZZWire()
	type chunk struct {
		start, id int64
		samples   [][2]float64
	}
	var queued []chunk
	ZZPlayback_QueueChunk = func(start, id int64, samples [][2]float64) {
		queued = append(queued, chunk{start, id, samples})
	}
	var volumes []float64
	ZZPlayback_SetVolume = func(v float64) { volumes = append(volumes, v) }
	type offset struct{ a, b, c, d int64 }
	var offsets []offset
	ZZTiming_UpdateOffset = func(a, b, c, d int64) { offsets = append(offsets, offset{a, b, c, d}) }
	now := uint64(zzverif.IntRange("now", 0, 1<<57))
	timing.ZZMonotime_Now = func() uint64 { return now }
	m := comm.ZZMessage(comm.ZZKind())
	c := &comm.ZZConn{}
	newPlayerPackageHandler().Handle(m, c)
	zzverif.Quiesce()
	got, ok := comm.ZZDecode(c.Out)
	zzverif.Assert(ok && c.Closed == 0, "only complete messages are sent")
	pongs, q, v, o := 0, 0, 0, 0
	switch m := m.(type) {
	case *comm.PingMessage:
		pongs = 1
		zzverif.Assert(len(got) == 1 && comm.ZZSame(got[0], &comm.PongMessage{}), "a ping is answered by a pong")
	case *comm.QueueChunkRequest:
		q = 1
		zzverif.Assert(len(queued) == 1, "a chunk is queued once")
		zzverif.Assert(queued[0].start == m.StartTime, "a chunk is queued with its start time")
		n := len(m.SampleLow)
		zzverif.Assert(len(queued[0].samples) == n, "a chunk is queued with its samples")
		for i := range m.SampleLow {
			zzverif.Assert(zzBits(queued[0].samples[i][0], m.SampleLow[i]) && zzBits(queued[0].samples[i][1], m.SampleHigh[i]), "a chunk is queued with its samples")
		}
		zzverif.Reach("chunk")
	case *comm.SetVolumeRequest:
		v = 1
		zzverif.Assert(len(volumes) == 1 && zzBits(volumes[0], m.Volume), "the volume is set to the one received")
		zzverif.Reach("volume")
	case *comm.TimeSyncResponse:
		o = 1
		zzverif.Assert(len(offsets) == 1 && offsets[0] == offset{m.ClientSendTime, m.ServerRecvTime, m.ServerSendTime, int64(now)}, "the offset is updated with the reply's times and the time of its receipt")
		zzverif.Reach("offset")
	}
	zzverif.Assert(len(got) == pongs && len(queued) == q && len(volumes) == v && len(offsets) == o, "the player reacts only to messages addressed to it")
	zzverif.Reach("end")
}
