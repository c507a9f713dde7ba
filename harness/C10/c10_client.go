package schedule

import (
	"errors"
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/golang/protobuf/proto"
	"time"
)

type zzSender struct {
	syncs []int64
	subs  []comm.Channel
	other int
	fail  bool
	on    func()
}

func (s *zzSender) SendMessage(m proto.Message) error {
	switch m := m.(type) {
	case *comm.TimeSyncRequest:
		s.syncs = append(s.syncs, m.ClientSend)
		s.on()
		if s.fail && zzverif.Bool("send fails") {
			return errors.New("zz: send")
		}
	case *comm.SubscribeChannelRequest:
		s.subs = append(s.subs, m.Channel)
	default:
		s.other++
	}
	return nil
}

func zzClient(start func(comm.MessageSender), want comm.Channel) {
	cycles := 1 + zzverif.Choose("cycles", zzverif.Bound("cycles"))
	TimeSyncCycles = cycles
	TimeSyncInterval = time.Duration(zzverif.IntRange("interval", 1, 1<<50))
	ticks := make(chan time.Time, 1)
	var tick []time.Duration
	ZZTime_Tick = func(d time.Duration) <-chan time.Time {
		tick = append(tick, d)
		return ticks
	}
	ZZTime_Sleep = func(time.Duration) {}
	base, readings := zzverif.IntRange("clock", 0, 1<<60), 0
	timing.ZZMonotime_Now = func() uint64 {
		readings++
		return uint64(base + 1000*readings)
	}
	// an earlier round has found an offset
	timing.ResetOffsets(1)
	off := zzverif.IntRange("offset", -1<<61, 1<<61)
	timing.UpdateOffset(0, int64(off), int64(off), 0)
	var resets []int
	s := &zzSender{fail: true}
	ZZTiming_ResetOffsets = func(n int) {
		zzverif.Assert(n == cycles, "a round is started for as many exchanges as it has")
		resets = append(resets, len(s.syncs))
	}
	s.on = func() {
		zzverif.Assert(s.syncs[len(s.syncs)-1] == int64(base+1000*readings), "a request is stamped with the client's current time")
		zzverif.Assert(len(s.syncs) == readings, "every request has its own time")
	}
	ZZPlayback_Init = func(int) error { return nil }
	start(s)
	zzverif.Quiesce()
	zzverif.Assert(len(s.syncs) == cycles && len(resets) == 1 && resets[0] == 0, "a round sends the configured number of requests after starting it")
	zzverif.Assert(len(s.subs) == 1 && s.subs[0] == want && s.other == 0, "the client subscribes to its channel once")
	for r := 1; r <= zzverif.Bound("rounds"); r++ {
		ticks <- time.Time{}
		zzverif.Quiesce()
		zzverif.Assert(len(s.syncs) == (r+1)*cycles && len(resets) == r+1 && resets[r] == r*cycles, "a round sends the configured number of requests after starting it")
	}
	zzverif.Assert(len(tick) == 1 && tick[0] == TimeSyncInterval, "rounds are repeated at the configured interval")
	zzverif.Reach("end")
}

// ZZ_C10_Player and ZZ_C10_Infoer: the rounds of requests clients send.
func ZZ_C10_Player() { zzClient(Player, comm.Channel_AUDIO) }
func ZZ_C10_Infoer() { zzClient(Infoer, comm.Channel_META) }
