package playback

import (
	"math"

	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/zzverif"
)

// ZZOto_Context and ZZOto_Player are an audio device that records what it is to play and has
// room for zzRoom buffers.
type ZZOto_Context struct{}

type ZZOto_Player struct{}

var (
	zzRoom, zzWrites int
	zzBytes          []byte
	zzParams         []int
	zzOpen           int
)

func ZZOto_NewContext(rate, channels, depth, size int) (*ZZOto_Context, error) {
	zzParams = append(zzParams, rate, channels, depth, size)
	return &ZZOto_Context{}, nil
}

func (c *ZZOto_Context) NewPlayer() *ZZOto_Player {
	zzOpen++
	return &ZZOto_Player{}
}

func (p *ZZOto_Player) Write(b []byte) (int, error) {
	if zzRoom == 0 {
		zzverif.WaitUntil(func() bool { return false })
	}
	zzRoom--
	zzWrites++
	zzBytes = append(zzBytes, b...)
	return len(b), nil
}

func (p *ZZOto_Player) Close() error { return nil }

// ZZ_C39_Device: chunks that start at any time within the buffers rendered.
func ZZ_C39_Device() {
	rate := 20 * (1 + zzverif.Choose("rate", 2))
	frames := rate / 10 // of a buffer, a tenth of a second
	dur := int64(1000000000) / int64(rate)
	buffers := zzverif.Bound("buffers")
	zzRoom = buffers
	timing.ZZMonotime_Now = func() uint64 { return uint64(zzWrites) * 100000000 }

	zzverif.Assert(Init(rate) == nil, "the player starts")
	zzverif.Assert(zzOpen == 1 && len(zzParams) == 4 && zzParams[0] == rate && zzParams[1] == 2 && zzParams[2] == 2, "the device is opened once, with the rate of the stream, two channels and two bytes per sample")
	SetVolume(1)
	start := zzverif.Int64("start")
	zzverif.Assume(0 <= start && start < int64(buffers)*100000000)
	n := zzverif.Choose("samples", zzverif.Bound("samples")+1)
	split := zzverif.Choose("split", n+1)
	samples := make([][2]float64, n)
	for i := range samples {
		samples[i] = [2]float64{float64(i+1) / 16, -float64(i+1) / 8}
	}
	QueueChunk(start, 0, samples[:split])
	QueueChunk(start+int64(split)*dur, 1, samples[split:])
	// the stream goes on much later
	QueueChunk(1<<60, 2, [][2]float64{{math.NaN(), math.NaN()}, {1, 1}, {1, 1}})
	zzverif.Quiesce()

	zzverif.Assert(zzWrites == buffers && len(zzBytes) == buffers*frames*4, "buffers of a tenth of a second are rendered as long as the device has room")
	i, first := 0, -1
	for f := 0; f < buffers*frames; f++ {
		l := int(int16(uint16(zzBytes[4*f]) | uint16(zzBytes[4*f+1])<<8))
		r := int(int16(uint16(zzBytes[4*f+2]) | uint16(zzBytes[4*f+3])<<8))
		if i < n && (0 < i || l != 0 || r != 0) {
			if i == 0 {
				first = f
			}
			zzverif.Assert(l == (i+1)*2048 && r == -(i+1)*4096, "the device gets the samples in order, without gaps, left before right")
			i++
			zzverif.Reach("sample")
			continue
		}
		zzverif.Assert(l == 0 && r == 0, "the device gets silence where there are no samples")
		zzverif.Reach("silence")
	}
	if 0 < n && start+dur <= int64(buffers)*100000000-dur {
		zzverif.Assert(0 <= first, "the samples reach the device")
		at := int64(first) * dur
		zzverif.Assert(at-start < 2*dur && start-at < 2*dur, "the samples reach the device in the frames of their time")
	}
}
