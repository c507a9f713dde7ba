package playback

import (
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/hajimehoshi/oto"
)

// zzRendered asserts that a buffer rendered now is rendered with volume v.
func zzRendered(v float64, msg string) {
	s := [][2]float64{{1, -.5}}
	buf := make([]byte, 4)
	samplesToAudioBuf(s, buf)
	l0, l1 := convertSampleToBytes(s[0][0] * v)
	r0, r1 := convertSampleToBytes(s[0][1] * v)
	zzverif.Assert(buf[0] == l0 && buf[1] == l1 && buf[2] == r0 && buf[3] == r1, msg)
}

func zzDevice() {
	never := make(chan bool)
	ZZOto_NewContext = func(rate, channels, depth, size int) (*oto.Context, error) {
		<-never // opening the audio device takes a while
		return nil, nil
	}
}

func zzVolume(name string) float64 {
	v := zzverif.Float64(name)
	zzverif.Assume(0 <= v && v <= 1)
	return v
}

// ZZ_C34_Start: volumes set while the player starts.
func ZZ_C34_Start() {
	zzDevice()
	want := .1
	n := zzverif.Choose("volumes", zzverif.Bound("volumes")+1)
	vs := make([]float64, n)
	for i := range vs {
		vs[i] = zzVolume("v")
		want = vs[i]
	}
	go Init(44100)
	go func() {
		for _, v := range vs {
			SetVolume(v)
		}
	}()
	zzverif.Quiesce()
	zzverif.Reach("started")
	zzRendered(want, "audio is rendered with the volume last set")
}

// ZZ_C34_Each: every change applies to what is rendered after it, and only to that.
func ZZ_C34_Each() {
	zzRendered(.1, "before a volume is set it is 10 %")
	for i := 0; i < zzverif.Bound("volumes"); i++ {
		v := zzVolume("v")
		SetVolume(v)
		zzRendered(v, "audio is rendered with the volume last set")
		zzRendered(v, "rendering does not change the volume")
	}
	zzverif.Reach("end")
}
