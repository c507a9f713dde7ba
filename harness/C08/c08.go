package playback

import "github.com/LogicalOverflow/music-sync/zzverif"

func zzFinite(name string) float64 {
	f := zzverif.Float64(name)
	zzverif.Assume(f-f == 0)
	return f
}

func zzPcm(lo, hi byte) int { return int(int16(uint16(lo) | uint16(hi)<<8)) }

func zzCheckPcm(v int, x float64, what string) {
	if x >= 1 {
		zzverif.Reach("saturated")
		zzverif.Assert(v == 32767, what+": values of 1 and above saturate at the largest PCM value")
		return
	}
	if x <= -1 {
		zzverif.Assert(v == -32768, what+": values of -1 and below saturate at the smallest PCM value")
		return
	}
	d := float64(v) - x*32768
	zzverif.Assert(d >= -1 && d <= 1, what+": within one quantisation step")
	zzverif.Assert(x < 0 || v >= 0, what+": positive samples stay positive")
	zzverif.Assert(x > 0 || v <= 0, what+": negative samples stay negative")
}

// ZZ_C08_Convert: every finite value.
func ZZ_C08_Convert() {
	x := zzFinite("x")
	v := zzPcm(convertSampleToBytes(x))
	zzCheckPcm(v, x, "conversion")
	zzverif.Observe("pcm", int64(v))
}

// ZZ_C08_Monotone: every pair of finite values.
func ZZ_C08_Monotone() {
	x, y := zzFinite("x"), zzFinite("y")
	zzverif.Assume(x <= y)
	v, w := zzPcm(convertSampleToBytes(x)), zzPcm(convertSampleToBytes(y))
	zzverif.Assert(v <= w, "larger samples never give smaller PCM values")
}

// ZZ_C08_Frame: a buffer is rendered frame by frame, left before right.
func ZZ_C08_Frame() {
	n := 1 + zzverif.Choose("n", zzverif.Bound("frames"))
	vol := zzFinite("volume")
	SetVolume(vol)
	s := make([][2]float64, n)
	buf := make([]byte, 4*n+2)
	for i := range buf {
		buf[i] = 0xa5
	}
	for i := range s {
		s[i] = [2]float64{zzFinite("l"), zzFinite("r")}
		for c := range s[i] {
			p := s[i][c] * vol
			zzverif.Assume(p-p == 0)
		}
	}
	samplesToAudioBuf(s, buf[:4*n])
	i := zzverif.Choose("at", n)
	lo, hi := convertSampleToBytes(s[i][0] * vol)
	zzverif.Assert(buf[4*i] == lo && buf[4*i+1] == hi, "the first two bytes of a frame are the left sample times the volume")
	lo, hi = convertSampleToBytes(s[i][1] * vol)
	zzverif.Assert(buf[4*i+2] == lo && buf[4*i+3] == hi, "the last two bytes of a frame are the right sample times the volume")
	zzverif.Assert(buf[4*n] == 0xa5 && buf[4*n+1] == 0xa5, "nothing is written beyond the frames")
}
