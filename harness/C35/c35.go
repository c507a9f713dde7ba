package playback

import (
	"context"
	"errors"
	"io"

	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/faiface/beep"
)

// ZZOs_File is an open file.
type ZZOs_File struct {
	closed int
}

func (f *ZZOs_File) check() {
	zzverif.Assert(f.closed == 0, "a closed file is not used")
}
func (f *ZZOs_File) Read(b []byte) (int, error)                   { f.check(); return 0, io.EOF }
func (f *ZZOs_File) Seek(offset int64, whence int) (int64, error) { f.check(); return 0, nil }
func (f *ZZOs_File) Close() error {
	zzverif.Atomic(1)
	defer zzverif.Atomic(-1)
	f.closed++
	if zzCloseFails {
		return errors.New("cannot close")
	}
	return nil
}

type zzDecoder struct {
	rc     io.ReadCloser
	pos, n int
	closed int
}

var (
	// ZZOs_Open opens a file.
	ZZOs_Open func(string) (*ZZOs_File, error)

	zzFiles      []*ZZOs_File
	zzDecoders   []*zzDecoder
	zzCloseFails bool
)

func (s *zzDecoder) Err() error       { return nil }
func (s *zzDecoder) Len() int         { return s.n * streamerBufferSize }
func (s *zzDecoder) Position() int    { return s.pos * streamerBufferSize }
func (s *zzDecoder) Seek(p int) error { return nil }
func (s *zzDecoder) Close() error {
	zzverif.Atomic(1)
	defer zzverif.Atomic(-1)
	s.closed++
	zzverif.Assert(s.closed == 1, "a song is closed once")
	return s.rc.Close()
}
func (s *zzDecoder) Stream(samples [][2]float64) (n int, ok bool) {
	zzverif.Atomic(1)
	defer zzverif.Atomic(-1)
	zzverif.Assert(s.closed == 0, "a closed song is not read")
	if s.pos == s.n {
		return 0, false
	}
	s.pos++
	return len(samples), true
}

func zzDecoding(n, broken int) {
	ZZOs_Open = func(name string) (*ZZOs_File, error) {
		zzverif.Atomic(1)
		defer zzverif.Atomic(-1)
		for _, f := range zzFiles {
			zzverif.Assert(f.closed == 1, "the file of a song that is over is closed before the next one is opened")
		}
		f := &ZZOs_File{}
		zzFiles = append(zzFiles, f)
		return f, nil
	}
	ZZMp3_Decode = func(rc io.ReadCloser) (beep.StreamSeekCloser, beep.Format, error) {
		zzverif.Atomic(1)
		defer zzverif.Atomic(-1)
		for _, d := range zzDecoders {
			zzverif.Assert(d.closed == 1, "a song that is over is closed before the next one is opened")
		}
		if len(zzFiles) == broken {
			zzverif.Reach("broken")
			return nil, beep.Format{}, errors.New("not an mp3 file")
		}
		d := &zzDecoder{rc: rc, n: n}
		zzDecoders = append(zzDecoders, d)
		return d, beep.Format{}, nil
	}
}

// ZZ_C35_Close: songs that end, that are jumped away from and that are paused.
func ZZ_C35_Close() {
	zzDecoding(zzverif.Choose("blocks", zzverif.Bound("blocks")+1), zzverif.Choose("broken", 3))
	var names []string
	for i := 0; i < zzverif.Bound("songs"); i++ {
		names = append(names, string(rune('a'+i)))
	}
	pl := NewPlaylist(1, names, 1)
	pl.SetPlaying(true)
	ctx, cancel := context.WithCancel(context.Background())
	ended := false
	go func() {
		pl.StreamLoop(ctx)
		ended = true
	}()
	zzCloseFails = zzverif.Choose("close fails", 2) == 1
	jump, stop := zzverif.Bool("jump"), zzverif.Bool("stop")
	go func() {
		if jump {
			pl.SetPos(zzverif.Choose("pos", len(names)))
		}
		if stop {
			cancel()
		}
	}()
	n := zzverif.Bound("total")
	for i := 0; i < n && !ended; i++ {
		// a reader that copes with the end of the stream
		got := false
		go func() {
			low, high := make([]float64, 1), make([]float64, 1)
			pl.Fill(low, high)
			got = true
		}()
		zzverif.WaitUntil(func() bool { return got || ended })
	}
	zzverif.Quiesce()
	if ended {
		zzverif.Reach("ended")
		for _, d := range zzDecoders {
			zzverif.Assert(d.closed == 1, "a song that is over is closed")
		}
		for _, f := range zzFiles {
			zzverif.Assert(f.closed == 1, "the file of a song that is over is closed")
		}
	}
	if 1 < len(zzDecoders) {
		zzverif.Reach("next")
	}
	cancel()
}
