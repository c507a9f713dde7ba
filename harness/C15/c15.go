package schedule

import (
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/zzverif"
)

// ZZ_C15_Subscribe: a client subscribes while a song change, a pause, a resume or a volume change happens.
func ZZ_C15_Subscribe() {
	s := zzListen()
	Server(s.sender)
	zzverif.Quiesce()
	newSong, toggle := s.playlist.ZZHandlers()

	// what happened before
	start, pause := zzverif.Uint64("start"), zzverif.Uint64("pause")
	zzverif.Assume(start < pause)
	past := zzverif.Choose("history", 3)
	history := 0 < past
	if history {
		newSong(start, "a.mp3", 7)
		toggle(false, pause)
		zzverif.Quiesce()
	}

	kind := zzverif.Choose("event", 4)
	index, vol := zzverif.Uint64("index"), zzverif.Float64("volume")
	resume, again, second := zzverif.Uint64("resume"), zzverif.Uint64("again"), zzverif.Uint64("second")
	if past == 2 {
		zzverif.Assume(kind == 1)
		zzverif.Assume(pause < resume && resume < again && again < second && second < index)
		toggle(true, resume)
		toggle(false, again)
		zzverif.Quiesce()
		newSong(second, "c.mp3", 8)
		zzverif.Quiesce()
	}
	zzverif.Assume(vol == vol)
	zzverif.Assume(!history || pause < index)
	done := false
	event := func() {
		switch kind {
		case 0:
			newSong(index, "b.mp3", 9)
		case 1:
			toggle(true, index)
		case 2:
			zzverif.Assume(past != 1)
			toggle(false, index)
		case 3:
			_, ok := s.commands["volume"].ExecFunc([]string{zzverif.FloatText(vol)})
			zzverif.Assert(ok, "the volume is set")
		}
		done = true
	}
	ch := comm.Channel(zzverif.Choose("channel", 2))
	// the event happens before or after the client connects, or when it has been sent some messages
	at := zzverif.Choose("at", zzverif.Bound("moments"))
	due := at == 0
	comm.ZZGo(func() {
		zzverif.WaitUntil(func() bool { return due })
		event()
	})
	c := s.connect(ch)
	if at == 1 {
		due = true
	}
	writes, sending := 0, false
	c.After = func() {
		writes++
		if writes == at-1 {
			due, sending = true, true
			for i := zzverif.Bound("latency"); 0 < i; i-- {
				zzverif.Yield() // the network takes its time
			}
			sending = false
		}
	}
	zzverif.Quiesce()
	due = true
	zzverif.WaitUntil(func() bool { return done && !sending })
	zzverif.Quiesce()

	vols, songs, pauses := zzReceived(c)
	zzverif.Assert(0 < len(vols), "a new client receives the volume")
	want := 0.1
	if kind == 3 {
		want = vol
		zzverif.Reach("volume")
	}
	zzverif.Assert(vols[len(vols)-1] == want, "the last volume a client receives is the current one")
	if ch == comm.Channel_AUDIO {
		zzverif.Assert(len(songs) == 0 && len(pauses) == 0, "audio clients receive no meta messages")
		zzverif.Reach("audio")
		return
	}
	if history {
		zzverif.Assert(kind == 0 || past == 2 || zzHasSong(songs, start, "a.mp3", 7), "a new client receives the newest song")
		zzverif.Assert(past == 2 || zzHasPause(pauses, false, pause), "a new client receives the recorded pauses")
	}
	if past == 2 {
		zzverif.Assert(zzHasSong(songs, second, "c.mp3", 8), "a new client receives the newest song")
		zzverif.Assert(zzHasPause(pauses, true, resume) && zzHasPause(pauses, false, again), "a new client receives the recorded pauses")
	}
	switch kind {
	case 0:
		zzverif.Assert(zzHasSong(songs, index, "b.mp3", 9), "a song change during the subscription reaches the client")
		zzverif.Reach("song")
	case 1:
		zzverif.Assert(zzHasPause(pauses, true, index), "a resume during the subscription reaches the client")
		zzverif.Reach("resume")
	case 2:
		zzverif.Assert(zzHasPause(pauses, false, index), "a pause during the subscription reaches the client")
		zzverif.Reach("pause")
	}
}

// ZZ_C15_Startup: a client subscribes while the server starts.
func ZZ_C15_Startup() {
	s := zzListen()
	ch := comm.Channel(zzverif.Choose("channel", 2))
	c := s.connect(ch)
	if zzverif.Choose("early", 2) == 1 {
		zzverif.Quiesce()
	}
	Server(s.sender)
	zzverif.Quiesce()
	vols, songs, pauses := zzReceived(c)
	zzverif.Assert(0 < len(vols) && vols[len(vols)-1] == 0.1, "a client that subscribes while the server starts receives the volume")
	zzverif.Assert(len(songs) == 0 && len(pauses) == 0, "nothing else is sent")
	zzverif.Reach("end")
}

// ZZ_C15_TwoChannels: a client subscribes to both channels.
func ZZ_C15_TwoChannels() {
	s := zzListen()
	Server(s.sender)
	zzverif.Quiesce()
	newSong, toggle := s.playlist.ZZHandlers()
	start, pause := zzverif.Uint64("start"), zzverif.Uint64("pause")
	newSong(start, "a.mp3", 7)
	toggle(false, pause)
	zzverif.Quiesce()
	c := s.connect(comm.Channel_AUDIO, comm.Channel_META)
	zzverif.Quiesce()
	vols, songs, pauses := zzReceived(c)
	zzverif.Assert(len(vols) == 2 && vols[0] == 0.1 && vols[1] == 0.1, "the volume is sent for both channels")
	zzverif.Assert(len(songs) == 1 && zzHasSong(songs, start, "a.mp3", 7), "a new client receives the newest song")
	zzverif.Assert(len(pauses) == 1 && zzHasPause(pauses, false, pause), "a new client receives the recorded pauses")
	zzverif.Reach("end")
}

// ZZ_C15_Volumes: two volume changes at the same time. The volume that the clients were told last is
// the current one, which a client that subscribes later receives.
func ZZ_C15_Volumes() {
	s := zzListen()
	Server(s.sender)
	a := s.connect(comm.Channel(zzverif.Choose("channel", 2)))
	zzverif.Quiesce()
	v, w := zzverif.Float64("v"), zzverif.Float64("w")
	zzverif.Assume(v == v && w == w)
	done := 0
	for _, x := range []float64{v, w} {
		x := x
		comm.ZZGo(func() {
			_, ok := s.commands["volume"].ExecFunc([]string{zzverif.FloatText(x)})
			zzverif.Assert(ok, "the volume is set")
			done++
		})
	}
	zzverif.WaitUntil(func() bool { return done == 2 })
	zzverif.Quiesce()
	b := s.connect(comm.Channel_AUDIO)
	zzverif.Quiesce()
	va, _, _ := zzReceived(a)
	vb, _, _ := zzReceived(b)
	zzverif.Assert(len(va) == 3 && va[0] == .1, "a client receives the volume and its changes")
	zzverif.Assert(va[1] == v && va[2] == w || va[1] == w && va[2] == v, "a client receives each change")
	zzverif.Assert(len(vb) == 1 && vb[0] == va[2], "the volume of a new client is that of the other clients")
	zzverif.Reach("end")
}
