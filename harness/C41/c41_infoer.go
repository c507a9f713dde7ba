package main

import (
	"errors"
	"flag"
	"time"

	"github.com/LogicalOverflow/music-sync/cmd"
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/gdamore/tcell"
	"github.com/golang/protobuf/proto"
	"github.com/urfave/cli"
)

type zzSender struct{ id int }

func (s *zzSender) SendMessage(proto.Message) error { return nil }

func zzStatus(err error) int {
	if err == nil {
		return 0
	}
	if e, ok := err.(cli.ExitCoder); ok {
		return e.ExitCode()
	}
	return 1
}

// zzTerminal is a terminal that delivers the events it is sent.
type zzTerminal struct {
	tcell.Screen
	w, h       int
	inits      int
	finis      int
	shown      int
	right, low int
	events     chan tcell.Event
	polls      int
	initFails  bool
}

func (t *zzTerminal) Init() error {
	if t.initFails {
		return errors.New("no such terminal")
	}
	t.inits++
	return nil
}
func (t *zzTerminal) Fini()                { t.finis++ }
func (t *zzTerminal) SetStyle(tcell.Style) {}
func (t *zzTerminal) Sync()                {}
func (t *zzTerminal) Clear()               { t.right, t.low = -1, -1 }
func (t *zzTerminal) Size() (int, int)     { return t.w, t.h }
func (t *zzTerminal) PollEvent() tcell.Event {
	t.polls++
	return <-t.events
}
func (t *zzTerminal) SetContent(x, y int, mainc rune, combc []rune, style tcell.Style) {
	if t.right < x {
		t.right = x
	}
	if t.low < y {
		t.low = y
	}
}
func (t *zzTerminal) Show() {
	zzverif.Assert(t.finis == 0, "nothing is drawn on a terminal that was given back")
	t.shown++
}

// ZZ_C41_Infoer: the infoer while it starts and while keys are pressed and the terminal is resized.
func ZZ_C41_Infoer() {
	set := flag.NewFlagSet("zz", flag.ContinueOnError)
	set.String(cmd.FlagKey(cmd.ServerAddressFlag), "x", "")
	set.Int(cmd.FlagKey(cmd.ServerPortFlag), 1, "")
	set.Int(cmd.FlagKey(cmd.SampleRateFlag), 1, "")
	set.Uint(cmd.FlagKey(cmd.LyricsHistorySizeFlag), 3, "")
	t := &zzTerminal{w: 40, h: 12, events: make(chan tcell.Event, 1)}
	fails := zzverif.Choose("fails", 4)
	t.initFails = fails == 2
	sender := &zzSender{7}
	infoers, ended, exited, status := 0, false, false, 0
	ticks := make(chan time.Time, 1)
	timing.ZZMonotime_Now = func() uint64 { return 0 }
	ZZTime_Tick = func(time.Duration) <-chan time.Time { return ticks }
	ZZTcell_NewScreen = func() (tcell.Screen, error) {
		if fails == 1 {
			return nil, errors.New("no terminal")
		}
		return t, nil
	}
	ZZComm_ConnectToServer = func(string, comm.TypedPackageHandler) (comm.MessageSender, error) {
		if fails == 3 {
			return nil, errors.New("no server")
		}
		return sender, nil
	}
	ZZSchedule_Infoer = func(s comm.MessageSender) {
		zzverif.Assert(s == comm.MessageSender(sender), "the infoer sends to its server")
		infoers++
	}
	ZZOs_Exit = func(code int) {
		exited, status = true, code
		zzverif.WaitUntil(func() bool { return false })
	}
	go func() {
		status = zzStatus(run(cli.NewContext(nil, set, nil)))
		ended = true
	}()
	if fails != 0 {
		zzverif.WaitUntil(func() bool { return ended || exited })
		zzverif.Quiesce()
		zzverif.Reach("failed")
		zzverif.Assert(status != 0, "an infoer that cannot start says so")
		zzverif.Assert(infoers == 0, "an infoer that cannot start does not run")
		zzverif.Assert(t.inits == t.finis, "the terminal is given back")
		return
	}
	draw := func() {
		at := t.shown
		ticks <- time.Time{}
		zzverif.WaitUntil(func() bool { return ended || at < t.shown && len(ticks) == 0 })
	}
	for i := 0; i < zzverif.Bound("events"); i++ {
		key := zzverif.Choose("event", 2) == 0
		var ev tcell.Event
		quit := false
		if key {
			k := tcell.Key(zzverif.IntRange("key", 0, 600))
			quit = k == tcell.KeyCtrlC
			ev = tcell.NewEventKey(k, rune(zzverif.IntRange("rune", 32, 126)), tcell.ModMask(zzverif.IntRange("mod", 0, 15)))
		} else {
			t.w, t.h = zzverif.Choose("width", 3)*20+10, zzverif.Choose("height", 3)*6+6
			ev = tcell.NewEventResize(t.w, t.h)
		}
		zzverif.WaitUntil(func() bool { return t.polls == i+1 })
		t.events <- ev
		if quit {
			for k := 0; k < 100 && !ended; k++ { // it ends at one of the next ticks
				select {
				case ticks <- time.Time{}:
				default:
				}
				zzverif.Yield()
			}
			zzverif.WaitUntil(func() bool { return ended })
			zzverif.Reach("quit")
			zzverif.Assert(status == 0, "an infoer that is told to end does so without an error")
			zzverif.Assert(t.finis == 1, "the terminal is given back once")
			return
		}
		zzverif.WaitUntil(func() bool { return t.polls == i+2 })
		draw()
		zzverif.Assert(!ended && t.finis == 0, "the infoer runs until it is told to end")
		zzverif.Assert(infoers == 1, "the infoer is started once")
		draw()
		zzverif.Assert(t.right == t.w-1 && t.low == t.h-1, "the whole terminal is used")
		zzverif.Reach("drawn")
	}
}
