package main

import (
	"flag"
	"fmt"
	"time"

	"github.com/LogicalOverflow/music-sync/cmd"
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/gdamore/tcell"
	"github.com/urfave/cli"
)

type zzNoScreen struct{ tcell.Screen }

func (zzNoScreen) Init() error           { return nil }
func (zzNoScreen) SetStyle(tcell.Style)  {}
func (zzNoScreen) Clear()                {}
func (zzNoScreen) Fini()                 {}
func (zzNoScreen) Size() (int, int)      { return 80, 24 }
func (zzNoScreen) PollEvent() tcell.Event { zzverif.WaitUntil(func() bool { return false }); return nil }

// ZZ_C31_Infoer: the infoer's own options.
func ZZ_C31_Infoer() {
	set := flag.NewFlagSet("zz", flag.ContinueOnError)
	addr, port, rate := zzverif.StringN("address", zzverif.Bound("text")), zzverif.Int("port"), zzverif.Int("rate")
	lines := zzverif.IntRange("lines", 0, 9)
	set.String(cmd.FlagKey(cmd.ServerAddressFlag), addr, "")
	set.Int(cmd.FlagKey(cmd.ServerPortFlag), port, "")
	set.Int(cmd.FlagKey(cmd.SampleRateFlag), rate, "")
	set.Uint(cmd.FlagKey(cmd.LyricsHistorySizeFlag), uint(lines), "")
	var server string
	started := false
	ZZTcell_NewScreen = func() (tcell.Screen, error) { return zzNoScreen{}, nil }
	ZZComm_ConnectToServer = func(a string, _ comm.TypedPackageHandler) (comm.MessageSender, error) { server = a; return nil, nil }
	ZZSchedule_Infoer = func(comm.MessageSender) { started = true }
	ZZTime_Tick = func(time.Duration) <-chan time.Time {
		zzverif.Yield()
		c := make(chan time.Time)
		close(c)
		return c
	}
	run(cli.NewContext(nil, set, nil))
	zzverif.WaitUntil(func() bool { return started })
	zzverif.Reach("started")
	zzverif.Assert(server == fmt.Sprintf("%s:%d", addr, port), "address and port of the server")
	zzverif.Assert(schedule.SampleRate == rate, "the sample rate")
	zzverif.Assert(lyricsHistorySize == lines, "the number of lyrics lines")
}
