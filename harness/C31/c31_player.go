package main

import (
	"flag"
	"fmt"

	"github.com/LogicalOverflow/music-sync/cmd"
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/urfave/cli"
)

// ZZ_C31_Player: the player's own options.
func ZZ_C31_Player() {
	set := flag.NewFlagSet("zz", flag.ContinueOnError)
	addr, port, rate := zzverif.StringN("address", zzverif.Bound("text")), zzverif.Int("port"), zzverif.Int("rate")
	set.String(cmd.FlagKey(cmd.ServerAddressFlag), addr, "")
	set.Int(cmd.FlagKey(cmd.ServerPortFlag), port, "")
	set.Int(cmd.FlagKey(cmd.SampleRateFlag), rate, "")
	var server string
	started := false
	ZZComm_ConnectToServer = func(a string, _ comm.TypedPackageHandler) (comm.MessageSender, error) { server = a; return nil, nil }
	ZZSchedule_Player = func(comm.MessageSender) { started = true }
	ZZCmd_WaitForInterrupt = func() { zzverif.Quiesce() }
	err := run(cli.NewContext(nil, set, nil))
	zzverif.Assert(err == nil && started, "the player starts")
	zzverif.Reach("started")
	zzverif.Assert(server == fmt.Sprintf("%s:%d", addr, port), "address and port of the server")
	zzverif.Assert(schedule.SampleRate == rate, "the sample rate")
}
