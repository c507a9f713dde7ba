package main

import (
	"errors"
	"flag"

	"github.com/LogicalOverflow/music-sync/cmd"
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/golang/protobuf/proto"
	"github.com/urfave/cli"
)

type zzSender struct{ id int }

func (s *zzSender) SendMessage(proto.Message) error { return nil }

func zzStatus(err error) int {
	if err == nil {
		return 0
	}
	if e, ok := err.(cli.ExitCoder); ok {
		return e.ExitCode()
	}
	return 1
}

// ZZ_C41_Player: the player with and without a server.
func ZZ_C41_Player() {
	set := flag.NewFlagSet("zz", flag.ContinueOnError)
	set.String(cmd.FlagKey(cmd.ServerAddressFlag), "x", "")
	set.Int(cmd.FlagKey(cmd.ServerPortFlag), 1, "")
	set.Int(cmd.FlagKey(cmd.SampleRateFlag), 1, "")
	sender := &zzSender{7}
	noServer := zzverif.Bool("no server")
	var players, waited int
	ZZComm_ConnectToServer = func(string, comm.TypedPackageHandler) (comm.MessageSender, error) {
		if noServer {
			return nil, errors.New("no server")
		}
		return sender, nil
	}
	ZZSchedule_Player = func(s comm.MessageSender) {
		zzverif.Assert(s == comm.MessageSender(sender), "the player sends to its server")
		players++
	}
	ZZCmd_WaitForInterrupt = func() {
		zzverif.Quiesce()
		zzverif.Assert(players == 1, "the player is started before waiting for the interrupt")
		waited++
	}
	err := run(cli.NewContext(nil, set, nil))
	zzverif.Quiesce()
	if noServer {
		zzverif.Reach("failed")
		zzverif.Assert(zzStatus(err) != 0, "a player that cannot connect says so")
		zzverif.Assert(players == 0 && waited == 0, "a player that cannot connect does not run")
	} else {
		zzverif.Reach("ran")
		zzverif.Assert(zzStatus(err) == 0 && waited == 1, "a player runs until it is interrupted")
	}
}
