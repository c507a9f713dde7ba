package main

import (
	"errors"
	"flag"

	"github.com/LogicalOverflow/music-sync/cmd"
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/golang/protobuf/proto"
	"github.com/urfave/cli"
)

type zzSender struct{ id int }

func (s *zzSender) SendMessage(proto.Message) error { return nil }

func zzStatus(err error) int {
	if err == nil {
		return 0
	}
	if e, ok := err.(cli.ExitCoder); ok {
		return e.ExitCode()
	}
	return 1
}

// ZZ_C41_Server: the server with every combination of failures while it starts.
func ZZ_C41_Server() {
	set := flag.NewFlagSet("zz", flag.ContinueOnError)
	for _, f := range []cli.Flag{cmd.ListenAddressFlag, cmd.MusicDirFlag, cmd.SSHAddressFlag, cmd.SSHUsersFlag, cmd.SSHKeyFileFlag} {
		set.String(cmd.FlagKey(f), "x", "")
	}
	for _, f := range []cli.Flag{cmd.ListenPortFlag, cmd.SSHPortFlag, cmd.TimeSyncCyclesFlag, cmd.StreamChunkSizeFlag, cmd.NanBreakSizeFlag, cmd.SampleRateFlag} {
		set.Int(cmd.FlagKey(f), 1, "")
	}
	for _, f := range []cli.Flag{cmd.TimeSyncIntervalFlag, cmd.TimeSyncCycleDelayFlag, cmd.StreamStartDelayFlag, cmd.StreamDelayFlag} {
		set.Duration(cmd.FlagKey(f), 1, "")
	}
	noDir, noPort, noUsers := zzverif.Bool("no music dir"), zzverif.Bool("address in use"), zzverif.Bool("no users file")
	fail := func(failed bool) error {
		if failed {
			return errors.New("failed")
		}
		return nil
	}
	sender, users := &zzSender{7}, map[string]ssh.UserAuth{"u": {}}
	var listened, sshs, servers, waited int
	ZZUtil_CheckDir = func(d string) error { return fail(noDir) }
	ZZComm_StartServer = func(string) (comm.MessageSender, error) {
		listened++
		if noPort {
			return nil, fail(true)
		}
		return sender, nil
	}
	ZZSsh_ReadUsersFile = func(f string) (map[string]ssh.UserAuth, error) {
		if noUsers {
			return nil, fail(true)
		}
		return users, nil
	}
	ZZSsh_StartSSH = func(_ string, us map[string]ssh.UserAuth) {
		_, ok := us["u"]
		zzverif.Assert(len(us) == 1 && ok, "the control interface knows the configured users")
		sshs++
	}
	ZZSchedule_Server = func(s comm.MessageSender) {
		zzverif.Assert(s == comm.MessageSender(sender), "the server sends to its clients")
		servers++
	}
	ZZCmd_WaitForInterrupt = func() {
		zzverif.Quiesce()
		zzverif.Assert(sshs == 1 && servers == 1 && listened == 1, "everything is started before waiting for the interrupt")
		waited++
	}
	err := run(cli.NewContext(nil, set, nil))
	zzverif.Quiesce()
	if noDir || noPort || noUsers {
		zzverif.Reach("failed")
		zzverif.Assert(zzStatus(err) != 0, "a server that cannot start says so")
		zzverif.Assert(sshs == 0 && servers == 0 && waited == 0, "a server that cannot start does not run in part")
		zzverif.Assert(!noDir || listened == 0, "without its music a server does not accept clients")
	} else {
		zzverif.Reach("ran")
		zzverif.Assert(zzStatus(err) == 0 && waited == 1, "a server runs until it is interrupted")
	}
}
