package main

import (
	"flag"
	"fmt"
	"time"

	"github.com/LogicalOverflow/music-sync/cmd"
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/urfave/cli"
)

// ZZ_C31_Server: the server with every option set to any value.
func ZZ_C31_Server() {
	str := func(name string) string { return zzverif.StringN(name, zzverif.Bound("text")) }
	set := flag.NewFlagSet("zz", flag.ContinueOnError)
	ints, durs, strs := map[string]int{}, map[string]time.Duration{}, map[string]string{}
	addInt := func(f cli.Flag, v int) { set.Int(cmd.FlagKey(f), v, ""); ints[cmd.FlagKey(f)] = v }
	addDur := func(f cli.Flag) {
		v := time.Duration(zzverif.Int64(cmd.FlagKey(f)))
		set.Duration(cmd.FlagKey(f), v, "")
		durs[cmd.FlagKey(f)] = v
	}
	addStr := func(f cli.Flag) {
		v := str(cmd.FlagKey(f))
		set.String(cmd.FlagKey(f), v, "")
		strs[cmd.FlagKey(f)] = v
	}
	addStr(cmd.ListenAddressFlag)
	addInt(cmd.ListenPortFlag, zzverif.Int("port"))
	addStr(cmd.MusicDirFlag)
	addStr(cmd.SSHAddressFlag)
	addInt(cmd.SSHPortFlag, zzverif.Int("ssh-port"))
	addStr(cmd.SSHUsersFlag)
	addStr(cmd.SSHKeyFileFlag)
	addDur(cmd.TimeSyncIntervalFlag)
	addInt(cmd.TimeSyncCyclesFlag, zzverif.Int("cycles"))
	addDur(cmd.TimeSyncCycleDelayFlag)
	size := zzverif.IntRange("chunk-size", 0, 1<<32)
	rate := zzverif.IntRange("rate", 1, 1000000000)
	addInt(cmd.StreamChunkSizeFlag, size)
	addDur(cmd.StreamStartDelayFlag)
	addDur(cmd.StreamDelayFlag)
	addInt(cmd.NanBreakSizeFlag, zzverif.Int("break"))
	addInt(cmd.SampleRateFlag, rate)

	var listen, sshListen, usersFile, dir string
	ZZUtil_CheckDir = func(d string) error { dir = d; return nil }
	ZZComm_StartServer = func(a string) (comm.MessageSender, error) { listen = a; return nil, nil }
	ZZSsh_ReadUsersFile = func(f string) (map[string]ssh.UserAuth, error) { usersFile = f; return nil, nil }
	ZZSsh_StartSSH = func(a string, _ map[string]ssh.UserAuth) { sshListen = a }
	started := false
	ZZSchedule_Server = func(comm.MessageSender) { started = true }
	ZZCmd_WaitForInterrupt = func() { zzverif.Quiesce() }
	err := run(cli.NewContext(nil, set, nil))
	zzverif.Assert(err == nil && started, "the server starts")
	zzverif.Reach("started")
	zzverif.Assert(listen == fmt.Sprintf("%s:%d", strs["address"], ints["port"]), "address and port to listen on")
	zzverif.Assert(sshListen == fmt.Sprintf("%s:%d", strs["ssh-address"], ints["ssh-port"]), "address and port of the control interface")
	zzverif.Assert(dir == strs["music-dir"] && playback.AudioDir == strs["music-dir"], "the music directory")
	zzverif.Assert(usersFile == strs["users-file"], "the users file")
	zzverif.Assert(ssh.HostKeyFile == strs["host-key"], "the host key file")
	zzverif.Assert(schedule.TimeSyncInterval == durs["time-sync-interval"], "the time sync interval")
	zzverif.Assert(schedule.TimeSyncCycles == ints["time-sync-cycles"], "the time sync cycles")
	zzverif.Assert(schedule.TimeSyncCycleDelay == durs["time-sync-cycle-delay"], "the time sync cycle delay")
	zzverif.Assert(schedule.StreamChunkSize == size, "the chunk size")
	zzverif.Assert(schedule.StreamStartDelay == durs["stream-start-delay"], "the start delay")
	zzverif.Assert(schedule.StreamDelay == durs["stream-delay"], "the stream delay")
	zzverif.Assert(schedule.NanBreakSize == ints["song-break-size"], "the break size")
	zzverif.Assert(schedule.SampleRate == rate, "the sample rate")
	// |StreamChunkTime - size*1s/rate| < 1ns, without division
	d := int64(schedule.StreamChunkTime)
	s := int64(size) * int64(time.Second)
	zzverif.Assert(0 <= d && d <= s && (d-1)*int64(rate) < s && s < (d+1)*int64(rate), "the chunk duration is the time needed to play a chunk")
}
