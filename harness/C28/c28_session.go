package ssh

import (
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/antlr/antlr4/runtime/Go/antlr"
	"github.com/gliderlabs/ssh"
	"io"
	"net"
)

// zzConn is a client that shows what it is sent and types nothing.
type zzConn struct {
	ssh.Session
	out string
}

func (c *zzConn) Read([]byte) (int, error) {
	zzverif.WaitUntil(func() bool { return false })
	return 0, io.EOF
}
func (c *zzConn) Write(b []byte) (int, error) { c.out += string(b); return len(b), nil }
func (c *zzConn) Stderr() io.ReadWriter       { return c }
func (c *zzConn) Close() error                { return nil }
func (c *zzConn) User() string                { return "user" }
func (c *zzConn) RemoteAddr() net.Addr        { return &net.TCPAddr{} }

// ZZ_C28_Session: lines that name commands, with parameters.
func ZZ_C28_Session() {
	antlr.LexerATNSimulatorMaxDFAEdge = -1
	var ran []string
	var got []string
	msg := []string{"", "done", "done\n", "a\nb\n"}[zzverif.Choose("reply", 4)]
	ok := zzverif.Bool("ok")
	commands = nil
	run := func(name string) func([]string) (string, bool) {
		return func(args []string) (string, bool) {
			ran, got = append(ran, name), args
			return msg, ok
		}
	}
	RegisterCommand(Command{Name: "b", Usage: "usage of b", ExecFunc: run("b")})
	RegisterCommand(Command{Name: "a", Usage: "usage of a", ExecFunc: run("a")})
	name := []string{"a", "b", "", "clear", "exit"}[zzverif.Choose("command", 5)]
	if name == "" {
		name = zzverif.StringN("command", 1)
		zzverif.Assume(name[0] > ' ' && name[0] < 0x7f && name[0] != '\\')
	}
	line := name
	var want []string
	n := zzverif.Choose("parameters", zzverif.Bound("parameters")+1)
	for i := 0; i < n; i++ {
		p := zzverif.StringN("parameter", 1)
		zzverif.Assume(p[0] > ' ' && p[0] < 0x7f && p[0] != '\\')
		want = append(want, p)
		line += " " + p
	}
	conn := &zzConn{}
	s := &session{Session: conn, width: 80, height: 25}
	s.createReadlineConfig()
	s.cfg.FuncMakeRaw = func() error { return nil }
	s.cfg.FuncExitRaw = s.cfg.FuncMakeRaw
	s.cfg.FuncIsTerminal = func() bool { return true }
	s.cfg.FuncOnWidthChanged = func(func()) {}
	zzverif.Assert(s.createEx() == nil, "a session starts")
	conn.out = ""
	more := s.handleLine(line)
	zzverif.Assert(more == (name != "exit"), "exit and nothing else ends the session")
	if name == "a" || name == "b" {
		zzverif.Assert(len(ran) == 1 && ran[0] == name, "the named command runs once")
		zzverif.Assert(len(got) == n, "the command gets its parameters")
		for i := range want {
			zzverif.Assert(got[i] == want[i], "the command gets its parameters")
		}
		reply := msg
		if len(reply) == 0 || reply[len(reply)-1] != '\n' {
			reply += "\n"
		}
		if !ok {
			reply = "Usage: " + name + " usage of " + name + "\n"
		}
		zzverif.Assert(conn.out == reply, "the reply, or the usage, is printed")
		zzverif.Reach("ran")
		return
	}
	zzverif.Assert(len(ran) == 0, "an unknown command runs nothing")
	if name != "exit" {
		zzverif.Assert(conn.out != "", "an unknown command is reported")
	}
	zzverif.Reach("unknown")
}

// ZZ_C28_Help: the overview and the help of each command.
func ZZ_C28_Help() {
	commands = nil
	RegisterCommand(Command{Name: "bb", Usage: "usage of bb", Info: "info of bb"})
	RegisterCommand(Command{Name: "a", Info: "info of a"})
	if zzverif.Choose("arguments", 2) == 0 {
		msg, ok := helpCommand.Exec(nil)
		zzverif.Assert(ok, "help without arguments replies")
		for _, l := range []string{"a               info of a\n", "bb              info of bb\n", "\nclear ", "\nexit "} {
			found := false
			for i := 0; i+len(l) <= len(msg); i++ {
				found = found || msg[i:i+len(l)] == l
			}
			zzverif.Assert(found, "help lists every command")
		}
		zzverif.Reach("overview")
		return
	}
	name := []string{"a", "bb", ""}[zzverif.Choose("command", 3)]
	if name == "" {
		name = zzverif.String("command", 2)
	}
	msg, ok := helpCommand.Exec([]string{name})
	zzverif.Assert(ok, "help for a command replies")
	switch name {
	case "a":
		zzverif.Assert(msg == "a: info of a\nNo usage information for command 'a'", "help describes the command it is asked for")
	case "bb":
		zzverif.Assert(msg == "bb: info of bb\nUsage: bb usage of bb", "help describes the command it is asked for")
	default:
		zzverif.Assert(msg == "Command '"+name+"' does not exist.", "help says so if a command does not exist")
	}
	zzverif.Reach("end")
}
