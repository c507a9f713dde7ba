package ssh

import (
	"io"
	"net"

	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/antlr/antlr4/runtime/Go/antlr"
	"github.com/gliderlabs/ssh"
)

// zzUser types the given bytes, one at a time, and then hangs up.
type zzUser struct {
	ssh.Session
	keys []byte

	closed bool
}

func (c *zzUser) Read(b []byte) (int, error) {
	if len(c.keys) == 0 || len(b) == 0 {
		return 0, io.EOF
	}
	b[0] = c.keys[0]
	c.keys = c.keys[1:]
	return 1, nil
}
func (c *zzUser) Write(b []byte) (int, error) { return len(b), nil }
func (c *zzUser) Stderr() io.ReadWriter       { return c }
func (c *zzUser) Close() error                { c.closed = true; return nil }
func (c *zzUser) Pty() (ssh.Pty, <-chan ssh.Window, bool) {
	return ssh.Pty{}, nil, false
}
func (c *zzUser) User() string         { return "user" }
func (c *zzUser) RemoteAddr() net.Addr { return &net.TCPAddr{} }

// zzRuns: the lines that run a command, with up to three parameters.
func zzRuns(line string) bool {
	return len(line) > 0 && (line[0] == 'a' || line[0] == 'b') && (len(line) == 1 || line[1] == ' ')
}

func zzSession(c *zzUser) *session {
	s := &session{Session: c, width: 80, height: 25}
	s.createReadlineConfig()
	s.cfg.FuncMakeRaw = func() error { return nil }
	s.cfg.FuncExitRaw = s.cfg.FuncMakeRaw
	s.cfg.FuncIsTerminal = func() bool { return true }
	s.cfg.FuncOnWidthChanged = func(func()) {}
	return s
}

// ZZ_C36_Session: keys typed in any order; commands are letters, exit is typed at once.
func ZZ_C36_Session() {
	antlr.LexerATNSimulatorMaxDFAEdge = -1
	var ran, want []string
	commands = nil
	for _, n := range []string{"a", "b"} {
		name := n
		RegisterCommand(Command{Name: name, ExecFunc: func(args []string) (string, bool) {
			call := name
			for _, a := range args {
				call += " " + a
			}
			ran = append(ran, call)
			return "done", true
		}})
	}
	c := &zzUser{}
	line, over := "", false
	for i := 0; i < zzverif.Bound("keys"); i++ {
		switch zzverif.Choose("key", zzverif.Bound("kinds")) {
		case 0:
			b := zzverif.Byte("letter")
			zzverif.Assume('a' <= b && b <= 'z')
			c.keys = append(c.keys, b)
			line += string([]byte{b})
			continue
		case 1:
			c.keys = append(c.keys, '\r')
			if !over && zzRuns(line) {
				want = append(want, line)
			}
			over = over || line == "exit" || len(line) > 5 && line[:5] == "exit "
		case 2:
			c.keys = append(c.keys, 3) // ^C
		case 3:
			c.keys = append(c.keys, 4) // ^D
			if line != "" {
				continue // nothing to delete at the end of the line
			}
			over = true
		case 4:
			c.keys = append(c.keys, "exit"...)
			line += "exit"
			continue
		case 5:
			c.keys = append(c.keys, " b"...)
			line += " b"
			continue
		}
		line = ""
	}
	if !over && zzRuns(line) {
		want = append(want, line) // readline takes the end of the input for that of the line
	}
	s := zzSession(c)
	zzverif.Assert(s.createEx() == nil, "a session starts")
	ended := false
	go func() {
		s.readLoop()
		ended = true
	}()
	zzverif.WaitUntil(func() bool { return ended })
	zzverif.Assert(len(ran) == len(want), "each line that is entered runs once, and nothing else")
	for i := range want {
		zzverif.Assert(ran[i] == want[i], "lines run in the order they are entered")
	}
	zzverif.Reach("end")
}

// ZZ_C36_NoTerminal: a client that asks for no terminal gets no session.
func ZZ_C36_NoTerminal() {
	commands = nil
	RegisterCommand(Command{Name: "a", ExecFunc: func(args []string) (string, bool) {
		zzverif.Assert(false, "without a terminal nothing runs")
		return "", true
	}})
	c := &zzUser{keys: []byte("a\r")}
	sessionHandler(c)
	zzverif.Assert(c.closed, "the session is closed")
	zzverif.Reach("end")
}
