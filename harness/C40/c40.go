package comm

import (
	"errors"
	"io"
	"net"

	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/golang/protobuf/proto"
)

type zzSeen struct {
	BaseTypedPackageHandler
	volumes []*SetVolumeRequest
	pauses  []*PauseInfo
	conns   []net.Conn
}

func (t *zzSeen) HandleSetVolumeRequest(m *SetVolumeRequest, c net.Conn) {
	t.volumes, t.conns = append(t.volumes, m), append(t.conns, c)
}

func (t *zzSeen) HandlePauseInfo(m *PauseInfo, c net.Conn) {
	t.pauses, t.conns = append(t.pauses, m), append(t.conns, c)
}

// zzExits records the status the process exits with; it ends the goroutine.
func zzExits() *[]int {
	codes := &[]int{}
	ZZOs_Exit = func(code int) {
		*codes = append(*codes, code)
		zzverif.WaitUntil(func() bool { return false })
	}
	return codes
}

// ZZ_C40_Client: messages arrive, then the connection ends, is cut within a message or fails.
func ZZ_C40_Client() {
	ZZWire()
	exits := zzExits()
	c, s := &ZZConn{}, &ZZConn{}
	address := zzverif.StringN("address", 2)
	there := zzverif.Bool("there")
	ZZNet_Dial = func(network, a string) (net.Conn, error) {
		zzverif.Assert(network == "tcp" && a == address, "the client connects to the address given")
		if !there {
			return nil, errors.New("refused")
		}
		return c, nil
	}
	// what the server sends
	n := zzverif.Choose("messages", zzverif.Bound("messages")+1)
	var sent []proto.Message
	whole := 0
	for i := 0; i < n; i++ {
		var m proto.Message = &SetVolumeRequest{Volume: zzverif.Float64("volume")}
		if zzverif.Choose("kind", 2) == 1 {
			m = &PauseInfo{Playing: zzverif.Bool("playing"), ToggleSampleIndex: zzverif.Uint64("index")}
		}
		sent = append(sent, m)
		zzverif.Assert(ZZSend(m, s) == nil, "sending succeeds")
		if i < n-1 {
			whole = len(s.Out)
		}
	}
	ended := false
	c.In = s.Out
	c.Wait = func() { zzverif.WaitUntil(func() bool { return ended }) }
	c.End = []error{io.EOF, ZZErrConn}[zzverif.Choose("end", 2)]
	cut := 0 < n && zzverif.Choose("cut", 2) == 1
	if cut {
		c.In = c.In[:whole+1+zzverif.Choose("after", 5)]
		sent = sent[:n-1]
	}

	t := &zzSeen{}
	sender, err := ConnectToServer(address, TypedPackageHandler{TypedPackageHandlerInterface: t})
	if !there {
		zzverif.Assert(err != nil && len(*exits) == 0, "a client that cannot connect reports it")
		zzverif.Reach("refused")
		return
	}
	zzverif.Assert(err == nil && sender != nil, "a client connects")
	zzverif.Quiesce()
	zzverif.Assert(len(*exits) == 0 && c.Closed == 0, "a client does not end before its connection")
	zzverif.Assert(len(t.volumes)+len(t.pauses) == len(sent), "every message of the server is handled once")
	for _, m := range sent {
		found := false
		for _, v := range t.volumes {
			found = found || ZZSame(v, m)
		}
		for _, p := range t.pauses {
			found = found || ZZSame(p, m)
		}
		zzverif.Assert(found, "every message of the server is handled unchanged")
	}
	for _, x := range t.conns {
		zzverif.Assert(x == net.Conn(c), "messages are handled with the client's connection")
	}
	ping := &TimeSyncRequest{ClientSend: zzverif.Int64("time")}
	zzverif.Assert(sender.SendMessage(ping) == nil, "a client can send while it is connected")
	out, ok := ZZDecode(c.Out)
	zzverif.Assert(ok && len(out) == 1 && ZZSame(out[0], ping), "what a client sends goes to the server")
	ended = true
	zzverif.Quiesce()
	zzverif.Assert(len(*exits) == 1 && (*exits)[0] != 0, "a client ends, with an error, when its connection does")
	zzverif.Assert(c.Closed == 1 && c.Late == 0, "the connection is closed once and not used afterwards")
	zzverif.Assert(len(t.volumes)+len(t.pauses) == len(sent), "a message that is cut off is not handled")
	zzverif.Reach("ended")
}

// zzListener yields conns, fails now and then is closed.
type zzListener struct {
	conns []net.Conn
	next  int
}

func (l *zzListener) Accept() (net.Conn, error) {
	if l.next == len(l.conns) {
		zzverif.WaitUntil(func() bool { return false })
	}
	l.next++
	return l.conns[l.next-1], nil
}
func (l *zzListener) Close() error   { return nil }
func (l *zzListener) Addr() net.Addr { return zzAddr{} }

// ZZ_C40_Server: the server survives whatever its clients do; clients of both ends and any number.
func ZZ_C40_Server() {
	ZZWire()
	exits := zzExits()
	there := zzverif.Bool("there")
	address := zzverif.StringN("address", 2)
	l := &zzListener{}
	ends := make([]bool, zzverif.Bound("conns"))
	conns := make([]*ZZConn, len(ends))
	for i := range conns {
		k := i
		conns[i] = &ZZConn{ID: i, Wait: func() { zzverif.WaitUntil(func() bool { return ends[k] }) }}
		conns[i].End = []error{io.EOF, ZZErrConn}[zzverif.Choose("end", 2)]
		ZZSend(&SubscribeChannelRequest{Channel: Channel_META}, conns[i])
		conns[i].In, conns[i].Out = conns[i].Out, nil
		if zzverif.Choose("garbage", 2) == 1 {
			conns[i].In = append(conns[i].In, 0xff, zzverif.Byte("garbage"), 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff)
			ends[i] = true
		}
		l.conns = append(l.conns, conns[i])
	}
	ZZNet_Listen = func(network, a string) (net.Listener, error) {
		zzverif.Assert(network == "tcp" && a == address, "the server listens at the address given")
		if !there {
			return nil, errors.New("in use")
		}
		return l, nil
	}
	NewClientHandler = nil
	sender, err := StartServer(address)
	if !there {
		zzverif.Assert(err != nil, "a server that cannot listen reports it")
		zzverif.Reach("refused")
		return
	}
	zzverif.Assert(err == nil && sender != nil, "a server starts")
	zzverif.Quiesce()
	// some clients leave
	for i := range ends {
		ends[i] = ends[i] || zzverif.Choose("leaves", 2) == 1
	}
	zzverif.Quiesce()
	m := &NewSongInfo{FirstSampleOfSongIndex: zzverif.Uint64("index")}
	zzverif.Assert(sender.SendMessage(m) == nil, "clients that left are no error")
	for i, c := range conns {
		if ends[i] {
			zzverif.Assert(c.Closed == 1 && c.Late == 0 && len(c.Out) == 0, "the connection of a client that left is closed once and not used afterwards")
			zzverif.Reach("left")
			continue
		}
		out, ok := ZZDecode(c.Out)
		zzverif.Assert(c.Closed == 0 && ok && len(out) == 1 && ZZSame(out[0], m), "the clients that remain are served")
		zzverif.Reach("stayed")
	}
	zzverif.Assert(len(*exits) == 0 && l.next == len(l.conns), "the server goes on and takes every client")
}
