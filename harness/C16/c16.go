package comm

import (
	"errors"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/golang/protobuf/proto"
	"net"
)

type zzCall struct {
	kind int
	m    proto.Message
	c    net.Conn
}

type zzTyped struct{ calls []zzCall }

func (t *zzTyped) call(kind int, m proto.Message, c net.Conn) {
	t.calls = append(t.calls, zzCall{kind, m, c})
}

func (t *zzTyped) HandleTimeSyncRequest(m *TimeSyncRequest, c net.Conn)     { t.call(1, m, c) }
func (t *zzTyped) HandleTimeSyncResponse(m *TimeSyncResponse, c net.Conn)   { t.call(2, m, c) }
func (t *zzTyped) HandleQueueChunkRequest(m *QueueChunkRequest, c net.Conn) { t.call(3, m, c) }
func (t *zzTyped) HandlePingMessage(m *PingMessage, c net.Conn)             { t.call(4, m, c) }
func (t *zzTyped) HandlePongMessage(m *PongMessage, c net.Conn)             { t.call(5, m, c) }
func (t *zzTyped) HandleSetVolumeRequest(m *SetVolumeRequest, c net.Conn)   { t.call(6, m, c) }
func (t *zzTyped) HandleSubscribeChannelRequest(m *SubscribeChannelRequest, c net.Conn) {
	t.call(7, m, c)
}
func (t *zzTyped) HandleNewSongInfo(m *NewSongInfo, c net.Conn) { t.call(8, m, c) }
func (t *zzTyped) HandleChunkInfo(m *ChunkInfo, c net.Conn)     { t.call(9, m, c) }
func (t *zzTyped) HandlePauseInfo(m *PauseInfo, c net.Conn)     { t.call(10, m, c) }

// ZZ_C16_Dispatch: messages that arrive on connections reach their handlers.
func ZZ_C16_Dispatch() {
	ZZWire()
	t := &zzTyped{}
	h := TypedPackageHandler{TypedPackageHandlerInterface: t}
	n := zzverif.Bound("n")
	ms, conns := make([]proto.Message, n), make([]*ZZConn, n)
	other := zzverif.Choose("other", 2) == 1
	if other {
		h.Handle(&Envelope{}, &ZZConn{})
		h.Handle(&NewSongInfo_SongMetadata{}, &ZZConn{})
	}
	for i := range ms {
		ms[i] = ZZMessage(1 + zzverif.Choose("kind", 10))
		conns[i] = &ZZConn{ID: i}
		h.Handle(ms[i], conns[i])
	}
	zzverif.Quiesce()
	zzverif.Assert(len(t.calls) == n, "every message is handled once")
	used := make([]bool, n)
	for _, c := range t.calls {
		i := c.c.(*ZZConn).ID
		zzverif.Assert(!used[i], "every message is handled once")
		used[i] = true
		zzverif.Assert(c.kind == zzKind(ms[i]), "a message is handled by the handler for its type")
		zzverif.Assert(c.c == net.Conn(conns[i]) && ZZSame(c.m, ms[i]), "a message is handled unchanged and with its connection")
	}
	zzverif.Reach("end")
}

// ZZ_C16_Base: the base handler handles every message without failing.
func ZZ_C16_Base() {
	ZZWire()
	h := TypedPackageHandler{TypedPackageHandlerInterface: BaseTypedPackageHandler{}}
	c := &ZZConn{}
	h.Handle(ZZMessage(1+zzverif.Choose("kind", 10)), c)
	zzverif.Quiesce()
	zzverif.Assert(len(c.Out) == 0 && c.Closed == 0, "the base handler does nothing")
	zzverif.Reach("end")
}

type zzOnce struct {
	c    net.Conn
	done bool
}

func (l *zzOnce) Accept() (net.Conn, error) {
	if l.done {
		return nil, errors.New("zz: closed")
	}
	l.done = true
	return l.c, nil
}
func (l *zzOnce) Close() error   { return nil }
func (l *zzOnce) Addr() net.Addr { return zzAddr{} }

// ZZ_C16_Server: the server answers requests and ignores what is not addressed to it.
func ZZ_C16_Server() {
	ZZWire()
	timing.ZZMonotime_Now = func() uint64 { return 5 }
	var handled []Channel
	NewClientHandler = func(ch Channel, s MessageSender) { handled = append(handled, ch) }
	mms := &multiMessageSender{connections: make([]net.Conn, 0), channels: make(map[net.Conn][]Channel)}
	s, c := &ZZConn{}, &ZZConn{}
	n := zzverif.Bound("n")
	var subs []Channel
	replies, count := make([]int, 11), 0
	for i := 0; i < n; i++ {
		kind := 1 + zzverif.Choose("kind", 10)
		m := ZZMessage(kind)
		zzverif.Assert(sendWire(m, s) == nil, "sending succeeds")
		switch kind {
		case 1:
			replies[2]++
			count++
		case 4:
			replies[5]++
			count++
		case 7:
			subs = append(subs, m.(*SubscribeChannelRequest).Channel)
		}
	}
	c.In = s.Out
	end := false
	c.Wait = func() { zzverif.WaitUntil(func() bool { return end }) }
	ZZGo(func() { serverConnectionAcceptor(mms, &zzOnce{c: c}) })
	zzverif.Quiesce()
	got, ok := ZZDecode(c.Out)
	zzverif.Assert(ok && len(got) == count, "requests are answered once and other messages are ignored")
	for _, m := range got {
		k := zzKind(m)
		zzverif.Assert(0 < replies[k], "requests are answered with the matching reply")
		replies[k]--
	}
	zzverif.Assert(len(mms.channels[c]) == len(subs), "exactly the requested channels are subscribed")
	zzverif.Assert(len(handled) == 1+len(subs), "the new client handler runs for the connection and every subscription")
	zzverif.Assert(c.Closed == 0, "the connection stays open")
	if n == 1 && len(subs) == 1 {
		zzverif.Assert(mms.channels[c][0] == subs[0], "the requested channel is subscribed")
		zzverif.Assert(handled[0]+handled[1] == subs[0]-1, "the new client handler gets the requested channel")
	}
	end = true
	zzverif.Reach("end")
}
