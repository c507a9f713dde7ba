package comm

import (
	"errors"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/golang/protobuf/proto"
	"net"
)

// zzWanted: is a message of this kind sent to a client with these subscriptions?
func zzWanted(kind int, subs []Channel) bool {
	audio, meta := false, false
	switch kind {
	case 3:
		audio = true
	case 6:
		audio, meta = true, true
	case 8, 9, 10:
		meta = true
	default:
		return true
	}
	for _, c := range subs {
		if audio && c == Channel_AUDIO || meta && c == Channel_META {
			return true
		}
	}
	return false
}

func zzExpect(c *ZZConn, want []proto.Message) {
	got, ok := ZZDecode(c.Out)
	zzverif.Assert(ok, "only complete messages are written to a client")
	zzverif.Assert(len(got) == len(want), "a client receives each message meant for it once and no other")
	for i, m := range got {
		zzverif.Assert(ZZSame(m, want[i]), "a client receives the message that was sent")
	}
}

func zzNoState(mms *multiMessageSender) {
	zzverif.Assert(len(mms.connections) == 0, "no disconnected client is kept")
	zzverif.Assert(len(mms.channels) == 0, "disconnected clients leave no subscription behind")
}

// ZZ_C13_History: every history of connects, subscriptions, disconnects (each client may still
// have a subscription in flight when it disconnects) and broadcasts.
func ZZ_C13_History() {
	ZZWire()
	mms := &multiMessageSender{connections: make([]net.Conn, 0), channels: make(map[net.Conn][]Channel)}
	n := zzverif.Bound("conns")
	conns, state, subs, want := make([]*ZZConn, n), make([]int, n), make([][]Channel, n), make([][]proto.Message, n)
	for i := range conns {
		conns[i] = &ZZConn{ID: i}
	}
	broadcast := func(kind int) {
		m := ZZMessage(kind)
		zzverif.Assert(mms.SendMessage(m) == nil, "a broadcast to working clients succeeds")
		for i := range conns {
			if state[i] == 1 && zzWanted(kind, subs[i]) {
				want[i] = append(want[i], m)
			}
		}
	}
	sent := false
	for s := zzverif.Bound("steps"); 0 < s; s-- {
		i := zzverif.Choose("conn", n)
		zzverif.Assume(i == 0 || state[i-1] != 0)
		switch state[i] {
		case 0:
			mms.AddConn(conns[i])
			state[i] = 1
			continue
		case 1:
			switch zzverif.Choose("op", 3) {
			case 0:
				mms.DelConn(conns[i])
				state[i] = 2
				continue
			case 1:
				if sent {
					zzverif.Stop()
				}
				sent = true
				broadcast([]int{9, 6, 3, 4}[zzverif.Choose("kind", zzverif.Bound("kinds"))])
				continue
			}
		case 2:
			zzverif.Reach("late")
		}
		ch := Channel(zzverif.Int32("channel"))
		mms.Subscribe(conns[i], ch)
		if state[i] == 1 {
			subs[i] = append(subs[i], ch)
		}
	}
	broadcast(1 + zzverif.Choose("kind", 10))
	for i := range conns {
		zzExpect(conns[i], want[i])
		if state[i] == 1 {
			mms.DelConn(conns[i])
		}
	}
	zzNoState(mms)
	zzverif.Reach("end")
}

type zzListener struct {
	conns chan net.Conn
}

func (l *zzListener) Accept() (net.Conn, error) {
	if c, ok := <-l.conns; ok {
		return c, nil
	}
	return nil, errors.New("zz: closed")
}
func (l *zzListener) Close() error   { return nil }
func (l *zzListener) Addr() net.Addr { return zzAddr{} }

// ZZ_C13_Server: clients subscribe and disconnect while messages are broadcast.
func ZZ_C13_Server() {
	ZZWire()
	NewClientHandler = func(Channel, MessageSender) {}
	mms := &multiMessageSender{connections: make([]net.Conn, 0), channels: make(map[net.Conn][]Channel)}
	n := zzverif.Bound("conns")
	l := &zzListener{conns: make(chan net.Conn, n)}
	conns, leaves, subs := make([]*ZZConn, n), make([]bool, n), make([]Channel, n)
	end := false
	for i := range conns {
		c := &ZZConn{ID: i}
		subs[i] = Channel(zzverif.Choose("channel", 2))
		s := &ZZConn{}
		zzverif.Assert(sendWire(&SubscribeChannelRequest{Channel: subs[i]}, s) == nil, "sending succeeds")
		c.In = s.Out
		leaves[i] = zzverif.Choose("leaves", 2) == 1
		leave := leaves[i]
		c.Wait = func() { zzverif.WaitUntil(func() bool { return leave || end }) }
		conns[i] = c
		l.conns <- c
	}
	close(l.conns)
	ZZGo(func() { serverConnectionAcceptor(mms, l) })
	early := ZZMessage(9)
	if zzverif.Choose("early", 2) == 1 {
		mms.SendMessage(early)
	}
	zzverif.Quiesce()
	before := make([]int, n)
	for i, c := range conns {
		got, ok := ZZDecode(c.Out)
		zzverif.Assert(ok && len(got) <= 1, "only complete messages are written to a client")
		if len(got) == 1 {
			zzverif.Assert(subs[i] == Channel_META && ZZSame(got[0], early), "only subscribed clients receive a message")
		}
		before[i] = len(c.Out)
	}
	m, vol := ZZMessage(10), ZZMessage(6)
	done := 0
	ZZGo(func() { mms.SendMessage(m); done++ })
	ZZGo(func() { mms.SendMessage(vol); done++ })
	zzverif.WaitUntil(func() bool { return done == 2 })
	zzverif.Quiesce()
	for i, c := range conns {
		got, ok := ZZDecode(c.Out[before[i]:])
		zzverif.Assert(ok, "only complete messages are written to a client")
		switch {
		case leaves[i]:
			zzverif.Assert(len(got) == 0, "a disconnected client receives nothing")
			zzverif.Reach("left")
		case subs[i] == Channel_META:
			zzverif.Assert(len(got) == 2, "a subscribed client receives each message once")
			a, b := got[0], got[1]
			if zzKind(a) == 6 {
				a, b = b, a
			}
			zzverif.Assert(ZZSame(a, m) && ZZSame(b, vol), "a client receives the messages that were sent")
			zzverif.Reach("meta")
		default:
			zzverif.Assert(len(got) == 1 && ZZSame(got[0], vol), "a client receives the messages of its channel")
		}
	}
	end = true
	zzverif.Quiesce()
	zzNoState(mms)
}

// ZZ_C13_Leaving: some clients disconnect and another one connects while a message is broadcast.
func ZZ_C13_Leaving() {
	ZZWire()
	mms := &multiMessageSender{connections: make([]net.Conn, 0), channels: make(map[net.Conn][]Channel)}
	n := zzverif.Bound("conns")
	conns, subs := make([]*ZZConn, n), make([]Channel, n)
	for i := range conns {
		conns[i] = &ZZConn{ID: i}
		mms.AddConn(conns[i])
		subs[i] = Channel(zzverif.Choose("channel", 2))
		mms.Subscribe(conns[i], subs[i])
	}
	leaver := zzverif.Choose("leaver", n)
	joins := zzverif.Choose("joins", 2) == 1
	late := &ZZConn{ID: n}
	kind := []int{6, 9, 2}[zzverif.Choose("kind", zzverif.Bound("kinds"))]
	m := ZZMessage(kind)
	done := 0
	ZZGo(func() {
		zzverif.Assert(mms.SendMessage(m) == nil, "a broadcast to working clients succeeds")
		done++
	})
	ZZGo(func() {
		mms.DelConn(conns[leaver])
		if joins {
			mms.AddConn(late)
		}
		done++
	})
	zzverif.WaitUntil(func() bool { return done == 2 })
	zzverif.Quiesce()
	for i, c := range conns {
		got, ok := ZZDecode(c.Out)
		zzverif.Assert(ok && len(got) <= 1, "a client receives a message at most once")
		if zzWanted(kind, []Channel{subs[i]}) {
			zzverif.Assert(len(got) == 1 || i == leaver, "a client that stays receives each message meant for it")
		} else {
			zzverif.Assert(len(got) == 0, "a client receives no message of other channels")
		}
		if len(got) == 1 {
			zzverif.Assert(ZZSame(got[0], m), "a client receives the message that was sent")
			if i == leaver {
				zzverif.Reach("leaver")
			} else {
				zzverif.Reach("stays")
			}
		}
	}
	got, ok := ZZDecode(late.Out)
	zzverif.Assert(ok && len(got) <= 1, "a client receives a message at most once")
	zzverif.Assert(len(got) == 0 || zzWanted(kind, nil), "a client without subscriptions receives no message of a channel")
}
