package comm

import (
	"errors"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"net"
)

type zzQueue struct{ conns []net.Conn }

func (l *zzQueue) Accept() (net.Conn, error) {
	if len(l.conns) == 0 {
		return nil, errors.New("zz: closed")
	}
	c := l.conns[0]
	l.conns = l.conns[1:]
	return c, nil
}
func (l *zzQueue) Close() error   { return nil }
func (l *zzQueue) Addr() net.Addr { return zzAddr{} }

// ZZ_C10_Server: clients send time-sync requests and pings.
func ZZ_C10_Server() {
	ZZWire()
	NewClientHandler = func(Channel, MessageSender) {}
	base, readings := 1<<40, 0
	timing.ZZMonotime_Now = func() uint64 {
		zzverif.Atomic(1)
		defer zzverif.Atomic(-1)
		readings++
		return uint64(base + readings - 1)
	}
	mms := &multiMessageSender{connections: make([]net.Conn, 0), channels: make(map[net.Conn][]Channel)}
	n, k := zzverif.Bound("conns"), zzverif.Bound("requests")
	l := &zzQueue{}
	conns, asked, pings := make([]*ZZConn, n), make([][]int64, n), make([]int, n)
	end := false
	for i := range conns {
		s := &ZZConn{}
		for j := 0; j < k-i; j++ {
			switch zzverif.Choose("request", 3) {
			case 0:
				t := zzverif.Int64("clientSend")
				zzverif.Assert(sendWire(&TimeSyncRequest{ClientSend: t}, s) == nil, "sending succeeds")
				asked[i] = append(asked[i], t)
			case 1:
				zzverif.Assert(sendWire(&PingMessage{}, s) == nil, "sending succeeds")
				pings[i]++
			}
		}
		conns[i] = &ZZConn{ID: i, In: s.Out, Wait: func() { zzverif.WaitUntil(func() bool { return end }) }}
		l.conns = append(l.conns, conns[i])
	}
	ZZGo(func() { serverConnectionAcceptor(mms, l) })
	zzverif.Quiesce()
	for i, c := range conns {
		got, ok := ZZDecode(c.Out)
		zzverif.Assert(ok, "only complete messages are sent")
		pongs := 0
		var replies []*TimeSyncResponse
		for _, m := range got {
			switch m := m.(type) {
			case *PongMessage:
				pongs++
			case *TimeSyncResponse:
				replies = append(replies, m)
			default:
				zzverif.Assert(false, "only replies are sent")
			}
		}
		zzverif.Assert(pongs == pings[i], "every ping is answered by one pong")
		zzverif.Assert(len(replies) == len(asked[i]), "every time-sync request is answered by one reply")
		switch len(replies) {
		case 1:
			zzverif.Assert(replies[0].ClientSendTime == asked[i][0], "a reply echoes the client's send time")
		case 2:
			a, b := replies[0].ClientSendTime, replies[1].ClientSendTime
			x, y := asked[i][0], asked[i][1]
			zzverif.Assert(a == x && b == y || a == y && b == x, "a reply echoes the client's send time")
			zzverif.Reach("two")
		}
		for _, r := range replies {
			recv, send := r.ServerRecvTime-int64(base), r.ServerSendTime-int64(base)
			zzverif.Assert(0 <= recv && recv < send && send < int64(readings), "a reply carries the server's receive and send time, in this order")
		}
	}
	end = true
	zzverif.Reach("end")
}
