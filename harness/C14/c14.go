package comm

import (
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/golang/protobuf/proto"
	"net"
	"strings"
)

type zzFail struct{ text string }

func (e zzFail) Error() string { return e.text }

// ZZ_C14_Broadcast: any of the targeted clients fail, after any part of the message.
func ZZ_C14_Broadcast() { zzBroadcast(zzverif.Choose("same text", 2) == 1) }

// ZZ_C14_Interleaved: fewer clients and more schedules.
func ZZ_C14_Interleaved() { zzBroadcast(false) }

func zzBroadcast(same bool) {
	ZZWire()
	texts := []string{"FAIL-A", "FAIL-B", "FAIL-C", "FAIL-D"}
	if same {
		texts = []string{"FAIL-A", "FAIL-A", "FAIL-A", "FAIL-A"}
	}
	n := zzverif.Bound("conns")
	mms := &multiMessageSender{connections: make([]net.Conn, 0), channels: make(map[net.Conn][]Channel)}
	m := []proto.Message{&PauseInfo{Playing: zzverif.Bool("playing"), ToggleSampleIndex: zzverif.Uint64("toggle")}, &PingMessage{}}[zzverif.Choose("message", 2)]
	bound := zzKind(m) == 10
	conns, fails, targeted := make([]*ZZConn, n), make([]bool, n), make([]bool, n)
	for i := range conns {
		c := &ZZConn{ID: i}
		conns[i] = c
		mms.AddConn(c)
		targeted[i] = !bound
		if bound && zzverif.Choose("subscribed", 2) == 1 {
			mms.Subscribe(c, Channel_META)
			targeted[i] = true
		}
		fails[i] = zzverif.Choose("fails", 2) == 1
		if fails[i] {
			part, text := zzverif.IntRange("part", 0, 7), texts[i]
			if zzverif.Choose("all", 2) == 1 {
				part = 1 << 20
			}
			c.OnWrite = func(n int) (int, error) {
				if part < n {
					n = part
				}
				return n, zzFail{text}
			}
		}
	}
	err := mms.SendMessage(m)
	any := false
	times := func(text string) (k int) {
		for i := range conns {
			if targeted[i] && fails[i] && texts[i] == text {
				k++
			}
		}
		return
	}
	for i, c := range conns {
		if targeted[i] && fails[i] {
			any = true
			zzverif.Assert(err != nil, "a failed send yields an error")
			zzverif.Assert(strings.Count(err.Error(), texts[i]) == times(texts[i]), "every failure is reported once")
			zzverif.Reach("failed")
		} else {
			zzverif.Assert(err == nil || strings.Count(err.Error(), texts[i]) == times(texts[i]), "only failures are reported")
		}
		if !targeted[i] {
			zzverif.Assert(len(c.Out) == 0, "a client that is not targeted receives nothing")
			continue
		}
		if !fails[i] {
			got, ok := ZZDecode(c.Out)
			zzverif.Assert(ok && len(got) == 1 && ZZSame(got[0], m), "every other client receives the complete message")
		}
	}
	zzverif.Assert(any || err == nil, "without a failure there is no error")
	zzverif.Reach("end")
}
