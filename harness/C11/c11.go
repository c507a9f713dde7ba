package comm

import (
	"errors"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/golang/protobuf/proto"
	"io"
)

func zzKinds(n int) []proto.Message {
	ms := make([]proto.Message, n)
	for i := range ms {
		ms[i] = ZZMessage(1 + zzverif.Choose("kind", 10))
	}
	return ms
}

// zzSplit lets at most max calls transfer fewer bytes than asked for.
func zzSplit(name string, max int) func(int) int {
	return func(n int) int {
		if max == 0 || n <= 1 {
			return n
		}
		k := zzverif.IntRange(name, 1, n)
		if k < n {
			max--
		}
		return k
	}
}

func zzSend(ms []proto.Message, splits int) *ZZConn {
	c := &ZZConn{}
	split := zzSplit("write", splits)
	c.OnWrite = func(n int) (int, error) { return split(n), nil }
	for _, m := range ms {
		zzverif.Assert(sendWire(m, c) == nil, "sending succeeds")
	}
	return c
}

func zzReceive(c *ZZConn, ms []proto.Message) {
	for _, m := range ms {
		got, err := readWire(c)
		zzverif.Assert(err == nil, "a complete message is read")
		zzverif.Assert(ZZSame(got, m), "the message read is the one sent")
	}
	_, err := readWire(c)
	zzverif.Assert(err != nil, "at the end of the connection there is an error and no message")
}

// ZZ_C11_Writes: every way in which the transport accepts the bytes.
func ZZ_C11_Writes() {
	ZZWire()
	ms := zzKinds(zzverif.Bound("n"))
	c := zzSend(ms, zzverif.Bound("splits"))
	zzReceive(c2(c), ms)
	zzverif.Reach("all")
}

func c2(c *ZZConn) *ZZConn { return &ZZConn{In: c.Out} }

// ZZ_C11_Reads: every way in which the transport delivers the bytes.
func ZZ_C11_Reads() {
	ZZWire()
	ms := zzKinds(zzverif.Bound("n"))
	c := c2(zzSend(ms, 0))
	c.OnRead = zzSplit("read", zzverif.Bound("splits"))
	zzReceive(c, ms)
	zzverif.Reach("all")
}

// ZZ_C11_Cut: the connection ends or fails inside the last message.
func ZZ_C11_Cut() {
	ZZWire()
	ms := zzKinds(zzverif.Bound("n"))
	before := zzSend(ms[:len(ms)-1], 0)
	all := zzSend(ms, 0)
	cut := zzverif.IntRange("cut", len(before.Out), len(all.Out)-1)
	c := &ZZConn{In: all.Out[:cut], End: io.EOF}
	if zzverif.Bool("fails") {
		c.End = errors.New("reset")
	}
	c.Eager = zzverif.Bool("error with the last bytes")
	c.OnRead = zzSplit("read", zzverif.Bound("splits"))
	zzReceive(c, ms[:len(ms)-1])
	zzverif.Reach("cut")
}

// ZZ_C11_Broken: the transport fails while the message is written; the sender learns of it.
func ZZ_C11_Broken() {
	ZZWire()
	m := ZZMessage(1 + zzverif.Choose("kind", 10))
	whole := zzSend([]proto.Message{m}, 0)
	split := zzSplit("write", zzverif.Bound("splits"))
	c, left := &ZZConn{}, zzverif.IntRange("accepted", 0, len(whole.Out)-1)
	c.OnWrite = func(n int) (int, error) {
		n = split(n)
		if left < n {
			return left, ZZErrConn
		}
		left -= n
		return n, nil
	}
	zzverif.Assert(sendWire(m, c) != nil, "a message that was not written completely yields an error")
	_, err := readWire(c2(c))
	zzverif.Assert(err != nil, "an incomplete message is not read")
	zzverif.Reach("broken")
}

// ZZ_C11_Sequence: several messages in one stream, transferred in pieces of at most a given size.
func ZZ_C11_Sequence() {
	ZZWire()
	kinds := []int{8, 4, 3, 6, 10, 1, 2, 5, 7, 9}
	ms := make([]proto.Message, zzverif.Bound("n"))
	for i := range ms {
		ms[i] = ZZMessage(kinds[zzverif.Choose("kind", zzverif.Bound("kinds"))])
	}
	pieces := []int{1 << 20, 1, 3, 8, 9, 30}
	in, out := pieces[zzverif.Choose("in", zzverif.Bound("pieces"))], pieces[zzverif.Choose("out", zzverif.Bound("pieces"))]
	most := func(n, max int) int {
		if max < n {
			return max
		}
		return n
	}
	c := &ZZConn{}
	c.OnWrite = func(n int) (int, error) { return most(n, out), nil }
	for _, m := range ms {
		zzverif.Assert(sendWire(m, c) == nil, "sending succeeds")
	}
	r := c2(c)
	r.End, r.Eager = io.EOF, zzverif.Choose("end with the last bytes", 2) == 1
	r.OnRead = func(n int) int { return most(n, in) }
	zzReceive(r, ms)
	zzverif.Reach("all")
}

type zzPausing struct{ *ZZConn }

func (p zzPausing) Write(b []byte) (int, error) {
	zzverif.Point()
	return p.ZZConn.Write(b)
}
func (p zzPausing) Read(b []byte) (int, error) {
	zzverif.Point()
	return p.ZZConn.Read(b)
}

// ZZ_C11_Concurrent: two messages sent at the same time, on one connection or on two, and read
// at the same time. As for TCP, a single call of Write is not interleaved with others.
func ZZ_C11_Concurrent() {
	ZZWire()
	same := zzverif.Choose("connections", 2) == 0
	kinds := []int{6, 10, 4}
	ms, cs, errs := make([]proto.Message, 2), make([]*ZZConn, 2), make([]error, 2)
	for i := range ms {
		ms[i] = ZZMessage(kinds[zzverif.Choose("kind", zzverif.Bound("kinds"))])
		cs[i] = &ZZConn{ID: i}
	}
	if same {
		cs[1] = cs[0]
	}
	for i := range ms {
		i := i
		go func() { errs[i] = sendWire(ms[i], zzPausing{cs[i]}) }()
	}
	zzverif.Quiesce()
	zzverif.Assert(errs[0] == nil && errs[1] == nil, "sending succeeds")
	if same {
		got, ok := ZZDecode(cs[0].Out)
		zzverif.Assert(ok && len(got) == 2, "messages sent at the same time are both complete")
		zzverif.Assert(ZZSame(got[0], ms[0]) && ZZSame(got[1], ms[1]) || ZZSame(got[0], ms[1]) && ZZSame(got[1], ms[0]), "messages sent at the same time are both unchanged")
		zzverif.Reach("one connection")
		return
	}
	in, got := []*ZZConn{c2(cs[0]), c2(cs[1])}, make([]proto.Message, 2)
	for i := range in {
		i := i
		go func() { got[i], errs[i] = readWire(zzPausing{in[i]}) }()
	}
	zzverif.Quiesce()
	for i := range in {
		zzverif.Assert(errs[i] == nil && ZZSame(got[i], ms[i]), "connections do not affect each other")
	}
	zzverif.Reach("two connections")
}
