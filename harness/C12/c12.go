package comm

import (
	"compress/zlib"
	"encoding/binary"
	"errors"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/golang/protobuf/proto"
	"io"
	"net"
	"reflect"
)

type zzRecorder struct {
	got []proto.Message
	on  func()
}

func (r *zzRecorder) Handle(m proto.Message, c net.Conn) {
	zzverif.Assert(m != nil, "a handled message is not nil")
	r.got = append(r.got, m)
	if r.on != nil {
		r.on()
	}
}

func zzFrame(body []byte) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, uint64(len(body)))
	return append(b, body...)
}

type zzZlib struct {
	left int
	end  error
}

func (z *zzZlib) Read(b []byte) (int, error) {
	if z.left == 0 || len(b) == 0 {
		return 0, z.end
	}
	z.left--
	b[0] = zzverif.Byte("data")
	return 1, nil
}
func (z *zzZlib) Close() error { return nil }

// ZZ_C12_Outcomes: every combination of the outcomes of the decoding steps, over a stream of
// frames that may end early.
func ZZ_C12_Outcomes() {
	ZZWire()
	n := zzverif.Bound("frames")
	bad, good, frames, typed := false, 0, 0, false
	ZZProto_MessageType = func(name string) reflect.Type {
		t := zzMessageType(name)
		typed = t != nil
		if t == nil {
			bad = true
		}
		return t
	}
	ZZProto_Unmarshal = func(b []byte, m proto.Message) error {
		env, isEnv := m.(*Envelope)
		isEnv = isEnv && !typed
		typed = false
		if isEnv {
			frames++
		}
		if zzverif.Bool("unmarshal fails") {
			bad = true
			return zzErrProto
		}
		if isEnv {
			kinds := append([]string{"", "comm.Unknown"}, zzNames()...)
			env.Type = kinds[zzverif.Choose("type", zzverif.Bound("types"))]
			env.Data = zzverif.BytesN("compressed", 1)
		} else if !bad {
			good++
		}
		return nil
	}
	ZZZlib_NewReader = func(r io.Reader) (io.ReadCloser, error) {
		if zzverif.Bool("no zlib header") {
			bad = true
			return nil, errors.New("zz: header")
		}
		z := &zzZlib{left: zzverif.Choose("inflated", 2), end: io.EOF}
		if zzverif.Bool("corrupt") {
			bad = true
			z.end = []error{errors.New("zz: corrupt"), io.ErrUnexpectedEOF, zlib.ErrChecksum}[zzverif.Choose("error", 3)]
		}
		return z, nil
	}
	c := &ZZConn{}
	for i := 0; i < n; i++ {
		c.In = append(c.In, zzFrame([]byte{byte(i), 1, 2})...)
	}
	if zzverif.Bool("reset") {
		c.End = ZZErrConn
	}
	h := &zzRecorder{}
	h.on = func() { zzverif.Assert(!bad && len(h.got) == good, "only correctly decoded messages are handled") }
	handleConnection(c, h)
	zzverif.Assert(0 < c.Closed, "the connection is closed in the end")
	zzverif.Assert(c.Late == 0, "a closed connection is not used")
	zzverif.Assert(len(h.got) == good, "every correctly decoded message is handled")
	zzverif.Assert(bad || frames == n, "every frame before an error is decoded")
	if bad {
		zzverif.Reach("error")
	} else {
		zzverif.Reach("end")
	}
}

// ZZ_C12_Prefix: an arbitrary length prefix before arbitrary bytes, after a good message.
func ZZ_C12_Prefix() {
	ZZWire()
	c := &ZZConn{}
	zzverif.Assert(sendWire(&PingMessage{}, c) == nil, "sending succeeds")
	in := &ZZConn{In: c.Out}
	size := zzverif.Uint64("size")
	rest := zzverif.BytesN("rest", zzverif.Choose("rest", zzverif.Bound("rest")))
	zzverif.Assume(size <= uint64(len(rest)) || 1<<42 < size)
	for i := uint(0); i < 8; i++ {
		in.In = append(in.In, byte(size>>(8*i)))
	}
	in.In = append(in.In, rest...)
	bodies := 0
	ZZProto_Unmarshal = func(b []byte, m proto.Message) error {
		if _, ok := m.(*Envelope); ok {
			bodies++
			if bodies == 2 {
				zzverif.Assert(uint64(len(b)) <= uint64(len(rest)), "not more bytes are decoded than were received")
				return zzErrProto
			}
		}
		return zzUnmarshal(b, m)
	}
	h := &zzRecorder{}
	handleConnection(in, h)
	zzverif.Assert(len(h.got) == 1, "the good message is handled and nothing else")
	zzverif.Assert(0 < in.Closed && in.Late == 0, "the connection is closed in the end")
	zzverif.Reach("done")
}

// ZZ_C12_Corrupt: one byte of the compressed data is changed, or the data is cut.
func ZZ_C12_Corrupt() {
	ZZWire()
	m := []proto.Message{&PingMessage{}, &PauseInfo{Playing: true, ToggleSampleIndex: 0x0102}, &NewSongInfo{SongFileName: "ab", Metadata: &NewSongInfo_SongMetadata{Title: "c"}},
		&QueueChunkRequest{SampleLow: []float64{0.5, -1}}}[zzverif.Choose("message", zzverif.Bound("kinds"))]
	wire, err := toWire(m)
	zzverif.Assert(err == nil, "sending succeeds")
	env := &Envelope{}
	zzverif.Assert(zzUnmarshal(wire[8:], env) == nil, "the stand-in decodes what it encoded")
	if zzverif.Bool("cut") {
		env.Data = env.Data[:zzverif.Choose("length", len(env.Data))]
		zzverif.Reach("cut")
	} else {
		at := zzverif.Choose("at", len(env.Data))
		by := byte(1)
		if at < 3 || at == len(env.Data)-6 || at == len(env.Data)-5 {
			by <<= uint(zzverif.Choose("bit", 8)) // the headers of zlib and its two blocks
		} else {
			by = zzverif.Byte("flipped")
			zzverif.Assume(by != 0)
		}
		env.Data[at] ^= by
		zzverif.Reach("flipped")
	}
	body, _ := zzMarshal(env)
	next, _ := toWire(&PongMessage{})
	c := &ZZConn{In: append(zzFrame(body), next...)}
	h := &zzRecorder{}
	handleConnection(c, h)
	zzverif.Assert(0 < c.Closed && c.Late == 0, "the connection is closed in the end")
	zzverif.Assert(len(h.got) == 0 || len(h.got) == 2 && ZZSame(h.got[0], m), "a corrupt message ends the connection")
}

// ZZ_C12_Sample: arbitrary compressed data.
func ZZ_C12_Sample() {
	ZZWire()
	env := &Envelope{Type: "comm.PauseInfo", Data: zzverif.BytesN("data", zzverif.Choose("length", zzverif.Bound("length")+1))}
	body, _ := zzMarshal(env)
	c := &ZZConn{In: zzFrame(body)}
	h := &zzRecorder{}
	handleConnection(c, h)
	zzverif.Assert(0 < c.Closed && c.Late == 0, "the connection is closed in the end")
	zzverif.Assert(len(h.got) == 0, "no message comes out of too few bytes")
	zzverif.Reach("done")
}

type zzNetErr struct{ temporary, timeout bool }

func (zzNetErr) Error() string     { return "zz: interrupted" }
func (e zzNetErr) Temporary() bool { return e.temporary }
func (e zzNetErr) Timeout() bool   { return e.timeout }

// ZZ_C12_Interrupted: reading fails once between or inside messages, although more could be read.
func ZZ_C12_Interrupted() {
	ZZWire()
	c := &ZZConn{}
	var ends []int
	for i := 0; i < zzverif.Bound("messages"); i++ {
		zzverif.Assert(sendWire([]proto.Message{&PingMessage{}, &PauseInfo{Playing: true}}[i%2], c) == nil, "sending succeeds")
		ends = append(ends, len(c.Out))
	}
	at := zzverif.Choose("at", len(c.Out))
	fail := []error{ZZErrConn, io.ErrUnexpectedEOF, io.ErrNoProgress, zzNetErr{true, false}, zzNetErr{false, true}, zzNetErr{true, true}}[zzverif.Choose("error", 6)]
	in := &ZZConn{In: c.Out[:at], End: fail}
	failed := false
	in.Wait = func() {
		if failed {
			in.In, in.End = c.Out[at:], nil
			at = len(c.Out)
		}
		failed = true
	}
	h := &zzRecorder{}
	handleConnection(in, h)
	whole := 0
	for whole < len(ends) && ends[whole] <= at {
		whole++
	}
	zzverif.Assert(failed && at < len(c.Out), "nothing is read after an error")
	zzverif.Assert(len(h.got) == whole, "exactly the messages before an error are handled")
	zzverif.Assert(0 < in.Closed && in.Late == 0, "the connection is closed in the end")
	zzverif.Reach("done")
}
