package comm

import (
	"bytes"
	"compress/zlib"
	"errors"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/golang/protobuf/proto"
	"io"
	"io/ioutil"
	"math"
	"net"
	"reflect"
	"time"
)

// The protobuf library is replaced by an injective encoding of the messages' fields and the
// compression level by 0 (stored blocks); zlib's own code runs.

var zzErrProto = errors.New("zz: cannot unmarshal")

type zzW struct{ b []byte }

func (w *zzW) u(v uint64) {
	for i := uint(0); i < 8; i++ {
		w.b = append(w.b, byte(v>>(8*i)))
	}
}
func (w *zzW) n(n int) {
	if 255 < n {
		panic("zz: too long for the stub encoding")
	}
	w.b = append(w.b, byte(n))
}
func (w *zzW) s(s string)  { w.n(len(s)); w.b = append(w.b, s...) }
func (w *zzW) y(s []byte)  { w.b = append(w.b, byte(len(s)), byte(len(s)>>8)); w.b = append(w.b, s...) }
func (w *zzW) f(f float64) { w.u(math.Float64bits(f)) }
func (w *zzW) bool(b bool) {
	v := byte(0)
	if b {
		v = 1
	}
	w.b = append(w.b, v)
}

type zzR struct {
	b   []byte
	bad bool
}

func (r *zzR) take(n int) []byte {
	if r.bad || len(r.b) < n {
		r.bad = true
		return make([]byte, n)
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *zzR) u() uint64 {
	x := r.take(8)
	v := uint64(0)
	for i := uint(0); i < 8; i++ {
		v |= uint64(x[i]) << (8 * i)
	}
	return v
}
func (r *zzR) n() int     { return int(r.take(1)[0]) }
func (r *zzR) s() string  { return string(r.take(r.n())) }
func (r *zzR) y() []byte  { n := r.take(2); return append([]byte{}, r.take(int(n[0])+int(n[1])<<8)...) }
func (r *zzR) f() float64 { return math.Float64frombits(r.u()) }
func (r *zzR) bool() bool { return r.take(1)[0] != 0 }

func zzMarshal(m proto.Message) ([]byte, error) {
	w := &zzW{}
	switch m := m.(type) {
	case *Envelope:
		w.s(m.Type)
		w.y(m.Data)
	case *TimeSyncRequest:
		w.u(uint64(m.ClientSend))
	case *TimeSyncResponse:
		w.u(uint64(m.ClientSendTime))
		w.u(uint64(m.ServerRecvTime))
		w.u(uint64(m.ServerSendTime))
	case *QueueChunkRequest:
		w.u(uint64(m.StartTime))
		w.u(uint64(m.ChunkId))
		w.n(len(m.SampleLow))
		for _, f := range m.SampleLow {
			w.f(f)
		}
		w.n(len(m.SampleHigh))
		for _, f := range m.SampleHigh {
			w.f(f)
		}
		w.u(m.FirstSampleIndex)
	case *PingMessage, *PongMessage:
	case *SetVolumeRequest:
		w.f(m.Volume)
	case *SubscribeChannelRequest:
		w.u(uint64(m.Channel))
	case *NewSongInfo:
		w.u(m.FirstSampleOfSongIndex)
		w.s(m.SongFileName)
		w.u(uint64(m.SongLength))
		w.n(len(m.Lyrics))
		for _, l := range m.Lyrics {
			w.n(len(l.Atoms))
			for _, a := range l.Atoms {
				w.u(uint64(a.Timestamp))
				w.s(a.Caption)
			}
		}
		w.bool(m.Metadata != nil)
		if m.Metadata != nil {
			w.s(m.Metadata.Title)
			w.s(m.Metadata.Artist)
			w.s(m.Metadata.Album)
		}
	case *ChunkInfo:
		w.u(uint64(m.StartTime))
		w.u(m.FirstSampleIndex)
		w.u(m.ChunkSize)
	case *PauseInfo:
		w.bool(m.Playing)
		w.u(m.ToggleSampleIndex)
	default:
		return nil, errors.New("zz: cannot marshal")
	}
	return w.b, nil
}

func zzUnmarshal(b []byte, m proto.Message) error {
	r := &zzR{b: b}
	switch m := m.(type) {
	case *Envelope:
		*m = Envelope{}
		if len(b) == 0 {
			return nil
		}
		m.Type = r.s()
		m.Data = r.y()
	case *TimeSyncRequest:
		*m = TimeSyncRequest{ClientSend: int64(r.u())}
	case *TimeSyncResponse:
		*m = TimeSyncResponse{}
		m.ClientSendTime = int64(r.u())
		m.ServerRecvTime = int64(r.u())
		m.ServerSendTime = int64(r.u())
	case *QueueChunkRequest:
		*m = QueueChunkRequest{}
		m.StartTime = int64(r.u())
		m.ChunkId = int64(r.u())
		for n := r.n(); 0 < n; n-- {
			m.SampleLow = append(m.SampleLow, r.f())
		}
		for n := r.n(); 0 < n; n-- {
			m.SampleHigh = append(m.SampleHigh, r.f())
		}
		m.FirstSampleIndex = r.u()
	case *PingMessage, *PongMessage:
	case *SetVolumeRequest:
		*m = SetVolumeRequest{Volume: r.f()}
	case *SubscribeChannelRequest:
		*m = SubscribeChannelRequest{Channel: Channel(r.u())}
	case *NewSongInfo:
		*m = NewSongInfo{}
		m.FirstSampleOfSongIndex = r.u()
		m.SongFileName = r.s()
		m.SongLength = int64(r.u())
		for n := r.n(); 0 < n; n-- {
			l := &NewSongInfo_SongLyricsLine{}
			for k := r.n(); 0 < k; k-- {
				a := &NewSongInfo_SongLyricsAtom{}
				a.Timestamp = int64(r.u())
				a.Caption = r.s()
				l.Atoms = append(l.Atoms, a)
			}
			m.Lyrics = append(m.Lyrics, l)
		}
		if r.bool() {
			m.Metadata = &NewSongInfo_SongMetadata{}
			m.Metadata.Title = r.s()
			m.Metadata.Artist = r.s()
			m.Metadata.Album = r.s()
		}
	case *ChunkInfo:
		*m = ChunkInfo{}
		m.StartTime = int64(r.u())
		m.FirstSampleIndex = r.u()
		m.ChunkSize = r.u()
	case *PauseInfo:
		*m = PauseInfo{}
		m.Playing = r.bool()
		m.ToggleSampleIndex = r.u()
	default:
		return zzErrProto
	}
	if r.bad || len(r.b) != 0 {
		return zzErrProto
	}
	return nil
}

func zzNames() []string {
	return []string{"comm.Envelope", "comm.TimeSyncRequest", "comm.TimeSyncResponse", "comm.QueueChunkRequest", "comm.PingMessage", "comm.PongMessage",
		"comm.SetVolumeRequest", "comm.SubscribeChannelRequest", "comm.NewSongInfo", "comm.ChunkInfo", "comm.PauseInfo"}
}

func zzProtos() []proto.Message {
	return []proto.Message{(*Envelope)(nil), (*TimeSyncRequest)(nil), (*TimeSyncResponse)(nil), (*QueueChunkRequest)(nil), (*PingMessage)(nil), (*PongMessage)(nil),
		(*SetVolumeRequest)(nil), (*SubscribeChannelRequest)(nil), (*NewSongInfo)(nil), (*ChunkInfo)(nil), (*PauseInfo)(nil)}
}

func zzKind(m proto.Message) int {
	switch m.(type) {
	case *Envelope:
		return 0
	case *TimeSyncRequest:
		return 1
	case *TimeSyncResponse:
		return 2
	case *QueueChunkRequest:
		return 3
	case *PingMessage:
		return 4
	case *PongMessage:
		return 5
	case *SetVolumeRequest:
		return 6
	case *SubscribeChannelRequest:
		return 7
	case *NewSongInfo:
		return 8
	case *ChunkInfo:
		return 9
	case *PauseInfo:
		return 10
	}
	return -1
}

func zzMessageName(m proto.Message) string {
	if k := zzKind(m); 0 <= k {
		return zzNames()[k]
	}
	return ""
}

func zzMessageType(name string) reflect.Type {
	for i, n := range zzNames() {
		if n == name {
			return reflect.TypeOf(zzProtos()[i])
		}
	}
	return nil
}

// ZZWire installs the stand-ins.
func ZZWire() {
	ZZProto_Marshal = zzMarshal
	ZZProto_Unmarshal = zzUnmarshal
	ZZProto_MessageName = zzMessageName
	ZZProto_MessageType = zzMessageType
	ZZZlib_NewWriterLevel = func(w io.Writer, level int) (*zlib.Writer, error) { return zlib.NewWriterLevel(w, 0) }
	ZZZlib_NewWriter = func(w io.Writer) *zlib.Writer { z, _ := zlib.NewWriterLevel(w, 0); return z }
}

// ZZDecode splits what was written to a connection into messages.
func ZZDecode(b []byte) (ms []proto.Message, ok bool) {
	for 0 < len(b) {
		r := &zzR{b: b}
		n := r.u()
		if r.bad || uint64(len(r.b)) < n {
			return ms, false
		}
		body := r.b[:n]
		b = r.b[n:]
		env := &Envelope{}
		if zzUnmarshal(body, env) != nil {
			return ms, false
		}
		z, err := zlib.NewReader(bytes.NewReader(env.Data))
		if err != nil {
			return ms, false
		}
		data, err := ioutil.ReadAll(z)
		if err != nil {
			return ms, false
		}
		m := zzNew(env.Type)
		if m == nil || zzUnmarshal(data, m) != nil {
			return ms, false
		}
		ms = append(ms, m)
	}
	return ms, true
}

func zzNew(name string) proto.Message {
	switch name {
	case "comm.TimeSyncRequest":
		return &TimeSyncRequest{}
	case "comm.TimeSyncResponse":
		return &TimeSyncResponse{}
	case "comm.QueueChunkRequest":
		return &QueueChunkRequest{}
	case "comm.PingMessage":
		return &PingMessage{}
	case "comm.PongMessage":
		return &PongMessage{}
	case "comm.SetVolumeRequest":
		return &SetVolumeRequest{}
	case "comm.SubscribeChannelRequest":
		return &SubscribeChannelRequest{}
	case "comm.NewSongInfo":
		return &NewSongInfo{}
	case "comm.ChunkInfo":
		return &ChunkInfo{}
	case "comm.PauseInfo":
		return &PauseInfo{}
	}
	return nil
}

func zzSamples(n int) []float64 {
	s := make([]float64, n)
	for i := range s {
		s[i] = zzverif.Float64("sample")
	}
	return s
}

// ZZMessage is a message of one of the ten types (1 to 10) with arbitrary fields.
func ZZMessage(kind int) proto.Message {
	switch kind {
	case 1:
		return &TimeSyncRequest{ClientSend: zzverif.Int64("clientSend")}
	case 2:
		return &TimeSyncResponse{ClientSendTime: zzverif.Int64("clientSend"), ServerRecvTime: zzverif.Int64("serverRecv"), ServerSendTime: zzverif.Int64("serverSend")}
	case 3:
		n := zzverif.Bound("samples")
		return &QueueChunkRequest{StartTime: zzverif.Int64("start"), ChunkId: zzverif.Int64("chunk"), SampleLow: zzSamples(n), SampleHigh: zzSamples(n), FirstSampleIndex: zzverif.Uint64("first")}
	case 4:
		return &PingMessage{}
	case 5:
		return &PongMessage{}
	case 6:
		return &SetVolumeRequest{Volume: zzverif.Float64("volume")}
	case 7:
		return &SubscribeChannelRequest{Channel: Channel(zzverif.Int32("channel"))}
	case 8:
		m := &NewSongInfo{FirstSampleOfSongIndex: zzverif.Uint64("first"), SongFileName: zzverif.StringN("file", 2), SongLength: zzverif.Int64("length")}
		if zzverif.Choose("lyrics", 2) == 1 {
			m.Lyrics = []*NewSongInfo_SongLyricsLine{
				{Atoms: []*NewSongInfo_SongLyricsAtom{{Timestamp: zzverif.Int64("timestamp"), Caption: zzverif.StringN("caption", 1)}, {Timestamp: zzverif.Int64("timestamp"), Caption: ""}}},
				{}}
			m.Metadata = &NewSongInfo_SongMetadata{Title: zzverif.StringN("title", 1), Artist: zzverif.StringN("artist", 2), Album: ""}
		}
		return m
	case 9:
		return &ChunkInfo{StartTime: zzverif.Int64("start"), FirstSampleIndex: zzverif.Uint64("first"), ChunkSize: zzverif.Uint64("size")}
	case 10:
		return &PauseInfo{Playing: zzverif.Bool("playing"), ToggleSampleIndex: zzverif.Uint64("toggle")}
	}
	panic("zz: kind")
}

// ZZSame reports whether two messages are of the same type and have the same fields.
func ZZSame(a, b proto.Message) bool {
	if a == nil || b == nil || zzKind(a) != zzKind(b) || zzKind(a) < 0 {
		return false
	}
	x, _ := zzMarshal(a)
	y, _ := zzMarshal(b)
	if len(x) != len(y) {
		return false
	}
	diff := byte(0)
	for i := range x {
		diff |= x[i] ^ y[i]
	}
	return diff == 0
}

var ZZErrConn = errors.New("zz: connection failed")

type zzAddr struct{}

func (zzAddr) Network() string { return "zz" }
func (zzAddr) String() string  { return "zz" }

// ZZConn is a connection that records what is written and closed; OnRead and OnWrite, if
// set, decide what a call transfers.
type ZZConn struct {
	ID      int
	Out     []byte
	In      []byte
	End     error // what Read yields at the end of In
	Eager   bool  // yield End together with the last bytes
	Closed  int
	Late    int // uses after Close
	OnRead  func(n int) int
	OnWrite func(n int) (int, error)
	Wait    func() // before a Read that finds nothing
	After   func() // after a Write
}

func (c *ZZConn) Read(b []byte) (int, error) {
	zzverif.Atomic(1)
	defer zzverif.Atomic(-1)
	if 0 < c.Closed {
		c.Late++
		return 0, ZZErrConn
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.In) == 0 {
		if c.Wait != nil {
			zzverif.Atomic(-1)
			c.Wait()
			zzverif.Atomic(1)
		}
		if len(c.In) == 0 {
			if c.End == nil {
				return 0, io.EOF
			}
			return 0, c.End
		}
	}
	n := len(b)
	if len(c.In) < n {
		n = len(c.In)
	}
	if c.OnRead != nil {
		n = c.OnRead(n)
	}
	copy(b, c.In[:n])
	c.In = c.In[n:]
	if c.Eager && len(c.In) == 0 {
		return n, c.End
	}
	return n, nil
}

func (c *ZZConn) Write(b []byte) (int, error) {
	if c.After != nil {
		defer c.After()
	}
	zzverif.Atomic(1)
	defer zzverif.Atomic(-1)
	if 0 < c.Closed {
		c.Late++
		return 0, ZZErrConn
	}
	n, err := len(b), error(nil)
	if c.OnWrite != nil {
		n, err = c.OnWrite(n)
	}
	c.Out = append(c.Out, b[:n]...)
	return n, err
}

func (c *ZZConn) Close() error                       { c.Closed++; return nil }
func (c *ZZConn) LocalAddr() net.Addr                { return zzAddr{} }
func (c *ZZConn) RemoteAddr() net.Addr               { return zzAddr{} }
func (c *ZZConn) SetDeadline(t time.Time) error      { return nil }
func (c *ZZConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *ZZConn) SetWriteDeadline(t time.Time) error { return nil }

// ZZGo starts a goroutine that takes part in the schedule.
func ZZGo(f func()) {
	go func() { f() }()
}

// ZZKind chooses the type of a message, among the first "sync" of a list if that is set.
func ZZKind() int {
	if n := zzverif.Bound("sync"); 0 < n {
		return []int{2, 4}[zzverif.Choose("kind", n)]
	}
	return 1 + zzverif.Choose("kind", 10)
}

// ZZSend writes a message to c.
func ZZSend(m proto.Message, c net.Conn) error { return sendWire(m, c) }
