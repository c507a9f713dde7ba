package schedule

import (
	"context"
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/metadata"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"net"
	"time"
)

var _ = context.Background

type zzListener struct{ conns chan net.Conn }

func (l *zzListener) Accept() (net.Conn, error) { return <-l.conns, nil }
func (l *zzListener) Close() error              { return nil }
func (l *zzListener) Addr() net.Addr            { return (&comm.ZZConn{}).LocalAddr() }

type zzLyrics struct{ slow bool }

func (z zzLyrics) CollectLyrics(string) []metadata.LyricsLine {
	if z.slow {
		zzverif.Yield()
	}
	return nil
}

type zzMetadata struct{}

func (zzMetadata) CollectMetadata(string) metadata.SongMetadata { return metadata.SongMetadata{} }

// zzServer is a running server whose clients are simulated.
type zzServer struct {
	conns    chan net.Conn
	sender   comm.MessageSender
	playlist *playback.Playlist
	commands map[string]ssh.Command
}

// zzListen starts the communication part.
func zzListen() *zzServer {
	comm.ZZWire()
	s := &zzServer{conns: make(chan net.Conn, 4), commands: make(map[string]ssh.Command)}
	comm.NewClientHandler = nil
	comm.ZZNet_Listen = func(string, string) (net.Listener, error) { return &zzListener{s.conns}, nil }
	s.sender, _ = comm.StartServer(":0")
	SampleRate = 1
	ZZMetadata_GetLyricsProvider = func() metadata.LyricsProvider { return zzLyrics{zzverif.Bound("slow") == 1} }
	ZZMetadata_GetProvider = func() metadata.Provider { return zzMetadata{} }
	ZZTime_Sleep = func(time.Duration) { zzverif.WaitUntil(func() bool { return false }) }
	ZZSsh_RegisterCommand = func(c ssh.Command) { s.commands[c.Name] = c }
	ZZPlayback_NewPlaylist = func(n int, songs []string, b int) *playback.Playlist {
		s.playlist = playback.NewPlaylist(n, songs, b)
		return s.playlist
	}
	return s
}

// connect adds a client that requests the channels.
func (s *zzServer) connect(chs ...comm.Channel) *comm.ZZConn {
	req := &comm.ZZConn{}
	for _, ch := range chs {
		comm.ZZSend(&comm.SubscribeChannelRequest{Channel: ch}, req)
	}
	c := &comm.ZZConn{In: req.Out, Wait: func() { zzverif.WaitUntil(func() bool { return false }) }}
	s.conns <- c
	return c
}

// zzReceived yields what the client received.
func zzReceived(c *comm.ZZConn) (vols []float64, songs []*comm.NewSongInfo, pauses []*comm.PauseInfo) {
	ms, ok := comm.ZZDecode(c.Out)
	zzverif.Assert(ok, "clients receive only complete messages")
	for _, m := range ms {
		switch m := m.(type) {
		case *comm.SetVolumeRequest:
			vols = append(vols, m.Volume)
		case *comm.NewSongInfo:
			songs = append(songs, m)
		case *comm.PauseInfo:
			pauses = append(pauses, m)
		default:
			zzverif.Assert(false, "clients receive only what concerns their channels")
		}
	}
	return
}

func zzHasPause(pauses []*comm.PauseInfo, playing bool, index uint64) bool {
	for _, p := range pauses {
		if p.Playing == playing && p.ToggleSampleIndex == index {
			return true
		}
	}
	return false
}

func zzHasSong(songs []*comm.NewSongInfo, start uint64, name string, length int64) bool {
	for _, s := range songs {
		if s.FirstSampleOfSongIndex == start && s.SongFileName == name && s.SongLength == length {
			return true
		}
	}
	return false
}
