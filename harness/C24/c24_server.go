package schedule

import (
	"context"
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/metadata"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"time"
)

type zzLyrics struct {
	name  string
	lines []metadata.LyricsLine
}

func (z zzLyrics) CollectLyrics(name string) []metadata.LyricsLine {
	zzverif.Assert(name == z.name, "the lyrics of the song are looked up")
	return z.lines
}

type zzMetadata struct {
	name string
	md   metadata.SongMetadata
}

func (z zzMetadata) CollectMetadata(name string) metadata.SongMetadata {
	zzverif.Assert(name == z.name, "the metadata of the song is looked up")
	return z.md
}

// ZZServe starts a server that knows the song and lets its playlist begin with it.
func ZZServe(sender comm.MessageSender, start uint64, name string, length int64, lyrics []metadata.LyricsLine, md metadata.SongMetadata) {
	ZZMetadata_GetLyricsProvider = func() metadata.LyricsProvider { return zzLyrics{name, lyrics} }
	ZZMetadata_GetProvider = func() metadata.Provider { return zzMetadata{name, md} }
	ZZTime_Sleep = func(time.Duration) { zzverif.WaitUntil(func() bool { return false }) }
	ZZSsh_RegisterCommand = func(c ssh.Command) {}
	ZZContext_Background = func() context.Context {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		return ctx
	}
	var pl *playback.Playlist
	ZZPlayback_NewPlaylist = func(n int, songs []string, b int) *playback.Playlist {
		pl = playback.NewPlaylist(n, songs, b)
		return pl
	}
	SampleRate = 1
	Server(sender)
	SampleRate = 44100
	f, _ := pl.ZZHandlers()
	f(start, name, length)
}
