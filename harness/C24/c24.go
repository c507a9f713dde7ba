package main

import (
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/metadata"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/golang/protobuf/proto"
)

type zzSender struct{ c *comm.ZZConn }

func (s zzSender) SendMessage(m proto.Message) error { return comm.ZZSend(m, s.c) }

// ZZ_C24_Song: a song's information goes from the server to the infoer.
func ZZ_C24_Song() {
	comm.ZZWire()
	n := zzverif.Bound("len")
	start, length := zzverif.Uint64("start"), zzverif.Int64("length")
	zzverif.Assume(0 < start && start < 1<<60)
	// one of the texts is empty
	empty, k := zzverif.Choose("empty", 6), 0
	text := func(label string) string {
		k++
		if k-1 == empty {
			return ""
		}
		return zzverif.StringN(label, n)
	}
	name := text("name")
	md := metadata.SongMetadata{Title: text("title"), Artist: text("artist"), Album: text("album")}
	if zzverif.Choose("missing", 2) == 1 {
		md = metadata.SongMetadata{}
	}
	var lyrics []metadata.LyricsLine
	for l := zzverif.Choose("lines", zzverif.Bound("lines")+1); 0 < l; l-- {
		var line metadata.LyricsLine
		for a := zzverif.Choose("atoms", zzverif.Bound("atoms")+1); 0 < a; a-- {
			line = append(line, metadata.LyricsAtom{Timestamp: zzverif.Int64("timestamp"), Caption: text("caption")})
		}
		lyrics = append(lyrics, line)
	}
	c := &comm.ZZConn{}
	schedule.ZZServe(zzSender{c}, start, name, length, lyrics, md)
	zzverif.Quiesce()
	ms, ok := comm.ZZDecode(c.Out)
	zzverif.Assert(ok, "only complete messages are sent")
	currentState.Songs, currentState.Chunks, currentState.Pauses = nil, nil, nil
	h := newInfoerPackageHandler()
	for _, m := range ms {
		h.Handle(m, c)
	}
	zzverif.Quiesce()
	zzverif.Assert(len(currentState.Songs) == 1, "the song is recorded")
	zzSong(currentState.Songs[0], start, name, length, lyrics, md)
	// while the song plays, it is the one shown
	currentState.Chunks = []upcomingChunk{{startTime: 0, startIndex: start + 1, size: 44100}}
	zzSong(currentState.Info(0).CurrentSong, start, name, length, lyrics, md)
	zzverif.Reach("end")
}

func zzSong(s upcomingSong, start uint64, name string, length int64, lyrics []metadata.LyricsLine, md metadata.SongMetadata) {
	zzverif.Assert(s.startIndex == start && s.length == length, "start and length arrive unchanged")
	zzverif.Assert(s.filename == name, "the file name arrives unchanged")
	zzverif.Assert(s.metadata.Title == md.Title, "the title arrives unchanged")
	zzverif.Assert(s.metadata.Artist == md.Artist, "the artist arrives unchanged")
	zzverif.Assert(s.metadata.Album == md.Album, "the album arrives unchanged")
	zzverif.Assert(len(s.lyrics) == len(lyrics), "all lines of the lyrics arrive")
	for i, l := range s.lyrics {
		zzverif.Assert(len(l) == len(lyrics[i]), "all words of a line arrive")
		for j, a := range l {
			zzverif.Assert(a.Timestamp == lyrics[i][j].Timestamp && a.Caption == lyrics[i][j].Caption, "words and their times arrive unchanged")
			zzverif.Reach("word")
		}
	}
}
