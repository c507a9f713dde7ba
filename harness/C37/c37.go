package metadata

import (
	"errors"
	"io"
	"path/filepath"

	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/dhowden/tag"
)

// ZZOs_File is an open file.
type ZZOs_File struct {
	path           string
	closed         int
	readAfterClose bool
}

func (f *ZZOs_File) Read(b []byte) (int, error) {
	f.readAfterClose = f.readAfterClose || 0 < f.closed
	zzReading = f.path
	return 0, io.EOF
}
func (f *ZZOs_File) Seek(offset int64, whence int) (int64, error) { return 0, nil }
func (f *ZZOs_File) Close() error                                 { f.closed++; return nil }

var (
	zzThere, zzOpens, zzGood bool
	zzWant, zzReading        string
	zzOpened                 []*ZZOs_File
	zzLyrics                 []LyricsLine
	zzDone                   int

	ZZUtil_IsFile func(string) bool
	ZZOs_Open     func(string) (*ZZOs_File, error)
)

// ZZJson_Decoder knows the lyrics of the file it is given; it may fail after some of them.
type ZZJson_Decoder struct{ f io.Reader }

func ZZJson_NewDecoder(f io.Reader) *ZZJson_Decoder { return &ZZJson_Decoder{f} }

func (d *ZZJson_Decoder) Decode(v interface{}) error {
	d.f.Read(nil)
	return ZZJson_Unmarshal(nil, v)
}

func ZZJson_Unmarshal(b []byte, v interface{}) error {
	p := v.(*[]LyricsLine)
	if zzReading != zzWant { // the lyrics of another song
		*p = []LyricsLine{{{Timestamp: 1, Caption: "another song"}}}
		return nil
	}
	if zzGood {
		*p = zzLyrics
		return nil
	}
	*p = append(*p, zzLyrics[:zzDone]...)
	return errors.New("not lyrics")
}

var zzTag zzTags

func ZZTag_ReadFrom(f io.ReadSeeker) (tag.Metadata, error) {
	f.Read(nil)
	if zzReading != zzWant { // the tags of another song
		return zzTags{title: "another", artist: "another", album: "another"}, nil
	}
	if !zzGood {
		return nil, errors.New("no tags")
	}
	return zzTag, nil
}

type zzTags struct {
	tag.Metadata
	title, artist, album string
}

func (t zzTags) Title() string  { return t.title }
func (t zzTags) Artist() string { return t.artist }
func (t zzTags) Album() string  { return t.album }

// zzFiles: the file wanted is there or not, opens or not, and can be decoded or not; all others exist or none does.
func zzFiles(want string) {
	zzWant = want
	others := zzverif.Bool("others")
	zzThere, zzOpens, zzGood = zzverif.Bool("there"), zzverif.Bool("opens"), zzverif.Bool("good")
	zzOpened = nil
	ZZUtil_IsFile = func(p string) bool { return p == want && zzThere || p != want && others }
	ZZOs_Open = func(p string) (*ZZOs_File, error) {
		if p == want && !(zzThere && zzOpens) || p != want && !others {
			return nil, errors.New("no file")
		}
		f := &ZZOs_File{path: p}
		zzOpened = append(zzOpened, f)
		return f, nil
	}
}

func zzClosed() {
	for _, f := range zzOpened {
		zzverif.Assert(f.closed == 1, "a file is closed exactly once")
		zzverif.Assert(!f.readAfterClose, "a file is read before it is closed")
	}
}

func zzSong() string {
	playback.AudioDir = []string{"audio", "./audio/", "/music", "", "."}[zzverif.Choose("audio dir", 5)]
	name := zzverif.StringN("name", 1+zzverif.Choose("length", zzverif.Bound("name")))
	for i := 0; i < len(name); i++ {
		zzverif.Assume(name[i] != '/' && name[i] != '.' && name[i] != 0)
	}
	return []string{"", "sub/"}[zzverif.Choose("sub", 2)] + name + []string{"", ".mp3", ".json"}[zzverif.Choose("suffix", 3)]
}

func zzJoin(song string) string {
	return filepath.Clean(playback.AudioDir + map[bool]string{true: "", false: "/"}[playback.AudioDir == ""] + song)
}

// ZZ_C37_Lyrics: any song, any file system, any decoder.
func ZZ_C37_Lyrics() {
	song := zzSong()
	zzLyrics = make([]LyricsLine, zzverif.Choose("lines", zzverif.Bound("lines")+1))
	for i := range zzLyrics {
		zzLyrics[i] = make(LyricsLine, zzverif.Choose("atoms", 2))
		for j := range zzLyrics[i] {
			zzLyrics[i][j] = LyricsAtom{Timestamp: zzverif.Int64("timestamp"), Caption: zzverif.StringN("caption", 1)}
		}
	}
	want := make([]LyricsLine, len(zzLyrics))
	copy(want, zzLyrics)
	zzDone = zzverif.Choose("before the error", len(zzLyrics)+1)
	zzFiles(zzJoin(song + ".json"))
	got := GetLyricsProvider().CollectLyrics(song)
	zzClosed()
	if !zzThere || !zzOpens || !zzGood {
		zzverif.Assert(len(got) == 0, "a song without a readable lyrics file has no lyrics")
		zzverif.Reach("none")
		return
	}
	zzverif.Assert(len(got) == len(want), "the lyrics are those of the song's file")
	for i := range want {
		zzverif.Assert(len(got[i]) == len(want[i]), "the lyrics are those of the song's file")
		for j := range want[i] {
			zzverif.Assert(got[i][j] == want[i][j], "the lyrics are those of the song's file")
		}
	}
	zzverif.Reach("lyrics")
}

// ZZ_C37_Tags: any song, any file system, any tags.
func ZZ_C37_Tags() {
	song := zzSong()
	zzFiles(zzJoin(song))
	tags := zzTags{title: zzverif.String("title", 2), artist: zzverif.String("artist", 2), album: zzverif.String("album", 2)}
	zzTag = tags
	got := GetProvider().CollectMetadata(song)
	zzClosed()
	if !zzThere || !zzOpens || !zzGood {
		zzverif.Assert(got == SongMetadata{}, "a song whose tags cannot be read has no metadata")
		zzverif.Reach("none")
		return
	}
	zzverif.Assert(got == SongMetadata{Title: tags.title, Artist: tags.artist, Album: tags.album}, "the metadata is that of the song's tags")
	zzverif.Reach("tags")
}
