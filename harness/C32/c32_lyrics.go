package metadata

import (
	"errors"
	"io"
	"strings"

	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/zzverif"
)

// ZZOs_File is an open file.
type ZZOs_File struct{ closed bool }

func (f *ZZOs_File) Read(b []byte) (int, error) {
	if f.closed {
		return 0, errors.New("closed")
	}
	return 0, io.EOF
}
func (f *ZZOs_File) Seek(offset int64, whence int) (int64, error) { return 0, nil }
func (f *ZZOs_File) Close() error                                 { f.closed = true; return nil }

// zzMember is a member of the object of an atom.
type zzMember struct {
	key       string
	timestamp int64
	caption   string
}

var (
	ZZUtil_IsFile func(string) bool
	ZZOs_Open     func(string) (*ZZOs_File, error)

	zzGood bool
	zzNull bool           // the file is null
	zzFile [][][]zzMember // nil lines are null
	zzDone int
)

// ZZJson_Decoder decodes the lyrics of the file as encoding/json is documented to.
type ZZJson_Decoder struct {
	f      io.Reader
	strict bool
}

func ZZJson_NewDecoder(f io.Reader) *ZZJson_Decoder { return &ZZJson_Decoder{f: f} }

func (d *ZZJson_Decoder) DisallowUnknownFields() { d.strict = true }
func (d *ZZJson_Decoder) UseNumber()             {}

func (d *ZZJson_Decoder) Decode(v interface{}) error {
	if _, err := d.f.Read(nil); err != io.EOF {
		return err
	}
	return zzDecode(v, d.strict)
}

func ZZJson_Unmarshal(b []byte, v interface{}) error { return zzDecode(v, false) }

func zzField(key string) string {
	keys := zzverif.JSONKeys(LyricsAtom{})
	for i := 0; i < len(keys); i += 2 {
		if keys[i+1] == key {
			return keys[i]
		}
	}
	for i := 0; i < len(keys); i += 2 {
		if strings.EqualFold(keys[i+1], key) {
			return keys[i]
		}
	}
	return ""
}

func zzDecode(v interface{}, strict bool) error {
	p, ok := v.(*[]LyricsLine)
	zzverif.Assume(ok) // other targets are not modelled
	if zzNull {
		*p = nil
		return nil
	}
	// as encoding/json does, what is there already is reused
	old := (*p)[:cap(*p)]
	*p = (*p)[:0]
	for i, l := range zzFile {
		if !zzGood && i == zzDone {
			if i == 0 {
				return io.EOF
			}
			return errors.New("not lyrics")
		}
		var line LyricsLine
		if i < len(old) {
			line = old[i]
		}
		if l == nil {
			line = nil
		} else {
			line = line[:0]
			if line == nil {
				line = LyricsLine{}
			}
		}
		for j, a := range l {
			atom := LyricsAtom{}
			if j < cap(line) {
				atom = line[:j+1][j]
			}
			for _, m := range a {
				switch zzField(m.key) {
				case "Timestamp":
					atom.Timestamp = m.timestamp
				case "Caption":
					atom.Caption = m.caption
				case "":
					if strict {
						return errors.New("unknown field")
					}
				}
			}
			line = append(line, atom)
		}
		*p = append(*p, line)
	}
	if !zzGood {
		return io.ErrUnexpectedEOF
	}
	return nil
}

// zzLyricsFile is any lyrics file.
func zzLyricsFile(any bool) (want []LyricsLine) {
	zzFile = [][][]zzMember{}
	if !any {
		a := LyricsAtom{Timestamp: zzverif.Int64("timestamp"), Caption: zzverif.StringN("caption", 1)}
		zzFile = append(zzFile, [][]zzMember{{{key: "timestamp", timestamp: a.Timestamp}, {key: "caption", caption: a.Caption}}})
		return []LyricsLine{{a}}
	}
	for i := zzverif.Choose("lines", zzverif.Bound("lines")+1); 0 < i; i-- {
		k := zzverif.Choose("atoms", zzverif.Bound("atoms")+2)
		if k == 0 {
			zzFile, want = append(zzFile, nil), append(want, nil)
			continue
		}
		file, line := [][]zzMember{}, LyricsLine{}
		for ; 1 < k; k-- {
			var atom []zzMember
			var w LyricsAtom
			t, c := zzverif.Int64("timestamp"), zzverif.String("caption", 1)
			switch zzverif.Choose("members", 4) {
			case 0:
				atom, w = []zzMember{{key: "timestamp", timestamp: t}, {key: "caption", caption: c}}, LyricsAtom{Timestamp: t, Caption: c}
			case 1:
				atom, w = []zzMember{{key: "Caption", caption: c}}, LyricsAtom{Caption: c}
			case 2:
				atom, w = []zzMember{{key: "comment", caption: "x"}, {key: "timestamp", timestamp: t}}, LyricsAtom{Timestamp: t}
			}
			file, line = append(file, atom), append(line, w)
		}
		zzFile, want = append(zzFile, file), append(want, line)
	}
	return
}

// ZZ_C32_Lyrics: any lyrics files, one after the other, of which some are missing or broken.
func ZZ_C32_Lyrics() {
	playback.AudioDir = "audio"
	exists := true
	ZZUtil_IsFile = func(string) bool { return exists }
	ZZOs_Open = func(string) (*ZZOs_File, error) {
		if !exists {
			return nil, errors.New("no file")
		}
		return &ZZOs_File{}, nil
	}
	var all, wants [][]LyricsLine
	for i := zzverif.Bound("files"); 0 < i; i-- {
		want := zzLyricsFile(i == 1)
		zzGood, zzNull = true, false
		switch zzverif.Choose("file", 4) {
		case 1:
			zzGood, zzDone = false, zzverif.Choose("before the error", len(zzFile)+1)
		case 2:
			zzNull = true
		case 3:
			exists = false
		}
		got := GetLyricsProvider().CollectLyrics("song.mp3")
		if !exists || !zzGood || zzNull {
			want = nil
			zzverif.Reach("none")
		}
		all, wants = append(all, got), append(wants, want)
		exists = true
	}
	for f, got := range all {
		want := wants[f]
		zzverif.Assert(len(got) == len(want), "the lyrics are those of the file")
		for i := range want {
			zzverif.Assert(len(got[i]) == len(want[i]), "the lyrics are those of the file")
			for j := range want[i] {
				zzverif.Assert(got[i][j] == want[i][j], "the lyrics are those of the file")
			}
		}
	}
	zzverif.Reach("lyrics")
}
