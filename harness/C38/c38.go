package main

import (
	"time"

	"github.com/LogicalOverflow/music-sync/metadata"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/gdamore/tcell"
)

// zzGrid is a terminal: what is drawn outside it is not visible.
type zzGrid struct {
	tcell.Screen
	w, h  int
	cells [][]rune
}

func zzTerminal(w, h int) *zzGrid {
	g := &zzGrid{w: w, h: h, cells: make([][]rune, h)}
	for i := range g.cells {
		g.cells[i] = make([]rune, w)
		for j := range g.cells[i] {
			g.cells[i][j] = ' '
		}
	}
	return g
}

func (g *zzGrid) Size() (int, int) { return g.w, g.h }
func (g *zzGrid) SetContent(x, y int, mainc rune, combc []rune, style tcell.Style) {
	if 0 <= x && x < g.w && 0 <= y && y < g.h {
		g.cells[y][x] = mainc
	}
}

func (g *zzGrid) shows(x, y int, s string, msg string) {
	for _, r := range s {
		if x < 0 || g.w <= x || y < 0 || g.h <= y {
			zzverif.Assert(false, msg)
			return
		}
		zzverif.Assert(g.cells[y][x] == r, msg)
		x++
	}
}

func zzText(name string, max int) string {
	s := zzverif.StringN(name, zzverif.Choose(name+" length", max+1))
	for i := 0; i < len(s); i++ {
		zzverif.Assume(' ' < s[i] && s[i] < 0x7f)
	}
	return s
}

// zzTwo is a number below 100 as two digits, zzNum any number below 1000 without leading zeros.
func zzTwo(n int64) string { return string([]byte{byte('0' + n/10), byte('0' + n%10)}) }
func zzNum(n int64) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	if n < 100 {
		return zzTwo(n)
	}
	return string([]byte{byte('0' + n/100)}) + zzTwo(n%100)
}

func zzClock(name string, hours int64) (time.Duration, string) {
	h, m, s := zzverif.Int64(name+" h"), zzverif.Int64(name+" m"), zzverif.Int64(name+" s")
	ns := zzverif.Int64(name + " ns")
	zzverif.Assume(0 <= h && h <= hours && 0 <= m && m < 60 && 0 <= s && s < 60 && 0 <= ns && ns < 1000000000)
	d := time.Duration(((h*60+m)*60+s)*1000000000 + ns)
	if h == 0 {
		return d, zzNum(m) + ":" + zzTwo(s)
	}
	return d, zzNum(h) + ":" + zzTwo(m) + ":" + zzTwo(s)
}

// ZZ_C38_Duration: every duration below the bound.
func ZZ_C38_Duration() {
	d, want := zzClock("time", int64(zzverif.Bound("hours")))
	zzverif.Assert(fmtDuration(d) == want, "a duration is shown in hours, minutes and seconds")
	zzverif.Reach("end")
}

func zzVolume() (float64, string) {
	k := zzverif.Choose("volume", 4)
	return []float64{0, .1, 1, .755}[k], []string{"Volume: 000.00%", "Volume: 010.00%", "Volume: 100.00%", "Volume: 075.50%"}[k]
}

// ZZ_C38_Info: any song and time on a terminal large enough.
func ZZ_C38_Info() {
	w, h := 44+zzverif.Choose("width", 2), 5+zzverif.Choose("height", 2)
	g := zzTerminal(w, h)
	d := &drawer{Screen: g, w: w, h: h}
	n := zzverif.Bound("text")
	song := upcomingSong{filename: zzText("file", n)}
	song.metadata.Title = zzText("title", n)
	song.metadata.Artist = zzText("artist", n)
	song.metadata.Album = zzText("album", n)
	k := zzverif.Choose("position", 3)
	position, at := []time.Duration{0, 62*time.Second + 999*time.Millisecond, time.Hour}[k], []string{"0:00", "1:02", "1:00:00"}[k]
	length, of := time.Duration(3*time.Minute+7*time.Second), "3:07"
	if zzverif.Choose("length", 2) == 1 {
		length, of = time.Hour, "1:00:00"
	}
	v, volume := zzVolume()
	playing := zzverif.Choose("playing", 2) == 1
	info := &playbackInformation{CurrentSong: song, Volume: v, TimeInSong: position, SongLength: length, ProgressInSong: .5, Playing: playing}
	drawPlaybackInfo(d, info)

	title := song.metadata.Title
	if title == "" {
		title = song.filename
	}
	by := song.metadata.Artist
	if by != "" && song.metadata.Album != "" {
		by += " - " + song.metadata.Album
	}
	g.shows(1, h-4, title+" ", "the title, or the file name if it has none")
	g.shows(1, h-3, by+" ", "the artist and the album")
	clock := at + "/" + of
	g.shows(w-1-len(clock), h-3, clock, "the time in the song and its length")
	g.shows(w-1-len(volume), h-4, volume, "the volume")
	g.shows(2, h-5, map[bool]string{true: "Playing", false: "Paused"}[playing], "whether it is playing")
	zzBorder(g, h-5, 5)
	zzverif.Reach("end")
}

// zzBorder: rows y to y+n-1 are framed.
func zzBorder(g *zzGrid, y, n int) {
	zzverif.Assert(g.cells[y][0] == '╔' && g.cells[y][g.w-1] == '╗' && g.cells[y+n-1][0] == '╚' && g.cells[y+n-1][g.w-1] == '╝', "a frame")
	for i := 1; i < n-1; i++ {
		zzverif.Assert(g.cells[y+i][0] == '║' && g.cells[y+i][g.w-1] == '║', "a frame")
	}
}

// ZZ_C38_Lyrics: any history size on any terminal; every line is due.
func ZZ_C38_Lyrics() {
	w, h := 10, zzverif.Choose("height", zzverif.Bound("height")+1)
	size := zzverif.IntRange("size", 0, 7)
	lyricsHistorySize = size
	g := zzTerminal(w, h)
	d := &drawer{Screen: g, w: w, h: h}
	song := upcomingSong{lyrics: make([]metadata.LyricsLine, zzverif.Choose("lines", zzverif.Bound("lines")+1))}
	for i := range song.lyrics {
		b := zzverif.StringN("caption", 1)
		zzverif.Assume(' ' < b[0] && b[0] < 0x7f)
		song.lyrics[i] = metadata.LyricsLine{{Timestamp: int64(i), Caption: b}}
	}
	drawLyrics(d, &playbackInformation{CurrentSong: song, TimeInSong: time.Minute})
	rows := size
	if h-7 < rows {
		rows = h - 7
	}
	if rows <= 0 {
		for y := range g.cells {
			for x := range g.cells[y] {
				zzverif.Assert(g.cells[y][x] == ' ', "no lyrics where there is no room for them")
			}
		}
		zzverif.Reach("none")
		return
	}
	for i := 0; i < rows; i++ {
		want := " "
		if k := len(song.lyrics) - 1 - i; 0 <= k {
			want = song.lyrics[k][0].Caption
			zzverif.Reach("line")
		}
		g.shows(1, h-7-i, want+" ", "the newest line at the bottom, the older ones above it")
	}
	zzBorder(g, h-7-rows, rows+2)
	g.shows(2, h-7-rows, "Lyrics", "the heading")
	for y := 0; y < h-7-rows; y++ {
		zzverif.Assert(g.cells[y][0] == ' ', "nothing above the lyrics")
	}
	for y := h - 5; y < h; y++ {
		zzverif.Assert(g.cells[y][0] == ' ' && g.cells[y][1] == ' ', "nothing below the lyrics")
	}
}

// ZZ_C38_Any: any terminal, from none at all; nothing crashes.
func ZZ_C38_Any() {
	w, h := zzverif.IntRange("width", 0, 3), zzverif.IntRange("height", 0, 9)
	if zzverif.Choose("wide", 2) == 1 {
		w = 40
	}
	lyricsHistorySize = zzverif.Choose("size", 3)
	g := zzTerminal(w, h)
	d := &drawer{Screen: g, w: w, h: h}
	song := upcomingSong{lyrics: []metadata.LyricsLine{{{Timestamp: 0, Caption: "abc"}}, nil, {}}, filename: "a-long-file-name.mp3"}
	song.metadata.Artist = "artist"
	p := []float64{0, .5, 1}[zzverif.Choose("progress", 3)]
	info := &playbackInformation{CurrentSong: song, TimeInSong: time.Minute, SongLength: time.Hour, ProgressInSong: p}
	drawPlaybackInfo(d, info)
	drawLyrics(d, info)
	zzverif.Reach("end")
}
