package main

import (
	"time"

	"github.com/LogicalOverflow/music-sync/metadata"
	"github.com/LogicalOverflow/music-sync/zzverif"
)

// zzLyrics: lines of 0 to words words (or no slice at all), arbitrary timestamps, captions of arbitrary bytes.
func zzLyrics(lines, words int) []metadata.LyricsLine {
	n := zzverif.Choose("lines", lines+2)
	if n == lines+1 {
		return nil
	}
	ls := make([]metadata.LyricsLine, n)
	for i := range ls {
		k := zzverif.Choose("words", words+1)
		if k == 0 && zzverif.Bool("nil") {
			continue
		}
		ls[i] = metadata.LyricsLine{}
		for j := 0; j < k; j++ {
			ls[i] = append(ls[i], metadata.LyricsAtom{Timestamp: zzverif.Int64("time"), Caption: zzverif.StringN("caption", 1+j%2)})
		}
	}
	return ls
}

func zzTime(name string) time.Duration {
	t := zzverif.Int64(name)
	zzverif.Assume(0 <= t && t < 1<<62)
	return time.Duration(t)
}

// ZZ_C22_History: exactly the lines and words that are due.
func ZZ_C22_History() {
	ls := zzLyrics(zzverif.Bound("lines"), zzverif.Bound("words"))
	song := upcomingSong{lyrics: ls}
	t := zzTime("t")
	ms := int64(t / time.Millisecond)
	h := zzverif.Choose("height", zzverif.Bound("height")+1)
	got := lyricsHistory(h, song, t)
	zzverif.Assert(len(got) == h, "one entry per row")
	// the first line that is not due yet
	next := 0
	for next < len(ls) && (len(ls[next]) == 0 || ls[next][0].Timestamp <= ms) {
		next++
	}
	for i, g := range got {
		want := ""
		if k := next - 1 - i; 0 <= k {
			zzverif.Reach("line")
			for _, a := range ls[k] {
				if a.Timestamp < ms+100 {
					want += a.Caption
				}
			}
		}
		zzverif.Assert(g == want, "a row is the concatenation of the due words of its line")
	}
}

// ZZ_C22_Monotone: the position never moves backwards.
func ZZ_C22_Monotone() {
	song := upcomingSong{lyrics: zzLyrics(zzverif.Bound("lines"), 2)}
	t := zzTime("t")
	u := zzTime("u")
	zzverif.Assume(t <= u)
	a, b := lyricsNextLine(song, t), lyricsNextLine(song, u)
	zzverif.Assert(0 <= a && a <= b && b <= len(song.lyrics), "the position never moves backwards")
}
