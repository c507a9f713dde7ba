package main

import (
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/gdamore/tcell"
)

type zzCell struct{ x, y int }

// zzScreen records the cells that are set.
type zzScreen struct {
	tcell.Screen
	at []zzCell
	r  []rune
}

func (s *zzScreen) SetContent(x, y int, mainc rune, combc []rune, style tcell.Style) {
	s.at = append(s.at, zzCell{x, y})
	s.r = append(s.r, mainc)
}

func zzProgress(name string) float64 {
	p := zzverif.Float64(name)
	zzverif.Assume(0 <= p && p <= 1)
	return p
}

// zzBar draws a bar and returns the number of full cells.
func zzBar(length int, p float64) (full int) {
	s := &zzScreen{}
	d := &drawer{Screen: s, w: 80, h: 24}
	d.drawProgress(5, 7, tcell.StyleDefault, length, p)
	n := length
	if n < 0 {
		n = 0
	}
	zzverif.Assert(len(s.at) == n, "as many cells as the bar is long")
	var seen [64]int
	row := make([]rune, n)
	for i, c := range s.at {
		zzverif.Assert(c.y == 7 && 5 <= c.x && c.x < 5+n, "only cells of the bar")
		seen[c.x-5]++
		row[c.x-5] = s.r[i]
	}
	for i := 0; i < n; i++ {
		zzverif.Assert(seen[i] == 1, "every cell once")
	}
	for full < n && row[full] == '█' {
		full++
	}
	for i := full; i < n; i++ {
		if i == full {
			zzverif.Assert(row[i] == ' ' || row[i] == '▌', "the head is full, half or empty")
		} else {
			zzverif.Assert(row[i] == ' ', "empty cells after the head")
		}
	}
	return full
}

// ZZ_C23_Bar: every progress.
func ZZ_C23_Bar() {
	length := zzverif.Choose("length", zzverif.Bound("length")+2) - 1
	p := zzProgress("p")
	full := zzBar(length, p)
	zzverif.Observe("full", int64(full))
	if length > 0 {
		exact := float64(length) * p
		zzverif.Assert(float64(full-1) <= exact && exact <= float64(full+1), "the number of full cells is the share of the bar to within one cell")
	}
}

// ZZ_C23_Grow: the bar never shrinks while progress grows.
func ZZ_C23_Grow() {
	length := zzverif.Choose("length", zzverif.Bound("length")+1)
	p, q := zzProgress("p"), zzProgress("q")
	zzverif.Assume(p <= q)
	zzverif.Assert(zzBar(length, p) <= zzBar(length, q), "the number of full cells never decreases")
}

// ZZ_C23_Text: one character per cell, in consecutive cells.
func ZZ_C23_Text() {
	str := zzverif.String("text", zzverif.Bound("bytes"))
	s := &zzScreen{}
	d := &drawer{Screen: s, w: 80, h: 24}
	x, y := []int{1, -2}[zzverif.Choose("x", 2)], 5
	d.drawString(x, y, tcell.StyleDefault, str)
	want := []rune(str)
	zzverif.Assert(len(s.at) == len(want), "one cell per character")
	for i, c := range s.at {
		zzverif.Assert(c.x == x+i && c.y == y, "consecutive cells")
		zzverif.Assert(s.r[i] == want[i], "the character")
		if s.r[i] >= 0x80 {
			zzverif.Reach("multibyte")
		}
	}
}

// ZZ_C23_Box: exactly the border.
func ZZ_C23_Box() {
	w, h := 1+zzverif.Choose("w", zzverif.Bound("size")), 1+zzverif.Choose("h", zzverif.Bound("size"))
	s := &zzScreen{}
	d := &drawer{Screen: s, w: 80, h: 24}
	x, y := zzverif.IntRange("x", -100, 100), zzverif.IntRange("y", -100, 100)
	d.drawBox(x, y, w, h, tcell.StyleDefault)
	var last [8][8]rune
	for i, c := range s.at {
		zzverif.Assert(x <= c.x && c.x < x+w && y <= c.y && c.y < y+h, "only cells of the box")
		cx, cy := c.x-x, c.y-y
		zzverif.Assert(cx == 0 || cx == w-1 || cy == 0 || cy == h-1, "only border cells")
		last[cx][cy] = s.r[i]
	}
	for cx := 0; cx < w; cx++ {
		for cy := 0; cy < h; cy++ {
			border := cx == 0 || cx == w-1 || cy == 0 || cy == h-1
			zzverif.Assert((last[cx][cy] != 0) == border, "every border cell")
		}
	}
	if w > 1 && h > 1 {
		zzverif.Assert(last[0][0] == '╔' && last[w-1][0] == '╗' && last[0][h-1] == '╚' && last[w-1][h-1] == '╝', "the corners")
	}
}
