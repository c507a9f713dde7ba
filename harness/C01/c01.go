package playback

import "github.com/LogicalOverflow/music-sync/zzverif"

func zzSongs(prefix string, n int) []string {
	s := make([]string, 0, n+2)
	for i := 0; i < n; i++ {
		s = append(s, prefix+string(rune('a'+i)))
	}
	return s
}

func zzEqual(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func zzCopy(a []string) []string {
	return append([]string{}, a...)
}

// model edits
func zzInsert(l []string, s string, at int) []string {
	if at < 0 {
		at = 0
	}
	if at > len(l) {
		at = len(l)
	}
	r := append([]string{}, l[:at]...)
	r = append(r, s)
	return append(r, l[at:]...)
}

func zzRemove(l []string, at int) ([]string, string) {
	if len(l) == 0 {
		return l, ""
	}
	if at < 0 {
		at = 0
	}
	if at >= len(l) {
		at = len(l) - 1
	}
	r := append([]string{}, l[:at]...)
	return append(r, l[at+1:]...), l[at]
}

// ZZ_C01_Edits runs a symbolic sequence of edits with arbitrary positions against the list model.
func ZZ_C01_Edits() {
	n := zzverif.Choose("n", zzverif.Bound("songs")+1)
	songs := zzSongs("s", n)
	if n > 0 && zzverif.Bool("dup") {
		songs[n-1] = songs[0]
	}
	pl := NewPlaylist(1, zzCopy(songs), 0)
	want := songs
	for i := 0; i < zzverif.Bound("ops"); i++ {
		song := "new" + string(rune('0'+i))
		switch zzverif.Choose("op", 3) {
		case 0:
			zzverif.Reach("add")
			pl.AddSong(song)
			want = zzInsert(want, song, len(want))
		case 1:
			zzverif.Reach("insert")
			p := zzverif.Int("pos")
			pl.InsertSong(song, p)
			want = zzInsert(want, song, p)
		case 2:
			zzverif.Reach("remove")
			p := zzverif.Int("pos")
			got := pl.RemoveSong(p)
			var exp string
			want, exp = zzRemove(want, p)
			zzverif.Assert(got == exp, "RemoveSong returns the removed song")
		}
		zzverif.Assert(zzEqual(pl.Songs(), want), "the playlist is the edited list")
	}
	zzverif.Observe("len", int64(len(pl.Songs())))
	for _, s := range pl.Songs() {
		zzverif.ObserveStr("song", s)
	}
}

// ZZ_C01_Copy checks that a listing and the playlist do not share state.
func ZZ_C01_Copy() {
	n := zzverif.Choose("n", zzverif.Bound("songs")+1)
	songs := zzSongs("s", n)
	pl := NewPlaylist(1, zzCopy(songs), 0)
	want := songs
	// reach states with spare capacity in the playlist's array
	for i := 0; i < zzverif.Bound("pre"); i++ {
		switch zzverif.Choose("pre", 3) {
		case 0:
		case 1:
			pl.AddSong("pre")
			want = zzInsert(want, "pre", len(want))
		case 2:
			pl.RemoveSong(0)
			want, _ = zzRemove(want, 0)
		}
	}
	l := pl.Songs()
	zzverif.Assert(zzEqual(l, want), "the listing is the playlist")
	l2 := pl.Songs()
	snapshot := zzCopy(l)
	switch zzverif.Choose("op", 5) {
	case 0:
		pl.AddSong("x")
		want = zzInsert(want, "x", len(want))
	case 1:
		p := zzverif.Int("pos")
		pl.InsertSong("x", p)
		want = zzInsert(want, "x", p)
	case 2:
		p := zzverif.Int("pos")
		pl.RemoveSong(p)
		want, _ = zzRemove(want, p)
	case 3: // modify the listing in place
		for i := range l2 {
			l2[i] = "changed"
		}
	case 4: // grow the listing
		l2 = append(l2, "grown")
		l2[0] = "changed"
		pl.AddSong("y")
		want = zzInsert(want, "y", len(want))
		if len(l2) > 1 {
			zzverif.Assert(l2[len(l2)-1] == "grown", "an extended listing is not overwritten")
		}
	}
	zzverif.Assert(zzEqual(l, snapshot), "an edit does not change an earlier listing")
	zzverif.Assert(zzEqual(pl.Songs(), want), "changing a listing does not change the playlist")
}

type zzEdit struct{ kind, pos int }

func (e zzEdit) run(pl *Playlist, song string) (removed string) {
	switch e.kind {
	case 0:
		pl.AddSong(song)
	case 1:
		pl.InsertSong(song, e.pos)
	case 2:
		removed = pl.RemoveSong(e.pos)
	}
	return
}

func (e zzEdit) model(l []string, song string) ([]string, string) {
	switch e.kind {
	case 0:
		return zzInsert(l, song, len(l)), ""
	case 1:
		return zzInsert(l, song, e.pos), ""
	}
	return zzRemove(l, e.pos)
}

// ZZ_C01_Concurrent: edits made at the same time take effect one after the other, in some
// order, and a listing made meanwhile shows the playlist before, between or after them.
func ZZ_C01_Concurrent() {
	songs := zzSongs("s", zzverif.Choose("n", zzverif.Bound("songs")+1))
	pl := NewPlaylist(1, zzCopy(songs), 0)
	es := make([]zzEdit, 2)
	names := []string{"x", "y"}
	removed := make([]string, 2)
	for i := range es {
		es[i].kind = zzverif.Choose("op", 3)
		if 0 < es[i].kind {
			es[i].pos = zzverif.Int("pos")
		}
	}
	var listing []string
	done := make(chan bool, 3)
	for i := range es {
		i := i
		go func() {
			removed[i] = es[i].run(pl, names[i])
			done <- true
		}()
	}
	if zzverif.Bool("list") {
		listing = pl.Songs()
	} else {
		listing = songs
	}
	<-done
	<-done
	got := pl.Songs()
	ok := false
	for first := 0; first < 2; first++ {
		a, ra := es[first].model(songs, names[first])
		b, rb := es[1-first].model(a, names[1-first])
		if removed[first] == ra && removed[1-first] == rb && zzEqual(got, b) &&
			(zzEqual(listing, songs) || zzEqual(listing, a) || zzEqual(listing, b)) {
			ok = true
		}
	}
	zzverif.Reach("done")
	zzverif.Assert(ok, "concurrent edits take effect one after the other")
}
