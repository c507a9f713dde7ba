package ssh

import (
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/zzverif"
)

// ZZ_C29_Ls: ls shows the songs of the directory it is asked for, and completes directories level by level.
func ZZ_C29_Ls() {
	playback.AudioDir = "music"
	if zzverif.Choose("what", 2) == 0 {
		var args []string
		sub := ""
		if zzverif.Choose("argument", 2) == 1 {
			sub = zzverif.String("directory", 2)
			args = []string{sub}
		}
		b := zzverif.Byte("last character")
		ZZUtil_ListAllFiles = func(dir, s string) []string {
			zzverif.Assert(dir == "music" && s == sub, "the directory that is asked for is listed")
			return []string{"a.mp3", "x.mp" + string([]byte{b}), "z/c.mp3"}
		}
		msg, ok := lsCommand.Exec(args)
		want := "a.mp3\nz/c.mp3"
		if b == '3' {
			want = "a.mp3\nx.mp3\nz/c.mp3"
		}
		zzverif.Assert(ok && msg == want, "ls shows the songs, one in a line")
		zzverif.Reach("ls")
		return
	}
	x, y := zzverif.StringN("name", 1), zzverif.StringN("name", 1)
	zzverif.Assume(x[0] != '/' && y[0] != '/' && x != y)
	ZZUtil_ListAllSubDirs = func(dir string) []string {
		zzverif.Assert(dir == "music", "the music directory is listed")
		return []string{x, x + "/" + y, y}
	}
	prefix := []string{"", x, x + "/", x + "/" + y, y}[zzverif.Choose("prefix", 5)]
	got := lsCommand.Options(prefix, 0)
	for _, d := range []string{x, x + "/" + y, y} {
		if len(prefix) > len(d) || d[:len(prefix)] != prefix {
			continue
		}
		level := true
		for i := len(prefix); i < len(d); i++ {
			level = level && d[i] != '/'
		}
		if !level {
			continue
		}
		n := 0
		for _, o := range got {
			if o == d+"/" {
				n++
			}
		}
		zzverif.Assert(n == 1, "every directory of the level that is typed is offered once")
	}
	zzverif.Assert(len(lsCommand.Options(prefix, 1)) == 0, "only the first argument is a directory")
	zzverif.Reach("options")
}
