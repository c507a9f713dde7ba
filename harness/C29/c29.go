package util

import (
	"github.com/LogicalOverflow/music-sync/zzverif"
	"os"
	"path/filepath"
	"strings"
	"time"
)

var _ = filepath.Join

// zzInfo describes a file or directory of the simulated file system.
type zzInfo struct {
	name string
	dir  bool
}

func (i zzInfo) Name() string { return i.name }
func (i zzInfo) Size() int64  { return 0 }
func (i zzInfo) Mode() os.FileMode {
	if i.dir {
		return os.ModeDir
	}
	return 0
}
func (i zzInfo) ModTime() time.Time { return time.Time{} }
func (i zzInfo) IsDir() bool        { return i.dir }
func (i zzInfo) Sys() interface{}   { return nil }

// zzNode is an entry of the file system, which has a directory /w, the working directory,
// and the music directory with everything above and below it.
type zzNode struct {
	dir, name string
	isDir     bool
}

var zzNodes []zzNode

func zzResolve(path string) string {
	if !filepath.IsAbs(path) {
		return filepath.Join("/w", path)
	}
	return filepath.Clean(path)
}

func zzAdd(dir, name string, isDir bool) {
	for _, n := range zzNodes {
		if n.dir == dir && n.name == name {
			return
		}
	}
	zzNodes = append(zzNodes, zzNode{dir, name, isDir})
}

func zzMkdirs(path string) {
	dir := "/"
	for _, c := range strings.Split(path, "/") {
		if c != "" {
			zzAdd(dir, c, true)
			dir = filepath.Join(dir, c)
		}
	}
}

func zzStat(path string) (os.FileInfo, error) {
	if path == "" {
		return nil, os.ErrNotExist
	}
	p := zzResolve(path)
	if p == "/" {
		return zzInfo{"/", true}, nil
	}
	for _, n := range zzNodes {
		if filepath.Join(n.dir, n.name) == p {
			return zzInfo{n.name, n.isDir}, nil
		}
	}
	return nil, os.ErrNotExist
}

// zzNames yields the names in a directory in order.
func zzNames(path string) (names []string) {
	p := zzResolve(path)
	for _, n := range zzNodes {
		if n.dir == p {
			names = append(names, n.name)
		}
	}
	for i := range names {
		for j := i; j > 0 && names[j] < names[j-1]; j-- {
			names[j-1], names[j] = names[j], names[j-1]
		}
	}
	return
}

// zzWalk and zzGlob do what filepath.Walk and filepath.Glob do, in the simulated file system.
func zzWalk(root string, fn filepath.WalkFunc) error {
	info, err := zzStat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = zzWalkIn(root, info, fn)
	}
	if err == filepath.SkipDir {
		return nil
	}
	return err
}

func zzWalkIn(path string, info os.FileInfo, fn filepath.WalkFunc) error {
	if err := fn(path, info, nil); err != nil || !info.IsDir() {
		return err
	}
	for _, name := range zzNames(path) {
		file := filepath.Join(path, name)
		info, err := zzStat(file)
		if err != nil {
			err = fn(file, info, err)
		} else {
			err = zzWalkIn(file, info, fn)
		}
		if err != nil && (err != filepath.SkipDir || info != nil && !info.IsDir()) {
			return err
		}
	}
	return nil
}

func zzGlob(pattern string) (matches []string, err error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	meta := func(s string) bool { return strings.ContainsAny(s, "*?[\\") }
	if !meta(pattern) {
		if _, err := zzStat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := filepath.Split(pattern)
	if dir == "" {
		dir = "."
	} else if dir != "/" {
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	if meta(dir) {
		if dirs, err = zzGlob(dir); err != nil {
			return nil, err
		}
	}
	for _, d := range dirs {
		if info, err := zzStat(d); err != nil || !info.IsDir() {
			continue
		}
		for _, n := range zzNames(d) {
			if ok, err := filepath.Match(file, n); err != nil {
				return matches, err
			} else if ok {
				matches = append(matches, filepath.Join(d, n))
			}
		}
	}
	return
}

// zzChars is a text of up to max characters of the alphabet, of which the last is any other.
func zzChars(name, alphabet string, min, max int) (s string) {
	n := min + zzverif.Choose(name+" length", max-min+1)
	for i := 0; i < n; i++ {
		if c := zzverif.Choose(name, len(alphabet)+1); c < len(alphabet) {
			s += alphabet[c : c+1]
		} else {
			b := zzverif.Byte(name)
			zzverif.Assume(b != 0 && b != '/' && b < 0x80)
			for j := 0; j < len(alphabet); j++ {
				zzverif.Assume(b != alphabet[j])
			}
			s += string([]byte{b})
		}
	}
	return
}

// zzTree sets up a music directory spelled in any way, with files named in any way.
func zzTree() (spelling, dir, sub string, files []string) {
	ZZFilepath_Walk, ZZFilepath_Glob, ZZOs_Stat, ZZOs_Lstat = zzWalk, zzGlob, zzStat, zzStat
	zzNodes = nil
	zzMkdirs("/w")
	spelling = zzChars("spelling", "./m", 0, zzverif.Bound("spelling"))
	zzverif.Assume(spelling != "")
	dir = zzResolve(spelling)
	zzMkdirs(dir)
	a, b := zzChars("name", ".", 1, zzverif.Bound("name")), "b.mp3"
	sub = zzChars("directory", "", 1, 1)
	zzverif.Assume(a != "." && a != ".." && sub != "." && a != sub && a != b && a != "w" && sub != "w" && a != "m" && sub != "m")
	zzAdd(dir, a, false)
	zzAdd(dir, b, false)
	zzAdd(dir, sub, true)
	zzAdd(filepath.Join(dir, sub), "c.mp3", false)
	zzAdd(filepath.Join(dir, sub), "d", true)
	files = []string{filepath.Join(dir, a), filepath.Join(dir, b), filepath.Join(dir, sub, "c.mp3")}
	return
}

// zzAll asserts that the names are those of the paths, each once, whatever the order.
func zzAll(spelling string, names, paths []string) {
	zzverif.Assert(len(names) == len(paths), "every file is reported exactly once and nothing else is")
	for i, p := range paths {
		n := 0
		for _, name := range names {
			zzverif.Assert(name != "", "names are not empty")
			if zzResolve(filepath.Join(spelling, name)) == p {
				n++
			}
		}
		zzverif.Assert(n == 1, "the name that is reported, joined with the music directory, is the file")
		_ = i
	}
}

// ZZ_C29_List: listing everything, a sub-directory, and the directories.
func ZZ_C29_List() {
	spelling, dir, sub, files := zzTree()
	music := 0 // the working directory may be in the music directory
	if dir == "/" {
		music = 1
	}
	switch zzverif.Choose("listing", 3) {
	case 0:
		names := ListAllFiles(spelling, "")
		zzAll(spelling, names, files)
		zzverif.Reach("all")
	case 1:
		names := ListAllFiles(spelling, sub+[]string{"", "/"}[zzverif.Choose("slash", 2)])
		zzAll(spelling, names, files[2:])
		zzverif.Reach("sub")
	case 2:
		dirs := []string{filepath.Join(dir, sub), filepath.Join(dir, sub, "d")}
		if music == 1 {
			dirs = append(dirs, "/w")
		}
		zzAll(spelling, ListAllSubDirs(spelling), dirs)
		zzverif.Reach("dirs")
	}
}

// ZZ_C29_Glob: files that match a pattern.
func ZZ_C29_Glob() {
	spelling, dir, sub, files := zzTree()
	_ = sub
	var names []string
	var err error
	switch zzverif.Choose("pattern", 5) {
	case 0:
		names, err = ListGlobFiles(spelling, "*")
		zzAll(spelling, names, files[:2])
	case 1:
		names, err = ListGlobFiles(spelling, "b.mp3")
		zzAll(spelling, names, files[1:2])
	case 2:
		names, err = ListGlobFiles(spelling, "*/*.mp3")
		zzAll(spelling, names, files[2:])
	case 3:
		names, err = ListGlobFiles(spelling, "*/d")
		zzverif.Assert(len(names) == 0, "directories are no songs")
	case 4:
		_, err = ListGlobFiles(spelling, "[")
		zzverif.Assert(err != nil, "a malformed pattern is an error")
		zzverif.Reach("error")
		return
	}
	zzverif.Assert(err == nil, "a well-formed pattern is no error")
	_ = dir
	zzverif.Reach("end")
}

// ZZ_C29_Filter: only names that end in .mp3 are songs.
func ZZ_C29_Filter() {
	n := zzverif.Choose("names", zzverif.Bound("names")+1)
	var names, songs []string
	for i := 0; i < n; i++ {
		s := zzverif.String("name", zzverif.Bound("length"))
		names = append(names, s)
		if len(s) >= 4 && s[len(s)-4:] == ".mp3" {
			songs = append(songs, s)
		}
	}
	got := FilterSongs(append([]string{}, names...))
	zzverif.Assert(len(got) == len(songs), "exactly the names that end in .mp3 are songs")
	for i := range songs {
		zzverif.Assert(got[i] == songs[i], "songs keep their order")
	}
	zzverif.Reach("end")
}
