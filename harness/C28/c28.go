package schedule

import (
	"errors"
	"fmt"
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/golang/protobuf/proto"
	"strconv"
)

type zzSender struct {
	sent []proto.Message
	err  error
}

func (s *zzSender) SendMessage(m proto.Message) error {
	s.sent = append(s.sent, m)
	return s.err
}

type zzCase struct {
	ss     *serverState
	sender *zzSender
	songs  []string
	play   bool
	pos    int
	volume float64
}

func zzState() *zzCase {
	c := &zzCase{sender: &zzSender{}, play: zzverif.Bool("playing"), volume: 0.25}
	if zzverif.Bool("send fails") {
		c.sender.err = errors.New("send failed")
	}
	n := zzverif.Choose("songs", zzverif.Bound("songs")+1)
	for i := 0; i < n; i++ {
		c.songs = append(c.songs, "e"+strconv.Itoa(i)+".mp3")
	}
	c.ss = &serverState{sender: c.sender, volume: c.volume}
	c.ss.playlist = playback.NewPlaylist(0, append([]string{}, c.songs...), 0)
	c.ss.playlist.SetPlaying(c.play)
	return c
}

// same asserts that nothing but what is given changed.
func (c *zzCase) same(songs []string, pos int, playing bool, volume float64, sent int) {
	got := c.ss.playlist.Songs()
	zzverif.Assert(len(got) == len(songs), "a command adds and removes exactly the songs it names")
	for i := range songs {
		zzverif.Assert(got[i] == songs[i], "a command keeps the order of the songs")
	}
	zzverif.Assert(c.ss.playlist.Pos() == pos, "only jump moves the position, and to the one given")
	zzverif.Assert(c.ss.playlist.Playing() == playing, "only pause and resume set the playing state")
	zzverif.Assert(c.ss.volume == volume || volume != volume && c.ss.volume != c.ss.volume, "only volume sets the volume")
	zzverif.Assert(len(c.sender.sent) == sent, "only volume broadcasts")
}

// zzArg is an argument: the text of any number, or any short text.
func zzArg(float bool) string {
	if zzverif.Choose("argument kind", 2) == 0 {
		if float {
			return zzverif.FloatText(zzverif.Float64("number"))
		}
		return zzverif.IntText(zzverif.Int("number"))
	}
	return zzverif.String("text", zzverif.Bound("text"))
}

// zzRest is what follows the arguments a command uses.
func zzRest(args []string) []string {
	if zzverif.Choose("further arguments", 2) == 1 {
		return append(args, "7")
	}
	return args
}

// ZZ_C28_Queue: a list of matches of which some are songs, at any position.
func ZZ_C28_Queue() {
	c := zzState()
	playback.AudioDir = "music"
	var matches, songs []string
	m := zzverif.Choose("matches", zzverif.Bound("matches")+1)
	for i := 0; i < m; i++ {
		b := zzverif.Byte("last character")
		name := "m" + strconv.Itoa(i) + ".mp" + string([]byte{b})
		matches = append(matches, name)
		if b == '3' {
			songs = append(songs, name)
		}
	}
	pattern := "a pattern"
	fails := zzverif.Bool("matching fails")
	ZZUtil_ListGlobFiles = func(dir, p string) ([]string, error) {
		zzverif.Assert(dir == "music" && p == pattern, "the music directory is searched for the pattern")
		if fails {
			return []string{}, errors.New("bad")
		}
		return append([]string{}, matches...), nil
	}
	n := zzverif.Choose("arguments", 3)
	if n == 0 {
		_, ok := c.ss.queueCommand().Exec(nil)
		zzverif.Assert(!ok, "queue without a pattern yields the usage")
		c.same(c.songs, 0, c.play, c.volume, 0)
		zzverif.Reach("usage")
		return
	}
	args, pos := []string{pattern}, len(c.songs)
	if n == 2 {
		args = append(args, zzArg(false))
		if v, err := strconv.Atoi(args[1]); err == nil {
			pos = v
		}
		args = zzRest(args)
	}
	if pos < 0 {
		pos = 0
	}
	if pos > len(c.songs) {
		pos = len(c.songs)
	}
	msg, ok := c.ss.queueCommand().Exec(args)
	zzverif.Assert(ok, "queue with a pattern replies")
	if fails || len(songs) == 0 {
		c.same(c.songs, 0, c.play, c.volume, 0)
		zzverif.Reach("none")
		return
	}
	names := ""
	for i, s := range songs {
		if i > 0 {
			names += ", "
		}
		names += s
	}
	zzverif.Assert(msg == fmt.Sprintf("%d song(s) added to playlist: %s", len(songs), names), "the reply names the songs that were added")
	want := append([]string{}, c.songs[:pos]...)
	want = append(append(want, songs...), c.songs[pos:]...)
	c.same(want, 0, c.play, c.volume, 0)
	zzverif.Reach("end")
}

// ZZ_C28_Position: remove and jump.
func ZZ_C28_Position() {
	c := zzState()
	jump := zzverif.Choose("command", 2) == 1
	cmd := c.ss.removeCommand()
	if jump {
		cmd = c.ss.jumpCommand()
	}
	var args []string
	pos, ok := 0, false
	if zzverif.Choose("arguments", 2) == 1 {
		args = zzRest([]string{zzArg(false)})
		v, err := strconv.Atoi(args[0])
		pos, ok = v, err == nil
	}
	msg, replied := cmd.Exec(args)
	zzverif.Assert(replied == ok, "a missing or unparsable position yields the usage, any other a reply")
	if !ok {
		c.same(c.songs, 0, c.play, c.volume, 0)
		zzverif.Reach("usage")
		return
	}
	if jump {
		want := 0
		if len(c.songs) != 0 && pos >= 0 {
			want = pos % len(c.songs)
		}
		zzverif.Assert(pos < 0 || msg == fmt.Sprintf("jumped to %d", pos), "the reply names the position")
		c.same(c.songs, want, c.play, c.volume, 0)
		zzverif.Reach("jump")
		return
	}
	if len(c.songs) == 0 {
		c.same(c.songs, 0, c.play, c.volume, 0)
		return
	}
	at := pos
	if at < 0 {
		at = 0
	}
	if at >= len(c.songs) {
		at = len(c.songs) - 1
	}
	if at == pos {
		zzverif.Assert(msg == fmt.Sprintf("removed song %s at position %d from playlist", c.songs[at], pos), "the reply names the removed song")
	}
	c.same(append(append([]string{}, c.songs[:at]...), c.songs[at+1:]...), 0, c.play, c.volume, 0)
	zzverif.Reach("remove")
}

// ZZ_C28_Volume: any volume, any text.
func ZZ_C28_Volume() {
	c := zzState()
	var args []string
	volume, ok := 0., false
	if zzverif.Choose("arguments", 2) == 1 {
		args = zzRest([]string{zzArg(true)})
		v, err := strconv.ParseFloat(args[0], 64)
		volume, ok = v, err == nil
	}
	_, replied := c.ss.volumeCommand().Exec(args)
	zzverif.Assert(replied == ok, "a missing or unparsable volume yields the usage, any other a reply")
	if !ok {
		c.same(c.songs, 0, c.play, c.volume, 0)
		zzverif.Reach("usage")
		return
	}
	c.same(c.songs, 0, c.play, volume, 1)
	m, is := c.sender.sent[0].(*comm.SetVolumeRequest)
	zzverif.Assert(is && (m.Volume == volume || m.Volume != m.Volume && volume != volume), "the volume that is set is broadcast")
	zzverif.Reach("end")
}

// ZZ_C28_Playing: pause and resume.
func ZZ_C28_Playing() {
	c := zzState()
	resume := zzverif.Choose("command", 2) == 1
	cmd, reply := c.ss.pauseCommand(), "playback paused"
	if resume {
		cmd, reply = c.ss.resumeCommand(), "playback resumed"
	}
	msg, ok := cmd.Exec(zzRest(nil))
	zzverif.Assert(ok && msg == reply, "the reply says what was done")
	c.same(c.songs, 0, resume, c.volume, 0)
	zzverif.Reach("end")
}

// ZZ_C28_Playlist: the reply of playlist.
func ZZ_C28_Playlist() {
	c := zzState()
	status := "Paused"
	if c.play {
		status = "Playing"
	}
	want := "Current Playlist (" + status + "): "
	if len(c.songs) == 0 {
		want += "Empty"
	}
	for i, s := range c.songs {
		no := strconv.Itoa(i)
		if len(c.songs) > 10 && i < 10 {
			no = "0" + no
		}
		want += "\n  [" + no + "] " + s
	}
	msg, ok := c.ss.playlistCommand().Exec(zzRest(nil))
	zzverif.Assert(ok && msg == want+"\nCurrent Song: None", "playlist lists the songs with their positions, the playing state and the current song")
	c.same(c.songs, 0, c.play, c.volume, 0)
	zzverif.Reach("end")
}
