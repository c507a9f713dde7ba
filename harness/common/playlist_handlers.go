package playback

// ZZHandlers yields the functions that the playlist calls to announce songs and pauses.
func (pl *Playlist) ZZHandlers() (func(uint64, string, int64), func(bool, uint64)) {
	return pl.newSongHandler, pl.pauseToggleHandler
}
