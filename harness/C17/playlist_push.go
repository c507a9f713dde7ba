package playback

// ZZPush adds a sample to the stream.
func (pl *Playlist) ZZPush(low, high float64) { pl.pushSample(low, high) }
