From 150eb216b51d0bc9a9da1918aaf8af3f94f4398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 01/21] fix: removing at the index one past the end no longer
 panics

---
 playback/playlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 97d81ef..06010a7 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -198,7 +198,7 @@ func (pl *Playlist) RemoveSong(index int) string {
 		index = 0
 	}
 	var removed string
-	if len(pl.songs) < index {
+	if len(pl.songs) <= index {
 		removed = pl.songs[len(pl.songs)-1]
 		pl.songs = pl.songs[:len(pl.songs)-1]
 	} else {
-- 
2.43.0


From e7abec0a0bec12a56fea639fbc73f2a996723c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 02/21] fix: the timed sample queue loses wake-ups and
 deadlocks on concurrent use

Add, Remove and Peek checked for space or elements under the condition's
lock but changed head and tail without it, so a Broadcast could fall between
a check and the following Wait and be lost; Peek, Remove and Len locked the
head and tail mutexes in conflicting ways around that Wait. A single lock now
guards the queue.
---
 playback/timed_sample_queue.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/playback/timed_sample_queue.go b/playback/timed_sample_queue.go
index 4f85177..a152fc1 100644
--- a/playback/timed_sample_queue.go
+++ b/playback/timed_sample_queue.go
@@ -7,14 +7,13 @@ type timedSampleQueue struct {
 	head   int
 	tail   int
 
-	cond      *sync.Cond
-	headMutex sync.RWMutex
-	tailMutex sync.RWMutex
+	// cond.L guards head, tail and the buffer; cond is signaled whenever one of them changes
+	cond *sync.Cond
 }
 
 func (q *timedSampleQueue) Add(sample [2]float64, time int64) {
-	q.headMutex.Lock()
-	defer q.headMutex.Unlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 
 	q.waitNotFull()
 
@@ -25,8 +24,8 @@ func (q *timedSampleQueue) Add(sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Remove() (sample [2]float64, time int64) {
-	q.tailMutex.Lock()
-	defer q.tailMutex.Unlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 
 	q.waitNotEmpty()
 
@@ -38,8 +37,8 @@ func (q *timedSampleQueue) Remove() (sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Peek() (sample [2]float64, time int64) {
-	q.tailMutex.RLock()
-	defer q.tailMutex.RUnlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 
 	q.waitNotEmpty()
 
@@ -48,10 +47,8 @@ func (q *timedSampleQueue) Peek() (sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Len() int {
-	q.tailMutex.RLock()
-	defer q.tailMutex.RUnlock()
-	q.headMutex.RLock()
-	defer q.headMutex.RUnlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 	if q.tail <= q.head {
 		return q.head - q.tail
 	}
@@ -74,20 +71,18 @@ func (q *timedSampleQueue) empty() bool {
 	return q.head == q.tail
 }
 
+// waitNotFull must be called with cond.L locked
 func (q *timedSampleQueue) waitNotFull() {
-	q.cond.L.Lock()
 	for q.full() {
 		q.cond.Wait()
 	}
-	q.cond.L.Unlock()
 }
 
+// waitNotEmpty must be called with cond.L locked
 func (q *timedSampleQueue) waitNotEmpty() {
-	q.cond.L.Lock()
 	for q.empty() {
 		q.cond.Wait()
 	}
-	q.cond.L.Unlock()
 }
 
 func newTimedSampleQueue(size int) *timedSampleQueue {
-- 
2.43.0


From 2f9d25543bcb69f33f289e0d80ba3c22653f64fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 03/21] fix: a full-scale positive sample wraps to the most
 negative PCM value

+1.0 was scaled to 32768, which int16 wraps to -32768.
---
 playback/playback.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/playback/playback.go b/playback/playback.go
index 4012462..dd359a4 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"fmt"
 	"github.com/LogicalOverflow/music-sync/util"
+	"math"
 	"os"
 	"path"
 	"time"
@@ -145,7 +146,11 @@ func convertSampleToBytes(val float64) (low, high byte) {
 	if val > +1 {
 		val = +1
 	}
-	valInt16 := int16(val * (1 << 15))
+	val *= 1 << 15
+	if val > math.MaxInt16 {
+		val = math.MaxInt16
+	}
+	valInt16 := int16(val)
 	low = byte(valInt16)
 	high = byte(valInt16 >> 8)
 	return
-- 
2.43.0


From 07323c0a7dd145ab2534a0577a4caf7f613b5e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 04/21] fix: before the first chunk starts the infoer applied
 every pause toggle

A negative sample was compared as an unsigned number, so all toggles were
taken to be in the past.
---
 cmd/music-sync-infoer/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/state.go b/cmd/music-sync-infoer/state.go
index cba440d..4cdca43 100644
--- a/cmd/music-sync-infoer/state.go
+++ b/cmd/music-sync-infoer/state.go
@@ -75,7 +75,7 @@ type pausesInCurrentSongState struct {
 }
 
 func (picss *pausesInCurrentSongState) handlePause(sample int64, p pauseToggle, startIndex uint64) {
-	if uint64(sample) <= p.toggleIndex || picss.playing == p.playing {
+	if sample <= int64(p.toggleIndex) || picss.playing == p.playing {
 		return
 	}
 
-- 
2.43.0


From 89c8e0f662a1eb28d45ae82c6fbe5700f7d0f977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 05/21] fix: drawString places characters after a multi-byte
 one too far right

---
 cmd/music-sync-infoer/drawing.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index 7dbd956..a372a58 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -29,8 +29,9 @@ func (d *drawer) eventLoop() {
 }
 
 func (d *drawer) drawString(x, y int, style tcell.Style, str string) {
-	for i, r := range str {
-		d.SetContent(x+i, y, r, nil, style)
+	for _, r := range str {
+		d.SetContent(x, y, r, nil, style)
+		x++
 	}
 }
 
-- 
2.43.0


From bcceccfe191c6cfd985f06e63709380b114913b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:25 +0000
Subject: [PATCH 06/21] fix: logging options set the cutoff of no logger

---
 cmd/flags.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cmd/flags.go b/cmd/flags.go
index 81bc75d..3acce67 100644
--- a/cmd/flags.go
+++ b/cmd/flags.go
@@ -70,10 +70,13 @@ func newLoggingFlag(name string) LoggingFlag {
 	}
 	levels := strings.Join(l, ", ")
 
-	return LoggingFlag{StringFlag: cli.StringFlag{
-		Name:  fmt.Sprintf("%s-logging", name),
-		Usage: fmt.Sprintf("sets %s logging level (values: %s)", name, levels),
-	}}
+	return LoggingFlag{
+		StringFlag: cli.StringFlag{
+			Name:  fmt.Sprintf("%s-logging", name),
+			Usage: fmt.Sprintf("sets %s logging level (values: %s)", name, levels),
+		},
+		logName: name,
+	}
 }
 
 // HandleLoggingFlags sets the log levels according to the logging cli flags
@@ -82,7 +85,7 @@ func HandleLoggingFlags(ctx *cli.Context) {
 		levelName := ctx.String(FlagKey(f))
 		if levelName != "" {
 			level := log.LevelByName(levelName)
-			log.CutoffLevels[f.Name] = level
+			log.CutoffLevels[f.logName] = level
 		}
 	}
 	defaultLevelName := ctx.String("logging")
-- 
2.43.0


From 344c28aa61de95eb1f93c70cdc5ef73d80b17e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:07 +0000
Subject: [PATCH 07/21] fix: a pause while a buffer is about to be streamed is
 announced at the wrong sample

The playing state was read once to announce a change and again to decide what to
stream; a SetPlaying call in between made the stream change state one buffer before
the announced index.
---
 playback/playlist.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 06010a7..b38a7ee 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -79,8 +79,7 @@ func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 
 	for {
 		n, ok := streamerBufferSize, true
-		pl.callPauseToggleHandler()
-		if pl.playing {
+		if pl.callPauseToggleHandler() {
 			n, ok = s.Stream(buf)
 			pl.pushBuffer(buf[:n])
 		} else {
@@ -129,11 +128,15 @@ func (pl *Playlist) pushSample(low, high float64) {
 	pl.sampleIndexWrite++
 }
 
-func (pl *Playlist) callPauseToggleHandler() {
-	if pl.playing != pl.playingLast && pl.pauseToggleHandler != nil {
-		pl.playingLast = pl.playing
-		go pl.pauseToggleHandler(pl.playing, pl.sampleIndexWrite)
+// callPauseToggleHandler announces a change of the playing state and returns the state
+// that now holds for the samples pushed next.
+func (pl *Playlist) callPauseToggleHandler() bool {
+	playing := pl.playing
+	if playing != pl.playingLast && pl.pauseToggleHandler != nil {
+		pl.playingLast = playing
+		go pl.pauseToggleHandler(playing, pl.sampleIndexWrite)
 	}
+	return playing
 }
 
 // SetPos jumps to the song at pos.
-- 
2.43.0


From 4d5ff27b91fb16b70996cf7ef9396a0cc54b2b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:38 +0000
Subject: [PATCH 08/21] fix: jumps block, crash on negative positions, or start
 the wrong song

SetPos waited for room in forceNext (three jumps before the stream loop looks block
the caller, for ever with an empty playlist), a negative position crashed nextSong and
Pos, a jump just before the end of a song was followed by position++, and a signal left
over from an earlier jump restarted the song just jumped to.
---
 playback/playlist.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index b38a7ee..e118448 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -51,7 +51,7 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		s, err := getStreamer(filename)
 		if err != nil {
 			logger.Warnf("skipping song %s in playlist: failed to get streamer: %v", filename, err)
-			pl.position++
+			pl.advance()
 			continue
 		}
 
@@ -61,8 +61,12 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 }
 
 func (pl *Playlist) nextSong() (song string) {
-	pl.songsMutex.RLock()
-	defer pl.songsMutex.RUnlock()
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	// starting the song at position carries out all jumps requested so far
+	for 0 < len(pl.forceNext) {
+		<-pl.forceNext
+	}
 	if len(pl.songs) == 0 {
 		return ""
 	}
@@ -98,12 +102,21 @@ func (pl *Playlist) shouldBreakStreamerPushLoop(n int, ok bool, bufSize int) boo
 	}
 
 	if !ok || n < bufSize {
-		pl.position++
+		pl.advance()
 		return true
 	}
 	return false
 }
 
+// advance moves on to the next song, unless a jump has been requested.
+func (pl *Playlist) advance() {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	if len(pl.forceNext) == 0 {
+		pl.position++
+	}
+}
+
 func (pl *Playlist) pushNanSamples(count int) {
 	for i := 0; i < count; i++ {
 		pl.pushSample(math.NaN(), math.NaN())
@@ -139,10 +152,18 @@ func (pl *Playlist) callPauseToggleHandler() bool {
 	return playing
 }
 
-// SetPos jumps to the song at pos.
+// SetPos jumps to the song at pos, or to the first song if pos is negative.
 func (pl *Playlist) SetPos(pos int) {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	if pos < 0 {
+		pos = 0
+	}
 	pl.position = pos
-	pl.forceNext <- true
+	select {
+	case pl.forceNext <- true:
+	default: // a jump is already pending and will use the new position
+	}
 }
 
 // Pos returns the position of the song currently being played.
-- 
2.43.0


From 613a291d1a877585ff09cf336e335dba79f04790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 09/21] fix: players start songs at the wrong time after
 silence

While waiting for the next sample the player emitted whole buffers of silence even when
the sample was due inside the buffer (the branch that splits the buffer could not be
reached) and then dropped the samples that had become late; after skipping late samples
it started the next one at once even when its time was still to come.
---
 playback/streamer.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/playback/streamer.go b/playback/streamer.go
index 65337e3..1a72fee 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -58,24 +58,17 @@ func (tms *timedMultiStreamer) streamDirect(samples [][2]float64) (n int, draine
 
 func (tms *timedMultiStreamer) streamSync(samples [][2]float64, now int64) (n int, drained bool) {
 	s, t := tms.samples.Peek()
-	for math.IsNaN(s[0]) {
+	for math.IsNaN(s[0]) || t < now {
 		tms.samples.Remove()
 		s, t = tms.samples.Peek()
 	}
-	if now < t+tms.samplesDuration(len(samples)) {
+	if now+tms.samplesDuration(len(samples)) <= t {
 		tms.background.Stream(samples)
 		return len(samples), false
-	} else if now < t {
-		silence := tms.samplesCount(t - now)
-		tms.background.Stream(samples[:silence])
-		return silence, true
-	} else {
-		for t < now {
-			tms.samples.Remove()
-			_, t = tms.samples.Peek()
-		}
-		return 0, true
 	}
+	silence := tms.samplesCount(t - now)
+	tms.background.Stream(samples[:silence])
+	return silence, true
 }
 
 func (tms *timedMultiStreamer) ReadChunks(ctx context.Context) {
-- 
2.43.0


From 297885df3cd2c8f6f23a8706f43865ecd5536521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:31 +0000
Subject: [PATCH 10/21] fix: malformed data from a peer crashes the process

A negative or huge length prefix made readBytes panic or exhaust the memory and
data without a valid zlib header made readWire dereference a nil reader; data
that ends or is corrupt inside the zlib stream was decoded as far as it went.
---
 comm/package_util.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/comm/package_util.go b/comm/package_util.go
index ee2b73d..889c59b 100644
--- a/comm/package_util.go
+++ b/comm/package_util.go
@@ -62,6 +62,9 @@ func readWire(conn net.Conn) (proto.Message, error) {
 	}
 	size := int64(binary.LittleEndian.Uint64(sizeBuf))
 	env, err := readBytes(conn, size)
+	if err != nil {
+		return nil, err
+	}
 
 	envelope := &Envelope{}
 	if err := proto.Unmarshal(env, envelope); err != nil {
@@ -74,9 +77,15 @@ func readWire(conn net.Conn) (proto.Message, error) {
 	}
 	m := reflect.New(mType.Elem()).Interface().(proto.Message)
 
-	r, _ := zlib.NewReader(bytes.NewBuffer(envelope.Data))
-	data, _ := ioutil.ReadAll(r)
+	r, err := zlib.NewReader(bytes.NewBuffer(envelope.Data))
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
+	}
+	data, err := ioutil.ReadAll(r)
 	r.Close()
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
+	}
 
 	e := error(nil)
 	if err := proto.Unmarshal(data, m); err != nil {
@@ -104,14 +113,13 @@ func sendWire(m proto.Message, conn net.Conn) error {
 }
 
 func readBytes(conn net.Conn, number int64) ([]byte, error) {
-	buf := make([]byte, number)
-	read := 0
-	for read < len(buf) {
-		n, err := conn.Read(buf[read:])
-		if err != nil {
-			return nil, err
-		}
-		read += n
+	if number < 0 {
+		return nil, fmt.Errorf("invalid number of bytes to read: %d", number)
+	}
+	// the number comes from the peer, so only allocate for the bytes that actually arrive
+	buf := new(bytes.Buffer)
+	if _, err := io.CopyN(buf, conn, number); err != nil {
+		return nil, err
 	}
-	return buf, nil
+	return buf.Bytes(), nil
 }
-- 
2.43.0


From ab0e618d0cd3088b215622cd0f96fd4f94718bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:42 +0000
Subject: [PATCH 11/21] fix: disconnected clients leave their subscriptions
 behind

DelConn kept the client's entry in the channels map, and a subscription that was
still being handled when its client disconnected added a new one.
---
 comm/message_sender.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index b94e60c..a17c98c 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -64,23 +64,30 @@ func (mms *multiMessageSender) DelConn(c net.Conn) {
 	mms.mutex.Lock()
 	defer mms.mutex.Unlock()
 
-	index := -1
-	for i, conn := range mms.connections {
-		if conn == c {
-			index = i
-			break
-		}
-	}
+	delete(mms.channels, c)
 
-	if 0 <= index {
+	if index := mms.indexOf(c); 0 <= index {
 		mms.connections[index] = mms.connections[len(mms.connections)-1]
 		mms.connections = mms.connections[:len(mms.connections)-1]
 	}
 }
 
+func (mms *multiMessageSender) indexOf(c net.Conn) int {
+	for i, conn := range mms.connections {
+		if conn == c {
+			return i
+		}
+	}
+	return -1
+}
+
 func (mms *multiMessageSender) Subscribe(c net.Conn, channel Channel) {
 	mms.mutex.Lock()
 	defer mms.mutex.Unlock()
+	if mms.indexOf(c) < 0 {
+		// requests are handled concurrently, so the client may already be disconnected
+		return
+	}
 	if l, ok := mms.channels[c]; ok {
 		mms.channels[c] = append(l, channel)
 	} else {
-- 
2.43.0


From 5031805005695464f8be2a81ba0b59846875fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:16 +0000
Subject: [PATCH 12/21] fix: subscribing clients miss a volume change or pause
 and crash a starting server

---
 comm/package_handler.go           |  4 ++-
 schedule/server.go                |  2 ++
 schedule/server_state.go          | 46 +++++++++++++++++++++----------
 schedule/server_state_commands.go | 10 +++----
 4 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/comm/package_handler.go b/comm/package_handler.go
index c57a5ac..2fb269f 100644
--- a/comm/package_handler.go
+++ b/comm/package_handler.go
@@ -101,7 +101,9 @@ func (s serverPackageHandler) HandleTimeSyncRequest(tsr *TimeSyncRequest, c net.
 
 func (s serverPackageHandler) HandleSubscribeChannelRequest(scr *SubscribeChannelRequest, c net.Conn) {
 	s.sender.Subscribe(c, scr.Channel)
-	NewClientHandler(scr.Channel, &singleMessageSender{c})
+	if NewClientHandler != nil {
+		NewClientHandler(scr.Channel, &singleMessageSender{c})
+	}
 }
 
 func (s serverPackageHandler) HandlePingMessage(_ *PingMessage, c net.Conn) { PingHandler(c) }
diff --git a/schedule/server.go b/schedule/server.go
index 2506ee2..01638ab 100644
--- a/schedule/server.go
+++ b/schedule/server.go
@@ -22,6 +22,8 @@ func Server(sender comm.MessageSender) {
 	ss.pauses = make([]*comm.PauseInfo, 0)
 
 	comm.NewClientHandler = ss.createClientHandler()
+	// clients may have subscribed before there was a handler
+	ss.sendVolume(ss.sender)
 
 	go ss.playlist.StreamLoop(context.Background())
 
diff --git a/schedule/server_state.go b/schedule/server_state.go
index 31587e0..3f89df7 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -16,7 +16,9 @@ type serverState struct {
 	metadataProvider metadata.Provider
 
 	playlist *playback.Playlist
-	volume   float64
+
+	volume      float64
+	volumeMutex sync.Mutex // held while sending the volume, so that no client receives an old volume last
 
 	newestSong *comm.NewSongInfo
 
@@ -24,13 +26,22 @@ type serverState struct {
 	pausesMutex sync.RWMutex
 }
 
-func (ss *serverState) sendVolume(s comm.MessageSender) {
-	s.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume})
+func (ss *serverState) sendVolume(s comm.MessageSender) error {
+	ss.volumeMutex.Lock()
+	defer ss.volumeMutex.Unlock()
+	return s.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume})
+}
+
+func (ss *serverState) setVolume(volume float64) error {
+	ss.volumeMutex.Lock()
+	defer ss.volumeMutex.Unlock()
+	ss.volume = volume
+	return ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: volume})
 }
 
 func (ss *serverState) sendNewestSong(s comm.MessageSender) {
-	if ss.newestSong != nil {
-		s.SendMessage(ss.newestSong)
+	if song := ss.newestSong; song != nil {
+		s.SendMessage(song)
 	}
 }
 
@@ -77,7 +88,7 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 
 		md := ss.metadataProvider.CollectMetadata(filename)
 
-		ss.newestSong = &comm.NewSongInfo{
+		song := &comm.NewSongInfo{
 			FirstSampleOfSongIndex: startSampleIndex,
 			SongFileName:           filename,
 			SongLength:             songLength,
@@ -88,7 +99,8 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 				Album:  md.Album,
 			},
 		}
-		ss.sender.SendMessage(ss.newestSong)
+		ss.newestSong = song
+		ss.sender.SendMessage(song)
 	}
 }
 
@@ -98,18 +110,22 @@ func (ss *serverState) createPauseToggleHandler() func(bool, uint64) {
 			Playing:           playing,
 			ToggleSampleIndex: sample,
 		}
-		go func(pause *comm.PauseInfo) {
-			ss.pausesMutex.Lock()
-			defer ss.pausesMutex.Unlock()
-			ss.pauses = append(ss.pauses, pause)
-			go ss.removeOldPauses()
-		}(pause)
+		// record before sending, so clients subscribing meanwhile do not miss it
+		ss.recordPause(pause)
+		go ss.removeOldPauses()
 		ss.sender.SendMessage(pause)
 	}
 }
 
+func (ss *serverState) recordPause(pause *comm.PauseInfo) {
+	ss.pausesMutex.Lock()
+	defer ss.pausesMutex.Unlock()
+	ss.pauses = append(ss.pauses, pause)
+}
+
 func (ss *serverState) removablePauses() int {
-	if ss.newestSong == nil {
+	newestSong := ss.newestSong
+	if newestSong == nil {
 		return 0
 	}
 
@@ -118,7 +134,7 @@ func (ss *serverState) removablePauses() int {
 
 	passed := 0
 	for i, p := range ss.pauses {
-		inPast := ss.newestSong.FirstSampleOfSongIndex < p.ToggleSampleIndex
+		inPast := newestSong.FirstSampleOfSongIndex < p.ToggleSampleIndex
 		if !inPast && p.Playing {
 			passed = i
 		} else if inPast {
diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 3b4c302..502db2e 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -2,7 +2,6 @@ package schedule
 
 import (
 	"fmt"
-	"github.com/LogicalOverflow/music-sync/comm"
 	"github.com/LogicalOverflow/music-sync/playback"
 	"github.com/LogicalOverflow/music-sync/ssh"
 	"github.com/LogicalOverflow/music-sync/util"
@@ -162,15 +161,14 @@ func (ss *serverState) volumeCommand() ssh.Command {
 		Usage: "volume",
 		Info:  "set the playback volume",
 		ExecFunc: func(args []string) (string, bool) {
-			var ok bool
-			ss.volume, ok = parseFloatParam(args, 0)
+			volume, ok := parseFloatParam(args, 0)
 			if !ok {
 				return "", false
 			}
-			if err := ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume}); err != nil {
-				return fmt.Sprintf("failed to set volume to %.3f: %v", ss.volume, err), true
+			if err := ss.setVolume(volume); err != nil {
+				return fmt.Sprintf("failed to set volume to %.3f: %v", volume, err), true
 			}
-			return fmt.Sprintf("setting volume to %.3f", ss.volume), true
+			return fmt.Sprintf("setting volume to %.3f", volume), true
 		},
 	}
 }
-- 
2.43.0


From fa77e246aa92bc6445f135eec4ea722a3904797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:20 +0000
Subject: [PATCH 13/21] fix: concurrent song and pause notifications leave an
 old song or wrong pauses

---
 schedule/server_state.go | 48 ++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 3f89df7..4990d7b 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -20,9 +20,10 @@ type serverState struct {
 	volume      float64
 	volumeMutex sync.Mutex // held while sending the volume, so that no client receives an old volume last
 
-	newestSong *comm.NewSongInfo
+	newestSong      *comm.NewSongInfo
+	newestSongMutex sync.RWMutex
 
-	pauses      []*comm.PauseInfo
+	pauses      []*comm.PauseInfo // ordered by ToggleSampleIndex
 	pausesMutex sync.RWMutex
 }
 
@@ -39,8 +40,14 @@ func (ss *serverState) setVolume(volume float64) error {
 	return ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: volume})
 }
 
+func (ss *serverState) getNewestSong() *comm.NewSongInfo {
+	ss.newestSongMutex.RLock()
+	defer ss.newestSongMutex.RUnlock()
+	return ss.newestSong
+}
+
 func (ss *serverState) sendNewestSong(s comm.MessageSender) {
-	if song := ss.newestSong; song != nil {
+	if song := ss.getNewestSong(); song != nil {
 		s.SendMessage(song)
 	}
 }
@@ -99,11 +106,21 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 				Album:  md.Album,
 			},
 		}
-		ss.newestSong = song
+		ss.recordSong(song)
 		ss.sender.SendMessage(song)
 	}
 }
 
+// recordSong makes song the newest song, unless a later one is already known,
+// which happens when collecting the lyrics and metadata of song took longer.
+func (ss *serverState) recordSong(song *comm.NewSongInfo) {
+	ss.newestSongMutex.Lock()
+	defer ss.newestSongMutex.Unlock()
+	if ss.newestSong == nil || ss.newestSong.FirstSampleOfSongIndex <= song.FirstSampleOfSongIndex {
+		ss.newestSong = song
+	}
+}
+
 func (ss *serverState) createPauseToggleHandler() func(bool, uint64) {
 	return func(playing bool, sample uint64) {
 		pause := &comm.PauseInfo{
@@ -120,18 +137,25 @@ func (ss *serverState) createPauseToggleHandler() func(bool, uint64) {
 func (ss *serverState) recordPause(pause *comm.PauseInfo) {
 	ss.pausesMutex.Lock()
 	defer ss.pausesMutex.Unlock()
-	ss.pauses = append(ss.pauses, pause)
+
+	// toggles are announced concurrently, so this may not be the last one
+	i := len(ss.pauses)
+	for 0 < i && pause.ToggleSampleIndex < ss.pauses[i-1].ToggleSampleIndex {
+		i--
+	}
+	ss.pauses = append(ss.pauses, nil)
+	copy(ss.pauses[i+1:], ss.pauses[i:])
+	ss.pauses[i] = pause
 }
 
+// removablePauses returns how many pauses removeOldPauses removes. The caller has to hold
+// the pausesMutex, if pauses may be recorded or removed concurrently.
 func (ss *serverState) removablePauses() int {
-	newestSong := ss.newestSong
+	newestSong := ss.getNewestSong()
 	if newestSong == nil {
 		return 0
 	}
 
-	ss.pausesMutex.Lock()
-	defer ss.pausesMutex.Unlock()
-
 	passed := 0
 	for i, p := range ss.pauses {
 		inPast := newestSong.FirstSampleOfSongIndex < p.ToggleSampleIndex
@@ -145,11 +169,11 @@ func (ss *serverState) removablePauses() int {
 }
 
 func (ss *serverState) removeOldPauses() {
+	ss.pausesMutex.Lock()
+	defer ss.pausesMutex.Unlock()
+
 	removable := ss.removablePauses()
 	if 0 < removable {
-		ss.pausesMutex.Lock()
-		defer ss.pausesMutex.Unlock()
-
 		copy(ss.pauses, ss.pauses[removable:])
 		for i := len(ss.pauses) - removable; i < len(ss.pauses); i++ {
 			ss.pauses[i] = nil
-- 
2.43.0


From 267a7f8eec1063c954870befbadbb436015b77e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:13 +0000
Subject: [PATCH 14/21] fix: keep multi-byte characters and escape backslashes
 in shell commands

---
 ssh/parser/parser.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index 0fe4056..c79af5b 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -24,14 +24,18 @@ type ParsedCommand struct {
 // Unparse converts a parsed command back to a shell command
 func (c ParsedCommand) Unparse() string {
 	if len(c.Parameters) == 0 {
-		return strings.Replace(c.Command, " ", "\\ ", -1) + " "
+		return escape(c.Command) + " "
 	}
 	unparsedParams := make([]string, len(c.Parameters))
 	for i, p := range c.Parameters {
-		unparsedParams[i] = strings.Replace(p, " ", "\\ ", -1)
+		unparsedParams[i] = escape(p)
 	}
 
-	return strings.Replace(c.Command, " ", "\\ ", -1) + " " + strings.Join(unparsedParams, " ") + " "
+	return escape(c.Command) + " " + strings.Join(unparsedParams, " ") + " "
+}
+
+func escape(s string) string {
+	return strings.Replace(strings.Replace(s, "\\", "\\\\", -1), " ", "\\ ", -1)
 }
 
 // ParseCommand parses an ssh command
@@ -62,8 +66,9 @@ func (s *shellListener) EnterCommandString(ctx *shell_parser.CommandStringContex
 }
 
 func (s *shellListener) ExitCharacter(ctx *shell_parser.CharacterContext) {
-	if len(ctx.GetText()) != 0 {
-		s.currentString += string(ctx.GetText()[len(ctx.GetText())-1])
+	// the character after the escape character or the only one
+	if chars := []rune(ctx.GetText()); len(chars) != 0 {
+		s.currentString += string(chars[len(chars)-1])
 	}
 }
 
-- 
2.43.0


From 261221f6365cc9923612993ef54ac0afb4574f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:02 +0000
Subject: [PATCH 15/21] fix: complete the word before the cursor, however the
 line is written

---
 ssh/auto_completer.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/ssh/auto_completer.go b/ssh/auto_completer.go
index 24519a8..1f5d89f 100644
--- a/ssh/auto_completer.go
+++ b/ssh/auto_completer.go
@@ -7,23 +7,31 @@ import (
 
 type sshAutoCompleter struct{}
 
+// cursorMark is put at the cursor before parsing, so that the word in front of it is neither dropped nor trimmed
+const cursorMark = "|"
+
 func (sac *sshAutoCompleter) Do(line []rune, pos int) (newLine [][]rune, length int) {
 	newLine = make([][]rune, 0)
 
-	lastChar := '\x00'
-	if len(line) != 0 {
-		lastChar = line[len(line)-1]
+	typed := string(line[:pos])
+	cmd := parser.ParseCommand(typed + cursorMark)
+	argNum := len(cmd.Parameters) - 1
+	word := &cmd.Command
+	if 0 <= argNum {
+		word = &cmd.Parameters[argNum]
 	}
+	*word = strings.TrimSuffix(*word, cursorMark)
 
-	cmd := parser.ParseCommand(string(line))
-	if lastChar == ' ' {
-		cmd.Parameters = append(cmd.Parameters, "")
+	// where the cursor is, if the command were written as Unparse does
+	unparsedPos := len([]rune(cmd.Unparse())) - 1
+	if backslashes := len(typed) - len(strings.TrimRight(typed, "\\")); backslashes%2 == 1 {
+		unparsedPos-- // the second character of an escaped backslash is still missing
 	}
 
-	if len(cmd.Parameters) == 0 && lastChar != ' ' {
-		newLine = sac.commandsWithPrefix(cmd, pos, newLine)
+	if argNum < 0 {
+		newLine = sac.commandsWithPrefix(cmd, unparsedPos, newLine)
 	} else {
-		newLine = sac.commandArgOptionsWithPrefix(cmd, pos, newLine)
+		newLine = sac.commandArgOptionsWithPrefix(cmd, unparsedPos, newLine)
 	}
 
 	length = pos
@@ -41,7 +49,7 @@ func (sac *sshAutoCompleter) commandNames() []string {
 func (sac *sshAutoCompleter) commandsWithPrefix(cmd parser.ParsedCommand, pos int, result [][]rune) [][]rune {
 	for _, c := range sac.commandNames() {
 		if strings.HasPrefix(c, cmd.Command) {
-			result = append(result, []rune((c + " ")[pos:]))
+			result = append(result, []rune(parser.ParsedCommand{Command: c}.Unparse())[pos:])
 		}
 	}
 	return result
-- 
2.43.0


From 46486b3ad35f6449896a9b506dc4f1376963d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:02 +0000
Subject: [PATCH 16/21] fix: keep songs queued at a clipped position together
 and in order

---
 schedule/server_state_commands.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 502db2e..6faf51b 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -55,6 +55,12 @@ func (ss *serverState) queueCommandExec(args []string) (string, bool) {
 
 	var insert func(string, int)
 	if pos, ok := parseIntParam(args, 1); ok {
+		// clip the position once, so that the songs stay together and in order
+		if l := len(ss.playlist.Songs()); l < pos {
+			pos = l
+		} else if pos < 0 {
+			pos = 0
+		}
 		insert = func(s string, i int) { ss.playlist.InsertSong(s, pos+i) }
 	} else {
 		insert = func(s string, _ int) { ss.playlist.AddSong(s) }
-- 
2.43.0


From cfe3ed7d43f5e344756c7a013c5645e1b50c7856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:02 +0000
Subject: [PATCH 17/21] fix: report file names relative to any spelling of the
 music directory

---
 util/file_utils.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index f8b27c7..ae5ade8 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -34,14 +34,31 @@ func walker(root string, pathTransform func(string) string, pathFilter func(stri
 	return walked
 }
 
-func removeDirPrefix(path string, prefix string) string {
-	if strings.HasPrefix(path, prefix) {
-		path = path[len(prefix):]
+// removeDirPrefix returns the path relative to dir, or "" if it is dir itself
+func removeDirPrefix(path string, dir string) string {
+	rel, err := filepath.Rel(dir, path)
+	if err != nil {
+		return path
+	}
+	if rel == "." {
+		return ""
+	}
+	return rel
+}
+
+// escapeGlob escapes a path such that, as a glob pattern, it matches only itself
+func escapeGlob(path string) string {
+	if os.PathSeparator == '\\' {
+		return path // there is no escaping on windows
 	}
-	if strings.HasPrefix(path, "/") || strings.HasPrefix(path, "\\") {
-		path = path[1:]
+	escaped := make([]byte, 0, len(path))
+	for i := 0; i < len(path); i++ {
+		if strings.IndexByte("\\*?[", path[i]) != -1 {
+			escaped = append(escaped, '\\')
+		}
+		escaped = append(escaped, path[i])
 	}
-	return path
+	return string(escaped)
 }
 
 // ListAllFiles recursively lists all files in songsDir/subDir
@@ -69,7 +86,7 @@ func ListAllSubDirs(dir string) []string {
 
 // ListGlobFiles lists all files in a directory matching the provided glob pattern
 func ListGlobFiles(dir, pattern string) ([]string, error) {
-	matches, err := filepath.Glob(filepath.Join(dir, pattern))
+	matches, err := filepath.Glob(filepath.Join(escapeGlob(dir), pattern))
 	if err != nil {
 		return []string{}, err
 	}
-- 
2.43.0


From e19871aab17dca14ccedd85a13b52622442649d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:07 +0000
Subject: [PATCH 18/21] fix: a volume received while a player starts is
 overwritten by the default

---
 playback/playback.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/playback/playback.go b/playback/playback.go
index dd359a4..4b74e3f 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -24,7 +24,7 @@ var (
 	format     beep.Format
 	streamer   *timedMultiStreamer
 	bufferSize int
-	volume     float64
+	volume     = .1
 )
 
 var logger = log.GetLogger("play")
@@ -81,7 +81,6 @@ func Init(sampleRate int) error {
 	logger.Infof("initializing playback")
 	var err error
 
-	volume = .1
 	format = beep.Format{SampleRate: beep.SampleRate(sampleRate), NumChannels: 2, Precision: 2}
 
 	bufferSize = format.SampleRate.N(time.Second / 10)
-- 
2.43.0


From a4bd0fa5a1d8736a4d7eccb6d62273b520fcc691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:08 +0000
Subject: [PATCH 19/21] fix: files opened for a song are never closed

---
 metadata/lyrics_provider.go   | 1 +
 metadata/metadata_provider.go | 1 +
 playback/playback.go          | 1 +
 playback/playlist.go          | 3 +++
 4 files changed, 6 insertions(+)

diff --git a/metadata/lyrics_provider.go b/metadata/lyrics_provider.go
index 6662714..f7bfee5 100644
--- a/metadata/lyrics_provider.go
+++ b/metadata/lyrics_provider.go
@@ -38,6 +38,7 @@ func (basicLyricsProvider) CollectLyrics(song string) []LyricsLine {
 	if err != nil {
 		return []LyricsLine{}
 	}
+	defer f.Close()
 	result := make([]LyricsLine, 0)
 
 	if err := json.NewDecoder(f).Decode(&result); err != nil {
diff --git a/metadata/metadata_provider.go b/metadata/metadata_provider.go
index 7742357..2edab97 100644
--- a/metadata/metadata_provider.go
+++ b/metadata/metadata_provider.go
@@ -36,6 +36,7 @@ func (basicProvider) CollectMetadata(song string) SongMetadata {
 	if err != nil {
 		return SongMetadata{}
 	}
+	defer f.Close()
 	md, err := tag.ReadFrom(f)
 	if err != nil {
 		return SongMetadata{}
diff --git a/playback/playback.go b/playback/playback.go
index 4b74e3f..cfcf317 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -41,6 +41,7 @@ func getStreamer(filename string) (beep.StreamSeekCloser, error) {
 
 	s, _, err := mp3.Decode(f)
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("failed to decode file %s: %v", filename, err)
 	}
 
diff --git a/playback/playlist.go b/playback/playlist.go
index e118448..12b9688 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -56,6 +56,9 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		}
 
 		pl.pushStreamer(s)
+		if err := s.Close(); err != nil {
+			logger.Warnf("failed to close song %s: %v", filename, err)
+		}
 		pl.pushNanBreak()
 	}
 }
-- 
2.43.0


From ae75054404da88d6e646b7e858469b9169c12a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:44 +0000
Subject: [PATCH 20/21] fix: a command line that was interrupted with ^C was
 executed

---
 ssh/session_handler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index d6e539c..b820b69 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -112,6 +112,7 @@ func (s *session) readLoop() {
 	for {
 		line, err := s.ex.Readline()
 		if err == readline.ErrInterrupt {
+			continue // line is what was typed before the interrupt
 		} else if err == io.EOF {
 			logger.Infof("connection %s as %s closed", s.RemoteAddr(), s.User())
 			return
-- 
2.43.0


From a6680882290ec88f8873aef4bd5536db679f0161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:47 +0000
Subject: [PATCH 21/21] fix: an infoer that cannot connect crashed and left the
 terminal unusable

---
 cmd/music-sync-infoer/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/main.go b/cmd/music-sync-infoer/main.go
index 32f37a4..0047fe7 100644
--- a/cmd/music-sync-infoer/main.go
+++ b/cmd/music-sync-infoer/main.go
@@ -53,7 +53,8 @@ func run(ctx *cli.Context) error {
 	server := fmt.Sprintf("%s:%d", serverAddress, serverPort)
 	sender, err := comm.ConnectToServer(server, newInfoerPackageHandler())
 	if err != nil {
-		cli.NewExitError(err, 1)
+		s.Fini()
+		return cli.NewExitError(err, 1)
 	}
 
 	go schedule.Infoer(sender)
-- 
2.43.0

