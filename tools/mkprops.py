#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

p("C01", "Playlist edits behave like list edits for every position",
  "Adding, inserting and removing songs act like edits of an ordered list for every list and every integer position: positions below 0 mean the front, an insert position beyond the end appends, a remove position at or beyond the end removes the last song, and all other songs keep their relative order. Removing returns exactly the removed song ('' and no effect on an empty playlist), no position crashes the server, a listing of the playlist is an independent copy that no later edit changes and whose modification changes nothing, and edits made at the same time take effect one after the other.",
  ["inputs", "histories"], "every playlist content, every int position, every sequence of edits, every interleaving of two edits",
  "The tests try a handful of positions on one 8- or 16-song list and never position == length; off-by-one crashes and aliasing need all positions of all lists.",
  ["playback/playlist.go"],
  [("clipping of the index and slice shifting under songsMutex", "playback/playlist.go: InsertSong/RemoveSong/AddSong/Songs")],
  ["Playlist.Songs()", "return value of RemoveSong"])

p("C02", "Songs play in playlist order and jumps start the requested song",
  "When a song ends its successor starts, wrapping to the first song after the last one, and a song that cannot be opened is skipped. After a jump to position p the next song started is the one at p modulo the number of songs (the first song for a negative p), the interrupted song does not continue, and songs after it follow in playlist order. No jump, whatever its position, however often repeated and even with an empty playlist, blocks its caller or crashes the server.",
  ["inputs", "histories"], "every playlist, every pattern of openable/unopenable songs and song lengths, every int jump target, every sequence of jumps",
  "Tests check nextSong on one list with non-negative positions and SetPos with an immediate receive; the loop that plays songs is never run, and negative or repeated jumps are never tried.",
  ["playback/playlist.go", "schedule/server_state_commands.go"],
  [("position counter, modulo on read, forceNext signal", "playback/playlist.go: StreamLoop/nextSong/SetPos/shouldBreakStreamerPushLoop")],
  ["new-song notifications", "samples read with Fill", "Playlist.Pos()"])

p("C03", "The sample stream is complete, ordered and exactly indexed",
  "Whatever the songs contain, reading the playlist's stream returns every sample of every song once, in order, with left and right channels belonging to the same sample; the index reported for a read equals the number of samples read before it. The start index announced for a song is exactly the index at which its first sample appears in the stream, together with that song's name and length, and between songs exactly the configured number of NaN samples appears.",
  ["inputs", "histories"], "every sample value (including NaN and infinities), song lengths, buffer capacities, read sizes and break sizes",
  "Tests read 64 samples with one size from a stream fed by the test itself and check one announcement; index drift needs several songs, breaks and read sizes together.",
  ["playback/playlist.go"],
  [("two channels filled in lock step, sampleIndexRead/sampleIndexWrite counters", "playback/playlist.go: pushSample/Fill/pushStreamer")],
  ["Playlist.Fill result and buffers", "new-song handler arguments"])

p("C04", "Pausing only inserts silence and is announced at the exact sample",
  "While paused the stream carries only NaN samples and consumes nothing of the song, so that after resuming the song continues with exactly the next sample. However SetPlaying calls interleave with streaming, each change of state in the stream is announced once, with the state and with the exact index of the first sample streamed in that state, and announcements alternate between playing and paused.",
  ["schedules", "inputs"], "every interleaving of pause/resume with the streaming loop, every song content",
  "The only test synchronises each pause with channel hand-shakes, so it samples one interleaving; a pause arriving between the announcement and the buffer push needs a particular schedule.",
  ["playback/playlist.go"],
  [("playing/playingLast and callPauseToggleHandler before each buffer", "playback/playlist.go: pushStreamer")],
  ["pause-toggle handler arguments", "samples read with Fill"])

p("C05", "The sample queue is a bounded FIFO without lost wake-ups",
  "Under every interleaving of adding, removing, peeking and length queries, the queue returns the added samples exactly once, in order, with their times, never holds more than its capacity, and peeking never removes. An add completes once there is room and a remove or peek completes once there is an element: no interleaving leaves either waiting forever while it could proceed.",
  ["schedules", "inputs"], "every interleaving of one producer and one consumer, every capacity and position of the ring indices, every sample value",
  "The async test runs one uncontrolled schedule with 16 slots; a wake-up lost between check and wait needs one specific interleaving.",
  ["playback/timed_sample_queue.go"],
  [("ring indices modulo twice the capacity; condition variable", "playback/timed_sample_queue.go: Add/Remove/Peek/waitNotFull/waitNotEmpty")],
  ["return values of Remove/Peek/Len", "termination of Add/Remove/Peek"])

p("C06", "Players emit samples in order and start them at their scheduled time",
  "In the audio a player renders, every emitted non-silent sample is a queued one, samples appear in queue order without duplication, and NaN samples are never emitted. After start-up or a NaN break the player emits silence until the scheduled time of the next sample is reached, never starts it more than one sample duration early, and skips only samples whose scheduled time already passed, so that the first sample emitted after the silence is at most one sample duration late; once started, samples follow back to back until the next NaN.",
  ["inputs"], "every queue content (samples, NaN positions, scheduled times), every current time, every render buffer length and sample rate in bounds",
  "There is no test of Stream, streamSync or streamDirect at all.",
  ["playback/streamer.go"],
  [("sync/direct state machine and time comparison", "playback/streamer.go: Stream/streamSync/streamDirect")],
  ["buffer filled by Stream"])

p("C07", "Received chunks become timed samples without loss or reordering",
  "Every chunk handed to a player is turned into timed samples: sample i of a chunk starting at t is queued with time t + i sample durations, chunks are processed in the order they were queued, and no sample is lost, duplicated or reordered, for every interleaving of queueing with reading, even while the sample queue is full. Combining a left and a right list yields pairwise samples up to the shorter list, leaving the inputs unchanged.",
  ["schedules", "inputs"], "every chunk content, length and start time; every interleaving of QueueChunk with the reader and the consumer",
  "One test reads chunks prepared before the reader runs; concurrent queueing while the reader drains is never exercised.",
  ["playback/streamer.go", "playback/playback.go"],
  [("chunk list guarded by chunksMutex", "playback/playback.go: QueueChunk; playback/streamer.go: ReadChunks"), ("pairing", "playback/playback.go: CombineSamples")],
  ["timed samples removed from the sample queue"])

p("C08", "PCM conversion is faithful, monotone and saturating",
  "For every sample value and volume the two PCM bytes are the little-endian 16-bit value within one quantisation step of sample*volume*32768 after limiting to [-1, 1]: larger samples never give smaller PCM values, positive samples never become negative, and out-of-range values saturate. A buffer is rendered frame by frame with the left sample in the first two bytes and the right sample in the last two.",
  ["inputs"], "all 2^64 sample values and volumes (NaN excluded), every frame count in bounds",
  "The test enumerates the 65535 exactly representable values below 1 and never +1.0 or anything larger, or values between the steps.",
  ["playback/playback.go"],
  [("clamp then scale and split", "playback/playback.go: convertSampleToBytes/samplesToAudioBuf")],
  ["bytes handed to the audio device"])

p("C09", "The clock offset is the mean of the measured offsets",
  "After a synchronisation round of N exchanges the client's clock offset is the mean (rounded by less than one nanosecond per division) of the N measured offsets ((serverRecv-clientSend)+(serverSend-clientRecv))/2, hence lies between the smallest and the largest of them and differs from the true offset by at most half the largest round-trip; the synchronised time is the raw time plus that offset. During a round the previous offset stays in force, and replies handled concurrently in any order give the same result.",
  ["inputs", "schedules"], "all timestamps below 2^61 ns in magnitude, N up to the bound, every interleaving of reply handlers",
  "The test uses symmetric exchanges with equal offsets only, sequentially.",
  ["timing/timing.go"],
  [("offset list with capacity N, average when full", "timing/timing.go: UpdateOffset/ResetOffsets/GetSyncedTime")],
  ["GetSyncedTime() - GetRawTime()"])

p("C10", "Time-sync and ping requests are answered correctly to their sender",
  "For every time-sync request the server sends to the requesting connection exactly one reply that echoes the client's send time and carries server receive and send times taken from its clock in that order; for every ping, exactly one pong; nothing is sent to other connections. The client sends the configured number of requests per round, each stamped with its current raw time, and feeds each reply with its own receive time into the offset estimate.",
  ["inputs", "fault_sequences"], "every request timestamp, every clock behaviour, every send failure pattern",
  "No test covers the time-sync handlers or syncTime.",
  ["comm/package_handler.go", "schedule/infoer.go", "cmd/music-sync-player/main.go", "cmd/music-sync-infoer/infoer_package_handler.go"],
  [("request/reply handlers", "comm/package_handler.go: HandleTimeSyncRequest/PingHandler; schedule/infoer.go: syncTime")],
  ["messages written to the connection", "GetSyncedTime"])

p("C11", "Messages survive the wire under every fragmentation",
  "Any sequence of messages written to a connection is read back as the same messages, of the same types, in the same order, however the transport splits reads and writes; nothing of one message leaks into the next. A connection that ends or fails inside a message yields an error and never a message.",
  ["inputs", "fault_sequences"], "every message, every split of the byte stream into reads and partial writes, every cut-off point",
  "Tests use in-memory buffers that always deliver whole messages.",
  ["comm/package_util.go", "comm/conn_handler.go"],
  [("8-byte little-endian length prefix, read-fully and write-fully loops", "comm/package_util.go: toWire/readWire/sendWire/readBytes")],
  ["messages passed to the package handler", "error returned by readWire"])

p("C12", "Malformed input only ends the connection that sent it",
  "For every sequence of bytes a peer sends (arbitrary length prefix, truncated or corrupt envelope, unknown message type, corrupt compressed data or payload), the reader either returns a message or an error; it never panics, never blocks although its peer has closed, and on an error the connection is closed and no further message from it is handled.",
  ["inputs", "fault_sequences"], "every 64-bit length prefix, every behaviour of the decoders allowed by their contracts, every cut-off point",
  "No test feeds malformed data; the crash inputs are particular 8-byte prefixes and particular decoder failures.",
  ["comm/package_util.go", "comm/conn_handler.go"],
  [("length check and error returns", "comm/package_util.go: readWire/readBytes; comm/conn_handler.go: handleConnection")],
  ["absence of panics", "Close of the connection", "handler calls"])

p("C13", "Broadcasts reach exactly the subscribed, connected clients",
  "After any history of connects, subscriptions and disconnects, a broadcast of a channel-bound message (audio chunk: audio; volume: audio and meta; chunk, song and pause info: meta) is written exactly once to every connected client subscribed to at least one of its channels and to no other connection; other messages go once to every connected client. Disconnected clients receive nothing and leave no state behind.",
  ["histories", "inputs"], "every history of add/subscribe/unsubscribe operations up to the bound, every message type",
  "The tests use one fixed set of five connections and four messages and delete connections in one order; duplicates, re-subscription and interleaved removals are not tried.",
  ["comm/message_sender.go", "comm/package_util.go"],
  [("connection list, channel map, channelOf", "comm/message_sender.go: SendMessage/AddConn/DelConn/Subscribe; comm/package_util.go: channelOf")],
  ["bytes written per connection"])

p("C14", "One failing client neither hides errors nor affects the others",
  "When any subset of the targeted clients fails during a broadcast, every other targeted client still receives the complete message, and the broadcast reports an error exactly when at least one send failed, containing every one of the failures. Error collection loses no error and reports none when none occurred, for every interleaving of the adders.",
  ["fault_sequences", "schedules"], "every subset of failing connections, every failure point inside a write, every interleaving of concurrent error reports",
  "No test makes a connection fail, and the collector test waits after every single add.",
  ["comm/message_sender.go", "util/collector.go", "util/multi_error.go"],
  [("per-connection goroutines, ErrorCollector", "comm/message_sender.go: SendMessage; util/collector.go")],
  ["bytes written per connection", "error returned by SendMessage"])

p("C15", "A subscribing client misses no state",
  "A client that subscribes receives the current volume, and on the meta channel also the newest song and all recorded pauses, in addition to everything broadcast afterwards: for every interleaving of its subscription with a song change, pause, resume or volume change, that event reaches the client in the snapshot or as a broadcast. Subscribing never crashes the server, also before it finished starting.",
  ["schedules"], "every interleaving of one subscription with one state change",
  "Snapshot and broadcast are only tested separately and sequentially.",
  ["comm/package_handler.go", "schedule/server_state.go"],
  [("subscribe-then-snapshot and record-then-broadcast order", "comm/package_handler.go: HandleSubscribeChannelRequest; schedule/server_state.go: createClientHandler/createPauseToggleHandler/createNewSongHandler")],
  ["messages received by the new client"])

p("C16", "Every message is dispatched once to the handler of its type",
  "Each received message is passed exactly once, unchanged and with its connection, to the handler for its type and to no other handler; the server, player and infoer react to messages addressed to them and ignore the rest without failing.",
  ["inputs"], "every message type and content",
  "The test dispatches one message per type to a recording handler and cannot see the real handlers of the three programs.",
  ["comm/package_handler.go", "cmd/music-sync-player/main.go", "cmd/music-sync-infoer/infoer_package_handler.go"],
  [("type switch", "comm/package_handler.go: Handle")],
  ["effects of handlers"])

p("C17", "The server's chunks form one gap-free timeline",
  "The k-th chunk sent has start time base + k*chunk-duration and carries exactly the next chunk-size samples of the stream; its first sample index equals the number of samples sent before, chunk numbers count up from 0, and the audio message and the info message for the same chunk agree on start time, first index and size. The base is the configured delay after the time the stream started.",
  ["inputs", "histories"], "every chunk size, chunk duration, stream delay, start time and number of ticks up to the bound",
  "streamMusic has no test.",
  ["schedule/server_state.go"],
  [("index counter and Fill", "schedule/server_state.go: streamMusic")],
  ["messages broadcast"])

p("C18", "The infoer shows the sample, song and position that are playing",
  "For every set of known chunks and songs and every current time, the current sample is the first index of the earliest chunk that has not ended plus the samples elapsed since its start (0 when no chunk is known), the current song is the one with the largest start index below the current sample, and time in song, song length and progress are the elapsed unpaused samples, the length and their ratio. Dropping finished chunks never changes the answer for the present or a later time, and nothing crashes or divides by zero.",
  ["inputs", "histories"], "every list of chunks and songs up to the bound, all times, sample rates in bounds",
  "A few fixed lists at sample rate 1; rounding, negative elapsed time and pruning over time are not covered.",
  ["cmd/music-sync-infoer/state.go"],
  [("chunk pruning, sample computation, song search", "cmd/music-sync-infoer/state.go: Info/currentSample/currentSong/removeOldChunks")],
  ["state.Info"])

p("C19", "Paused samples are counted exactly and pruning never changes the count",
  "The number of paused samples shown for the current song equals the number of samples between the song's start and the current sample at which playback was paused according to the received toggles (redundant toggles included), and the playing flag is the state set by the last toggle below the current sample (playing when there is none). Forgetting old toggles never changes the count or the flag for the current or any later song or sample.",
  ["inputs", "histories"], "every ordered list of toggles up to the bound, every song start and current sample, every two-step history of queries",
  "Four fixed toggle lists; the count is a sum over every prefix relation between toggles, song start and sample.",
  ["cmd/music-sync-infoer/state.go"],
  [("fold over sorted toggles; prune before the last resume that precedes the song", "cmd/music-sync-infoer/state.go: pausesInCurrentSong/removeOldPauses")],
  ["state.Info: PausesInCurrentSong, Playing"])

p("C20", "The server's snapshot stays current whatever order its handlers run in",
  "Song-change and pause notifications run concurrently; for every interleaving and completion order, the newest song kept for new clients is the one with the largest start index, the recorded pauses are kept in stream order, and the server only forgets pauses before the last resume that precedes the newest song, so that a new client computes the same pause state for that song as one that saw everything. Every notification is broadcast.",
  ["schedules", "histories", "inputs"], "every interleaving of up to the bounded number of handler invocations, every list of pauses",
  "Tests call removeOldPauses sequentially on sorted lists.",
  ["schedule/server_state.go"],
  [("pauses list and newestSong", "schedule/server_state.go: createNewSongHandler/createPauseToggleHandler/removablePauses/removeOldPauses")],
  ["messages a new client receives"])

p("C21", "The infoer's view does not depend on message arrival order",
  "For every order and interleaving in which the same chunk, song and pause notifications are handled, the infoer ends with every notification recorded exactly once, ordered by sample index, and shows the same information.",
  ["schedules", "inputs"], "every permutation and interleaving of up to the bounded number of notifications with arbitrary indices",
  "Tests deliver one or a few messages in order.",
  ["cmd/music-sync-infoer/infoer_package_handler.go"],
  [("append and sort under a mutex", "cmd/music-sync-infoer/infoer_package_handler.go")],
  ["state.Info"])

p("C22", "The lyrics shown are exactly those that are due",
  "For every lyrics file content, display height and position in the song, the bottom line shown is the one before the first line that is not due yet (a line is due when its first word is, a line without words at once), earlier lines follow upwards in order, rows without a line are empty, and a line shows exactly the concatenation of its words due by now (with 100 ms lead) in order. Empty or missing lines never crash the display, and the shown position never moves backwards while time advances.",
  ["inputs"], "every lyrics structure up to the bound, all timestamps, all heights and times",
  "A few fixed lyrics and times.",
  ["cmd/music-sync-infoer/main.go"],
  [("lyricsNextLine/lyricsBuildLine/lyricsHistory", "cmd/music-sync-infoer/main.go")],
  ["lyricsHistory result"])

p("C23", "Progress bar and text are drawn inside their cells",
  "For every bar length and progress between 0 and 1 the bar draws exactly its cells once, full cells before the head, empty cells after it, and the number of full cells never decreases as progress grows. Text is drawn one character per cell in consecutive cells for every string, and boxes touch only their border cells.",
  ["inputs"], "every length up to the bound, every float64 progress in [0,1], every string up to the bound including multi-byte characters",
  "A few fixed lengths and progress values; ASCII text only.",
  ["cmd/music-sync-infoer/drawing.go"],
  [("progressHead/drawProgress/drawString/drawBox", "cmd/music-sync-infoer/drawing.go")],
  ["cells set on the screen"])

p("C24", "Song information reaches the client unchanged",
  "For every song, the lyrics (every line, word, timestamp, including empty lines), title, artist, album, file name, start index and length known to the server are exactly what the client records and shows, whatever the metadata is (also when missing).",
  ["inputs"], "every lyrics structure and metadata up to the bound",
  "The server-side conversion and the client-side conversion are tested separately on fixed data.",
  ["schedule/server_state.go", "cmd/music-sync-infoer/infoer_package_handler.go"],
  [("toWireLyrics and HandleNewSongInfo", "schedule/server_state.go; cmd/music-sync-infoer/infoer_package_handler.go")],
  ["message broadcast", "songs recorded by the infoer"])

p("C25", "Only configured users can log in to the control interface",
  "A password login succeeds exactly when the user is configured with a non-empty password equal to the one given; a key login succeeds exactly when the user is configured with a valid public key equal to the one offered. Unknown users, empty credentials and unparsable keys are rejected without crashing, and one user's credentials never admit another user.",
  ["inputs", "configurations"], "every user table, user name, password and key up to the bound",
  "Seven fixed attempts.",
  ["ssh/options.go"],
  [("lookup and compare", "ssh/options.go: createPasswordAuthOption/createPublicKeyAuthOption")],
  ["handler result"])

p("C26", "Command lines are split and unescaped as documented",
  "For every line, parsing splits at unescaped spaces, drops empty parameters, turns '\\ ' into a space and '\\\\' into a backslash and keeps every other character, including non-ASCII ones and backslashes before other characters. Writing a command out and parsing it again gives back the same command and parameters for all words that are not empty and do not start or end with white space.",
  ["inputs"], "every line and word up to the bound, over all Unicode characters",
  "Sixteen fixed ASCII lines, mostly compared after sorting the parameters; no round trip.",
  ["ssh/parser/parser.go", "ssh/parser/Shell.g4"],
  [("generated ANTLR parser plus listener; Unparse", "ssh/parser/parser.go")],
  ["ParseCommand result", "Unparse result"])

p("C27", "Completion only ever extends what was typed to a valid option",
  "For every typed line (any spacing, escapes, characters), every completion offered for the cursor at its end, appended to the line, yields a line that parses to the same command and parameters except that the word being typed has become one of the options for it; every option starting with the typed word is offered. Completion never crashes the session for any line and cursor position.",
  ["inputs"], "every line up to the bound, every cursor position, every option list up to the bound",
  "Six fixed lines without repeated spaces or escapes.",
  ["ssh/auto_completer.go"],
  [("Do/commandsWithPrefix/commandArgOptionsWithPrefix", "ssh/auto_completer.go")],
  ["result of Do"])

p("C28", "Remote commands do exactly what they say and reject bad arguments",
  "For every argument list, queue adds exactly the matched songs in order and contiguously at the clipped position (at the end if there is none or it is no number), remove and jump act on the given position, pause and resume set the playing state, volume sets and broadcasts the volume; the reply names what was done. A missing or unparsable required argument changes nothing at all and yields the usage message. A line typed in a session runs exactly the command it names with its parameters and prints the reply or the usage; exit ends the session and an unknown command runs nothing.",
  ["inputs", "histories"], "every argument list, playlist and match list up to the bound",
  "A handful of fixed argument lists per command.",
  ["schedule/server_state_commands.go", "ssh/session_handler.go", "ssh/command.go"],
  [("argument parsing and command functions", "schedule/server_state_commands.go"), ("handleLine/execCommand", "ssh/session_handler.go")],
  ["playlist, volume and broadcasts after the command"])

p("C29", "Listed and matched file names resolve to the files they name",
  "For every music directory spelling and every file found below it, the name reported for a song (by listing or by pattern) joined with the music directory is that very file, so that what is listed can be queued and played; only existing regular files whose name ends in .mp3 are offered as songs, each once and in order. Listing a sub-directory reports only files below it.",
  ["inputs", "configurations"], "every directory string and path up to the bound, every set of files",
  "Tests use one clean relative directory name.",
  ["util/file_utils.go"],
  [("removeDirPrefix, walker, ListGlobFiles, FilterSongs", "util/file_utils.go")],
  ["names returned"])

p("C30", "Log messages are filtered by the configured level of their logger",
  "For every logger name, level and configuration, a message is written exactly once if its level is at or above that logger's own cutoff (the default cutoff if it has none) and not at all otherwise; below warning it goes to the output writer, from warning on to the error writer, unchanged. Level names are recognised case-insensitively and anything else means off; each command-line logging option sets the cutoff of exactly the logger it names.",
  ["inputs", "configurations"], "every level, cutoff table, logger name, message and option combination up to the bound",
  "Eleven fixed combinations with a single logger; the option handling is untested.",
  ["logging/logger.go", "logging/cutoff.go", "logging/level.go", "cmd/flags.go"],
  [("shouldLog/cutoffLevel/LevelByName", "logging/"), ("HandleLoggingFlags", "cmd/flags.go")],
  ["writers", "CutoffLevels"])

p("C31", "Server options take effect as documented",
  "Every server option ends up in the setting it names and no other, and the chunk duration always equals the time needed to play the configured chunk size at the configured sample rate, so that the timeline of chunk start times neither runs ahead of nor behind the samples by more than rounding.",
  ["configurations"], "every value of every option within the bounds",
  "setScheduleVars has no test.",
  ["cmd/music-sync-server/main.go", "cmd/flags.go", "schedule/schedule.go"],
  [("setScheduleVars", "cmd/music-sync-server/main.go")],
  ["schedule package settings"])

p("C32", "Lyrics and user files are decoded faithfully",
  "For every well-formed lyrics file and users file the decoded data equals the file's content, and a malformed or unreadable file yields no lyrics (respectively an error) without crashing.",
  ["inputs"], "every file content",
  "One well-formed and one malformed file each.",
  ["metadata/lyrics_provider.go", "ssh/ssh.go"],
  [("encoding/json decoding", "metadata/lyrics_provider.go; ssh/ssh.go")],
  ["CollectLyrics, ReadUsersFile"])

p("C33", "The audio device is fed without gaps in real time",
  "While chunks arrive in time, the player writes rendered audio to the device early enough that the device never runs dry.",
  ["schedules"], "every operating-system schedule and device timing",
  "Depends on real time and the audio device; no test touches it.",
  ["playback/playback.go"],
  [("playLoop", "playback/playback.go")],
  ["device underruns"])

p("C34", "A player renders at the volume it was told last",
  "Audio is rendered with the volume the player was told last, 10 % before it was told any: a change applies to everything rendered after it and to nothing rendered before, and no change is lost, however volume messages interleave with the player's start-up.",
  ["inputs", "schedules"], "every volume and every interleaving of volume messages with start-up",
  "Tests set the volume of a player that is already running.",
  ["playback/playback.go"],
  [("SetVolume, Init, samplesToAudioBuf", "playback/playback.go")],
  ["playback.Init, SetVolume"])

p("C35", "A song is closed when it is over",
  "Every song the server opens is closed exactly once when it is over (played to its end, interrupted by a jump, or when streaming is cancelled), before the next song is opened, and nothing is read from it afterwards, so that a server that plays on and on does not run out of files.",
  ["schedules", "histories"], "every sequence of song ends, jumps and cancellation under every schedule",
  "No test looks at what becomes of a song after it was streamed.",
  ["playback/playlist.go", "playback/playback.go"],
  [("StreamLoop, pushStreamer", "playback/playlist.go")],
  ["Playlist.StreamLoop"])

p("C36", "A control session runs exactly the lines that were entered",
  "In a control session every line the user enters runs its command exactly once, in the order entered, until exit, the end of the input or an error ends the session; what was typed before an interrupt (^C) is discarded and never runs, nothing runs after the session ended, and a client without a terminal gets no session.",
  ["inputs", "histories"], "every sequence of typed characters, Enter, ^C and ^D up to the bound",
  "Tests call handleLine with single lines; the loop that reads a session's lines is never run.",
  ["ssh/session_handler.go"],
  [("readLoop, handleLine, sessionHandler", "ssh/session_handler.go")],
  ["commands that run", "the end of the session"])

p("C37", "A song's lyrics and metadata are those of its own files",
  "For every song name and music directory the lyrics are exactly those of the file named after the song with .json appended and the metadata exactly title, artist and album of the song's own tags; if the file is missing, cannot be opened or cannot be decoded there are no lyrics (not even a part of them) and no metadata; nothing crashes and every file that is opened is closed exactly once, after it was read.",
  ["inputs"], "every song name, lyrics, tags and file failure up to the bound",
  "Tests look at one song and one missing file.",
  ["metadata/lyrics_provider.go", "metadata/metadata_provider.go"],
  [("CollectLyrics", "metadata/lyrics_provider.go"), ("CollectMetadata", "metadata/metadata_provider.go")],
  ["LyricsProvider", "Provider"])

p("C38", "The infoer's screen shows the current song, time, volume and lyrics",
  "On every terminal that is large enough the infoer shows the title (the file name if there is none), artist and album, the time in the song and its length in hours, minutes and seconds, the volume, whether music is playing and the due lyric lines, the newest at the bottom, each in its place and framed; where there is no room for lyrics none are drawn, and no terminal size, not even an empty one, makes it crash.",
  ["inputs", "configurations"], "every duration, song description, lyrics history size and terminal size up to the bound",
  "Tests check lyrics lines, not what is drawn where.",
  ["cmd/music-sync-infoer/main.go", "cmd/music-sync-infoer/drawing.go"],
  [("drawPlaybackInfo, drawLyrics, fmtDuration", "cmd/music-sync-infoer/main.go"), ("drawString, drawBox", "cmd/music-sync-infoer/drawing.go")],
  ["the screen's content"])

p("C39", "Received samples reach the audio device in order and without gaps",
  "A started player opens the audio device once, with the stream's sample rate, two channels of 16 bits, and from then on writes it buffers of a tenth of a second without end; the samples of all queued chunks appear in what the device gets exactly once, in order, left before right, without gaps within or between consecutive chunks, in the frames of their scheduled time, and everything else is silence.",
  ["inputs", "histories"], "every start time and division of the samples into chunks up to the bound",
  "No test starts a player or looks at what its device gets.",
  ["playback/playback.go", "playback/streamer.go"],
  [("Init, playLoop, QueueChunk, samplesToAudioBuf", "playback/playback.go"), ("Stream, ReadChunks", "playback/streamer.go")],
  ["writes to the audio device"])

p("C40", "Clients end with their connection, the server outlives its clients'",
  "A client handles every complete message the server sends, sends on the same connection, and ends, with an error status, when that connection ends, fails or is cut within a message, and not before; if it cannot connect it reports an error. The server goes on accepting and serving clients whatever happens to the connections of others; the connection of a client that left is closed exactly once and never used again.",
  ["histories", "fault_sequences"], "every history of messages, cuts, garbage and departures up to the bound",
  "Tests use one well-behaved connection.",
  ["comm/conn_handler.go"],
  [("ConnectToServer, StartServer, serverConnectionAcceptor, handleConnection", "comm/conn_handler.go")],
  ["os.Exit, connections"])

p("C41", "Programs start completely or fail with an error, and end when told",
  "Whatever fails while a program starts (music directory, address, users file, terminal, connection), it ends with an error status and runs nothing of what it would otherwise start; a server without its music directory accepts no clients. If nothing fails everything is started once with the connection just made. A player and a server run until they are interrupted, the infoer until ^C is pressed, whatever else is pressed and however the terminal is resized (what is drawn follows its size); however it ends, a terminal it took is given back exactly once and not drawn on afterwards.",
  ["inputs", "fault_sequences"], "every combination of start-up failures, every sequence of keys and sizes up to the bound",
  "No test runs the programs.",
  ["cmd/music-sync-server/main.go", "cmd/music-sync-player/main.go", "cmd/music-sync-infoer/main.go", "cmd/music-sync-infoer/drawing.go"],
  [("run", "cmd/music-sync-server/main.go"), ("run", "cmd/music-sync-player/main.go"), ("run, tcellLoop, redraw, createTcellScreen", "cmd/music-sync-infoer/main.go"), ("eventLoop", "cmd/music-sync-infoer/drawing.go")],
  ["terminal", "exit status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
