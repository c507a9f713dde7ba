package log

import (
	"strings"

	"github.com/LogicalOverflow/music-sync/zzverif"
)

type zzWriter struct{ text []string }

func (w *zzWriter) Write(b []byte) (int, error) {
	w.text = append(w.text, string(b))
	return len(b), nil
}

func zzLog(l Logger, level Level, msg string) {
	switch level {
	case LevelTrace:
		l.Trace(msg)
	case LevelDebug:
		l.Debug(msg)
	case LevelInfo:
		l.Info(msg)
	case LevelWarn:
		l.Warn(msg)
	case LevelError:
		l.Error(msg)
	case LevelFatal:
		l.Fatal(msg)
	}
}

func zzLogf(l Logger, level Level, format string, args ...interface{}) {
	switch level {
	case LevelTrace:
		l.Tracef(format, args...)
	case LevelDebug:
		l.Debugf(format, args...)
	case LevelInfo:
		l.Infof(format, args...)
	case LevelWarn:
		l.Warnf(format, args...)
	case LevelError:
		l.Errorf(format, args...)
	case LevelFatal:
		l.Fatalf(format, args...)
	}
}

// ZZ_C30_Write: every name, message, level and configuration.
func ZZ_C30_Write() {
	out, err := &zzWriter{}, &zzWriter{}
	OutputWriter, ErrorWriter = out, err
	DateProvider = func() string { return "date" }
	name := zzverif.String("name", zzverif.Bound("name"))
	msg := zzverif.String("msg", zzverif.Bound("msg"))
	level := Level(zzverif.Choose("level", 6))
	def := Level(zzverif.IntRange("default", 0, 6))
	CutoffLevels, DefaultCutoffLevel = map[string]Level{}, def
	cutoff := def
	l := GetLogger(name) // configured afterwards, as in the programs
	for i := zzverif.Choose("cutoffs", zzverif.Bound("cutoffs")+1); 0 < i; i-- {
		other := zzverif.String("other", len(name)+1)
		c := Level(zzverif.IntRange("cutoff", 0, 6))
		CutoffLevels[other] = c
		if other == name {
			cutoff = c
		}
	}
	if zzverif.Choose("formatted", 2) == 1 {
		zzLogf(l, level, "%s", msg)
	} else {
		zzLog(l, level, msg)
	}
	switch {
	case level < cutoff:
		zzverif.Reach("none")
		zzverif.Assert(len(out.text)+len(err.text) == 0, "a message below the cutoff is not written")
	case level < LevelWarn:
		zzverif.Reach("out")
		zzverif.Assert(len(out.text) == 1 && len(err.text) == 0, "a message at or above the cutoff is written exactly once, below warning to the output writer")
		zzverif.Assert(strings.HasSuffix(out.text[0], ": "+msg+"\n"), "the message is unchanged")
	default:
		zzverif.Reach("err")
		zzverif.Assert(len(out.text) == 0 && len(err.text) == 1, "a message at or above the cutoff is written exactly once, from warning on to the error writer")
		zzverif.Assert(strings.HasSuffix(err.text[0], ": "+msg+"\n"), "the message is unchanged")
	}
}

func zzLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// ZZ_C30_Names: the level names in any case, everything else is off.
func ZZ_C30_Names() {
	name := zzverif.String("name", zzverif.Bound("name"))
	for i := 0; i < len(name); i++ {
		zzverif.Assume(name[i] < 0x80)
	}
	got := LevelByName(name)
	want := LevelOff
	for i, n := range [][2]string{{"trace", "trc"}, {"debug", "dbg"}, {"info", "inf"}, {"warn", "wrn"}, {"error", "err"}, {"fatal", "ftl"}} {
		if l := zzLower(name); l == n[0] || l == n[1] {
			want = Level(i)
			zzverif.Reach("known")
		}
	}
	if want == LevelOff {
		zzverif.Reach("off")
	}
	zzverif.Assert(got == want, "the level of the name, off for every other name")
}

// ZZ_C30_Format: messages that look like the place holders of the format.
func ZZ_C30_Format() {
	out, err := &zzWriter{}, &zzWriter{}
	OutputWriter, ErrorWriter = out, err
	DateProvider = func() string { return "date" }
	CutoffLevels, DefaultCutoffLevel = map[string]Level{}, LevelTrace
	msg := zzverif.StringN("before", zzverif.Choose("length", 2))
	for i := 1 + zzverif.Choose("place holders", zzverif.Bound("place holders")); 0 < i; i-- {
		msg += []string{"{name}", "{date}", "{lvl}", "{level}", "{msg}", "{message}", "%s", "%", "\\n"}[zzverif.Choose("place holder", 9)]
	}
	msg += zzverif.StringN("after", zzverif.Choose("length", 2))
	level := Level(zzverif.Choose("level", 6))
	zzLog(GetLogger("name"), level, msg)
	text := out.text
	if LevelWarn <= level {
		text = err.text
	}
	zzverif.Reach("end")
	zzverif.Assert(len(out.text)+len(err.text) == 1 && len(text) == 1, "a message at or above the cutoff is written exactly once")
	zzverif.Assert(strings.HasSuffix(text[0], ": "+msg+"\n"), "the message is unchanged")
}
