package cmd

import (
	"flag"

	log "github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/urfave/cli"
)

// ZZ_C30_Flags: every logging option set to any level or not set at all; the loggers are those the programs use.
func ZZ_C30_Flags() {
	names := []string{"comm", "play", "shed", "ssh", "time"}
	set := flag.NewFlagSet("zz", flag.ContinueOnError)
	for _, f := range AddLoggingFlags([]cli.Flag{}) {
		f.Apply(set)
	}
	log.CutoffLevels = map[string]log.Level{}
	log.DefaultCutoffLevel = log.LevelInfo
	want := map[string]log.Level{}
	// two options at a time
	first := zzverif.Choose("first", len(names)+1)
	second := first + 1 + zzverif.Choose("second", len(names)+1-first)
	for i, k := range []int{first, second} {
		if k > len(names) {
			continue
		}
		level := "fatal"
		if i == 0 {
			level = zzverif.StringN("level", zzverif.Bound("level")*zzverif.Choose("given", 2))
		}
		for j := 0; j < len(level); j++ {
			zzverif.Assume('a' <= level[j] && level[j] <= 'z') // other bytes: ZZ_C30_Names
		}
		if level == "" {
			continue
		}
		l := log.LevelByName(level)
		n := "logging"
		if k < len(names) {
			n = names[k] + "-logging"
		}
		zzverif.Assert(set.Set(n, level) == nil, "the option exists")
		if k < len(names) {
			want[names[k]] = l
		} else {
			want[""] = l
		}
		zzverif.Reach("set")
	}
	HandleLoggingFlags(cli.NewContext(nil, set, nil))
	def := log.LevelInfo
	if d, ok := want[""]; ok {
		def = d
	}
	zzverif.Assert(log.DefaultCutoffLevel == def, "the default cutoff is set by its own option only")
	for _, n := range names {
		w, ok := want[n]
		if !ok {
			w = def
		}
		got, ok := log.CutoffLevels[n]
		if !ok {
			got = log.DefaultCutoffLevel
		}
		zzverif.Assert(got == w, "each option sets the cutoff of exactly the logger it names")
	}
}
