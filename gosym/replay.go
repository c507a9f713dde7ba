package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type replayCase struct {
	Harness string           `json:"harness"`
	Inputs  []inputRec       `json:"inputs"`
	Sched   []schedEvent     `json:"sched"`
	Bounds  map[string]int64 `json:"bounds"`
	StuckMs int              `json:"stuck_ms"`
	// for readers of the replay file
	Property string `json:"property,omitempty"`
	Pkg      string `json:"pkg,omitempty"`
	Kind     string `json:"kind,omitempty"`
	Msg      string `json:"msg,omitempty"`
	Native   string `json:"native,omitempty"`
	Tier     string `json:"tier,omitempty"`
}

type replayResult struct {
	Kind    string   `json:"kind"`
	Msg     string   `json:"msg"`
	Observe []string `json:"observe"`
	Missing []string `json:"missing"`
	Asserts int      `json:"asserts"`
	Diverge int      `json:"diverge"`
}

// Replayer runs cases natively against the real code.
type Replayer struct {
	eng  *Engine
	bin  string
	err  error
	n    int
	once bool
}

func (r *Replayer) build(hs []string) error {
	if r.once {
		return r.err
	}
	r.once = true
	ov, err := r.eng.writeOverlay(hs)
	if err != nil {
		r.err = err
		return err
	}
	r.bin = filepath.Join(r.eng.tmp, "replay.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", r.bin, "./"+r.eng.unit.Pkg)
	cmd.Dir = r.eng.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		r.err = fmt.Errorf("native replay does not build: %v: %s", err, out)
	}
	return r.err
}

func (r *Replayer) run(c *replayCase, timeout time.Duration) (*replayResult, error) {
	r.n++
	dir := filepath.Join(r.eng.tmp, fmt.Sprintf("case%d", r.n))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	in, out := filepath.Join(dir, "in.json"), filepath.Join(dir, "out.json")
	b, _ := json.Marshal(c)
	if err := os.WriteFile(in, b, 0o644); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	// the address space limit turns run-away allocations into a crash of the case
	cmd := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 8000000; exec \"$0\" -test.run '^TestZZReplay$'", r.bin)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "ZZ_CASE="+in, "ZZ_OUT="+out, "GOTRACEBACK=single")
	o, err := cmd.CombinedOutput()
	if os.Getenv("ZZ_TRACE") != "" {
		os.Stderr.Write(o)
	}
	var res replayResult
	if rb, e := os.ReadFile(out); e == nil && json.Unmarshal(rb, &res) == nil {
		return &res, nil
	}
	if ctx.Err() != nil {
		return &replayResult{Kind: "deadlock", Msg: "timeout"}, nil
	}
	if err != nil {
		s := string(o)
		for _, l := range strings.Split(s, "\n") {
			if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: out of memory") {
				if strings.Contains(l, "all goroutines are asleep") {
					return &replayResult{Kind: "deadlock", Msg: l}, nil
				}
				return &replayResult{Kind: "panic", Msg: l}, nil
			}
		}
		if len(s) > 500 {
			s = s[:500]
		}
		return &replayResult{Kind: "exit", Msg: s}, nil
	}
	return &replayResult{Kind: "exit", Msg: "no result"}, nil
}

// confirms says whether the native outcome shows the predicted failure.
func confirms(v *Violation, r *replayResult) bool {
	switch v.Kind {
	case "assert":
		return r.Kind == "assert" && r.Msg == v.Msg
	case "panic":
		return r.Kind == "panic" || r.Kind == "exit"
	case "deadlock":
		return r.Kind == "deadlock"
	}
	return false
}
