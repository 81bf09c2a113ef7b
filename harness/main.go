package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func heapBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// allocBytes is the running total of heap allocation of the process.
func allocBytes() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

var (
	fID     = flag.String("id", "", "property id")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fSeed   = flag.Uint64("seed", 1, "seed")
	fShard  = flag.Int("shard", 0, "shard")
	fShards = flag.Int("shards", 8, "number of shards")
	fRun    = flag.Int("run", 0, "start only this many of the shards (for trying changes quickly)")
	fDir    = flag.String("dir", "", "work directory")
	fOnly   = flag.String("only", "", "run only this sub")
	fFile   = flag.String("replay", "", "case file")
	fFuzz   = flag.String("fuzzbin", "", "fuzzing binary, used in the thorough tier")
	fFuzzT  = flag.Duration("fuzztime", 5*time.Minute, "how long to fuzz")
	fNoEv   = flag.Bool("noevidence", false, "do not write the evidence file")
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vp check|worker|replay|list ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	os.Args = append(os.Args[:1], os.Args[2:]...)
	testing.Init()
	flag.Parse()
	setupRaw()
	setupLarge()
	defer func() {
		if r := recover(); r != nil {
			if ie, ok := r.(infraError); ok {
				fmt.Fprintln(os.Stderr, "INFRA:", ie.msg)
				os.Exit(3)
			}
			panic(r)
		}
	}()
	if cmd == "list" {
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
			for _, s := range props[id].Subs {
				fmt.Printf("    %-28s quick %d thorough %d\n", s.Name, s.N[0], s.N[1])
			}
		}
		return
	}
	p := props[*fID]
	if p == nil {
		infraf("no property %q", *fID)
	}
	switch cmd {
	case "worker":
		limitMemory(p)
		runWorker(p, *fTier, *fSeed, *fShard, *fShards, *fDir, *fOnly)
	case "replay":
		limitMemory(p)
		os.Exit(replayFile(p, *fFile))
	case "check":
		if *fFile != "" {
			r := confirm(p, *fFile, 1)
			fmt.Print(r.out)
			if r.violated {
				fmt.Printf("\nVIOLATION property=%s replay=%s\n", p.ID, *fFile)
				os.Exit(1)
			}
			if r.infra {
				os.Exit(2)
			}
			fmt.Printf("OK property=%s: the case passes\n", p.ID)
			os.Exit(0)
		}
		os.Exit(supervise(p))
	default:
		infraf("unknown command %q", cmd)
	}
}

func limitMemory(p *Prop) {
	debug.SetMemoryLimit(2 << 30)
	if p.Race {
		return
	}
	lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
}

func replayFile(p *Prop, file string) int {
	raw, err := os.ReadFile(file)
	if err != nil {
		infraf("%v", err)
	}
	var f failure
	if err := json.Unmarshal(raw, &f); err != nil {
		infraf("%v", err)
	}
	s := p.sub(f.Sub)
	if s == nil {
		infraf("no sub %q", f.Sub)
	}
	w := &worker{prop: p}
	w.started.Store(cpuNow())
	go w.watchdog()
	if err := s.replay(f.Case, &Obs{}); err != nil {
		fmt.Printf("FAIL %s/%s: %v\n", p.ID, s.Name, err)
		return 1
	}
	return 0
}

type confirmation struct {
	violated bool
	infra    bool
	out      string
}

// confirm re-runs one case in fresh processes.
func confirm(p *Prop, file string, times int) confirmation {
	var c confirmation
	for i := 0; i < times; i++ {
		cmd := exec.Command(os.Args[0], "replay", "-id", p.ID, "-replay", file)
		cmd.Env = workerEnv(p)
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			infraf("%v", err)
		}
		go func() { done <- cmd.Wait() }()
		var err error
		select {
		case err = <-done:
		case <-time.After(300 * time.Second):
			cmd.Process.Kill()
			<-done
			c.infra = true
			c.out = "replay: no answer within 300 s\n"
			continue
		}
		c.out = clip(out.String(), 6000)
		if err == nil {
			continue
		}
		if cmd.ProcessState.ExitCode() == 3 {
			c.infra = true
			continue
		}
		switch cmd.ProcessState.ExitCode() {
		case exitTimeout:
			c.out += "the case used more than 40 s of CPU time\n"
		case exitMemory:
			c.out += "the case used more than 3 GB of memory\n"
		}
		c.violated = true
		return c
	}
	return c
}

func workerEnv(p *Prop) []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOMAXPROCS=") || strings.HasPrefix(e, "GORACE=") || strings.HasPrefix(e, "TZ=") || strings.HasPrefix(e, "GIT_") || strings.HasPrefix(e, "LC_") || strings.HasPrefix(e, "LANG") || strings.HasPrefix(e, "RAPID_") || strings.HasPrefix(e, "GOGC=") || strings.HasPrefix(e, "GODEBUG=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "TZ=UTC", "LC_ALL=C", "GOTRACEBACK=single")
	if p.Race {
		env = append(env, "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4")
	} else {
		env = append(env, "GOMAXPROCS=2")
	}
	return env
}

type shardEnd struct {
	shard int
	code  int
	out   string
	err   error
	late  bool
}

func supervise(p *Prop) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "vp-"+p.ID+"-")
	if err != nil {
		infraf("%v", err)
	}
	defer os.RemoveAll(dir)
	for i := 0; i < *fShards; i++ {
		os.MkdirAll(filepath.Join(dir, fmt.Sprint("tmp", i)), 0o755)
	}
	limit := 700 * time.Second
	if *fTier == "thorough" {
		limit = 60 * time.Minute
	}

	var mu sync.Mutex
	cmds := map[int]*exec.Cmd{}
	run := *fShards
	if *fRun > 0 && *fRun < run {
		run = *fRun
	}
	ends := make(chan shardEnd, run)
	for i := 0; i < run; i++ {
		args := []string{"worker", "-id", p.ID, "-tier", *fTier, "-seed", strconv.FormatUint(*fSeed, 10),
			"-shard", strconv.Itoa(i), "-shards", strconv.Itoa(*fShards), "-dir", dir, "-only", *fOnly}
		cmd := exec.Command(os.Args[0], args...)
		cmd.Env = append(workerEnv(p), "TMPDIR="+filepath.Join(dir, fmt.Sprint("tmp", i)))
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		var out bytes.Buffer
		lb := &limitedBuf{w: &out, n: 1 << 20}
		cmd.Stdout, cmd.Stderr = lb, lb
		if err := cmd.Start(); err != nil {
			infraf("%v", err)
		}
		cmds[i] = cmd
		go func(i int) {
			err := cmd.Wait()
			mu.Lock()
			defer mu.Unlock()
			ends <- shardEnd{shard: i, code: cmd.ProcessState.ExitCode(), out: out.String(), err: err}
		}(i)
	}
	killAll := func() {
		for _, c := range cmds {
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		}
	}
	go func() {
		ch := make(chan os.Signal, 1)
		notifyStop(ch)
		<-ch
		killAll()
		os.RemoveAll(dir)
		os.Exit(4)
	}()

	results := map[int]*workerResult{}
	var fails []*failure
	var infra []string
	timer := time.After(limit)
	killed := false
	for n := 0; n < run; n++ {
		var e shardEnd
		select {
		case e = <-ends:
		case <-timer:
			timer = nil
			killed = true
			infra = append(infra, fmt.Sprintf("no answer within %v", limit))
			killAll()
			n--
			continue
		}
		if killed {
			continue
		}
		if e.code == 0 {
			raw, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result.%d", e.shard)))
			var r workerResult
			if err == nil {
				err = json.Unmarshal(raw, &r)
			}
			if err != nil {
				infra = append(infra, fmt.Sprintf("shard %d: %v", e.shard, err))
				continue
			}
			results[e.shard] = &r
			if r.Failure != nil {
				fails = append(fails, r.Failure)
				killed = true
				killAll()
			}
			continue
		}
		if e.code == 3 {
			infra = append(infra, clip(e.out, 4000))
			continue
		}
		// the worker died: its journal names the case
		sub, raw, err := readJournal(dir, e.shard)
		if err != nil {
			infra = append(infra, fmt.Sprintf("shard %d died (%d): %v\n%s", e.shard, e.code, err, clip(e.out, 4000)))
			continue
		}
		fails = append(fails, &failure{Property: p.ID, Sub: sub, Case: raw, Seed: *fSeed, Tier: *fTier,
			Error: fmt.Sprintf("the process running the case ended with status %d\n%s", e.code, clip(e.out, 6000))})
		killed = true
		killAll()
	}

	var fuzzed *fuzzReport
	if *fFuzz != "" && rawTargets[p.ID] != nil && len(fails) == 0 && len(infra) == 0 {
		rep, found := fuzz(p, *fFuzz, dir, *fFuzzT)
		fuzzed = &rep
		fails = append(fails, found...)
	}

	violations := 0
	var lines []string
	code := 0
	for _, f := range fails {
		died := strings.HasPrefix(f.Error, "the process running the case ended")
		race := strings.Contains(f.Error, "DATA RACE") || strings.Contains(f.Error, "concurrent map")
		path := saveReplay(p, f)
		c := confirm(p, path, 3)
		switch {
		case c.violated:
			fmt.Printf("%s\n", strings.TrimRight(clip(c.out, 5000), "\n"))
		case p.Race && (race || !died):
			// a schedule need not repeat; a race report or a wrong concurrent
			// result is a violation the first time
			fmt.Printf("%s\n", clip(f.Error, 5000))
		default:
			infra = append(infra, fmt.Sprintf("a failure of %s/%s did not repeat in a fresh process: %s", p.ID, f.Sub, clip(f.Error, 3000)))
			os.Remove(path)
			continue
		}
		violations++
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, path))
		code = 1
	}
	if !*fNoEv {
		writeEvidence(p, results, violations, time.Since(start), infra, fuzzed)
	}
	var known []string
	for _, r := range results {
		known = append(known, r.Known...)
	}
	sort.Strings(known)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	for _, m := range infra {
		fmt.Fprintln(os.Stderr, "INFRA:", m)
	}
	if violations == 0 && len(infra) > 0 {
		code = 2
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if code == 0 {
		ev, nt := 0, 0
		for _, r := range results {
			for _, s := range r.Subs {
				ev += s.Evaluations
				nt += s.Nontrivial
			}
		}
		fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d nontrivial=%d wall=%.1fs\n", p.ID, *fTier, *fSeed, ev, nt, time.Since(start).Seconds())
	}
	return code
}

func saveReplay(p *Prop, f *failure) string {
	d := os.Getenv("VERIF_REPLAYS")
	if d == "" {
		d = filepath.Join(verifDir(), "replays")
	}
	os.MkdirAll(d, 0o755)
	path := filepath.Join(d, fmt.Sprintf("%s-%s-%012x.json", p.ID, strings.ReplaceAll(f.Sub, " ", "-"), mix(string(f.Case))&0xffffffffffff))
	raw, err := json.MarshalIndent(f, "", " ")
	if err != nil {
		infraf("%v", err)
	}
	if err := os.WriteFile(path, raw, 0o644); err != nil {
		infraf("%v", err)
	}
	return path
}

func writeEvidence(p *Prop, results map[int]*workerResult, violations int, wall time.Duration, infra []string, fuzzed *fuzzReport) {
	type subEv struct {
		Evaluations int            `json:"evaluations"`
		Distinct    int            `json:"distinct_nontrivial"`
		Labels      map[string]int `json:"labels,omitempty"`
		CPUSeconds  float64        `json:"worker_seconds"`
		Truncated   bool           `json:"truncated_by_time,omitempty"`
	}
	subs := map[string]*subEv{}
	type sample struct {
		Sub  string `json:"sub"`
		Case string `json:"case"`
	}
	samples := []sample{}
	total, distinct := 0, 0
	names := []string{"corpus"}
	for _, s := range p.Subs {
		names = append(names, s.Name)
	}
	for _, name := range names {
		se := &subEv{Labels: map[string]int{}}
		set := map[uint64]struct{}{}
		for i := 0; i < *fShards; i++ {
			r := results[i]
			if r == nil || r.Subs[name] == nil {
				continue
			}
			st := r.Subs[name]
			se.Evaluations += st.Evaluations
			for l, n := range st.Labels {
				se.Labels[l] += n
			}
			se.CPUSeconds += st.Seconds
			se.Truncated = se.Truncated || st.Truncated
			for _, h := range r.Hashes[name] {
				set[h] = struct{}{}
			}
			k := 0
			for _, sm := range samples {
				if sm.Sub == name {
					k++
				}
			}
			for _, sm := range r.Samples[name] {
				if k < 2 {
					samples = append(samples, sample{name, sm})
					k++
				}
			}
		}
		if se.Evaluations == 0 {
			continue
		}
		se.Distinct = len(set)
		total += se.Evaluations
		distinct += se.Distinct
		subs[name] = se
	}
	ev := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         total,
			"distinct_nontrivial": distinct,
			"rule":                p.Rule,
			"samples":             samples,
			"subs":                subs,
			"shards":              *fShards,
		},
		"assumptions": []string{
			"the generators cover the stated domain only by sampling (see DESIGN.md); a pass is not a proof",
			"the oracles (reference models, git and GNU diff where named) are trusted",
		},
		"wall_s":     wall.Seconds(),
		"violations": violations,
	}
	if fuzzed != nil {
		ev["coverage"].(map[string]any)["coverage_guided"] = fuzzed
	}
	if len(infra) > 0 {
		ev["infrastructure_errors"] = infra
	}
	raw, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		infraf("%v", err)
	}
	d := os.Getenv("VERIF_EVIDENCE")
	if d == "" {
		d = filepath.Join(verifDir(), "evidence")
	}
	os.MkdirAll(d, 0o755)
	path := filepath.Join(d, p.ID+".json")
	if err := os.WriteFile(path+".tmp", append(raw, '\n'), 0o644); err != nil {
		infraf("%v", err)
	}
	os.Rename(path+".tmp", path)
}

type limitedBuf struct {
	w io.Writer
	n int
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.w.Write(q)
		l.n -= len(q)
	}
	return len(p), nil
}
