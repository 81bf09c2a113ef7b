package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- registry

// Prop is one property of /verif/properties.jsonl with the generated-input
// searches that decide it.
type Prop struct {
	ID   string
	Rule string // what makes a case non-trivial
	Subs []*Sub
	Race bool // run in the race-detector build
}

// Sub is one generated (or enumerated) search of a property.
type Sub struct {
	Name   string
	N      [2]int // cases in the quick and the thorough tier, over all shards
	run    func(w *worker, n int)
	replay func(raw json.RawMessage, o *Obs) error
	Serial bool // runs in shard 0 only
	Avail  func() bool
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if props[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	for _, s := range p.Subs {
		if f := quickFactor[p.ID]; f > 0 && s.N[0] > 1 {
			s.N[0] = min(s.N[0]*f, s.N[1])
		}
	}
	props[p.ID] = p
}

// quickFactor gives the properties whose cases are cheap more of them, so that
// all quick checks take about as long.
var quickFactor = map[string]int{
	"C03": 6, "C06": 5, "C09": 5, "C12": 5, "C13": 4, "C14": 8, "C18": 4, "C27": 3, "C28": 8, "C29": 5, "C31": 8,
	"C02": 2, "C04": 2, "C05": 3, "C10": 2, "C22": 2, "C25": 2, "C26": 3, "C33": 2,
}

// Obs collects what one case exercised.
type Obs struct {
	nontrivial bool
	labels     map[string]int
}

func (o *Obs) NT() { o.nontrivial = true }
func (o *Obs) NTIf(b bool) {
	if b {
		o.nontrivial = true
	}
}
func (o *Obs) Label(s string) {
	if o.labels == nil {
		o.labels = map[string]int{}
	}
	o.labels[s]++
}
func (o *Obs) LabelIf(b bool, s string) {
	if b {
		o.Label(s)
	}
}

// infraError is a failure of the environment or the harness, never a verdict.
type infraError struct{ msg string }

func infraf(format string, args ...any) { panic(infraError{fmt.Sprintf(format, args...)}) }

// callCheck runs a check and turns panics of the code under test into errors.
func callCheck(fn func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if ie, ok := r.(infraError); ok {
				panic(ie)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return fn()
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// Gen makes a sub driven by rapid with shrinking.
func Gen[C any](name string, quick, thorough int, gen func(g *G) C, check func(c *C, o *Obs) error) *Sub {
	s := &Sub{Name: name, N: [2]int{quick, thorough}}
	s.replay = func(raw json.RawMessage, o *Obs) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			infraf("bad case: %v", err)
		}
		return callCheck(func() error { return check(&c, o) })
	}
	s.run = func(w *worker, n int) {
		w.rapid(s, n, func(t *rapid.T) (any, func(o *Obs) error) {
			c := gen(&G{t: t})
			return &c, func(o *Obs) error { return check(&c, o) }
		})
	}
	return s
}

// Enum makes a sub that walks a finite list of cases, split over the shards.
func Enum[C any](name string, enum func(tier string, yield func(C) bool), check func(c *C, o *Obs) error) *Sub {
	s := &Sub{Name: name, N: [2]int{1, 1}}
	s.replay = func(raw json.RawMessage, o *Obs) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			infraf("bad case: %v", err)
		}
		return callCheck(func() error { return check(&c, o) })
	}
	s.run = func(w *worker, n int) {
		i := 0
		enum(w.tier, func(c C) bool {
			mine := i%w.shards == w.shard
			i++
			if !mine {
				return true
			}
			if w.failed() {
				return false
			}
			w.one(s, &c, func(o *Obs) error { return check(&c, o) })
			return !w.failed()
		})
	}
	return s
}

// ------------------------------------------------------------------ worker

type failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Seed     uint64          `json:"seed"`
	Tier     string          `json:"tier,omitempty"`
}

type subStats struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial_evaluations"`
	Labels      map[string]int `json:"labels,omitempty"`
	Seconds     float64        `json:"seconds"`
	Truncated   bool           `json:"truncated_by_time,omitempty"`
}

type workerResult struct {
	Subs    map[string]*subStats `json:"subs"`
	Hashes  map[string][]uint64  `json:"hashes"`
	Samples map[string][]string  `json:"samples"`
	Failure *failure             `json:"failure,omitempty"`
	Known   []string             `json:"known,omitempty"`
	Done    bool                 `json:"done"`
}

type worker struct {
	prop     *Prop
	tier     string
	seed     uint64
	shard    int
	shards   int
	dir      string
	deadline time.Time
	subEnd   time.Time
	res      workerResult
	hashes   map[string]map[uint64]struct{}
	journal  *os.File
	started  atomic.Int64 // CPU nanoseconds of the process when the case started, 0 = idle
	quiet    bool         // set while rapid shrinks: do not count cases
}

func (w *worker) failed() bool { return w.res.Failure != nil }

func cpuNow() int64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 1
	}
	return ru.Utime.Nano() + ru.Stime.Nano() + 1
}

func (w *worker) stats(name string) *subStats {
	st := w.res.Subs[name]
	if st == nil {
		st = &subStats{Labels: map[string]int{}}
		w.res.Subs[name] = st
		w.hashes[name] = map[uint64]struct{}{}
	}
	return st
}

// exec runs one case, journalled, and returns its verdict.
func (w *worker) exec(s *Sub, c any, check func(o *Obs) error) (raw []byte, err error) {
	raw, jerr := json.Marshal(c)
	if jerr != nil {
		infraf("case of %s/%s cannot be encoded: %v", w.prop.ID, s.Name, jerr)
	}
	if w.journal != nil {
		hdr := make([]byte, 0, 64)
		hdr = fmt.Appendf(hdr, "%020d %-40s\n", len(raw), s.Name)
		w.journal.WriteAt(append(hdr, raw...), 0)
	}
	var o Obs
	w.started.Store(cpuNow())
	err = callCheck(func() error { return check(&o) })
	w.started.Store(0)
	if !w.quiet {
		st := w.stats(s.Name)
		st.Evaluations++
		for l, n := range o.labels {
			st.Labels[l] += n
		}
		if o.nontrivial {
			st.Nontrivial++
			h := fnv.New64a()
			h.Write(raw)
			hs := w.hashes[s.Name]
			if _, seen := hs[h.Sum64()]; !seen {
				hs[h.Sum64()] = struct{}{}
				if k := len(hs); (k == 1 || k == 7 || k == 50) && len(w.res.Samples[s.Name]) < 3 {
					w.res.Samples[s.Name] = append(w.res.Samples[s.Name], clip(string(raw), 1500))
				}
			}
		}
	}
	return raw, err
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	for n > 0 && !utf8.RuneStart(s[n]) {
		n--
	}
	return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
}

func (w *worker) fail(s *Sub, raw []byte, err error) {
	msg := err.Error()
	if len(msg) > 6000 {
		msg = msg[:4000] + " ... " + msg[len(msg)-1500:]
	}
	w.res.Failure = &failure{Property: w.prop.ID, Sub: s.Name, Error: msg, Case: raw, Seed: w.seed, Tier: w.tier}
}

func (w *worker) one(s *Sub, c any, check func(o *Obs) error) {
	if time.Now().After(w.deadline) {
		w.stats(s.Name).Truncated = true
		return
	}
	if raw, err := w.exec(s, c, check); err != nil {
		w.fail(s, raw, err)
	}
}

type tbStop struct{}

// mainTB lets rapid.Check run outside go test.
type mainTB struct{ fail bool }

func (*mainTB) Helper()                     {}
func (*mainTB) Name() string                { return "verif" }
func (*mainTB) Logf(string, ...any)         {}
func (*mainTB) Log(...any)                  {}
func (*mainTB) Skipf(string, ...any)        {}
func (*mainTB) Skip(...any)                 {}
func (*mainTB) SkipNow()                    {}
func (b *mainTB) Errorf(string, ...any)     { b.fail = true }
func (b *mainTB) Error(...any)              { b.fail = true }
func (b *mainTB) Fatalf(f string, a ...any) { b.fail = true; panic(tbStop{}) }
func (b *mainTB) Fatal(...any)              { b.fail = true; panic(tbStop{}) }
func (b *mainTB) FailNow()                  { b.fail = true; panic(tbStop{}) }
func (b *mainTB) Fail()                     { b.fail = true }
func (b *mainTB) Failed() bool              { return b.fail }

func mix(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	v := h.Sum64()
	v ^= v >> 33
	v *= 0xff51afd7ed558ccd
	v ^= v >> 33
	if v == 0 {
		v = 1
	}
	return v
}

func (w *worker) rapid(s *Sub, n int, prop func(t *rapid.T) (any, func(o *Obs) error)) {
	if n <= 0 {
		return
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(mix(w.seed, "/", w.prop.ID, "/", s.Name, "/", w.shard), 10))
	flag.Set("rapid.nofailfile", "true")
	if w.tier == "quick" {
		flag.Set("rapid.shrinktime", "8s")
	} else {
		flag.Set("rapid.shrinktime", "30s")
	}
	var lastRaw []byte
	var lastErr error
	lastInfra := "no case was judged"
	tb := &mainTB{}
	minimum := n / 20
	ran := 0
	func() {
		defer func() {
			w.quiet = false
			if r := recover(); r != nil {
				if _, ok := r.(tbStop); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			if !w.quiet && ran >= minimum && time.Now().After(w.subEnd) {
				w.stats(s.Name).Truncated = true
				return
			}
			ran++
			defer func() {
				if r := recover(); r != nil {
					if ie, ok := r.(infraError); ok {
						lastInfra = ie.msg
					}
					panic(r)
				}
			}()
			c, check := prop(t)
			raw, err := w.exec(s, c, check)
			if err != nil {
				lastRaw, lastErr = raw, err
				w.quiet = true
				t.Fatalf("violation")
			}
		})
	}()
	if tb.fail {
		if lastErr == nil {
			infraf("%s/%s: the generator failed: %s", w.prop.ID, s.Name, lastInfra)
		}
		w.fail(s, lastRaw, lastErr)
	}
}

func runWorker(p *Prop, tier string, seed uint64, shard, shards int, dir string, only string) {
	w := &worker{prop: p, tier: tier, seed: seed, shard: shard, shards: shards, dir: dir}
	w.res.Subs = map[string]*subStats{}
	w.res.Samples = map[string][]string{}
	w.res.Hashes = map[string][]uint64{}
	w.hashes = map[string]map[uint64]struct{}{}
	var err error
	w.journal, err = os.Create(filepath.Join(dir, fmt.Sprintf("journal.%d", shard)))
	if err != nil {
		infraf("%v", err)
	}
	go w.watchdog()
	w.corpus()

	budget := 120 * time.Second
	if tier == "thorough" {
		budget = 25 * time.Minute
	}
	start := time.Now()
	w.deadline = start.Add(budget)
	for i, s := range p.Subs {
		if w.failed() {
			break
		}
		if only != "" && s.Name != only {
			continue
		}
		if s.Serial && shard != i%shards {
			continue
		}
		if s.Avail != nil && !s.Avail() {
			continue
		}
		n := s.N[0]
		if tier == "thorough" {
			n = s.N[1]
		}
		if !s.Serial {
			n = (n + shards - 1) / shards
		}
		w.subEnd = time.Now().Add(time.Until(w.deadline) / time.Duration(len(p.Subs)-i))
		t0 := time.Now()
		s.run(w, n)
		w.stats(s.Name).Seconds = time.Since(t0).Seconds()
	}
	for name, hs := range w.hashes {
		for h := range hs {
			w.res.Hashes[name] = append(w.res.Hashes[name], h)
		}
	}
	w.res.Done = true
	w.writeResult()
}

// corpus replays the committed regression cases of the property first.
func (w *worker) corpus() {
	files, _ := filepath.Glob(filepath.Join(verifDir(), "corpus", w.prop.ID, "*.json"))
	sort.Strings(files)
	known := knownFindings()
	for i, f := range files {
		if i%w.shards != w.shard || w.failed() {
			continue
		}
		raw, err := os.ReadFile(f)
		if err != nil {
			infraf("%v", err)
		}
		var fl failure
		if err := json.Unmarshal(raw, &fl); err != nil {
			infraf("%s: %v", f, err)
		}
		s := w.prop.sub(fl.Sub)
		if s == nil {
			infraf("%s: no sub %q", f, fl.Sub)
		}
		if s.Avail != nil && !s.Avail() {
			continue
		}
		c := fl.Case
		cs := &Sub{Name: "corpus"}
		craw, verr := w.exec(cs, struct {
			Sub  string          `json:"sub"`
			Case json.RawMessage `json:"case"`
		}{fl.Sub, c}, func(o *Obs) error { return s.replay(c, o) })
		_ = craw
		if verr != nil {
			if what, ok := known[w.prop.ID+" corpus/"+w.prop.ID+"/"+filepath.Base(f)]; ok {
				w.res.Known = append(w.res.Known, what)
				continue
			}
			w.fail(s, c, verr)
		}
	}
}

// knownFindings reads the lines "finding: property=<id> case=<file> <what>".
func knownFindings() map[string]string {
	m := map[string]string{}
	raw, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(raw), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property=")
		if !ok {
			continue
		}
		parts := strings.SplitN(rest, " ", 3)
		if len(parts) == 3 && strings.HasPrefix(parts[1], "case=") {
			m[parts[0]+" "+strings.TrimPrefix(parts[1], "case=")] = parts[2]
		}
	}
	return m
}

func (p *Prop) sub(name string) *Sub {
	for _, s := range p.Subs {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func (w *worker) writeResult() {
	raw, err := json.Marshal(&w.res)
	if err != nil {
		infraf("%v", err)
	}
	tmp := filepath.Join(w.dir, fmt.Sprintf("result.%d.tmp", w.shard))
	if err := os.WriteFile(tmp, raw, 0o644); err != nil {
		infraf("%v", err)
	}
	os.Rename(tmp, filepath.Join(w.dir, fmt.Sprintf("result.%d", w.shard)))
}

const (
	exitTimeout = 42
	exitMemory  = 43
	exitRace    = 66
)

func caseCPULimit() int64 {
	return 40 * int64(time.Second)
}

func (w *worker) watchdog() {
	for {
		time.Sleep(200 * time.Millisecond)
		s := w.started.Load()
		if s != 0 && cpuNow()-s > caseCPULimit() {
			os.Exit(exitTimeout)
		}
		if heapBytes() > 3<<30 {
			os.Exit(exitMemory)
		}
	}
}

func readJournal(dir string, shard int) (sub string, raw json.RawMessage, err error) {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("journal.%d", shard)))
	if err != nil {
		return "", nil, err
	}
	if len(b) < 62 {
		return "", nil, errors.New("no case in the journal")
	}
	n, err := strconv.Atoi(string(b[:20]))
	if err != nil {
		return "", nil, err
	}
	sub = strings.TrimSpace(string(b[21:61]))
	b = b[62:]
	if n > len(b) {
		return "", nil, errors.New("short journal")
	}
	return sub, append(json.RawMessage(nil), b[:n]...), nil
}

// --------------------------------------------------------------- BS string

// BS is a byte string that survives JSON even when it is not valid UTF-8.
type BS string

func (b BS) MarshalJSON() ([]byte, error) {
	s := string(b)
	if utf8.ValidString(s) {
		return json.Marshal(s)
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(s))})
}

func (b *BS) UnmarshalJSON(raw []byte) error {
	if len(raw) > 0 && raw[0] == '"' {
		var s string
		if err := json.Unmarshal(raw, &s); err != nil {
			return err
		}
		*b = BS(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(raw, &m); err != nil {
		return err
	}
	d, err := base64.StdEncoding.DecodeString(m["b64"])
	*b = BS(d)
	return err
}

var _ = testing.Short
