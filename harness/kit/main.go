package kit

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// VerifDir is the root of the verification tree.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type workerCfg struct {
	Prop, Facet string
	Seed        uint64
	Checks      int
	Out         string
	CaseFile    string
	Isolated    bool
	Replay      string // path of a replay file: run that one case only
	Known       []string
}

type workerResult struct {
	Evaluations int
	Hashes      []uint64
	Labels      map[string]int
	Samples     []json.RawMessage
	KnownHit    map[string]string
	FailCase    json.RawMessage
	FailErr     string
	Shrunk      bool
	Inconcl     string
	HarnessErr  string
}

const maxCaseBytes = 32 << 20

// Main is the entry point of every check binary.
//
//	bin check  <ID> <tier>   run a check
//	bin replay <file>        re-run one recorded case
//	bin list                 list the properties of this binary
func Main(props ...*Property) {
	byID := map[string]*Property{}
	for _, p := range props {
		byID[p.ID] = p
	}
	if w := os.Getenv("VK_WORKER"); w != "" {
		var cfg workerCfg
		if err := json.Unmarshal([]byte(w), &cfg); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		runWorker(byID[cfg.Prop], cfg)
		return
	}
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: check <ID> [quick|thorough] | replay <file> | list")
		os.Exit(3)
	}
	switch args[0] {
	case "list":
		for _, p := range props {
			fmt.Println(p.ID)
		}
	case "check":
		if len(args) < 2 || byID[args[1]] == nil {
			fmt.Fprintln(os.Stderr, "unknown property")
			os.Exit(3)
		}
		tier := "quick"
		if len(args) > 2 {
			tier = args[2]
		} else if t := os.Getenv("VERIF_TIER"); t != "" {
			tier = t
		}
		os.Exit(runProperty(byID[args[1]], tier))
	case "replay":
		os.Exit(runReplay(byID, args[1]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(3)
	}
}

// ---------------------------------------------------------------- worker

type wtb struct{ failed bool }

func (t *wtb) Helper()              {}
func (t *wtb) Name() string         { return "vk" }
func (t *wtb) Logf(string, ...any)  {}
func (t *wtb) Log(...any)           {}
func (t *wtb) Skipf(string, ...any) { runtime.Goexit() }
func (t *wtb) Skip(...any)          { runtime.Goexit() }
func (t *wtb) SkipNow()             { runtime.Goexit() }
func (t *wtb) Errorf(f string, a ...any) {
	t.failed = true
	t.lastErr(fmt.Sprintf(f, a...))
}
func (t *wtb) lastErr(s string) {
	if os.Getenv("VK_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, s)
	}
	rapidMsg = s
}
func (t *wtb) Error(a ...any)            { t.Errorf("%s", fmt.Sprint(a...)) }
func (t *wtb) Fatalf(f string, a ...any) { t.Errorf(f, a...); t.FailNow() }
func (t *wtb) Fatal(a ...any)            { t.Errorf("%s", fmt.Sprint(a...)); t.FailNow() }
func (t *wtb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *wtb) Fail()                     { t.failed = true }
func (t *wtb) Failed() bool              { return t.failed }

var rapidMsg string

type caseRecorder struct{ mem []byte }

func newCaseRecorder(path string) *caseRecorder {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return &caseRecorder{}
	}
	defer f.Close()
	if f.Truncate(maxCaseBytes) != nil {
		return &caseRecorder{}
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, maxCaseBytes, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return &caseRecorder{}
	}
	return &caseRecorder{mem}
}

func (r *caseRecorder) put(b []byte) {
	if r.mem == nil || len(b)+8 > len(r.mem) {
		return
	}
	binary.LittleEndian.PutUint64(r.mem, 0)
	copy(r.mem[8:], b)
	binary.LittleEndian.PutUint64(r.mem, uint64(len(b)))
}

func readCase(path string) []byte {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var h [8]byte
	if _, err := f.ReadAt(h[:], 0); err != nil {
		return nil
	}
	n := binary.LittleEndian.Uint64(h[:])
	if n == 0 || n > maxCaseBytes {
		return nil
	}
	b := make([]byte, n)
	if _, err := f.ReadAt(b, 8); err != nil {
		return nil
	}
	return b
}

func runWorker(p *Property, cfg workerCfg) {
	debug.SetMaxStack(256 << 20)
	limitMemory()
	go watchdog()
	if p == nil {
		os.Exit(3)
	}
	f := p.facet(cfg.Facet)
	res := workerResult{Labels: map[string]int{}, KnownHit: map[string]string{}}
	known := map[string]bool{}
	for _, k := range cfg.Known {
		known[k] = true
	}
	finish := func() {
		b, err := json.Marshal(res)
		if err == nil {
			err = os.WriteFile(cfg.Out+".tmp", b, 0o600)
		}
		if err == nil {
			err = os.Rename(cfg.Out+".tmp", cfg.Out)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		os.Exit(0)
	}
	if cfg.Replay != "" {
		raw, err := os.ReadFile(cfg.Replay)
		var rf ReplayFile
		if err == nil {
			err = json.Unmarshal(raw, &rf)
		}
		if err != nil || f == nil {
			res.HarnessErr = fmt.Sprintf("cannot load replay %s: %v", cfg.Replay, err)
			finish()
		}
		c, err := f.decode(rf.Case)
		if err != nil {
			res.HarnessErr = fmt.Sprintf("cannot decode replay %s: %v", cfg.Replay, err)
			finish()
		}
		ctx := &Ctx{known: known}
		cerr, herr := runCheck(f, ctx, c)
		res.Evaluations = 1
		res.KnownHit = ctx.knownHit
		res.HarnessErr = herr
		res.Inconcl = ctx.Inconcl
		if ctx.nontrivial {
			res.Hashes = append(res.Hashes, hash64(cfg.Facet, string(rf.Case)))
		}
		if cerr != nil {
			res.FailErr = cerr.Error()
			res.FailCase = rf.Case
		}
		finish()
	}

	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	must := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	must("rapid.checks", strconv.Itoa(cfg.Checks))
	must("rapid.seed", strconv.FormatUint(cfg.Seed, 10))
	must("rapid.nofailfile", "true")
	must("rapid.shrinktime", "20s")

	rec := newCaseRecorder(cfg.CaseFile)
	hashes := map[uint64]struct{}{}
	failing := false
	var firstCase json.RawMessage
	var firstErr string
	prop := func(t *rapid.T) {
		c := f.gen(t)
		raw := mustJSON(c)
		rec.put(raw)
		ctx := &Ctx{known: known}
		var err error
		var herr string
		if cfg.Isolated {
			err, herr = isolatedCheck(p.ID, f.Name, raw, cfg.Known)
		} else {
			// Run the oracle on the decoded form, so that a replay sees the same case.
			dc, derr := f.decode(raw)
			if derr != nil {
				herr = "case does not survive JSON: " + derr.Error()
			} else {
				err, herr = runCheck(f, ctx, dc)
			}
		}
		if failing && (herr != "" || ctx.Inconcl != "") {
			return // not a smaller case of what fails
		}
		if herr == "" && ctx.Inconcl != "" {
			res.Inconcl = ctx.Inconcl
			finishEarly(&res, hashes, finish)
		}
		if herr != "" {
			res.HarnessErr = herr
			res.FailCase = raw
			finishEarly(&res, hashes, finish)
		}
		if !failing {
			res.Evaluations++
			for _, l := range ctx.labels {
				res.Labels[l]++
			}
			for k, v := range ctx.knownHit {
				res.KnownHit[k] = v
			}
			if ctx.nontrivial {
				hashes[hash64(f.Name, string(raw))] = struct{}{}
				if len(res.Samples) < 2 && len(raw) < 1500 {
					res.Samples = append(res.Samples, raw)
				}
			}
		}
		if err != nil {
			if !failing {
				failing = true
				firstCase, firstErr = raw, err.Error()
			}
			res.FailCase, res.FailErr = raw, err.Error()
			t.Fatalf("%s", "violation")
		}
	}
	tb := &wtb{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, prop)
	}()
	<-done
	if tb.failed && !failing {
		res.HarnessErr = "rapid: " + rapidMsg
	}
	if failing {
		res.Shrunk = !bytes.Equal(firstCase, res.FailCase)
		if res.FailErr == "" {
			res.FailCase, res.FailErr = firstCase, firstErr
		}
		fails := func(raw json.RawMessage) error {
			rec.put(raw)
			if cfg.Isolated {
				err, herr := isolatedCheck(p.ID, f.Name, raw, cfg.Known)
				if herr != "" {
					return nil
				}
				return err
			}
			c, derr := f.decode(raw)
			if derr != nil {
				return nil
			}
			ctx := &Ctx{known: known}
			err, herr := runCheck(f, ctx, c)
			if herr != "" || ctx.Inconcl != "" {
				return nil
			}
			return err
		}
		if f.list != "" && leaveOut(&res.FailCase, &res.FailErr, f.list, fails, time.Now().Add(15*time.Second)) {
			res.Shrunk = true
		}
	}
	finishEarly(&res, hashes, finish)
}

// leaveOut leaves elements of a list of a failing case out, in ever smaller
// runs, as long as the case fails.
func leaveOut(c *json.RawMessage, msg *string, field string, fails func(json.RawMessage) error, until time.Time) (smaller bool) {
	var fields map[string]json.RawMessage
	var list []json.RawMessage
	if json.Unmarshal(*c, &fields) != nil || json.Unmarshal(fields[field], &list) != nil {
		return false
	}
	for run := max(1, len(list)/2); ; {
		found := false
		for at := len(list) - run; at >= 0; at = min(at-1, len(list)-run) {
			if time.Now().After(until) {
				return smaller
			}
			less := append(append([]json.RawMessage{}, list[:at]...), list[at+run:]...)
			fields[field] = mustJSON(less)
			raw := json.RawMessage(mustJSON(fields))
			if err := fails(raw); err != nil {
				list, *c, *msg = less, raw, err.Error()
				smaller, found = true, true
			}
		}
		switch {
		case run > 1:
			run = run / 2
		case !found:
			return smaller
		}
	}
}

func finishEarly(res *workerResult, hashes map[uint64]struct{}, finish func()) {
	for h := range hashes {
		res.Hashes = append(res.Hashes, h)
	}
	sort.Slice(res.Hashes, func(i, j int) bool { return res.Hashes[i] < res.Hashes[j] })
	finish()
}

// ---------------------------------------------------------------- process runs

type procOutcome struct {
	res     *workerResult
	crash   string // crash of the code under test
	harness string // anything that is not a verdict
	stderr  string
}

var procSeq struct {
	sync.Mutex
	n int
}

func runProc(cfg workerCfg, dir string, timeout time.Duration) procOutcome {
	procSeq.Lock()
	procSeq.n++
	id := procSeq.n
	procSeq.Unlock()
	cfg.Out = filepath.Join(dir, fmt.Sprintf("out-%d-%d.json", os.Getpid(), id))
	if cfg.CaseFile == "" {
		cfg.CaseFile = filepath.Join(dir, fmt.Sprintf("case-%d-%d", os.Getpid(), id))
		defer os.Remove(cfg.CaseFile)
	}
	defer os.Remove(cfg.Out)
	self, err := os.Executable()
	if err != nil {
		return procOutcome{harness: err.Error()}
	}
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "VK_WORKER="+string(mustJSON(cfg)), "GOTRACEBACK=all")
	var eb, ob limitedBuffer
	cmd.Stderr, cmd.Stdout = &eb, &ob
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return procOutcome{harness: err.Error()}
	}
	timedOut := false
	timer := time.AfterFunc(timeout, func() { timedOut = true; cmd.Process.Kill() })
	werr := cmd.Wait()
	timer.Stop()
	st := eb.String()
	raw, rerr := os.ReadFile(cfg.Out)
	if werr == nil && rerr == nil {
		var r workerResult
		if err := json.Unmarshal(raw, &r); err != nil {
			return procOutcome{harness: err.Error(), stderr: st}
		}
		return procOutcome{res: &r, stderr: st}
	}
	if timedOut {
		return procOutcome{harness: fmt.Sprintf("worker exceeded %v", timeout), stderr: st}
	}
	ws, _ := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Exited() && ws.ExitStatus() == 2 {
		if msg, ok := crashOf(st); ok {
			return procOutcome{crash: msg, stderr: st}
		}
	}
	return procOutcome{harness: fmt.Sprintf("worker died: %v", werr), stderr: st}
}

// crashOf interprets the stderr of a Go process that died by panic or fatal
// error, and says whether the code under test is to blame.
func crashOf(st string) (string, bool) {
	idx := -1
	for _, mark := range []string{"panic: ", "fatal error: ", "runtime: goroutine stack exceeds", "unexpected fault address"} {
		i := strings.Index("\n"+st, "\n"+mark)
		if i >= 0 && (idx < 0 || i < idx) {
			idx = i
		}
	}
	if idx < 0 {
		return "", false
	}
	head := st[idx:]
	g := strings.Index(head, "\ngoroutine ")
	if g < 0 {
		return "", false
	}
	block := head[g+1:]
	if e := strings.Index(block, "\n\n"); e >= 0 {
		block = block[:e]
	}
	if ok, fr := blameStack(block); ok {
		return strings.TrimSpace(firstLine(head)) + " (at " + fr + ")", true
	}
	return "", false
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

type limitedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *limitedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if room := (4 << 20) - l.b.Len(); room > 0 {
		if len(p) < room {
			room = len(p)
		}
		l.b.Write(p[:room])
	}
	return len(p), nil
}
func (l *limitedBuffer) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

// isolatedCheck runs one case in a process of its own.
func isolatedCheck(prop, facet string, raw []byte, known []string) (err error, herr string) {
	dir, e := os.MkdirTemp("", "vkiso")
	if e != nil {
		return nil, e.Error()
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "case.json")
	if e := os.WriteFile(path, mustJSON(ReplayFile{Property: prop, Facet: facet, Case: raw}), 0o600); e != nil {
		return nil, e.Error()
	}
	o := runProc(workerCfg{Prop: prop, Facet: facet, Replay: path, Known: known}, dir, 120*time.Second)
	switch {
	case o.crash != "":
		return fmt.Errorf("%s", o.crash), ""
	case o.harness != "":
		return nil, o.harness + "\n" + tail(o.stderr)
	case o.res.HarnessErr != "":
		return nil, o.res.HarnessErr
	case o.res.Inconcl != "":
		return nil, "inconclusive: " + o.res.Inconcl
	case o.res.FailErr != "":
		return fmt.Errorf("%s", o.res.FailErr), ""
	}
	return nil, ""
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[:1500] + "\n...\n" + s[len(s)-1500:]
	}
	return s
}

// ---------------------------------------------------------------- parent

type knownEntry struct{ key, text string }

// loadKnown reads /verif/known_findings.txt. Lines:
//
//	known: property=<id> key=<key> <what fails>
//	fixed: property=<id> <commit> <what failed>      (suppresses nothing)
func loadKnown(id string) []knownEntry {
	b, err := os.ReadFile(filepath.Join(VerifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownEntry
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" key=")
		k, text, _ := strings.Cut(rest, " ")
		out = append(out, knownEntry{k, text})
	}
	return out
}

func runProperty(p *Property, tier string) int {
	start := time.Now()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	dir, err := os.MkdirTemp("", "vk-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	known := loadKnown(p.ID)
	var keys []string
	for _, k := range known {
		keys = append(keys, k.key)
	}

	type job struct {
		cfg   workerCfg
		label string
		saved string
	}
	var jobs []job
	// Saved inputs first.
	saved, _ := filepath.Glob(filepath.Join(VerifDir(), "corpus", p.ID, "*.json"))
	sort.Strings(saved)
	for _, s := range saved {
		raw, err := os.ReadFile(s)
		var rf ReplayFile
		if err == nil {
			err = json.Unmarshal(raw, &rf)
		}
		if err != nil || p.facet(rf.Facet) == nil {
			fmt.Fprintf(os.Stderr, "ERROR: bad corpus file %s: %v\n", s, err)
			return 3
		}
		jobs = append(jobs, job{workerCfg{Prop: p.ID, Facet: rf.Facet, Replay: s, Known: keys}, "corpus " + filepath.Base(s), s})
	}
	only := os.Getenv("VK_FACET")
	for i := range p.Facets {
		f := &p.Facets[i]
		if only != "" && f.Name != only {
			continue
		}
		n := f.Quick
		if tier == "thorough" {
			n = f.Thorough
		}
		for b := 0; n > 0; b++ {
			c := f.Batch
			if c > n {
				c = n
			}
			n -= c
			s := hash64(strconv.FormatInt(seed, 10), p.ID, f.Name, strconv.Itoa(b))
			if s == 0 {
				s = 1
			}
			jobs = append(jobs, job{workerCfg{Prop: p.ID, Facet: f.Name, Seed: s, Checks: c, Known: keys}, fmt.Sprintf("%s/%d", f.Name, b), ""})
		}
	}

	total := workerResult{Labels: map[string]int{}, KnownHit: map[string]string{}}
	perFacet := map[string]int{}
	hashes := map[uint64]struct{}{}
	samples := map[string][]json.RawMessage{}
	type failure struct {
		idx    int
		facet  string
		c      json.RawMessage
		err    string
		shrunk bool
	}
	var mu sync.Mutex
	var fail *failure
	var harnessErr string
	next := 0
	par := runtime.NumCPU()
	if v := os.Getenv("VK_PAR"); v != "" {
		par, _ = strconv.Atoi(v)
	}
	if par < 1 {
		par = 1
	}
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(jobs) || fail != nil || harnessErr != "" {
					mu.Unlock()
					return
				}
				idx := next
				next++
				j := jobs[idx]
				mu.Unlock()
				cf := filepath.Join(dir, fmt.Sprintf("case-%d", w))
				j.cfg.CaseFile = cf
				os.Remove(cf)
				o := runProc(j.cfg, dir, 600*time.Second)
				if o.crash != "" {
					// The process died inside the code under test. Shrink by
					// re-running the batch with each case in its own process.
					raw := readCase(cf)
					if j.saved != "" {
						b, _ := os.ReadFile(j.saved)
						var rf ReplayFile
						_ = json.Unmarshal(b, &rf)
						raw = rf.Case
					}
					fl := &failure{idx: idx, facet: j.cfg.Facet, c: raw, err: o.crash}
					mu.Lock()
					first := fail == nil
					if first || idx < fail.idx {
						fail = fl
					}
					mu.Unlock()
					if first && j.saved == "" {
						iso := j.cfg
						iso.Isolated = true
						iso.CaseFile = filepath.Join(dir, fmt.Sprintf("isocase-%d", w))
						o2 := runProc(iso, dir, 180*time.Second)
						if o2.res != nil && o2.res.FailErr != "" {
							mu.Lock()
							fl.c, fl.err, fl.shrunk = o2.res.FailCase, o2.res.FailErr, true
							mu.Unlock()
						}
					}
					return
				}
				mu.Lock()
				if o.harness != "" {
					harnessErr = fmt.Sprintf("%s: %s\n%s\ncase: %s", j.label, o.harness, tail(o.stderr), clip(readCase(cf)))
					mu.Unlock()
					return
				}
				r := o.res
				total.Evaluations += r.Evaluations
				perFacet[j.cfg.Facet] += r.Evaluations
				for _, h := range r.Hashes {
					hashes[h] = struct{}{}
				}
				for k, v := range r.Labels {
					total.Labels[k] += v
				}
				for k, v := range r.KnownHit {
					total.KnownHit[k] = v
				}
				if len(samples[j.cfg.Facet]) < 2 {
					samples[j.cfg.Facet] = append(samples[j.cfg.Facet], r.Samples...)
				}
				if r.FailErr != "" {
					if fail == nil || idx < fail.idx {
						fail = &failure{idx, j.cfg.Facet, r.FailCase, r.FailErr, r.Shrunk}
					}
				} else if r.HarnessErr != "" {
					harnessErr = j.label + ": " + r.HarnessErr + "\ncase: " + clip(r.FailCase)
				} else if r.Inconcl != "" {
					harnessErr = j.label + ": inconclusive: " + r.Inconcl + "\ncase: " + clip(readCase(cf))
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()

	violations := 0
	if fail != nil {
		violations = 1
	}
	var smp []any
	var fnames []string
	for k := range samples {
		fnames = append(fnames, k)
	}
	sort.Strings(fnames)
	for _, k := range fnames {
		for i, s := range samples[k] {
			if i < 2 {
				smp = append(smp, map[string]any{"facet": k, "case": s})
			}
		}
	}
	if smp == nil {
		smp = []any{}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":          total.Evaluations,
			"distinct_nontrivial":  len(hashes),
			"rule":                 p.Rule,
			"samples":              smp,
			"evaluations_by_facet": perFacet,
			"classes":              total.Labels,
			"saved_inputs":         len(saved),
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	evb, _ := json.MarshalIndent(ev, "", " ")
	evPath := filepath.Join(VerifDir(), "evidence", p.ID+".json")
	_ = os.MkdirAll(filepath.Dir(evPath), 0o755)
	if err := os.WriteFile(evPath, append(evb, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "ERROR: cannot write evidence:", err)
		return 3
	}

	if fail != nil {
		rf := ReplayFile{Property: p.ID, Facet: fail.facet, Error: fail.err, Seed: seed, Shrunk: fail.shrunk, Case: fail.c}
		b, _ := json.MarshalIndent(rf, "", " ")
		dst := filepath.Join(VerifDir(), "out", "violations", fmt.Sprintf("%s-%s-%016x.json", p.ID, strings.ReplaceAll(fail.facet, " ", "-"), hash64(string(fail.c))))
		_ = os.MkdirAll(filepath.Dir(dst), 0o755)
		if err := os.WriteFile(dst, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "ERROR:", err)
			return 3
		}
		fmt.Printf("facet %s: %s\ncase: %s\n", fail.facet, fail.err, clip(fail.c))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, dst)
		return 1
	}
	if harnessErr != "" {
		fmt.Fprintln(os.Stderr, "ERROR:", harnessErr)
		return 3
	}
	for _, k := range known {
		if _, ok := total.KnownHit[k.key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.text)
		}
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n",
		p.ID, tier, seed, total.Evaluations, len(hashes), time.Since(start).Seconds())
	return 0
}

func clip(b []byte) string {
	if len(b) > 2000 {
		return string(b[:2000]) + "..."
	}
	return string(b)
}

func runReplay(byID map[string]*Property, path string) int {
	raw, err := os.ReadFile(path)
	var rf ReplayFile
	if err == nil {
		err = json.Unmarshal(raw, &rf)
	}
	if err != nil || byID[rf.Property] == nil {
		fmt.Fprintln(os.Stderr, "ERROR: cannot load", path, err)
		return 3
	}
	cerr, herr := isolatedCheck(rf.Property, rf.Facet, rf.Case, nil)
	if herr != "" {
		fmt.Fprintln(os.Stderr, "ERROR:", herr)
		return 3
	}
	if cerr != nil {
		fmt.Println(cerr)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		return 1
	}
	fmt.Println("OK")
	return 0
}
