package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const (
	exitViolation = 1
	exitError     = 3
	exitRunaway   = 97 // a case used too much processor time or memory
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: pbt run|worker|replay|list")
		os.Exit(exitError)
	}
	switch os.Args[1] {
	case "run":
		runCmd(os.Args[2:])
	case "worker":
		workerCmd(os.Args[2:])
	case "replay":
		replayCmd(os.Args[2:])
	case "list":
		for _, p := range properties {
			for _, s := range p.Suites {
				fmt.Println(p.ID, s.name(), s.weight())
			}
		}
	default:
		os.Exit(exitError)
	}
}

// ---- current case, visible to the parent after a crash ----

const curSize = 8 << 20

type curFile struct{ mem []byte }

func openCur(path string) *curFile {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err == nil {
		err = f.Truncate(curSize)
	}
	if err != nil {
		fatal(err)
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatal(err)
	}
	f.Close()
	return &curFile{mem}
}

func (c *curFile) store(idx int, data []byte) {
	binary.LittleEndian.PutUint64(c.mem, uint64(idx))
	n := len(data)
	if n > curSize-16 {
		n = 0
	}
	copy(c.mem[16:], data[:n])
	binary.LittleEndian.PutUint64(c.mem[8:], uint64(n))
}

func readCur(path string) (idx int, data []byte) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 16 {
		return -1, nil
	}
	n := binary.LittleEndian.Uint64(b[8:])
	if n == 0 || n > uint64(len(b)-16) {
		return -1, nil
	}
	return int(binary.LittleEndian.Uint64(b)), b[16 : 16+n]
}

func fatal(args ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"pbt:"}, args...)...)
	os.Exit(exitError)
}

// ---- watchdog ----

var caseNo atomic.Int64

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// watchdog ends the process if one case uses more processor time or memory
// than any correct run comes near. It goes by processor time so that a busy
// machine does not matter.
func watchdog(limit time.Duration) {
	runtime.GOMAXPROCS(2)
	debug.SetMaxStack(512 << 20)
	go func() {
		last, at := int64(-1), time.Duration(0)
		for {
			time.Sleep(100 * time.Millisecond)
			n := caseNo.Load()
			now := cpuTime()
			if n != last {
				last, at = n, now
			} else if now-at > limit {
				fmt.Fprintf(os.Stderr, "runaway: case used more than %v of processor time\n", limit)
				os.Exit(exitRunaway)
			}
			if rss() > 3<<30 {
				fmt.Fprintln(os.Stderr, "runaway: case used more than 3 GB of memory")
				os.Exit(exitRunaway)
			}
		}
	}()
}

// ---- worker ----

type workerResult struct {
	Evals      int
	NonTrivial int
	Labels     map[string]int
	Samples    []json.RawMessage
	Failed     bool
	Case       json.RawMessage
	Error      string
}

type quietTB struct {
	failed bool
	msg    string
}

type stop struct{}

func (q *quietTB) Helper()                   {}
func (q *quietTB) Name() string              { return "pbt" }
func (q *quietTB) Logf(string, ...any)       {}
func (q *quietTB) Log(...any)                {}
func (q *quietTB) Skipf(string, ...any)      { panic(stop{}) }
func (q *quietTB) Skip(...any)               { panic(stop{}) }
func (q *quietTB) SkipNow()                  { panic(stop{}) }
func (q *quietTB) Errorf(f string, a ...any) { q.failed = true; q.msg = fmt.Sprintf(f, a...) }
func (q *quietTB) Error(a ...any)            { q.failed = true; q.msg = fmt.Sprint(a...) }
func (q *quietTB) Fatalf(f string, a ...any) { q.Errorf(f, a...); panic(stop{}) }
func (q *quietTB) Fatal(a ...any)            { q.Error(a...); panic(stop{}) }
func (q *quietTB) FailNow()                  { q.failed = true; panic(stop{}) }
func (q *quietTB) Fail()                     { q.failed = true }
func (q *quietTB) Failed() bool              { return q.failed }

func rapidCheck(seed uint64, checks int, shrink string, prop func(*rapid.T)) *quietTB {
	testing.Init()
	flag.CommandLine.Parse([]string{
		"-rapid.checks=" + strconv.Itoa(checks),
		"-rapid.seed=" + strconv.FormatUint(seed, 10),
		"-rapid.nofailfile",
		"-rapid.shrinktime=" + shrink,
	})
	tb := &quietTB{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(tb, prop)
	}()
	return tb
}

func workerCmd(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	pid := fs.String("property", "", "")
	sn := fs.String("suite", "", "")
	seed := fs.Uint64("seed", 1, "")
	checks := fs.Int("checks", 100, "")
	dir := fs.String("dir", "", "")
	isolate := fs.Int("isolate", -1, "run the cases from this one on in their own process")
	cpu := fs.Duration("cpu", 20*time.Second, "")
	until := fs.Int64("until", 0, "draw no more cases after this time")
	fs.Parse(args)

	s := propertyByID(*pid).suite(*sn)
	if err := os.Chdir(*dir); err != nil {
		fatal(err)
	}
	cur := openCur("cur")
	if *isolate < 0 {
		watchdog(*cpu)
	}

	res := &workerResult{Labels: map[string]int{}}
	seen := map[uint64]bool{}
	idx := 0
	shrinking := false
	tb := rapidCheck(*seed, *checks, "20s", func(t *rapid.T) {
		if *until != 0 && !shrinking && time.Now().Unix() > *until {
			return
		}
		c := s.draw(t)
		data, err := json.Marshal(c)
		if err != nil {
			fatal(err)
		}
		n := idx
		idx++
		if *isolate >= 0 {
			if n < *isolate {
				return
			}
			if msg := isolated(*pid, *sn, data, *cpu); msg != "" {
				res.fail(data, msg)
				t.Fatalf("violated")
			}
			return
		}
		cur.store(n, data)
		caseNo.Add(1)
		o := newObs()
		err = s.check(c, o)
		if !shrinking {
			res.Evals++
			for l := range o.labels {
				res.Labels[l]++
			}
			if o.nontrivial {
				h := hash64(string(data))
				if !seen[h] {
					seen[h] = true
					res.NonTrivial++
					k := len(seen)
					if k&(k-1) == 0 && len(data) < 2000 && len(res.Samples) < 12 {
						res.Samples = append(res.Samples, append([]byte(nil), data...))
					}
				}
			}
		}
		if err != nil {
			shrinking = true
			res.fail(data, err.Error())
			t.Fatalf("violated")
		}
	})
	if tb.failed && !res.Failed {
		fatal("rapid: ", tb.msg)
	}
	hs := make([]byte, 0, 8*len(seen))
	for h := range seen {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	if err := os.WriteFile("hashes", hs, 0o600); err != nil {
		fatal(err)
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile("result.json", b, 0o600); err != nil {
		fatal(err)
	}
}

// fail keeps the smallest failing case
func (r *workerResult) fail(data []byte, msg string) {
	if !r.Failed || len(data) <= len(r.Case) {
		r.Failed = true
		r.Case = append([]byte(nil), data...)
		r.Error = msg
	}
}

// strict makes checks report what they know to be a finding.
var strict bool

// knownFindings prints a line for each listed finding that still fails.
func knownFindings(pid string) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+pid+" suite=")
		if !ok {
			continue
		}
		f := strings.SplitN(rest, " ", 3)
		if len(f) != 3 || !strings.HasPrefix(f[1], "case=") {
			fatal("bad line in known_findings.txt:", l)
		}
		data := []byte(strings.TrimPrefix(f[1], "case="))
		if isolated(pid, f[0], data, 40*time.Second, "-strict") != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", pid, f[2], data)
		}
	}
}

// isolated runs one case in its own process and returns what went wrong.
func isolated(pid, sn string, data []byte, cpu time.Duration, extra ...string) string {
	f, err := os.CreateTemp("", "pbtcase")
	if err != nil {
		fatal(err)
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(&Replay{Property: pid, Suite: sn, Case: data})
	f.Write(b)
	f.Close()
	var out bytes.Buffer
	args := append([]string{"replay", "-once", "-cpu", cpu.String()}, extra...)
	cmd := exec.Command(self(), append(args, f.Name())...)
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	if err == nil {
		return ""
	}
	return brief(out.String())
}

func brief(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.HasPrefix(l, "goroutine ") || strings.HasPrefix(l, "\t") && len(out) > 14 {
			continue
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		if len(l) > 400 {
			l = l[:400]
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	return p
}

// ---- replay ----

// Replay is a failing case, as saved for a VIOLATION line.
type Replay struct {
	Property string          `json:"property"`
	Suite    string          `json:"suite"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error,omitempty"`
	// if the case fails only after the cases before it, these reproduce it
	Mode   string `json:"mode,omitempty"` // "case" or "sequence"
	Seed   uint64 `json:"seed,omitempty"`
	Checks int    `json:"checks,omitempty"`
}

func replayCmd(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	once := fs.Bool("once", false, "")
	fs.BoolVar(&strict, "strict", false, "known findings are violations too")
	cpu := fs.Duration("cpu", 40*time.Second, "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fatal(err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatal(err)
	}
	p := propertyByID(r.Property)
	if p == nil || p.suite(r.Suite) == nil {
		fatal("unknown property or suite in", fs.Arg(0))
	}
	if r.Mode == "sequence" {
		dir, err := os.MkdirTemp("", "pbtreplay")
		if err != nil {
			fatal(err)
		}
		j := &job{p: p, s: p.suite(r.Suite), seed: r.Seed, checks: r.Checks, dir: dir}
		j.run(nil)
		os.RemoveAll(dir)
		if j.res != nil && j.res.Failed {
			fmt.Println(j.res.Error)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
			os.Exit(exitViolation)
		}
		fmt.Println("holds for the saved sequence")
		return
	}
	s := p.suite(r.Suite)
	watchdog(*cpu)
	n := 20 // some failures depend on the order of a Go map
	if *once {
		n = 3
	}
	for i := 0; i < n; i++ {
		c, err := s.decode(r.Case)
		if err != nil {
			fatal(err)
		}
		caseNo.Add(1)
		if err := s.check(c, newObs()); err != nil {
			fmt.Println(err)
			if !*once {
				fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
			}
			os.Exit(exitViolation)
		}
	}
	fmt.Println("holds for the saved case")
}

// ---- parent ----

type job struct {
	p      *Property
	s      Suite
	shard  int
	seed   uint64
	checks int
	budget time.Duration
	dir    string
	res    *workerResult
	crash  string // how the worker died, if it did
	cmd    *exec.Cmd
}

func (j *job) run(extra []string, onStart ...func(*exec.Cmd)) {
	os.MkdirAll(j.dir, 0o700)
	args := []string{"worker", "-property", j.p.ID, "-suite", j.s.name(),
		"-seed", strconv.FormatUint(j.seed, 10), "-checks", strconv.Itoa(j.checks), "-dir", j.dir}
	if j.budget != 0 {
		args = append(args, "-until", strconv.FormatInt(time.Now().Add(j.budget).Unix(), 10))
	}
	cmd := exec.Command(self(), append(args, extra...)...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err := cmd.Start()
	if err == nil {
		for _, f := range onStart {
			f(cmd)
		}
		err = cmd.Wait()
	}
	if b, e := os.ReadFile(filepath.Join(j.dir, "result.json")); e == nil && err == nil {
		var r workerResult
		if json.Unmarshal(b, &r) == nil {
			j.res = &r
			return
		}
	}
	j.crash = fmt.Sprintf("%v\n%s", err, brief(out.String()))
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func runCmd(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	pid := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	only := fs.String("suite", "", "only this suite")
	scale := fs.Float64("scale", 1, "scale the number of cases")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	start := time.Now()
	p := propertyByID(*pid)
	if p == nil {
		fatal("unknown property", *pid)
	}
	mult := *scale
	if *tier == "thorough" {
		mult *= 40
	}
	scratch, err := os.MkdirTemp("", "pbt-"+p.ID+"-")
	if err != nil {
		fatal(err)
	}
	code := p.run(*tier, *seed, *only, mult, scratch, *verbose, start)
	os.RemoveAll(scratch)
	os.Exit(code)
}

func (p *Property) run(tier string, seed int64, only string, mult float64, scratch string, verbose bool, start time.Time) int {
	// always the same number of shards, so that the cases do not depend on the
	// machine
	const shards = 8
	// the counts decide how much is explored; this is for a slow machine only
	budget := 400 * time.Second
	if tier == "thorough" {
		budget = 600 * time.Second
	}
	if only == "" {
		budget /= time.Duration(len(p.Suites))
	}
	var jobs []*job
	for k := 0; k < shards; k++ {
		for _, s := range p.Suites {
			if only != "" && s.name() != only {
				continue
			}
			per := (int(float64(s.weight())*mult) + shards - 1) / shards
			jobs = append(jobs, &job{p: p, s: s, shard: k, checks: per, budget: budget,
				seed: hash64(seed, "/", p.ID, "/", s.name(), "/", k),
				dir:  filepath.Join(scratch, fmt.Sprintf("%s.%d", s.name(), k))})
		}
	}

	var mu sync.Mutex
	stopped := false
	running := map[*job]*exec.Cmd{}
	ch := make(chan *job)
	var wg sync.WaitGroup
	for i := 0; i < min(shards, runtime.NumCPU()); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				mu.Lock()
				skip := stopped
				mu.Unlock()
				if skip {
					continue
				}
				j.run(nil, func(c *exec.Cmd) {
					mu.Lock()
					running[j] = c
					mu.Unlock()
				})
				mu.Lock()
				delete(running, j)
				if stopped {
					// ended by us
					if j.res == nil {
						j.crash = ""
					}
				} else if j.crash != "" || (j.res != nil && j.res.Failed) {
					stopped = true
					for _, c := range running {
						c.Process.Kill()
					}
				}
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()

	var rep *Replay
	var problems []string
	for _, j := range jobs {
		if rep != nil {
			break
		}
		switch {
		case j.res != nil && j.res.Failed:
			rep = confirm(j, &problems)
		case j.crash != "":
			rep = confirmCrash(j, &problems)
		}
	}
	knownFindings(p.ID)
	p.evidence(tier, seed, jobs, rep, start, verbose)
	if rep != nil {
		path := saveReplay(rep)
		fmt.Printf("property %s is violated, suite %s:\n%s\ncase: %s\n", rep.Property, rep.Suite, rep.Error, abbreviate(string(rep.Case), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, path)
		return exitViolation
	}
	if len(problems) > 0 {
		for _, s := range problems {
			fmt.Fprintln(os.Stderr, "pbt:", s)
		}
		return exitError
	}
	return 0
}

func abbreviate(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// confirm runs the reported case again in a fresh process.
func confirm(j *job, problems *[]string) *Replay {
	r := &Replay{Property: j.p.ID, Suite: j.s.name(), Case: j.res.Case, Error: j.res.Error, Mode: "case"}
	for i := 0; i < 5; i++ {
		if isolated(r.Property, r.Suite, r.Case, 40*time.Second) != "" {
			return r
		}
	}
	// it may need the cases before it
	again := &job{p: j.p, s: j.s, seed: j.seed, checks: j.checks, budget: j.budget, dir: j.dir + ".again"}
	again.run(nil)
	if again.res != nil && again.res.Failed {
		r.Mode, r.Seed, r.Checks = "sequence", j.seed, j.checks
		return r
	}
	*problems = append(*problems, fmt.Sprintf("suite %s reported a failure that could not be reproduced: %s\n%s", r.Suite, r.Error, r.Case))
	return nil
}

// confirmCrash runs the case a worker died in again in a fresh process, and
// shrinks it there.
func confirmCrash(j *job, problems *[]string) *Replay {
	idx, data := readCur(filepath.Join(j.dir, "cur"))
	if data == nil {
		*problems = append(*problems, fmt.Sprintf("suite %s: worker died: %s", j.s.name(), j.crash))
		return nil
	}
	msg := isolated(j.p.ID, j.s.name(), data, 40*time.Second)
	if msg == "" {
		*problems = append(*problems, fmt.Sprintf("suite %s: worker died, case does not reproduce it: %s\n%s", j.s.name(), j.crash, abbreviate(string(data), 2000)))
		return nil
	}
	r := &Replay{Property: j.p.ID, Suite: j.s.name(), Case: data, Error: msg, Mode: "case"}
	small := &job{p: j.p, s: j.s, seed: j.seed, checks: j.checks, dir: j.dir + ".shrink"}
	done := make(chan bool)
	var cmd *exec.Cmd
	var mu sync.Mutex
	go func() {
		small.run([]string{"-isolate", strconv.Itoa(idx), "-cpu", "4s"}, func(c *exec.Cmd) {
			mu.Lock()
			cmd = c
			mu.Unlock()
		})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(90 * time.Second):
		mu.Lock()
		if cmd != nil {
			cmd.Process.Kill()
		}
		mu.Unlock()
		<-done
	}
	if small.res != nil && small.res.Failed && len(small.res.Case) <= len(data) {
		if m := isolated(j.p.ID, j.s.name(), small.res.Case, 40*time.Second); m != "" {
			r.Case, r.Error = small.res.Case, m
		}
	}
	return r
}

func saveReplay(r *Replay) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", r.Property, r.Suite, uint32(hash64(string(r.Case)))))
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
	return path
}

func (p *Property) evidence(tier string, seed int64, jobs []*job, rep *Replay, start time.Time, verbose bool) {
	type suiteEv struct {
		Evaluations        int              `json:"evaluations"`
		DistinctNontrivial int              `json:"distinct_nontrivial"`
		Labels             map[string]int   `json:"labels"`
		Rule               string           `json:"rule"`
		Samples            []map[string]any `json:"-"`
	}
	bySuite := map[string]*suiteEv{}
	hashes := map[string]map[uint64]bool{}
	var samples []any
	evals := 0
	var rules []string
	for _, s := range p.Suites {
		rules = append(rules, s.name()+": "+s.rule())
	}
	perSuite := map[string]int{}
	for _, j := range jobs {
		e := bySuite[j.s.name()]
		if e == nil {
			e = &suiteEv{Labels: map[string]int{}, Rule: j.s.rule()}
			bySuite[j.s.name()] = e
			hashes[j.s.name()] = map[uint64]bool{}
		}
		if j.res == nil {
			continue
		}
		e.Evaluations += j.res.Evals
		evals += j.res.Evals
		for l, n := range j.res.Labels {
			e.Labels[l] += n
		}
		if f, err := os.Open(filepath.Join(j.dir, "hashes")); err == nil {
			br := bufio.NewReader(f)
			var b [8]byte
			for {
				if _, err := readFull(br, b[:]); err != nil {
					break
				}
				hashes[j.s.name()][binary.LittleEndian.Uint64(b[:])] = true
			}
			f.Close()
		}
		for i := len(j.res.Samples) - 1; i >= 0 && perSuite[j.s.name()] < 4; i -= 2 {
			samples = append(samples, map[string]any{"suite": j.s.name(), "case": j.res.Samples[i]})
			perSuite[j.s.name()]++
		}
	}
	distinct := 0
	for n, h := range hashes {
		bySuite[n].DistinctNontrivial = len(h)
		distinct += len(h)
	}
	violations := 0
	if rep != nil {
		violations = 1
		samples = append(samples, map[string]any{"suite": rep.Suite, "violates": true, "case": rep.Case})
	}
	if samples == nil {
		samples = []any{}
	}
	notes := append([]string{
		"the property is searched, not proved: it held on the generated cases only",
		"the reference model in /verif/harness states the property correctly",
	}, p.Notes...)
	ev := map[string]any{
		"property": p.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": distinct,
			"rule":                strings.Join(rules, " | "),
			"samples":             samples,
			"suites":              bySuite,
		},
		"assumptions": notes,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(err)
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
	var names []string
	for n := range bySuite {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		e := bySuite[n]
		fmt.Printf("%s %-24s %d cases, %d distinct non-trivial\n", p.ID, n, e.Evaluations, e.DistinctNontrivial)
		if verbose {
			var ls []string
			for l, c := range e.Labels {
				ls = append(ls, fmt.Sprintf("%s=%.1f%%", l, 100*float64(c)/float64(max(1, e.Evaluations))))
			}
			sort.Strings(ls)
			fmt.Println("    ", strings.Join(ls, " "))
		}
	}
	if verbose {
		fmt.Printf("%.1fs\n", time.Since(start).Seconds())
	}
}

func readFull(r *bufio.Reader, b []byte) (int, error) {
	n := 0
	for n < len(b) {
		k, err := r.Read(b[n:])
		n += k
		if err != nil {
			return n, err
		}
	}
	return n, nil
}
