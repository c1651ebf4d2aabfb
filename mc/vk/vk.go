// Package vk is the kernel every check runs on: deterministic case
// enumeration sharded over worker processes, violation confirmation, known
// findings, replay files and evidence.
package vk

import (
	"bufio"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check is one registered property check.
type Check struct {
	ID          string
	Level       string
	Assumptions []string
	Rule        string
	Run         func(w *W)
}

var registry = map[string]*Check{}

func Register(c *Check) { registry[c.ID] = c }

// W is a worker's view of a run.
type W struct {
	Tier     string
	Shard, N int
	Only     string // replay: run only this case
	scratch  string
	deadline time.Time
	idx      int
	out      *bufio.Writer
	states   map[uint64]struct{}
	outcomes map[string]int
	counters map[string]int64
	samples  []string
	cut      bool
	stopped  bool
	known    []Known
	cur      *os.File
	dirN     int
	Property string
	skip     map[string]bool
}

// Thorough tells the tier.
func (w *W) Thorough() bool { return w.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (w *W) Pick(q, t int) int {
	if w.Thorough() {
		return t
	}
	return q
}

// C is one running case.
type C struct {
	W     *W
	Key   string
	fails []Fail
	dirs  []string
	logs  []string
	defers []func()
}

type Fail struct {
	Sig string
	Msg string
}

type stopCase struct{}

// Failf records a violation and ends the case.
func (c *C) Failf(sig, format string, a ...any) {
	c.fails = append(c.fails, Fail{sig, fmt.Sprintf(format, a...)})
	panic(stopCase{})
}

// Softf records a violation and goes on.
func (c *C) Softf(sig, format string, a ...any) {
	c.fails = append(c.fails, Fail{sig, fmt.Sprintf(format, a...)})
}

// Logf adds to the replay's step log.
func (c *C) Logf(format string, a ...any) {
	if len(c.logs) < 400 {
		c.logs = append(c.logs, fmt.Sprintf(format, a...))
	}
}

// Fatal is a harness problem, not a violation.
func (c *C) Fatal(format string, a ...any) {
	panic("HARNESS: " + fmt.Sprintf(format, a...))
}

// Dir makes a scratch directory that disappears with the case.
func (c *C) Dir() string {
	c.W.dirN++
	d := filepath.Join(c.W.scratch, fmt.Sprintf("c%d", c.W.dirN))
	if err := os.MkdirAll(d, 0o755); err != nil {
		c.Fatal("mkdir: %v", err)
	}
	c.dirs = append(c.dirs, d)
	return d
}

// Defer runs f when the case ends.
func (c *C) Defer(f func()) { c.defers = append(c.defers, f) }

// State counts a distinct model state.
func (c *C) State(s string) {
	h := fnv.New64a()
	io.WriteString(h, s)
	c.W.states[h.Sum64()] = struct{}{}
}

// Trans counts n executed transitions.
func (c *C) Trans(n int) { c.W.counters["transitions"] += int64(n) }

// Count adds to a named coverage counter.
func (c *C) Count(name string, n int) { c.W.counters[name] += int64(n) }

// Outcome counts distinct observed outcomes.
func (c *C) Outcome(s string) { c.W.Outcome(s) }
func (w *W) Outcome(s string) {
	if len(w.outcomes) < 5000 {
		w.outcomes[s]++
	}
}
func (w *W) Count(name string, n int) { w.counters[name] += int64(n) }

// Sample keeps a few written-out cases.
func (w *W) Sample(s string) {
	if len(w.samples) < 3 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		w.samples = append(w.samples, s)
	}
}

// Stop tells enumerators to end (time budget or first violation).
func (w *W) Stop() bool {
	if w.stopped {
		return true
	}
	if w.Only == "" && time.Now().After(w.deadline) {
		w.cut, w.stopped = true, true
	}
	return w.stopped
}

// Cut marks the run as not exhaustive.
func (w *W) Cut() { w.cut = true }

// Case runs f if the case belongs to this shard.
func (w *W) Case(key string, f func(c *C)) {
	i := w.idx
	w.idx++
	if w.Only != "" {
		if key != w.Only {
			return
		}
	} else if i%w.N != w.Shard || w.Stop() || w.skip[key] {
		return
	}
	w.exec(key, f)
}

// Mine tells whether the next Case call would run here (to skip preparing it).
func (w *W) Mine() bool { return w.Only != "" || (w.idx%w.N == w.Shard && !w.stopped) }

// Skip passes over n cases of other shards.
func (w *W) Skip(n int) { w.idx += n }

// Prepare runs f outside any case, to find out what the cases are.
func (w *W) Prepare(f func(c *C)) {
	fails, _ := w.once("prepare", f)
	for _, x := range fails {
		w.emit(map[string]any{"t": "violation", "key": "prepare", "sig": x.Sig, "msg": x.Msg})
		w.stopped = true
	}
}

func (w *W) exec(key string, f func(c *C)) {
	w.cur.Truncate(0)
	w.cur.WriteAt([]byte(key), 0)
	w.counters["cases"]++
	if w.Only == "" && (len(w.samples) == 0 || (w.counters["cases"]%997 == 0)) {
		w.Sample(key)
	}
	fails, logs := w.once(key, f)
	if len(fails) == 0 {
		return
	}
	// confirm: run the same case again; only what recurs is reported
	var conf []Fail
	n := 0
	for r := 0; r < 3; r++ {
		again, _ := w.once(key, f)
		seen := map[string]bool{}
		for _, a := range again {
			seen[a.Sig] = true
		}
		if len(again) > 0 {
			n++
		}
		for _, x := range fails {
			if seen[x.Sig] && !hasSig(conf, x.Sig) {
				conf = append(conf, x)
			}
		}
	}
	if len(conf) == 0 {
		w.counters["unconfirmed"]++
		w.emit(map[string]any{"t": "unconfirmed", "key": key, "sig": fails[0].Sig, "msg": fails[0].Msg})
		if n == 0 {
			return
		}
		return
	}
	for _, x := range conf {
		if k := w.knownFor(x.Sig, key); k != "" {
			w.emit(map[string]any{"t": "known", "what": k})
			continue
		}
		w.emit(map[string]any{"t": "violation", "key": key, "sig": x.Sig, "msg": x.Msg, "log": logs})
		if w.Only == "" && os.Getenv("VERIF_ALL") == "" {
			w.stopped = true
		}
	}
}

func hasSig(l []Fail, s string) bool {
	for _, x := range l {
		if x.Sig == s {
			return true
		}
	}
	return false
}

func (w *W) once(key string, f func(c *C)) (fails []Fail, logs []string) {
	c := &C{W: w, Key: key}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopCase); ok {
					return
				}
				if s, ok := r.(string); ok && strings.HasPrefix(s, "HARNESS: ") {
					w.emit(map[string]any{"t": "harness", "key": key, "msg": s})
					return
				}
				st := string(debug.Stack())
				c.fails = append(c.fails, Fail{"panic", fmt.Sprintf("panic: %v\n%s", r, st)})
			}
		}()
		f(c)
	}()
	for i := len(c.defers) - 1; i >= 0; i-- {
		func() {
			defer func() { recover() }()
			c.defers[i]()
		}()
	}
	for _, d := range c.dirs {
		os.RemoveAll(d)
	}
	return c.fails, c.logs
}

func (w *W) emit(m map[string]any) {
	b, _ := json.Marshal(m)
	w.out.Write(b)
	w.out.WriteByte('\n')
	w.out.Flush()
}

// Known is one line of KNOWN_FINDINGS.jsonl.
type Known struct {
	Status   string `json:"status"` // known | fixed
	Property string `json:"property"`
	Sig      string `json:"sig"`  // regexp on the violation signature
	Case     string `json:"case"` // regexp on the case key ("" = any)
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func (w *W) knownFor(sig, key string) string {
	for _, k := range w.known {
		if k.Status != "known" || k.Property != w.Property {
			continue
		}
		if ok, _ := regexp.MatchString("^(?:"+k.Sig+")$", sig); !ok {
			continue
		}
		if k.Case != "" {
			if ok, _ := regexp.MatchString(k.Case, key); !ok {
				continue
			}
		}
		return k.What
	}
	return ""
}

func loadKnown(path string) []Known {
	var out []Known
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] != '{' {
			continue
		}
		var k Known
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

// ------------------------------------------------------------------ main

// Main runs a check: as parent (default) or worker (-worker).
func Main() {
	args := os.Args[1:]
	get := func(name, def string) string {
		for i := 0; i+1 < len(args); i++ {
			if args[i] == "-"+name {
				return args[i+1]
			}
		}
		return def
	}
	id := get("check", "")
	if id == "list" {
		var ids []string
		for k := range registry {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	ck := registry[id]
	if ck == nil {
		fmt.Fprintf(os.Stderr, "unknown check %q\n", id)
		os.Exit(2)
	}
	verif := get("verif", "/verif")
	tier := get("tier", "quick")
	if sh := get("shard", ""); sh != "" {
		worker(ck, verif, tier, sh, get("only", ""), get("scratch", ""), get("budget", "150"), get("skip", ""))
		return
	}
	parent(ck, verif, tier, get("replay", ""), get("scratch", ""), get("budget", ""), get("workers", ""))
}

func worker(ck *Check, verif, tier, shard, only, scratch, budget, skip string) {
	var s, n int
	fmt.Sscanf(shard, "%d/%d", &s, &n)
	bs, _ := strconv.Atoi(budget)
	cur, err := os.Create(filepath.Join(scratch, fmt.Sprintf("cur%d", s)))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w := &W{Tier: tier, Shard: s, N: n, Only: only, scratch: filepath.Join(scratch, fmt.Sprintf("w%d", s)),
		deadline: time.Now().Add(time.Duration(bs) * time.Second), out: bufio.NewWriter(os.Stdout),
		states: map[uint64]struct{}{}, outcomes: map[string]int{}, counters: map[string]int64{}, cur: cur,
		known: loadKnown(filepath.Join(verif, "KNOWN_FINDINGS.jsonl")), Property: ck.ID, skip: map[string]bool{}}
	if skip != "" {
		b, _ := os.ReadFile(skip)
		for _, l := range strings.Split(string(b), "\x00") {
			if l != "" {
				w.skip[l] = true
			}
		}
	}
	os.MkdirAll(w.scratch, 0o755)
	ck.Run(w)
	os.RemoveAll(w.scratch)
	// states file
	sf := filepath.Join(scratch, fmt.Sprintf("states%d", s))
	f, _ := os.Create(sf)
	bw := bufio.NewWriter(f)
	for h := range w.states {
		binary.Write(bw, binary.LittleEndian, h)
	}
	bw.Flush()
	f.Close()
	var oc []string
	for o := range w.outcomes {
		oc = append(oc, o)
	}
	w.emit(map[string]any{"t": "done", "counters": w.counters, "samples": w.samples, "cut": w.cut, "outcomes": oc, "enumerated": w.idx})
}

type msg struct {
	T        string           `json:"t"`
	Key      string           `json:"key"`
	Sig      string           `json:"sig"`
	Msg      string           `json:"msg"`
	Log      []string         `json:"log"`
	What     string           `json:"what"`
	Counters map[string]int64 `json:"counters"`
	Samples  []string         `json:"samples"`
	Outcomes []string         `json:"outcomes"`
	Cut      bool             `json:"cut"`
	Enum     int              `json:"enumerated"`
}

type result struct {
	msgs  []msg
	done  *msg
	crash string
	cur   string
	hung  bool
}

func runWorker(ck *Check, verif, tier, scratch string, shard, n int, only, budget string, skip []string, hardLimit time.Duration, stop <-chan struct{}, notify func()) result {
	exe, _ := os.Executable()
	a := []string{"-check", ck.ID, "-verif", verif, "-tier", tier, "-shard", fmt.Sprintf("%d/%d", shard, n), "-scratch", scratch, "-budget", budget}
	if only != "" {
		a = append(a, "-only", only)
	}
	if len(skip) > 0 {
		p := filepath.Join(scratch, fmt.Sprintf("skip%d", shard))
		os.WriteFile(p, []byte(strings.Join(skip, "\x00")), 0o644)
		a = append(a, "-skip", p)
	}
	cmd := exec.Command(exe, a...)
	cmd.Env = append(os.Environ(), "GODEBUG=randautoseed=0", "GOMAXPROCS=2", "TZ=UTC", "GOTRACEBACK=all", "GOMEMLIMIT=3GiB")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	stdout, _ := cmd.StdoutPipe()
	var errb tail
	cmd.Stderr = &errb
	var res result
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		res.crash = err.Error()
		return res
	}
	fin := make(chan struct{})
	curPath := filepath.Join(scratch, fmt.Sprintf("cur%d", shard))
	go func() { // hang watch
		last, since := "", time.Now()
		for {
			select {
			case <-fin:
				return
			case <-stop:
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				return
			case <-time.After(time.Second):
			}
			b, _ := os.ReadFile(curPath)
			if string(b) != last {
				last, since = string(b), time.Now()
			} else if time.Since(since) > hardLimit {
				res.hung = true
				syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
				time.Sleep(2 * time.Second)
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				return
			}
		}
	}()
	sc := bufio.NewScanner(stdout)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var m msg
		if json.Unmarshal(sc.Bytes(), &m) != nil || m.T == "" {
			continue
		}
		if m.T == "done" {
			res.done = &m
		} else {
			res.msgs = append(res.msgs, m)
			if m.T == "violation" && notify != nil && os.Getenv("VERIF_ALL") == "" {
				notify()
			}
		}
	}
	err := cmd.Wait()
	close(fin)
	if res.done == nil {
		b, _ := os.ReadFile(curPath)
		res.cur = string(b)
		res.crash = fmt.Sprintf("worker ended without result (%v, hung=%v)\n%s", err, res.hung, errb.String())
	}
	return res
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append(t.b[:1<<14:1<<14], t.b[len(t.b)-1<<14:]...)
	}
	t.mu.Unlock()
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func parent(ck *Check, verif, tier, replay, scratch, budget, workers string) {
	t0 := time.Now()
	if scratch == "" {
		scratch, _ = os.MkdirTemp("", "vmc")
		defer os.RemoveAll(scratch)
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if workers != "" {
		n, _ = strconv.Atoi(workers)
	}
	if n < 1 {
		n = 1
	}
	if budget == "" {
		budget = "240"
		if tier == "thorough" {
			budget = "5400"
		}
	}
	hard := 180 * time.Second
	if replay != "" {
		var r struct{ Case, Tier string }
		b, err := os.ReadFile(replay)
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		res := runWorker(ck, verif, r.Tier, scratch, 0, 1, r.Case, budget, nil, hard, nil, nil)
		bad := res.crash != ""
		for _, m := range res.msgs {
			fmt.Printf("%s %s: %s\n%s\n", m.T, m.Sig, m.Msg, strings.Join(m.Log, "\n"))
			bad = bad || m.T == "violation"
		}
		if bad {
			fmt.Println(res.crash)
			fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, replay)
			os.RemoveAll(scratch)
			os.Exit(1)
		}
		fmt.Println("replay: no violation")
		return
	}
	results := make([]result, n)
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var once sync.Once
	notify := func() { once.Do(func() { time.AfterFunc(3*time.Second, func() { close(stop) }) }) }
	type crashV struct{ key, text string }
	var crashes []crashV
	var cmu sync.Mutex
	unconfirmedCrash := 0
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var skip []string
			var acc []msg
			for attempt := 0; attempt < 4; attempt++ {
				left := atoi(budget) - int(time.Since(t0).Seconds())
				if left < 1 {
					left = 1
				}
				r := runWorker(ck, verif, tier, scratch, i, n, "", strconv.Itoa(left), skip, hard, stop, notify)
				acc = append(acc, r.msgs...)
				r.msgs = acc
				results[i] = r
				if r.done != nil {
					return
				}
				select {
				case <-stop:
					return
				default:
				}
				if r.cur == "" {
					return
				}
				// the process died in a case: does it die again when that case runs alone?
				sub := filepath.Join(scratch, fmt.Sprintf("confirm%d", i))
				os.MkdirAll(sub, 0o755)
				again := 0
				txt := ""
				for k := 0; k < 3; k++ {
					cr := runWorker(ck, verif, tier, sub, 0, 1, r.cur, budget, nil, hard, nil, nil)
					if cr.crash != "" {
						again++
						txt = cr.crash
						if k == 1 && again == 2 {
							break
						}
					}
				}
				os.RemoveAll(sub)
				if again >= 2 {
					cmu.Lock()
					crashes = append(crashes, crashV{r.cur, txt})
					cmu.Unlock()
					notify()
					return
				}
				cmu.Lock()
				unconfirmedCrash++
				cmu.Unlock()
				skip = append(skip, r.cur)
			}
		}(i)
	}
	wg.Wait()
	var viol []msg
	known := map[string]bool{}
	counters := map[string]int64{}
	samples := []any{}
	outs := map[string]bool{}
	exhaustive := true
	stopped := false
	select {
	case <-stop:
		stopped = true
	default:
	}
	harness := 0
	unconf := []string{}
	var fatalWorkers []string
	enum := 0
	for _, r := range results {
		for _, m := range r.msgs {
			switch m.T {
			case "violation":
				viol = append(viol, m)
			case "known":
				known[m.What] = true
			case "harness":
				harness++
				exhaustive = false
				fmt.Fprintln(os.Stderr, "harness:", m.Key, m.Msg)
			case "unconfirmed":
				unconf = append(unconf, m.Key+" "+m.Sig)
				exhaustive = false
				fmt.Fprintln(os.Stderr, "unconfirmed:", m.Key, m.Sig, m.Msg)
			}
		}
		if r.done == nil {
			exhaustive = false
			if !stopped {
				fatalWorkers = append(fatalWorkers, r.crash)
			}
			continue
		}
		if r.done.Enum > enum {
			enum = r.done.Enum
		}
		for k, v := range r.done.Counters {
			counters[k] += v
		}
		for _, s := range r.done.Samples {
			if len(samples) < 6 {
				samples = append(samples, s)
			}
		}
		for _, o := range r.done.Outcomes {
			outs[o] = true
		}
		if r.done.Cut {
			exhaustive = false
		}
	}
	for _, cv := range crashes {
		sig := "crash"
		k := ""
		for _, kn := range loadKnown(filepath.Join(verif, "KNOWN_FINDINGS.jsonl")) {
			if kn.Status == "known" && kn.Property == ck.ID {
				if ok, _ := regexp.MatchString("^(?:"+kn.Sig+")$", sig); ok {
					if ok, _ := regexp.MatchString(kn.Case, cv.key); ok {
						k = kn.What
					}
				}
			}
		}
		if k != "" {
			known[k] = true
			continue
		}
		viol = append(viol, msg{T: "violation", Key: cv.key, Sig: sig, Msg: cv.text})
	}
	states := map[uint64]struct{}{}
	for i := 0; i < n; i++ {
		b, err := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("states%d", i)))
		if err != nil {
			continue
		}
		for j := 0; j+8 <= len(b); j += 8 {
			states[binary.LittleEndian.Uint64(b[j:])] = struct{}{}
		}
	}
	sort.Slice(viol, func(i, j int) bool { return len(viol[i].Key) < len(viol[j].Key) })
	wall := time.Since(t0).Seconds()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"states": len(states), "transitions": counters["transitions"],
		"traces_validated_against_impl": counters["cases"], "samples": samples,
		"exhaustive": exhaustive && !stopped && len(viol) == 0, "distinct_outcomes": len(outs),
		"cases_enumerated": enum,
	}
	if ck.Rule != "" {
		cov["rule"] = ck.Rule
	}
	extra := map[string]int64{}
	for k, v := range counters {
		if k != "transitions" && k != "cases" {
			extra[k] = v
		}
	}
	if len(extra) > 0 {
		cov["counters"] = extra
	}
	if len(unconf) > 0 {
		cov["unconfirmed"] = unconf
	}
	if unconfirmedCrash > 0 {
		cov["unconfirmed_crashes"] = unconfirmedCrash
	}
	if len(fatalWorkers) > 0 {
		cov["workers_lost"] = len(fatalWorkers)
	}
	if harness > 0 {
		cov["harness_errors"] = harness
	}
	level := ck.Level
	if level == "" {
		level = "model_checking"
	}
	ev := map[string]any{"property": ck.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": ck.Assumptions, "wall_s": wall, "violations": len(viol)}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", ck.ID+".json"), b, 0o644)
	var kl []string
	for k := range known {
		kl = append(kl, k)
	}
	sort.Strings(kl)
	for _, k := range kl {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, k)
	}
	fmt.Printf("%s %s: cases=%d states=%d transitions=%d outcomes=%d exhaustive=%v wall=%.1fs\n", ck.ID, tier, counters["cases"], len(states), counters["transitions"], len(outs), cov["exhaustive"], wall)
	for _, f := range fatalWorkers {
		fmt.Fprintln(os.Stderr, "worker lost:", f)
	}
	if len(viol) > 0 {
		if os.Getenv("VERIF_ALL") != "" { // triage: one line per kind of violation
			seen := map[string]int{}
			for _, v := range viol {
				if seen[v.Sig]++; seen[v.Sig] == 1 {
					t := v.Msg
					if len(t) > 900 {
						t = t[:900]
					}
					fmt.Printf("-- %s | %s | %s\n", v.Sig, v.Key, t)
				}
			}
			fmt.Println(seen)
		}
		v := viol[0]
		h := sha256.Sum256([]byte(v.Key + v.Sig))
		rd := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(rd, 0o755)
		rp := filepath.Join(rd, ck.ID+"-"+hex.EncodeToString(h[:4])+".json")
		rb, _ := json.MarshalIndent(map[string]any{"property": ck.ID, "tier": tier, "case": v.Key, "sig": v.Sig, "message": v.Msg, "log": v.Log,
			"how": "bash /verif/run.sh " + ck.ID + " " + tier + " -replay " + rp}, "", " ")
		os.WriteFile(rp, rb, 0o644)
		fmt.Printf("case %s\n%s: %s\n", v.Key, v.Sig, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, rp)
		os.RemoveAll(scratch)
		os.Exit(1)
	}
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// Try runs f as part of the case and hands back its first violation instead of
// recording it ("" if there is none).
func (c *C) Try(f func()) (sig, msg string) {
	n := len(c.fails)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopCase); !ok {
					panic(r)
				}
			}
		}()
		f()
	}()
	if len(c.fails) > n {
		sig, msg = c.fails[n].Sig, c.fails[n].Msg
		c.fails = c.fails[:n]
	}
	return
}
