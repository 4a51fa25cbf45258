package main

// The runner: a parent process shards the deterministic case stream of a property over worker processes.
// A worker publishes the case it is running in a memory mapped file, so that a crash in a goroutine of the code
// under test, a fatal runtime error or a hang is attributed to that case and confirmed by running it again alone.

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	"hash/fnv"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const progressSize = 1 << 16

type Violation struct {
	Index  int64  `json:"index"`
	Case   string `json:"case"`
	Key    string `json:"key"` // stable identification, matched against the known findings
	Detail string `json:"detail"`
}

type Stats struct {
	Evaluations int64            `json:"evaluations"` // executions of the real code compared with the reference
	Cases       int64            `json:"cases"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Counters    map[string]int64 `json:"counters"`
	Truncated   bool             `json:"truncated"`
	Samples     []string         `json:"samples"`
	Notes       []string         `json:"notes"`
}

type workerResult struct {
	Stats      Stats       `json:"stats"`
	Violations []Violation `json:"violations"`
	Done       bool        `json:"done"`
}

// X is the context handed to the enumerator of a property.
type X struct {
	ID       string
	Thorough bool
	shard, n int64
	idx      int64
	only     int64
	skip     map[int64]bool
	deadline time.Time
	prog     []byte
	tick     uint64
	res      workerResult
	states   map[uint64]struct{}
	nontriv  map[uint64]struct{}
	maxViol  int
	earlier  []earlierResult
	trees    []earlierTree
	nth      int
}

type earlierTree struct {
	t    *utils.AvlTree
	keep string
}

// earlierResult is a result that must not change while later operations run
type earlierResult struct {
	what string
	res  [][]*big.Int
	keep [][]*big.Int
}

type stopEnumeration struct{}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Tick tells the watchdog that a long case is still making progress.
func (x *X) Tick() {
	x.tick++
	binary.LittleEndian.PutUint64(x.prog[8:], x.tick)
}

// State records a visited model state.
func (x *X) State(s string)     { x.states[hash64(s)] = struct{}{} }
func (x *X) StateHash(h uint64) { x.states[h] = struct{}{} }

// Nontrivial records a distinct case that exercised the property for real.
func (x *X) Nontrivial(s string) { x.nontriv[hash64(s)] = struct{}{} }

func (x *X) Eval(n int)  { x.res.Stats.Evaluations += int64(n) }
func (x *X) Trans(n int) { x.res.Stats.Transitions += int64(n) }
func (x *X) Trace(n int) { x.res.Stats.Traces += int64(n) }
func (x *X) Count(name string, n int) {
	x.res.Stats.Counters[name] += int64(n)
}
func (x *X) Note(format string, a ...interface{}) {
	x.res.Stats.Notes = append(x.res.Stats.Notes, fmt.Sprintf(format, a...))
}

// Case runs one case of the stream if it belongs to this worker. desc identifies it; f returns nil if the property held.
func (x *X) Case(desc string, f func() error) {
	idx := x.idx
	x.idx++
	if x.only >= 0 {
		if idx != x.only {
			if idx > x.only {
				panic(stopEnumeration{})
			}
			return
		}
	} else if shardOf(idx, x.n) != x.shard || x.skip[idx] {
		return
	}
	if x.only < 0 && time.Now().After(x.deadline) {
		x.res.Stats.Truncated = true
		panic(stopEnumeration{})
	}
	binary.LittleEndian.PutUint64(x.prog[0:], uint64(idx))
	d := desc
	if len(d) > progressSize-64 {
		d = d[:progressSize-64]
	}
	binary.LittleEndian.PutUint64(x.prog[16:], uint64(len(d)))
	copy(x.prog[24:], d)
	x.Tick()
	x.res.Stats.Cases++
	if n := x.res.Stats.Cases; n <= 2 || n == 50 || n == 2000 {
		s := desc
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		x.res.Stats.Samples = append(x.res.Stats.Samples, s)
	}
	var err error
	perr := guard(func() { err = f() })
	if perr != nil {
		err = perr
	}
	if err != nil {
		x.res.Violations = append(x.res.Violations, Violation{Index: idx, Case: desc, Key: violationKey(desc), Detail: err.Error()})
		if len(x.res.Violations) >= x.maxViol {
			panic(stopEnumeration{})
		}
	}
}

// shardOf spreads the cases evenly: neighbouring cases tend to have periodic costs
func shardOf(idx, n int64) int64 {
	h := uint64(idx) * 0x9E3779B97F4A7C15
	return int64((h >> 33) % uint64(n))
}

func violationKey(desc string) string { return fmt.Sprintf("%016x", hash64(desc)) }

var properties = map[string]func(x *X){}

func register(id string, f func(x *X)) { properties[id] = f }

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("id", "", "")
	tier := fs.String("tier", "quick", "")
	shard := fs.Int64("shard", 0, "")
	n := fs.Int64("n", 1, "")
	only := fs.Int64("only", -1, "")
	skip := fs.String("skip", "", "")
	secs := fs.Int("secs", 600, "")
	dir := fs.String("dir", "", "")
	tag := fs.String("tag", "", "")
	fs.Parse(args)
	debug.SetMaxStack(128 << 20)
	lim := uint64(8) << 30
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	x := &X{ID: *id, Thorough: *tier == "thorough", shard: *shard, n: *n, only: *only, skip: map[int64]bool{},
		deadline: time.Now().Add(time.Duration(*secs) * time.Second), states: map[uint64]struct{}{}, nontriv: map[uint64]struct{}{}, maxViol: 8}
	x.res.Stats.Counters = map[string]int64{}
	for _, s := range strings.Split(*skip, ",") {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			x.skip[v] = true
		}
	}
	f, err := os.OpenFile(filepath.Join(*dir, "progress-"+*tag), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
	must(err)
	must(f.Truncate(progressSize))
	x.prog, err = syscall.Mmap(int(f.Fd()), 0, progressSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	binary.LittleEndian.PutUint64(x.prog[0:], ^uint64(0))
	prop := properties[*id]
	if pf := os.Getenv("VERIF_PROF"); pf != "" && *shard == 0 {
		f, err := os.Create(pf)
		must(err)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopEnumeration); ok {
					return
				}
				panic(r)
			}
		}()
		prop(x)
	}()
	x.res.Done = true
	writeHashes(filepath.Join(*dir, "states-"+*tag), x.states)
	writeHashes(filepath.Join(*dir, "nontriv-"+*tag), x.nontriv)
	b, err := json.Marshal(x.res)
	must(err)
	must(os.WriteFile(filepath.Join(*dir, "result-"+*tag+".tmp"), b, 0600))
	must(os.Rename(filepath.Join(*dir, "result-"+*tag+".tmp"), filepath.Join(*dir, "result-"+*tag)))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(3)
	}
}

func writeHashes(p string, m map[uint64]struct{}) {
	f, err := os.Create(p)
	must(err)
	w := bufio.NewWriter(f)
	var b [8]byte
	for h := range m {
		binary.LittleEndian.PutUint64(b[:], h)
		w.Write(b[:])
	}
	must(w.Flush())
	f.Close()
}
func readHashes(p string, m map[uint64]struct{}) {
	b, _ := os.ReadFile(p)
	for i := 0; i+8 <= len(b); i += 8 {
		m[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

// ---------------------------------------------------------------- parent

type runOutcome struct {
	res    *workerResult
	crash  bool
	hang   bool
	stderr string
	index  int64
	desc   string
}

func readProgress(p string) (idx int64, tick uint64, desc string) {
	b, err := os.ReadFile(p)
	if err != nil || len(b) < 24 {
		return -1, 0, ""
	}
	idx = int64(binary.LittleEndian.Uint64(b))
	tick = binary.LittleEndian.Uint64(b[8:])
	n := int(binary.LittleEndian.Uint64(b[16:]))
	if n >= 0 && 24+n <= len(b) {
		desc = string(b[24 : 24+n])
	}
	return
}

func runWorker(id, tier, dir, tag string, shard, n, only int64, skip []int64, secs int, hangAfter time.Duration, stop <-chan struct{}) runOutcome {
	var sk []string
	for _, s := range skip {
		sk = append(sk, fmt.Sprint(s))
	}
	os.Remove(filepath.Join(dir, "result-"+tag))
	cmd := exec.Command(os.Args[0], "worker", "-id", id, "-tier", tier, "-dir", dir, "-tag", tag, "-shard", fmt.Sprint(shard), "-n", fmt.Sprint(n),
		"-only", fmt.Sprint(only), "-skip", strings.Join(sk, ","), "-secs", fmt.Sprint(secs))
	errf, err := os.Create(filepath.Join(dir, "stderr-"+tag))
	must(err)
	defer errf.Close()
	cmd.Stderr = errf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if os.Getenv("GOMAXPROCS") == "" {
		cmd.Env = append(os.Environ(), "GOMAXPROCS="+workerProcs(id))
	}
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	prog := filepath.Join(dir, "progress-"+tag)
	last := time.Now()
	var lastTick uint64
	o := runOutcome{}
	kill := func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL); <-done }
loop:
	for {
		select {
		case <-done:
			break loop
		case <-stop:
			kill()
			return runOutcome{index: -1}
		case <-time.After(time.Second):
			_, t, _ := readProgress(prog)
			if t != lastTick {
				lastTick, last = t, time.Now()
			} else if time.Since(last) > hangAfter {
				kill()
				o.hang = true
				break loop
			}
		}
	}
	o.index, _, o.desc = readProgress(prog)
	b, err := os.ReadFile(filepath.Join(dir, "result-"+tag))
	if err == nil && !o.hang {
		var r workerResult
		if json.Unmarshal(b, &r) == nil && r.Done {
			o.res = &r
			return o
		}
	}
	o.crash = !o.hang
	e, _ := os.ReadFile(filepath.Join(dir, "stderr-"+tag))
	if len(e) > 3000 {
		e = e[:3000]
	}
	o.stderr = string(e)
	return o
}

type parentCfg struct {
	id, tier, verif string
	workers         int
}

func parentMain(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	id := fs.String("id", "", "")
	tier := fs.String("tier", "quick", "")
	verif := fs.String("verif", "/verif", "")
	work := fs.String("work", "", "scratch directory")
	secs := fs.Int("secs", 0, "")
	workers := fs.Int("workers", 0, "")
	buildOf := fs.String("tree", "", "")
	fs.Parse(args)
	start := time.Now()
	if properties[*id] == nil {
		fmt.Println("unknown property", *id)
		os.Exit(3)
	}
	if *secs == 0 {
		*secs = 420
		if *tier == "thorough" {
			*secs = 3 * 3600
		}
	}
	n := *workers
	if n == 0 {
		n = 8
		if c := runtime.NumCPU(); c < n {
			n = c
		}
		if m := maxWorkers[*id]; m > 0 && n > m {
			n = m
		}
	}
	hangAfter := 100 * time.Second
	stop := make(chan struct{})
	var once sync.Once
	var mu sync.Mutex
	var wg sync.WaitGroup
	var results []*workerResult
	var viol []Violation
	var flaky []string
	known := loadKnown(*verif, *id)
	states := map[uint64]struct{}{}
	nontriv := map[uint64]struct{}{}
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			var skip []int64
			for attempt := 0; attempt < 6; attempt++ {
				tag := fmt.Sprintf("%d", s)
				o := runWorker(*id, *tier, *work, tag, int64(s), int64(n), -1, skip, *secs, hangAfter, stop)
				if o.res != nil {
					mu.Lock()
					results = append(results, o.res)
					viol = append(viol, o.res.Violations...)
					readHashes(filepath.Join(*work, "states-"+tag), states)
					readHashes(filepath.Join(*work, "nontriv-"+tag), nontriv)
					unknown := 0
					for _, v := range o.res.Violations {
						if known[v.Key] == "" {
							unknown++
						}
					}
					mu.Unlock()
					if unknown > 0 {
						once.Do(func() { close(stop) })
					}
					return
				}
				if !o.crash && !o.hang {
					return // stopped
				}
				if o.index < 0 {
					fmt.Printf("harness failed outside of a case: %s\n", o.stderr)
					os.Exit(3)
				}
				// confirm
				confirmed := false
				detail := ""
				for k := 0; k < 2 && !confirmed; k++ {
					c := runWorker(*id, *tier, *work, fmt.Sprintf("%d-confirm", s), 0, 1, o.index, nil, *secs, hangAfter, stop)
					if c.res == nil && !c.crash && !c.hang {
						return
					}
					if c.crash || c.hang {
						confirmed = true
						detail = "process died: " + c.stderr
						if c.hang {
							detail = "no termination: the case made no progress"
						}
					}
				}
				if !confirmed && o.crash && (strings.Contains(o.stderr, "panic:") || strings.Contains(o.stderr, "fatal error:")) &&
					!strings.Contains(o.stderr, "out of memory") && !strings.Contains(o.stderr, "cannot allocate") {
					confirmed = true
					detail = "process died (not on every run): " + o.stderr
				}
				mu.Lock()
				if confirmed {
					v := Violation{Index: o.index, Case: o.desc, Key: violationKey(o.desc), Detail: detail}
					viol = append(viol, v)
					if known[v.Key] == "" {
						mu.Unlock()
						once.Do(func() { close(stop) })
						return
					}
				} else {
					flaky = append(flaky, fmt.Sprintf("case %d ended once and passed when repeated: %s", o.index, firstLine(o.stderr)))
				}
				mu.Unlock()
				skip = append(skip, o.index)
			}
		}(s)
	}
	wg.Wait()

	// merge
	var st Stats
	st.Counters = map[string]int64{}
	for _, r := range results {
		st.Evaluations += r.Stats.Evaluations
		st.Cases += r.Stats.Cases
		st.Transitions += r.Stats.Transitions
		st.Traces += r.Stats.Traces
		st.Truncated = st.Truncated || r.Stats.Truncated
		for k, v := range r.Stats.Counters {
			st.Counters[k] += v
		}
		for _, s := range r.Stats.Samples {
			if len(st.Samples) < 12 {
				st.Samples = append(st.Samples, s)
			}
		}
		for _, s := range r.Stats.Notes {
			dup := false
			for _, t := range st.Notes {
				dup = dup || s == t
			}
			if !dup {
				st.Notes = append(st.Notes, s)
			}
		}
	}
	st.Notes = append(st.Notes, flaky...)
	sort.Slice(viol, func(i, j int) bool { return viol[i].Index < viol[j].Index })
	nviol := 0
	var fresh []Violation
	for _, v := range viol {
		if t := known[v.Key]; t != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *id, t)
			continue
		}
		nviol++
		fresh = append(fresh, v)
	}
	if st.Traces == 0 {
		// every case of a direct check is one complete run of the model against the code
		st.Traces = st.Cases
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	meta := metas[*id]
	ev := map[string]interface{}{
		"property": *id, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": len(states), "transitions": st.Transitions, "traces_validated_against_impl": st.Traces,
			"evaluations": st.Evaluations, "distinct_nontrivial": len(nontriv),
			"rule": meta.rule, "bounds": pick(*tier == "thorough", meta.boundsThorough, meta.bounds), "exhaustive": !st.Truncated && nviol == 0,
			"counters": st.Counters, "samples": st.Samples, "notes": st.Notes, "workers": n, "tree": *buildOf,
		},
		"assumptions": meta.assumptions, "wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	must(os.WriteFile(filepath.Join(*verif, "evidence", *id+".json"), b, 0644))
	fmt.Printf("%s %s: cases=%d evaluations=%d states=%d transitions=%d traces=%d nontrivial=%d truncated=%v wall=%.1fs\n", *id, *tier,
		st.Cases, st.Evaluations, len(states), st.Transitions, st.Traces, len(nontriv), st.Truncated, time.Since(start).Seconds())
	if nviol > 0 {
		v := fresh[0]
		os.MkdirAll(filepath.Join(*verif, "replay"), 0755)
		rp := filepath.Join(*verif, "replay", fmt.Sprintf("%s-%s.json", *id, v.Key))
		rb, _ := json.MarshalIndent(map[string]interface{}{"property": *id, "tier": *tier, "index": v.Index, "case": v.Case, "key": v.Key, "detail": v.Detail,
			"how": "check.sh " + *id + " replay " + rp}, "", " ")
		must(os.WriteFile(rp, rb, 0644))
		fmt.Printf("--- case %d\n%s\n--- %s\n", v.Index, v.Case, v.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, rp)
		os.Exit(1)
	}
	if len(results) == 0 {
		fmt.Println("no worker finished")
		os.Exit(3)
	}
}

func pick(c bool, a, b string) string {
	if c && a != "" {
		return a
	}
	return b
}

type meta struct {
	rule, bounds, boundsThorough string
	assumptions                  []string
}

var metas = map[string]meta{}
var maxWorkers = map[string]int{}
var procs = map[string]string{}

func workerProcs(id string) string {
	if p := procs[id]; p != "" {
		return p
	}
	return "1"
}

// loadKnown reads known_findings.txt: lines "known: property=<id> key=<key> <what fails>"
func loadKnown(verif, id string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 4 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			m[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
	return m
}

func replayMain(args []string) {
	b, err := os.ReadFile(args[0])
	must(err)
	var r struct {
		Property, Tier, Case, Key string
		Index                     int64
	}
	must(json.Unmarshal(b, &r))
	dir, err := os.MkdirTemp("", "replay")
	must(err)
	defer os.RemoveAll(dir)
	o := runWorker(r.Property, r.Tier, dir, "replay", 0, 1, r.Index, nil, 600, 100*time.Second, nil)
	fmt.Printf("--- case %d\n%s\n", o.index, o.desc)
	bad := o.res == nil
	if bad {
		fmt.Println("process died or made no progress:", o.stderr)
	} else {
		for _, v := range o.res.Violations {
			bad = true
			fmt.Println("---", v.Detail)
		}
	}
	if bad {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, args[0])
		os.Exit(1)
	}
	fmt.Println("the case holds on this tree")
}
