// Command vh runs the runtime monitors of /verif against the code in /repo.
//
//	vh check <PROP>     run every case of a property (supervisor, spawns workers)
//	vh replay <file>    re-run the single case a VIOLATION line names
//	vh worker ...       internal: one shard of cases
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Prop is one monitored property.
type Prop struct {
	ID    string
	Rule  string // what counts as an evaluation / a distinct non-trivial one
	Quick int    // number of cases, quick tier
	Deep  int    // number of cases, thorough tier
	Run   func(t *T)
	// CaseTimeout bounds one case (seconds); beyond it the case is reported as hung.
	CaseTimeout int
	MaxWorkers  int
	Assume      []string
	// NeedEvents lists counters that must be non-zero for the run to mean anything.
	NeedEvents []string
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.CaseTimeout == 0 {
		p.CaseTimeout = 150
	}
	props[p.ID] = p
}

// T is the context of one case.
type T struct {
	Rng      *rand.Rand
	Case     int
	Seed     int64
	Deep     bool
	Dir      string // private scratch directory, the process' cwd
	evals    int64
	counters map[string]int64
	sigs     map[uint64]struct{}
	samples  []interface{}
	viols    []Violation
}

// Violation is a failed oracle.
type Violation struct {
	Key  string `json:"key"`
	Msg  string `json:"msg"`
	Case int    `json:"case"`
	Seed int64  `json:"seed"`
}

type failure struct{ key, msg string }

// Fail stops the case with a violation.
func (t *T) Fail(format string, a ...interface{}) {
	panic(failure{"", fmt.Sprintf(format, a...)})
}

// FailKey stops the case with a violation that carries a stable identity.
func (t *T) FailKey(key, format string, a ...interface{}) {
	panic(failure{key, fmt.Sprintf(format, a...)})
}

// Report records a keyed violation and lets the case continue.
func (t *T) Report(key, format string, a ...interface{}) {
	for _, v := range t.viols {
		if v.Key == key {
			return
		}
	}
	t.viols = append(t.viols, Violation{key, fmt.Sprintf(format, a...), t.Case, t.Seed})
}

// Eval counts n oracle evaluations.
func (t *T) Eval(n int) { t.evals += int64(n) }

// Count counts observed events.
func (t *T) Count(key string, n int) { t.counters[key] += int64(n) }

// Sig records the signature of an observed situation (deduplicated).
func (t *T) Sig(a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, a...)
	if len(t.sigs) < 300000 {
		t.sigs[h.Sum64()] = struct{}{}
	}
}

// Sample keeps a concrete observation for the evidence file.
func (t *T) Sample(v interface{}) {
	if len(t.samples) < 2 {
		t.samples = append(t.samples, v)
	}
}

type workerOut struct {
	Kind     string           `json:"kind"` // start | done | shard
	Case     int              `json:"case"`
	Evals    int64            `json:"evals,omitempty"`
	Counters map[string]int64 `json:"counters,omitempty"`
	Samples  []interface{}    `json:"samples,omitempty"`
	Viols    []Violation      `json:"viols,omitempty"`
	Sigs     []uint64         `json:"sigs,omitempty"`
}

func runCase(p *Prop, c int, seed int64, deep bool, dir string, sigs map[uint64]struct{}) (t *T) {
	t = &T{
		Rng:      rand.New(rand.NewSource(seed*1000003 + int64(c)*7919 + 17)),
		Case:     c,
		Seed:     seed,
		Deep:     deep,
		Dir:      dir,
		counters: map[string]int64{},
		sigs:     sigs,
	}
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				t.viols = append(t.viols, Violation{f.key, f.msg, c, seed})
				return
			}
			st := string(debug.Stack())
			t.viols = append(t.viols, Violation{"", fmt.Sprintf("panic in the code under test: %v\n%s", r, trimStack(st)), c, seed})
		}
	}()
	p.Run(t)
	return t
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "/harness/") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 14 {
		keep = keep[:14]
	}
	return strings.Join(keep, "\n")
}

func worker(args []string) {
	p := props[args[0]]
	from, step := atoi(args[1]), atoi(args[2])
	total := atoi(args[3])
	seed := int64(atoi(args[4]))
	deep := args[5] == "thorough"
	outPath, dir := args[6], args[7]
	f, err := os.OpenFile(outPath, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	must(err)
	emit := func(o workerOut) {
		b, _ := json.Marshal(o)
		f.Write(append(b, '\n'))
	}
	sigs := map[uint64]struct{}{}
	for c := from; c < total; c += step {
		cdir := filepath.Join(dir, fmt.Sprintf("case%d", c))
		must(os.MkdirAll(cdir, 0o755))
		must(os.Chdir(cdir))
		emit(workerOut{Kind: "start", Case: c})
		t := runCase(p, c, seed, deep, cdir, sigs)
		o := workerOut{Kind: "done", Case: c, Evals: t.evals, Counters: t.counters, Samples: t.samples, Viols: t.viols}
		emit(o)
		os.Chdir(dir)
		os.RemoveAll(cdir)
	}
	o := workerOut{Kind: "shard"}
	for s := range sigs {
		o.Sigs = append(o.Sigs, s)
	}
	emit(o)
	f.Close()
}

type replayFile struct {
	Property string `json:"property"`
	Case     int    `json:"case"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Key      string `json:"key,omitempty"`
	What     string `json:"what"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type knownFinding struct{ Prop, Key, Text string }

// loadKnown reads known_findings.txt: "known: property=<id> key=<key> <text>".
func loadKnown() []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		fs := strings.Fields(strings.TrimPrefix(l, "known:"))
		if len(fs) < 2 {
			continue
		}
		k := knownFinding{Prop: strings.TrimPrefix(fs[0], "property="), Key: strings.TrimPrefix(fs[1], "key=")}
		k.Text = strings.Join(fs[2:], " ")
		out = append(out, k)
	}
	return out
}

func check(id, tier string, seed int64) int {
	p := props[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
		return 2
	}
	start := time.Now()
	total := p.Quick
	if tier == "thorough" {
		total = p.Deep
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if p.MaxWorkers > 0 && nw > p.MaxWorkers {
		nw = p.MaxWorkers
	}
	if nw > total {
		nw = total
	}
	scratch, err := os.MkdirTemp(os.Getenv("VH_SCRATCH"), "vh-"+id+"-")
	must(err)
	defer os.RemoveAll(scratch)
	self, _ := os.Executable()

	var (
		mu       sync.Mutex
		evals    int64
		counters = map[string]int64{}
		samples  []interface{}
		viols    []Violation
		sigs     = map[uint64]struct{}{}
		done     int
		wg       sync.WaitGroup
	)
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			from := w
			for from < total {
				wdir := filepath.Join(scratch, fmt.Sprintf("w%d-%d", w, from))
				os.MkdirAll(wdir, 0o755)
				out := filepath.Join(wdir, "out.jsonl")
				res := runWorker(self, p, from, nw, total, seed, tier, out, wdir)
				mu.Lock()
				for _, o := range res.outs {
					switch o.Kind {
					case "done":
						done++
						evals += o.Evals
						for k, v := range o.Counters {
							counters[k] += v
						}
						if len(samples) < 12 {
							samples = append(samples, o.Samples...)
						}
						viols = append(viols, o.Viols...)
					case "shard":
						for _, s := range o.Sigs {
							sigs[s] = struct{}{}
						}
					}
				}
				nv := len(viols)
				mu.Unlock()
				os.RemoveAll(wdir)
				if res.crashedCase < 0 {
					return
				}
				mu.Lock()
				viols = append(viols, Violation{Key: "", Case: res.crashedCase, Seed: seed, Msg: res.crashMsg})
				nv = len(viols)
				mu.Unlock()
				if nv > 5 {
					return
				}
				from = res.crashedCase + nw
			}
		}(w)
	}
	wg.Wait()

	known := loadKnown()
	var real []Violation
	hitKnown := map[string]bool{}
	for _, v := range viols {
		matched := false
		for _, k := range known {
			if k.Prop == id && k.Key != "" && k.Key == v.Key {
				matched = true
				if !hitKnown[k.Key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.Text)
				}
				hitKnown[k.Key] = true
			}
		}
		if !matched {
			real = append(real, v)
		}
	}
	sort.Slice(real, func(i, j int) bool { return real[i].Case < real[j].Case })

	if samples == nil {
		samples = []interface{}{}
	}

	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": len(sigs),
		"rule":                p.Rule,
		"samples":             samples,
		"cases":               done,
		"events":              counters,
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(real),
	}
	if len(p.Assume) > 0 {
		ev["assumptions"] = p.Assume
	}
	edir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(edir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	must(os.WriteFile(filepath.Join(edir, id+".json"), append(b, '\n'), 0o644))

	if len(real) > 0 {
		rdir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(rdir, 0o755)
		for i, v := range real {
			if i >= 3 {
				break
			}
			rp := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", id, i))
			rb, _ := json.MarshalIndent(replayFile{id, v.Case, v.Seed, tier, v.Key, v.Msg}, "", " ")
			os.WriteFile(rp, append(rb, '\n'), 0o644)
			fmt.Printf("case %d: %s\n", v.Case, clip(v.Msg, 3000))
			if i == 0 {
				defer fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
			}
		}
		return 1
	}
	for _, k := range p.NeedEvents {
		if counters[k] == 0 {
			fmt.Fprintf(os.Stderr, "%s: the workload never produced %q events; the run decides nothing\n", id, k)
			return 3
		}
	}
	fmt.Printf("OK property=%s cases=%d evaluations=%d distinct=%d wall=%.1fs\n", id, done, evals, len(sigs), time.Since(start).Seconds())
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type workerRes struct {
	outs        []workerOut
	crashedCase int
	crashMsg    string
}

func runWorker(self string, p *Prop, from, step, total int, seed int64, tier, out, wdir string) workerRes {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "worker", p.ID, strconv.Itoa(from), strconv.Itoa(step), strconv.Itoa(total),
		strconv.FormatInt(seed, 10), tier, out, wdir)
	var buf tailBuf
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	cmd.Dir = wdir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=3", "GOTRACEBACK=all")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	must(cmd.Start())
	waitCh := make(chan error, 1)
	go func() { waitCh <- cmd.Wait() }()
	hung := false
	var lastSize int64 = -1
	lastChange := time.Now()
	var werr error
loop:
	for {
		select {
		case werr = <-waitCh:
			break loop
		case <-time.After(500 * time.Millisecond):
			if st, err := os.Stat(out); err == nil && st.Size() != lastSize {
				lastSize = st.Size()
				lastChange = time.Now()
			}
			if time.Since(lastChange) > time.Duration(p.CaseTimeout)*time.Second {
				hung = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
				time.Sleep(500 * time.Millisecond)
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				werr = <-waitCh
				break loop
			}
		}
	}
	res := workerRes{crashedCase: -1}
	last := -1
	if b, err := os.ReadFile(out); err == nil {
		sc := bufio.NewScanner(bytes.NewReader(b))
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		open := -1
		for sc.Scan() {
			var o workerOut
			if json.Unmarshal(sc.Bytes(), &o) != nil {
				continue
			}
			res.outs = append(res.outs, o)
			if o.Kind == "start" {
				open, last = o.Case, o.Case
			} else if o.Kind == "done" {
				open = -1
			}
		}
		if open >= 0 {
			res.crashedCase = open
		}
	}
	if res.crashedCase < 0 && werr != nil && last >= 0 && buf.background() {
		res.crashedCase = last // a goroutine left by the code under test crashed between two cases
	}
	if res.crashedCase >= 0 {
		why := fmt.Sprintf("the process running the code under test ended (%v)", werr)
		if hung {
			why = fmt.Sprintf("the code under test made no progress for %ds", p.CaseTimeout)
		}
		res.crashMsg = why + "\n" + buf.useful()
	} else if werr != nil {
		fmt.Fprintf(os.Stderr, "worker failed outside a case: %v\n%s\n", werr, buf.useful())
		os.Exit(2)
	}
	return res
}

type tailBuf struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (b *tailBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.tail = append(b.tail, p...)
	if len(b.tail) > 1<<16 {
		b.tail = b.tail[len(b.tail)-(1<<16):]
	}
	return len(p), nil
}

// background tells whether the process crashed in another goroutine than the one that runs the cases.
func (b *tailBuf) background() bool {
	m := regexp.MustCompile(`(?s)(?:panic:|fatal error:).*?\ngoroutine (\d+) `).FindStringSubmatch(string(b.tail))
	return m != nil && m[1] != "1"
}

func (b *tailBuf) useful() string {
	s := string(b.tail)
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	} else if len(s) > 2500 {
		s = s[len(s)-2500:]
	}
	return clip(s, 2500)
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	must(err)
	var r replayFile
	must(json.Unmarshal(b, &r))
	p := props[r.Property]
	scratch, err := os.MkdirTemp(os.Getenv("VH_SCRATCH"), "vh-replay-")
	must(err)
	defer os.RemoveAll(scratch)
	must(os.Chdir(scratch))
	t := runCase(p, r.Case, r.Seed, r.Tier == "thorough", scratch, map[uint64]struct{}{})
	os.Chdir("/")
	for _, v := range t.viols {
		fmt.Printf("case %d: %s\nVIOLATION property=%s replay=%s\n", v.Case, v.Msg, r.Property, path)
	}
	if len(t.viols) > 0 {
		return 1
	}
	fmt.Println("the recorded case no longer violates the property")
	return 0
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vh check PROP | vh replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		seed := int64(1)
		if s := os.Getenv("VERIF_SEED"); s != "" {
			if v, err := strconv.ParseInt(s, 10, 64); err == nil {
				seed = v
			}
		}
		os.Exit(check(os.Args[2], tier, seed))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "list":
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	default:
		os.Exit(2)
	}
}

func atoi(s string) int {
	v, err := strconv.Atoi(s)
	must(err)
	return v
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
