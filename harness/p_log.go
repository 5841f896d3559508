package main

import (
	"compress/gzip"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"simulator/v2/cache"
)

func init() {
	register(&Prop{
		ID: "C17", Quick: 160, Deep: 3000, Run: runC17,
		NeedEvents: []string{"HIT", "MISS", "ADD", "DELETE", "REDIRECT", "SKIP", "KEEP", "FREE", "FORCEDCALL", "ONK", "ONDAYEND", "ONFREE", "infinite-adds"},
		Rule:       "one evaluation = one logged event judged against the replayed contents (size and capacity after it, file, request count), plus one per request whose replayed contents were compared with the cache; distinct = distinct (policy, event, occupancy bucket, next event)",
	})
	register(&Prop{
		ID: "C22", Quick: 112, Deep: 3000, Run: runC22,
		NeedEvents: []string{"agent-runs", "categories", "kept-categories", "deleted-all", "deleted-one", "deleted-part", "greedy-categories", "greedy-decided", "after-reload", "two-run-calls"},
		Rule:       "one evaluation = one category of stored files in one run of the eviction agent, whose logged deletions and keeps were matched with the possible decisions and the action counters; distinct = distinct (mode, files in the category, deleted, kept)",
	})
	register(&Prop{
		ID: "C24", Quick: 96, Deep: 3000, Run: runC24,
		NeedEvents: []string{"requests", "resets", "stores", "skips", "agent-calls", "forced-calls", "eviction-decisions"},
		Rule:       "one evaluation = one request or counter reset after which all learning counters were compared with the logged decisions since the last reset; distinct = distinct (mode, operation, calls, forced, decision bucket)",
	})
}

// Ev is one line of the event log.
type Ev struct {
	Tick      int64
	Kind      string
	Size, Cap string
	File      int64
	FSize     string
	NReq, Dt  int64
}

func readLog(t *T, path string) []Ev {
	f, err := os.Open(path)
	if err != nil {
		t.Fail("no event log: %v", err)
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		t.Fail("the event log is not a gzip file: %v", err)
	}
	all, err := csv.NewReader(z).ReadAll()
	if err != nil {
		t.Fail("the event log is damaged: %v", err)
	}
	if len(all) == 0 {
		t.Fail("the event log has no header")
	}
	var out []Ev
	for _, r := range all[1:] {
		if len(r) != 8 {
			t.Fail("a line of the event log has %d columns: %v", len(r), r)
		}
		e := Ev{Kind: r[1], Size: r[2], Cap: r[3], FSize: r[5]}
		for _, p := range []struct {
			s string
			d *int64
		}{{r[0], &e.Tick}, {r[4], &e.File}, {r[6], &e.NReq}, {r[7], &e.Dt}} {
			v, err := strconv.ParseInt(p.s, 10, 64)
			if err != nil {
				t.Fail("a line of the event log has a bad number: %v", r)
			}
			*p.d = v
		}
		out = append(out, e)
	}
	return out
}

// Op is one operation on a logged cache.
type Op struct {
	Kind                 string // req | reset
	R                    Req
	Hit, Redir, Added    bool
	After                Snap
	Freq                 map[int64]int64 // of every file before the operation
	Tick                 int64           // served requests before the operation
	MaxB, SizeB          float64
	Cnt                  [7]int // action counters after
	Calls, Forced        int
	Evc                  *agentDump // eviction agent before the operation
	HitRateB             float64
	NReq, NAdd, NDel, NH int64 // after
}

func actionStats(c cache.Cache) (a [7]int, calls, forced int) {
	fmt.Sscanf(cache.ExtraOutput(c, "actionStats"), "%d,%d,%d,%d,%d,%d,%d", &a[0], &a[1], &a[2], &a[3], &a[4], &a[5], &a[6])
	fmt.Sscanf(cache.ExtraOutput(c, "evictionStats"), "%d,%d", &calls, &forced)
	return
}

func evcAgent(c cache.Cache) *agentDump {
	_, _, other := parseDump(c.Dumps(false))
	if other["EVCAGENT"] == "" {
		return nil
	}
	a := &agentDump{}
	must(json.Unmarshal([]byte(other["EVCAGENT"]), a))
	return a
}

// drive runs a random history on a logged cache; with table the eviction agent is recorded before each operation.
func drive(t *T, c cache.Cache, u *Universe, nreq, resetEvery int, dayStep int64, table bool) []Op {
	rng := t.Rng
	tr := newTrace(rng, u, dayStep)
	freq := map[int64]int64{}
	prev := snap(c)
	for id, s := range prev.Stats {
		freq[id] = s.Frequency
	}
	in := map[int64]bool{}
	for _, f := range prev.Files {
		in[f.Filename] = true
	}
	var ops []Op
	var tick int64
	for i := 0; i < nreq; i++ {
		reset := resetEvery > 0 && rng.Intn(resetEvery) == 0
		op := Op{Kind: "req", Tick: tick, MaxB: prev.Max, SizeB: prev.Size, Freq: map[int64]int64{}}
		if prev.NReq > 0 {
			op.HitRateB = cache.HitRate(c)
		}
		for k, v := range freq {
			op.Freq[k] = v
		}
		if table {
			op.Evc = evcAgent(c)
		}
		if reset {
			op.Kind = "reset"
			cache.ClearStats(c)
		} else {
			op.R = tr.Next()
			op.Hit = in[op.R.File]
			op.Added, op.Redir = ask(c, op.R)
			if !op.Redir {
				tick++
			}
		}
		op.After = snap(c)
		op.NReq, op.NAdd, op.NDel, op.NH = op.After.NReq, op.After.NAdd, op.After.NDel, op.After.NHit
		op.Cnt, op.Calls, op.Forced = actionStats(c)
		prev = op.After
		in = map[int64]bool{}
		for _, f := range prev.Files {
			in[f.Filename] = true
		}
		for id := range freq {
			if s, ok := prev.Stats[id]; ok {
				freq[id] = s.Frequency
			} else {
				delete(freq, id)
			}
		}
		for id, s := range prev.Stats {
			freq[id] = s.Frequency
		}
		ops = append(ops, op)
	}
	return ops
}

var logTypes = []string{"lru", "lfu", "sizeBig", "sizeSmall", "random_lru", "random", "weightFunLRU", "lruDatasetVerifier", "aiNN", "infinite",
	"aiRL:scdl", "aiRL:add", "aiRL:onK", "aiRL:onDayEnd", "aiRL:onFree", "aiRL:evOnly-onK", "aiRL:evOnly-onDayEnd", "aiRL:evOnly-onFree"}

func f2(v float64) string { return fmt.Sprintf("%0.2f", v) }

// split cuts the log in one piece per operation.
func splitLog(t *T, ops []Op, evs []Ev, label string) [][]Ev {
	out := make([][]Ev, len(ops))
	k := 0
	for i, op := range ops {
		if op.Kind == "reset" {
			// what a counter reset logs starts with its own header
			if k < len(evs) && evs[k].Kind == "ONDAYEND" {
				from := k
				k++
				for k < len(evs) && (evs[k].Kind == "DELETE" || evs[k].Kind == "KEEP") {
					k++
				}
				out[i] = evs[from:k]
			}
			continue
		}
		from := k
		want := "MISS"
		if op.Hit {
			want = "HIT"
		}
		if k >= len(evs) {
			t.Fail("%s: the log ends before request %d of %d", label, i, len(ops))
		}
		if evs[k].Kind != want || evs[k].File != op.R.File {
			t.Fail("%s: request %d for file %d is a %s; the log has %+v", label, i, op.R.File, want, evs[k])
		}
		k++
		for k < len(evs) && evs[k].Kind != "HIT" && evs[k].Kind != "MISS" && evs[k].Kind != "ONDAYEND" {
			k++
		}
		out[i] = evs[from:k]
	}
	if k != len(evs) {
		t.Fail("%s: the log has %d more events than the operations explain, first %+v", label, len(evs)-k, evs[k])
	}
	return out
}

func drawLogged(t *T, typ string, u *Universe) (Opts, string) {
	rng := t.Rng
	o, label := drawOpts(t.Dir, rng, u, typ)
	if typ == "infinite" {
		o.Type = "infinite"
	}
	o.Log = true
	o.Marks = rng.Intn(2) == 0
	if o.Marks && rng.Intn(2) == 0 {
		o.High, o.Low = 60+float64(rng.Intn(40)), float64(1+rng.Intn(58))
	}
	if rng.Intn(2) == 0 {
		o.Redirect = true
		o.Gbit = u.Cap * float64(2+rng.Intn(20)) / 10800000
	}
	return o, label
}

func runC17(t *T) {
	rng := t.Rng
	typ := logTypes[t.Case%len(logTypes)]
	u := newUniverse(rng, 8+rng.Intn(30), drawCap(rng))
	o, label := drawLogged(t, typ, u)
	n := 250
	if t.Deep {
		n = 600
	}
	if rng.Intn(12) == 0 {
		n = 0 // nothing happens at all
	}
	c := newCache(o)
	ops := drive(t, c, u, n, 40, 600, false)
	if err := cache.Terminate(c); err != nil {
		t.Fail("closing the log: %v", err)
	}
	evs := readLog(t, filepath.Join(t.Dir, "simulationLogFile.csv.gz"))
	parts := splitLog(t, ops, evs, label)
	stored := map[int64]float64{}
	var size float64
	for i, op := range ops {
		var adds, dels, redirs, skips int
		inDel := 0.
		after := false
		for j, e := range parts[i] {
			t.Eval(1)
			t.Count(e.Kind, 1)
			switch e.Kind {
			case "HIT", "MISS":
				if j != 0 {
					t.Fail("%s: request %d has event %+v in its middle", label, i, e)
				}
			case "ADD":
				if _, ok := stored[e.File]; ok {
					t.Fail("%s: request %d: file %d is added although the log already has it stored", label, i, e.File)
				}
				if e.File != op.R.File || e.FSize != f2(op.R.Size) {
					t.Fail("%s: request %d for file %d of %v MB logs the addition %+v", label, i, op.R.File, op.R.Size, e)
				}
				stored[e.File] = op.R.Size
				size += op.R.Size
				adds++
				after = true
				if typ == "infinite" {
					t.Count("infinite-adds", 1)
				}
			case "DELETE":
				s, ok := stored[e.File]
				if !ok {
					t.Fail("%s: request %d: file %d is deleted although the log does not have it stored", label, i, e.File)
				}
				if e.FSize != f2(s) {
					t.Fail("%s: request %d: the deleted file %d of %v MB is logged with %s", label, i, e.File, s, e.FSize)
				}
				delete(stored, e.File)
				size -= s
				inDel += s
				dels++
			case "REDIRECT":
				if e.File != op.R.File || e.FSize != f2(op.R.Size) {
					t.Fail("%s: request %d for file %d of %v MB logs the redirection %+v", label, i, op.R.File, op.R.Size, e)
				}
				redirs++
			case "SKIP":
				if e.File != op.R.File {
					t.Fail("%s: request %d for file %d logs %+v", label, i, op.R.File, e)
				}
				skips++
			case "KEEP":
				if _, ok := stored[e.File]; !ok {
					t.Fail("%s: request %d: file %d is kept although the log does not have it stored", label, i, e.File)
				}
			case "FREE", "ONK", "ONFREE", "ONDAYEND", "FORCEDCALL":
			default:
				t.Fail("%s: unknown event %+v", label, e)
			}
			max := op.MaxB
			if after {
				max = op.After.Max
			}
			if e.Size != f2(size) && !nearCell(e.Size, size) {
				t.Fail("%s: request %d: event %+v reports an occupied size of %s, the logged events amount to %v", label, i, e, e.Size, size)
			}
			if typ == "infinite" && e.Kind != "ADD" && max == 0 {
				continue
			}
			if max > 0 && !nearCell(e.Cap, size/max*100) {
				t.Fail("%s: request %d: event %+v reports %s%% occupied, the logged events amount to %v of %v", label, i, e, e.Cap, size, max)
			}
			// the request count the log shows for a file
			if (e.Kind == "DELETE" || e.Kind == "ADD" || e.Kind == "KEEP" || e.Kind == "SKIP") && typ != "infinite" {
				want := op.Freq[e.File]
				if op.Kind == "req" && e.File == op.R.File {
					want++
				}
				if e.NReq != want {
					t.Fail("%s: request %d: event %+v shows %d requests of the file, expected %d", label, i, e, e.NReq, want)
				}
			}
			if e.Tick != op.Tick && !(e.Tick == op.Tick+1 && j > 0 && e.Kind != "ADD" && e.Kind != "REDIRECT" && e.Kind != "SKIP") {
				t.Fail("%s: request %d is number %d; it logs %+v", label, i, op.Tick, e)
			}
			next := ""
			if j+1 < len(parts[i]) {
				next = parts[i][j+1].Kind
			}
			t.Sig(typ, e.Kind, int(size/math.Max(op.MaxB, 1)*8), next)
		}
		if op.Kind == "req" {
			if (adds == 1) != op.Added || adds > 1 || (redirs == 1) != op.Redir || redirs > 1 || skips > 1 {
				t.Fail("%s: request %d: added %v, redirected %v; the log has %d additions, %d redirections and %d skips", label, i, op.Added, op.Redir, adds, redirs, skips)
			}
			if op.Redir && len(parts[i]) != 2 {
				t.Fail("%s: request %d is redirected and logs %d events", label, i, len(parts[i]))
			}
		}
		if typ == "aiRL:onDayEnd" || typ == "aiRL:evOnly-onDayEnd" {
			if op.Kind == "reset" && (len(parts[i]) == 0) {
				t.Fail("%s: the end of the day is not logged", label)
			}
		} else if op.Kind == "reset" && len(parts[i]) > 0 {
			t.Fail("%s: a counter reset logs %+v", label, parts[i][0])
		}
		t.Eval(1)
		if len(stored) != len(op.After.Files) {
			t.Fail("%s: after request %d the log has %d files stored, the cache %d", label, i, len(stored), len(op.After.Files))
		}
		for _, f := range op.After.Files {
			if s, ok := stored[f.Filename]; !ok || s != f.Size {
				t.Fail("%s: after request %d the cache stores file %d of %v MB, the log says %v, %v", label, i, f.Filename, f.Size, ok, s)
			}
		}
		if !near(size, op.After.Size) {
			t.Fail("%s: after request %d the log amounts to %v MB, the cache to %v", label, i, size, op.After.Size)
		}
		size = op.After.Size
	}
	t.Sample(map[string]interface{}{"policy": label, "events": len(evs), "operations": len(ops)})
}

// nearCell compares a printed two-decimal number with its value.
func nearCell(s string, v float64) bool {
	g, err := strconv.ParseFloat(s, 64)
	return err == nil && math.Abs(g-v) <= 0.00501+1e-9*math.Abs(v)
}

// ---- C22: what a run of the eviction agent does --------------------------------------------

type catFile struct {
	id         int64
	size       float64
	freq, tick int64
}

// Actions in the order of the counters: all, half, quarter, one, none.
const (
	aAll = iota
	aHalf
	aQuarter
	aOne
	aNone
)

func part(n, d int) int {
	if n/d < 1 {
		return 1
	}
	return n / d
}

// feasible lists the decisions that explain what happened to one category.
func feasible(files []catFile, deleted, kept []int64) []int {
	n := len(files)
	if len(deleted) == 0 {
		if len(kept) == n && n > 0 {
			return []int{aNone}
		}
		return nil
	}
	if len(kept) > 0 {
		return nil
	}
	var out []int
	d := len(deleted)
	if d == n {
		out = append(out, aAll)
	}
	if d == part(n, 2) {
		out = append(out, aHalf)
	}
	if d == part(n, 4) {
		out = append(out, aQuarter)
	}
	if d == 1 {
		oldest := files[0]
		for _, f := range files {
			if f.tick < oldest.tick {
				oldest = f
			}
		}
		if deleted[0] == oldest.id {
			out = append(out, aOne)
		}
	}
	return out
}

type catKey struct{ size, freq int }

type evRun struct {
	cats  []catKey
	opts  [][]int
	nfile []int
	ndel  []int
	nkeep []int
	left  map[int64]catFile
	share []float64 // occupied by the category, MB
	ids   [][]int64
}

// judgeRun explains the entries as one run of the eviction agent over the stored files.
func judgeRun(stored map[int64]catFile, entries []Ev, key func(catFile) catKey) (*evRun, string) {
	byCat := map[catKey][]catFile{}
	for _, f := range stored {
		byCat[key(f)] = append(byCat[key(f)], f)
	}
	del, keep := map[catKey][]int64{}, map[catKey][]int64{}
	seen := map[int64]bool{}
	left := map[int64]catFile{}
	for k, v := range stored {
		left[k] = v
	}
	for _, e := range entries {
		f, ok := stored[e.File]
		if !ok || seen[e.File] {
			return nil, fmt.Sprintf("%s of file %d, which is not stored or was already handled", e.Kind, e.File)
		}
		seen[e.File] = true
		if e.Kind == "DELETE" {
			del[key(f)] = append(del[key(f)], e.File)
			delete(left, e.File)
		} else {
			keep[key(f)] = append(keep[key(f)], e.File)
		}
	}
	r := &evRun{left: left}
	for k := range byCat {
		r.cats = append(r.cats, k)
	}
	sort.Slice(r.cats, func(i, j int) bool {
		if r.cats[i].size != r.cats[j].size {
			return r.cats[i].size < r.cats[j].size
		}
		return r.cats[i].freq < r.cats[j].freq
	})
	for _, k := range r.cats {
		fs := byCat[k]
		opts := feasible(fs, del[k], keep[k])
		if len(opts) == 0 {
			return nil, fmt.Sprintf("category %v of %d files: %d deleted, %d kept (deleted %v)", k, len(fs), len(del[k]), len(keep[k]), del[k])
		}
		r.opts = append(r.opts, opts)
		r.nfile = append(r.nfile, len(fs))
		r.ndel = append(r.ndel, len(del[k]))
		r.nkeep = append(r.nkeep, len(keep[k]))
		var s float64
		for _, f := range fs {
			s += f.size
		}
		r.share = append(r.share, s)
	}
	return r, ""
}

// assignable tells whether the counted decisions can be spread over the categories.
func assignable(opts [][]int, cnt [5]int) bool {
	tot := 0
	for _, v := range cnt {
		tot += v
	}
	if tot != len(opts) {
		return false
	}
	memo := map[string]bool{}
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(opts) {
			return true
		}
		k := fmt.Sprint(i, cnt)
		if memo[k] {
			return false
		}
		for _, a := range opts[i] {
			if cnt[a] > 0 {
				cnt[a]--
				if rec(i + 1) {
					return true
				}
				cnt[a]++
			}
		}
		memo[k] = true
		return false
	}
	return rec(0)
}

var evModes = []string{"evOnly-onK", "evOnly-onDayEnd", "evOnly-onFree", "evOnly-onFree", "evOnly-onDayEnd", "onK", "onDayEnd", "onFree"}

func runC22(t *T) {
	rng := t.Rng
	mode := evModes[t.Case%len(evModes)]
	u := newUniverse(rng, 8+rng.Intn(40), drawCap(rng))
	o := Opts{Size: u.Cap, Seed: rng.Int63(), Log: true, Marks: rng.Intn(2) == 0}
	aiOpts(&o, t.Dir, rng, mode)
	if rng.Intn(3) == 0 { // a single category
		must(os.WriteFile(o.P.AIRLEvictionFeatureMap, []byte(`{"catSize":{"type":"float","buckets":[1],"openRight":true,"fileFeature":true},`+
			`"catNumReq":{"type":"int","buckets":[1000000],"openRight":true,"fileFeature":true},`+
			`"catDeltaLastRequest":{"type":"int","buckets":[4000000000000000000],"openRight":true,"fileFeature":true}}`), 0o644))
	}
	greedy := rng.Intn(3) > 0
	if greedy {
		o.P.AIRLEvictionEpsilonStart = 0
		o.P.AIRLEvictionEpsilonUnleash = false
	}
	o.P.AIRLEvictionK = int64(1 + rng.Intn(12))
	fs := readFeatures(o.P.AIRLEvictionFeatureMap)
	feat := map[string]FDef{}
	for _, f := range fs {
		feat[f.Name] = f
	}
	key := func(f catFile) catKey { return catKey{feat["catSize"].index(f.size), feat["catNumReq"].index(f.freq)} }

	stored := map[int64]catFile{}
	info := map[int64]catFile{}
	n := 200
	if t.Deep {
		n = 500
	}
	c := newCache(o)
	prevCnt := [7]int{}
	rounds := 1
	if rng.Intn(2) == 0 {
		rounds = 2
	}
	var base int64
	for round := 0; round < rounds; round++ {
		if round > 0 { // go on in a cache restored from a dump
			d := c.Dumps(true)
			must(os.Remove("simulationLogFile.csv.gz"))
			c = newCache(o)
			eps := 0.3
			if greedy {
				eps = 0
			}
			cache.Loads(c, d, eps, 0.01)
			t.Count("after-reload", 1)
			prevCnt = [7]int{}
			base += 1000000
		}
		ops := drive(t, c, u, n, 30, 0, true)
		must(cache.Terminate(c))
		parts := splitLog(t, ops, readLog(t, filepath.Join(t.Dir, "simulationLogFile.csv.gz")), mode)
		for i, op := range ops {
			label := fmt.Sprintf("%s, operation %d", mode, i)
			var cnt [5]int
			for k := range cnt {
				cnt[k] = op.Cnt[2+k]
				if op.Kind == "req" {
					cnt[k] -= prevCnt[2+k]
				}
			}
			prevCnt = op.Cnt
			hit := op.Hit
			if op.Kind == "req" && !op.Redir {
				f := info[op.R.File]
				f.id, f.size, f.tick = op.R.File, op.R.Size, base+op.Tick
				f.freq = op.Freq[f.id] + 1
				info[f.id] = f
				if hit {
					stored[f.id] = f
				}
			}
			sizeNow := op.SizeB
			all := [][][]int{{}}
			for j := 0; j < len(parts[i]); {
				e := parts[i][j]
				j++
				switch e.Kind {
				case "ADD":
					stored[e.File] = info[e.File]
					sizeNow += info[e.File].size
				case "DELETE", "KEEP":
					t.Fail("%s: %+v outside a run of the eviction agent", label, e)
				case "ONK", "ONFREE", "ONDAYEND", "FORCEDCALL":
					from := j
					for j < len(parts[i]) && (parts[i][j].Kind == "DELETE" || parts[i][j].Kind == "KEEP") {
						j++
					}
					entries := parts[i][from:j]
					t.Count("agent-runs", 1)
					r, why := judgeRun(stored, entries, key)
					var runs []*evRun
					var alts [][]*evRun
					if r != nil {
						runs = []*evRun{r}
						alts = append(alts, runs)
					}
					if !strings.HasPrefix(mode, "evOnly-") && (e.Kind == "ONFREE" || e.Kind == "FORCEDCALL") {
						// with an addition agent the eviction agent runs twice: any valid split may be the real one
						for k := 0; k <= len(entries); k++ {
							r1, _ := judgeRun(stored, entries[:k], key)
							if r1 == nil {
								continue
							}
							if r2, _ := judgeRun(r1.left, entries[k:], key); r2 != nil {
								if runs == nil {
									runs = []*evRun{r1, r2}
									t.Count("two-run-calls", 1)
								}
								alts = append(alts, []*evRun{r1, r2})
							}
						}
					}
					if len(alts) == 0 {
						t.Fail("%s: a run of the eviction agent (%s) is not one decision per category: %s", label, e.Kind, why)
					}
					var next [][][]int
					for _, head := range all {
						for _, alt := range alts {
							o := append([][]int{}, head...)
							for _, r := range alt {
								o = append(o, r.opts...)
							}
							next = append(next, o)
						}
					}
					all = next
					for _, r := range runs {
						for k := range r.cats {
							t.Eval(1)
							t.Count("categories", 1)
							switch {
							case r.nkeep[k] > 0:
								t.Count("kept-categories", 1)
							case r.ndel[k] == r.nfile[k]:
								t.Count("deleted-all", 1)
							case r.ndel[k] == 1:
								t.Count("deleted-one", 1)
							default:
								t.Count("deleted-part", 1)
							}
							t.Sig(mode, minInt(r.nfile[k], 30), minInt(r.ndel[k], 30), r.nkeep[k] > 0)
						}
					}
					// with exploration off the decision has the highest learned value
					if greedy && len(runs) == 1 && strings.HasPrefix(mode, "evOnly-") && (e.Kind == "ONDAYEND" || e.Kind == "ONFREE") {
						r := runs[0]
						hr := op.HitRateB
						if e.Kind == "ONDAYEND" {
							hr = 0
						}
						for k, cat := range r.cats {
							var st []int
							for _, f := range fs {
								switch f.Name {
								case "catSize":
									st = append(st, cat.size)
								case "catNumReq":
									st = append(st, cat.freq)
								case "catDeltaLastRequest":
									st = append(st, 0)
								case "catPercOcc":
									st = append(st, f.index(r.share[k]/op.MaxB*100))
								case "percOcc":
									st = append(st, f.index(sizeNow/op.MaxB*100))
								case "hitRate":
									st = append(st, f.index(hr))
								}
							}
							t.Count("greedy-categories", 1)
							row := -1
							for x, s := range op.Evc.QTable.States {
								if fmt.Sprint(s) == fmt.Sprint(st) {
									row = x
								}
							}
							if row < 0 {
								t.Fail("%s: no state for category %v: %v", label, cat, st)
							}
							v := op.Evc.QTable.Actions[row] // keep, one, quarter, half, all
							best := math.Inf(-1)
							for _, x := range v {
								best = math.Max(best, x)
							}
							ok, ties := false, 0
							slot := map[int]int{aNone: 0, aOne: 1, aQuarter: 2, aHalf: 3, aAll: 4}
							for _, a := range r.opts[k] {
								ok = ok || v[slot[a]] >= best-1e-9
							}
							for _, x := range v {
								if x >= best-1e-9 {
									ties++
								}
							}
							if ties < 5 {
								t.Count("greedy-decided", 1)
							}
							if !ok {
								t.Fail("%s: with exploration off, category %v (%d files, %d deleted, %d kept) in state %v with learned values keep %v, one %v, quarter %v, half %v, all %v",
									label, cat, r.nfile[k], r.ndel[k], r.nkeep[k], st, v[0], v[1], v[2], v[3], v[4])
							}
						}
					}
					for _, e := range entries {
						if e.Kind == "DELETE" {
							sizeNow -= stored[e.File].size
							delete(stored, e.File)
						}
					}
				}
			}
			fits := false
			for _, o := range all {
				fits = fits || assignable(o, cnt)
			}
			if !fits {
				t.Fail("%s: the action counters report %v (all, half, quarter, one, none) for decisions possible as %v", label, cnt, all[0])
			}
			if len(stored) != len(op.After.Files) {
				t.Fail("%s: %d files are stored, the decisions leave %d", label, len(op.After.Files), len(stored))
			}
			for _, f := range op.After.Files {
				if _, ok := stored[f.Filename]; !ok {
					t.Fail("%s: file %d is stored, the decisions deleted it", label, f.Filename)
				}
			}
		}
	}
	t.Sample(map[string]interface{}{"mode": mode, "greedy": greedy, "features": fs})
}

// ---- C24: learning counters ------------------------------------------------------------------

func runC24(t *T) {
	rng := t.Rng
	mode := aiModes[t.Case%len(aiModes)]
	u := newUniverse(rng, 8+rng.Intn(30), drawCap(rng))
	o := Opts{Size: u.Cap, Seed: rng.Int63(), Log: true}
	aiOpts(&o, t.Dir, rng, mode)
	if rng.Intn(2) == 0 {
		o.Redirect = true
		o.Gbit = u.Cap * float64(2+rng.Intn(20)) / 10800000
	}
	o.P.AIRLEvictionK = int64(1 + rng.Intn(12))
	n := 250
	if t.Deep {
		n = 600
	}
	c := newCache(o)
	ops := drive(t, c, u, n, 25, 300, false)
	must(cache.Terminate(c))
	parts := splitLog(t, ops, readLog(t, filepath.Join(t.Dir, "simulationLogFile.csv.gz")), mode)
	hasAdd := !strings.HasPrefix(mode, "evOnly-")
	hasEvc := mode != "scdl" && mode != "add"
	var prev Op
	var served, misses, skips, adds, dels, hits, calls, forced, least int
	for i, op := range ops {
		label := fmt.Sprintf("%s, operation %d (%s)", mode, i, op.Kind)
		t.Eval(1)
		if op.Kind == "reset" {
			served, misses, skips, adds, dels, hits, calls, forced, least = 0, 0, 0, 0, 0, 0, 0, 0, 0
			prev = Op{}
			t.Count("resets", 1)
		} else {
			t.Count("requests", 1)
			if !op.Redir {
				served++
				if op.Hit {
					hits++
				} else {
					misses++
				}
			}
		}
		dKeepDel := 0
		for _, e := range parts[i] {
			switch e.Kind {
			case "SKIP":
				skips++
				t.Count("skips", 1)
			case "ADD":
				adds++
			case "DELETE":
				dels++
				dKeepDel++
			case "KEEP":
				dKeepDel++
			case "ONK", "ONDAYEND":
				calls++
				least++
			case "ONFREE", "FORCEDCALL":
				calls++
				least++
				if hasAdd {
					calls++ // it runs twice
				}
				if e.Kind == "FORCEDCALL" {
					forced++
				}
			}
		}
		store, not := op.Cnt[0], op.Cnt[1]
		if hasAdd {
			if store+not != misses || not != skips {
				t.Fail("%s: %d decisions to store and %d not to store, %d misses were served and %d skips logged since the last reset", label, store, not, misses, skips)
			}
			if store < adds {
				t.Fail("%s: %d decisions to store, %d files were added", label, store, adds)
			}
			t.Count("stores", store-prev.Cnt[0])
		} else if store != 0 || not != 0 || skips != 0 {
			t.Fail("%s: no addition agent, yet %d and %d decisions", label, store, not)
		}
		if int64(served) != op.NReq || int64(hits) != op.NH || int64(adds) != op.NAdd || int64(dels) != op.NDel {
			t.Fail("%s: %d requests, %d hits, %d additions, %d deletions reported; the log has %d, %d, %d, %d", label, op.NReq, op.NH, op.NAdd, op.NDel, served, hits, adds, dels)
		}
		dec := op.Cnt[2] + op.Cnt[3] + op.Cnt[4] + op.Cnt[5] + op.Cnt[6]
		pdec := prev.Cnt[2] + prev.Cnt[3] + prev.Cnt[4] + prev.Cnt[5] + prev.Cnt[6]
		if hasEvc {
			if op.Forced != forced {
				t.Fail("%s: %d forced calls of the eviction agent reported, the log has %d", label, op.Forced, forced)
			}
			if strings.HasPrefix(mode, "evOnly-") && op.Calls != calls || op.Calls > calls || op.Calls < least {
				t.Fail("%s: %d calls of the eviction agent reported, the log has %d", label, op.Calls, calls)
			}
			if (dec > pdec) != (dKeepDel > 0) || dec-pdec > dKeepDel {
				t.Fail("%s: %d eviction decisions counted, %d files were kept or deleted", label, dec-pdec, dKeepDel)
			}
			t.Count("eviction-decisions", dec-pdec)
			t.Count("agent-calls", op.Calls-prev.Calls)
			t.Count("forced-calls", op.Forced-prev.Forced)
		} else if dec != 0 || op.Calls != 0 || op.Forced != 0 {
			t.Fail("%s: no eviction agent, yet %d decisions, %d calls, %d forced", label, dec, op.Calls, op.Forced)
		}
		t.Sig(mode, op.Kind, minInt(op.Calls-prev.Calls, 3), op.Forced-prev.Forced, minInt(dec-pdec, 6))
		prev = op
	}
	t.Sample(map[string]interface{}{"mode": mode, "operations": len(ops)})
}

var _ = rand.Int
