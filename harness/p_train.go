package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"simulator/v2/cache"
)

// ---- C36: how the eviction agent is trained ----------------------------------------------------

func init() {
	register(&Prop{
		ID: "C36", Quick: 56, Deep: 500, Run: runC36, CaseTimeout: 240,
		NeedEvents: []string{"requests", "agent-runs", "updates", "updated-cells", "delayed-rewards", "forced-punishments", "after-call-rewards", "unambiguous-ops", "agent-clears"},
		Rule:       "one evaluation = the complete learned table of the eviction agent after one operation compared with the table predicted from the table before it, the remembered decisions and the outcome; distinct = distinct (mode, kind of operation, hit, updates bucket, decision count)",
	})
	register(&Prop{
		ID: "C37", Quick: 320, Deep: 3000, Run: runC37, CaseTimeout: 240,
		NeedEvents: []string{"simulator-runs", "rows", "rows-with-both-decisions", "rows-of-evictions-agents", "rows-with-eviction-runs", "epsilon-steps", "printed-tables", "rates-of-its-own", "final-rates"},
		Rule:       "one evaluation = the learning columns of one daily line of a real run compared with the day's part of its event log; distinct = distinct (mode, agent runs, forced calls, decisions buckets)",
	})
}

// decision is what the eviction agent chose for one category in one run; some choices cannot be told apart at once.
type decision struct{ cands []int }

type memory struct {
	state int
	d     *decision
	cap   float64
}

type update struct {
	state, next int
	d           *decision
	reward      float64
}

var actionSlot = map[int]int{aNone: 0, aOne: 1, aQuarter: 2, aHalf: 3, aAll: 4}

// applyUpdates applies the updates to the table for every possible choice of the undecided decisions and keeps the choices that give got.
// It returns the number of choices tried (0: too many) and the ones that fit.
func applyUpdates(before, got [][]float64, ups []update) (tried int, fit []map[*decision]int, pred [][]float64) {
	var open []*decision
	seen := map[*decision]bool{}
	n := 1
	for _, u := range ups {
		if !seen[u.d] {
			seen[u.d] = true
			open = append(open, u.d)
			n *= len(u.d.cands)
			if n > 512 {
				return 0, nil, nil
			}
		}
	}
	rows := map[int]bool{}
	for _, u := range ups {
		rows[u.state] = true
		rows[u.next] = true
	}
	for s := range before { // rows that no update names must not change
		if rows[s] {
			continue
		}
		for a := range before[s] {
			if before[s][a] != got[s][a] {
				return n, nil, before
			}
		}
	}
	for i := 0; i < n; i++ {
		choice := map[*decision]int{}
		k := i
		for _, d := range open {
			choice[d] = d.cands[k%len(d.cands)]
			k /= len(d.cands)
		}
		tab := map[int][]float64{}
		for s := range rows {
			tab[s] = append([]float64{}, before[s]...)
		}
		for _, u := range ups {
			best := math.Inf(-1)
			for _, v := range tab[u.next] {
				best = math.Max(best, v)
			}
			a := actionSlot[choice[u.d]]
			tab[u.state][a] += 0.9 * (u.reward + 0.5*best - tab[u.state][a])
		}
		same := true
		for s := range rows {
			for a := range tab[s] {
				same = same && math.Abs(tab[s][a]-got[s][a]) <= 1e-9*(1+math.Abs(tab[s][a]))
			}
		}
		if same {
			fit = append(fit, choice)
		}
		if i == 0 {
			pred = nil
			for s := range before {
				if rows[s] {
					pred = append(pred, tab[s])
				} else {
					pred = append(pred, before[s])
				}
			}
		}
	}
	return n, fit, pred
}

func runC36(t *T) {
	rng := t.Rng
	mode := []string{"evOnly-onK", "evOnly-onDayEnd", "evOnly-onFree"}[t.Case%3]
	u := newUniverse(rng, 6+rng.Intn(20), drawCap(rng))
	o := Opts{Size: u.Cap, Seed: rng.Int63(), Log: true}
	aiOpts(&o, t.Dir, rng, mode)
	o.P.AIRLEvictionEpsilonStart = []float64{1, 1, 0.4, 0}[rng.Intn(4)]
	o.P.AIRLEvictionEpsilonUnleash = false
	o.P.AIRLEvictionK = int64(1 + rng.Intn(15))
	if rng.Intn(3) == 0 { // runs all the time
		o.P.AIRLEvictionK = int64(rng.Intn(2))
	}
	if rng.Intn(3) == 0 { // a cache that seldom is full
		sum := 0.
		for _, x := range u.Size {
			sum += x
		}
		o.Size = math.Max(u.Cap, sum*(0.5+0.5*rng.Float64()))
	}
	fs := readFeatures(o.P.AIRLEvictionFeatureMap)
	feat := map[string]FDef{}
	for _, f := range fs {
		feat[f.Name] = f
	}
	key := func(f catFile) catKey { return catKey{feat["catSize"].index(f.size), feat["catNumReq"].index(f.freq)} }
	c := newCache(o)
	if rng.Intn(3) == 0 { // an agent that has learned to keep the files
		cache.Loads(c, withValues(t, c, map[string][]float64{"EVCAGENT": {25, -1, -1, -1, -1}}), []float64{0, 0.1, 0.3}[rng.Intn(3)], 0.01)
		t.Count("keeping-agents", 1)
	}
	first := evcAgent(c)
	rowOf := map[string]int{}
	for x, s := range first.QTable.States {
		rowOf[fmt.Sprint(s)] = x
	}
	pos := map[string]int{}
	for i, f := range fs {
		pos[f.Name] = i
	}
	// a state follows another one when size and delta bucket are the same and the request count bucket is not lower
	follows := func(old, new int) bool {
		a, b := first.QTable.States[old], first.QTable.States[new]
		return a[pos["catSize"]] == b[pos["catSize"]] && a[pos["catDeltaLastRequest"]] == b[pos["catDeltaLastRequest"]] && b[pos["catNumReq"]] >= a[pos["catNumReq"]]
	}

	n := 80 + rng.Intn(100)
	if t.Deep {
		n = 250 + rng.Intn(250)
	}
	var ops []Op
	clearAt := -1
	for round := 0; round < 2; round++ {
		part := drive(t, c, u, n, 25, 0, true)
		for i := range part {
			part[i].Tick += int64(len(ops))
		}
		ops = append(ops, part...)
		if round == 0 && rng.Intn(2) == 0 { // emptying the cache keeps what was learned and remembered
			cache.ClearFiles(c)
			clearAt = len(ops)
			t.Count("agent-clears", 1)
		}
	}
	final := evcAgent(c)
	must(cache.Terminate(c))
	parts := splitLog(t, ops, readLog(t, filepath.Join(t.Dir, "simulationLogFile.csv.gz")), mode)

	mem := map[int64][]memory{} // the decisions about each file
	var kept []memory           // the decisions to keep since the last forced call, once for each file
	last := map[int]*decision{} // the decisions of the latest run, by state
	stored, info := map[int64]catFile{}, map[int64]catFile{}
	prevCnt := [7]int{}
	total := 0
	for i, op := range ops {
		if i == clearAt {
			stored = map[int64]catFile{}
			last = map[int]*decision{}
		}
		label := fmt.Sprintf("%s, operation %d (%s of file %d, hit %v)", mode, i, op.Kind, op.R.File, op.Hit)
		var cnt [5]int
		for k := range cnt {
			cnt[k] = op.Cnt[2+k]
			if op.Kind == "req" {
				cnt[k] -= prevCnt[2+k]
			}
		}
		prevCnt = op.Cnt
		served := op.Kind == "req" && !op.Redir
		if served {
			t.Count("requests", 1)
			f := info[op.R.File]
			f.id, f.size, f.tick, f.freq = op.R.File, op.R.Size, op.Tick, op.Freq[op.R.File]+1
			info[f.id] = f
			if op.Hit {
				stored[f.id] = f
			}
		}
		size := op.SizeB
		var ups []update
		var runs []*evRun
		var decided [][]*decision
		lastStates := func() []int {
			var out []int
			for s := range last {
				out = append(out, s)
			}
			sort.Ints(out)
			return out
		}
		reward := func() { // the outcome of the call: was there room for the file?
			t.Count("after-call-rewards", 1)
			for _, s := range lastStates() {
				r := 1.
				if !op.Added && last[s].cands[0] == aNone {
					r = -1
				}
				ups = append(ups, update{s, s, last[s], r})
			}
		}
		delayed := func() { // the outcome of the remembered decisions about the requested file
			m := mem[op.R.File]
			for k := 0; k+1 < len(m); k++ {
				t.Count("delayed-rewards", 1)
				r := -1.
				keep := m[k].d.cands[0] == aNone
				switch {
				case op.Hit && keep && m[k].cap >= m[k+1].cap:
					r = 3
				case op.Hit && keep:
					r = 2
				case op.Hit:
					r = 1
				case keep:
				case m[k].cap < m[k+1].cap:
					r = -3
				default:
					r = -2
				}
				ups = append(ups, update{m[k].state, m[k+1].state, m[k].d, r})
			}
		}
		delayedDone := false
		for j := 0; j < len(parts[i]); {
			e := parts[i][j]
			j++
			if e.Kind == "ONK" {
				delayed()
				delayedDone = true
			}
			switch e.Kind {
			case "ADD":
				stored[e.File] = info[e.File]
				size += info[e.File].size
			case "FORCEDCALL":
				if len(kept) >= 64 {
					t.Count("long-memories", 1)
				}
				for _, m := range kept {
					for _, s := range lastStates() {
						if follows(m.state, s) {
							ups = append(ups, update{m.state, s, m.d, -1})
							t.Count("forced-punishments", 1)
						}
					}
				}
				kept = nil
			}
			switch e.Kind {
			case "ONK", "ONFREE", "ONDAYEND", "FORCEDCALL":
				from := j
				for j < len(parts[i]) && (parts[i][j].Kind == "DELETE" || parts[i][j].Kind == "KEEP") {
					j++
				}
				entries := parts[i][from:j]
				t.Count("agent-runs", 1)
				r, why := judgeRun(stored, entries, key)
				if r == nil {
					t.Fail("%s: a run of the eviction agent is not one decision per category: %s", label, why)
				}
				runs = append(runs, r)
				hr := op.HitRateB
				if e.Kind == "ONDAYEND" {
					hr = 0
				}
				last = map[int]*decision{}
				var ds []*decision
				byCat := map[catKey]int{}
				states := make([]int, len(r.cats))
				for k, cat := range r.cats {
					var st []int
					for _, f := range fs {
						switch f.Name {
						case "catSize":
							st = append(st, cat.size)
						case "catNumReq":
							st = append(st, cat.freq)
						case "catDeltaLastRequest":
							st = append(st, 0)
						case "catPercOcc":
							st = append(st, f.index(r.share[k]/op.MaxB*100))
						case "percOcc":
							st = append(st, f.index(size/op.MaxB*100))
						case "hitRate":
							st = append(st, f.index(hr))
						}
					}
					row, ok := rowOf[fmt.Sprint(st)]
					if !ok {
						t.Fail("%s: no state for category %v: %v", label, cat, st)
					}
					d := &decision{cands: append([]int{}, r.opts[k]...)}
					ds = append(ds, d)
					states[k] = row
					byCat[cat] = k
					last[row] = d
				}
				decided = append(decided, ds)
				for _, x := range entries {
					f := stored[x.File]
					k := byCat[key(f)]
					if x.Kind == "DELETE" {
						size -= f.size
						delete(stored, x.File)
					}
					m := memory{states[k], ds[k], size / op.MaxB * 100}
					mem[x.File] = append(mem[x.File], m)
					if x.Kind == "KEEP" {
						kept = append(kept, m)
					}
				}
				if e.Kind == "ONFREE" || e.Kind == "FORCEDCALL" {
					reward()
				}
			}
		}
		if served && !delayedDone {
			delayed()
		}
		// the counters narrow the decisions down
		var opts [][]int
		var all []*decision
		for x, r := range runs {
			opts = append(opts, r.opts...)
			all = append(all, decided[x]...)
		}
		if !assignable(opts, cnt) {
			t.Fail("%s: the action counters report %v (all, half, quarter, one, none) for decisions possible as %v", label, cnt, opts)
		}
		for x, d := range all {
			full := opts[x]
			var ok []int
			for _, a := range full {
				opts[x] = []int{a}
				if assignable(opts, cnt) {
					ok = append(ok, a)
				}
			}
			opts[x] = full
			d.cands = ok
		}

		after := final
		if i+1 < len(ops) {
			after = ops[i+1].Evc
		}
		t.Eval(1)
		total += len(ups)
		t.Count("updates", len(ups))
		tried, fit, want := applyUpdates(op.Evc.QTable.Actions, after.QTable.Actions, ups)
		switch {
		case tried == 0:
			t.Count("too-many-choices", 1)
		case len(fit) == 0:
			for s := range want {
				for a := range want[s] {
					if math.Abs(want[s][a]-after.QTable.Actions[s][a]) > 1e-9*(1+math.Abs(want[s][a])) {
						t.Fail("%s: the learned value of state %v action %d is %v before and %v after, expected %v (%d updates: %s; %d possible choices tried)", label,
							first.QTable.States[s], a, op.Evc.QTable.Actions[s][a], after.QTable.Actions[s][a], want[s][a], len(ups), upText(ups), tried)
					}
				}
			}
			t.Fail("%s: no choice of decisions explains the learned table (%d updates: %s)", label, len(ups), upText(ups))
		default:
			if tried == 1 {
				t.Count("unambiguous-ops", 1)
			}
			possible := map[*decision]map[int]bool{}
			for _, f := range fit {
				for d, a := range f {
					if possible[d] == nil {
						possible[d] = map[int]bool{}
					}
					possible[d][a] = true
				}
			}
			for d, as := range possible {
				var ok []int
				for _, a := range d.cands {
					if as[a] {
						ok = append(ok, a)
					}
				}
				if len(ok) < len(d.cands) {
					t.Count("decisions-resolved", 1)
				}
				d.cands = ok
			}
			for s := range want {
				for a := range want[s] {
					if op.Evc.QTable.Actions[s][a] != after.QTable.Actions[s][a] {
						t.Count("updated-cells", 1)
					}
				}
			}
		}
		// the value function adds up the rewards
		sum := 0.
		for _, u := range ups {
			sum += u.reward
		}
		if math.Abs(after.QValue-op.Evc.QValue-sum) > 1e-6 {
			t.Fail("%s: the value function goes from %v to %v with rewards of %v", label, op.Evc.QValue, after.QValue, sum)
		}
		// one exploration step for each update
		steps := after.Steps - op.Evc.Steps
		if steps > int64(len(ups)) || (steps < int64(len(ups)) && after.Epsilon > 0.1+1e-9) {
			t.Fail("%s: the exploration rate took %d steps (to %v) for %d updates", label, steps, after.Epsilon, len(ups))
		}
		t.Sig(mode, op.Kind, op.Hit, minInt(len(ups), 12), minInt(len(all), 6))
	}
	t.Sample(map[string]interface{}{"mode": mode, "features": fs, "operations": len(ops), "updates": total, "exploration": o.P.AIRLEvictionEpsilonStart})
}

// ---- C37: the daily lines of learning simulations ----------------------------------------------

func runC37(t *T) {
	rng := t.Rng
	mode := aiModes[t.Case%len(aiModes)]
	evOnly := strings.HasPrefix(mode, "evOnly-")
	hasAdd := !evOnly
	hasEvc := mode != "scdl" && mode != "add"
	u := newUniverse(rng, 10+rng.Intn(40), drawCap(rng))
	recs := drawRecords(rng, u, 3+rng.Intn(6), 60, false)
	cfg, _ := drawSim(rng, u, "aiRL", 60)
	t.policyConf("aiRL:"+mode, u, cfg)
	cfg["region"] = "all"
	cfg["cache.stats.maxNumDayDiff"], cfg["cache.stats.deltaDaysStep"] = 1000., 1000.
	cfg["log"], cfg["dump"] = true, true
	unleash := rng.Intn(2) == 0
	cfg["ai.rl.epsilon.unleash"] = unleash
	// rates of its own for an agent, or the common ones
	unleashed := map[string]bool{"addition": unleash, "eviction": unleash}
	start := map[string]float64{"addition": 1, "eviction": 1}
	decay := map[string]float64{}
	if rng.Intn(3) == 0 {
		cfg["ai.rl.epsilon.start"] = 0.8
		start["addition"], start["eviction"] = 0.8, 0.8
	}
	for agent := range start {
		decay[agent] = cfg["ai.rl.epsilon.decay"].(float64)
	}
	for _, agent := range []string{"addition", "eviction"} {
		if rng.Intn(3) == 0 {
			decay[agent] = []float64{0.000371, 0.0113, 0.0737}[rng.Intn(3)]
			cfg["ai.rl."+agent+".epsilon.decay"] = decay[agent]
			t.Count("rates-of-its-own", 1)
		}
		if rng.Intn(4) == 0 {
			start[agent] = 0.6
			cfg["ai.rl."+agent+".epsilon.start"] = 0.6
		}
		if !unleash && rng.Intn(3) == 0 {
			unleashed[agent] = true
			cfg["ai.rl."+agent+".epsilon.unleash"] = true
		}
	}
	writeCSV(filepath.Join(t.Dir, "data.csv"), recs, csvColumns)
	run := t.sim(t.Dir, "c", cfg)
	evs := readLog(t, filepath.Join(run.Dir, "simulationLogFile.csv.gz"))
	label := mode + ": " + yamlOf(cfg)

	feat := map[string]FDef{}
	if hasEvc {
		for _, f := range readFeatures(cfg["ai.rl.eviction.featuremap"].(string)) {
			feat[f.Name] = f
		}
	}
	type line struct {
		served, misses, skips, forced, runs, onk, deleted, kept int
		cats                                                    []int // categories after each served request
		decisions                                               int
	}
	day := dayIndex(recs)
	lines := make([]line, day[len(day)-1]+1)
	freq := map[int64]int{}
	stored := map[int64][2]int{}
	sizes := map[int64]float64{}
	ncat := func() int {
		m := map[[2]int]bool{}
		for _, c := range stored {
			m[c] = true
		}
		return len(m)
	}
	k := 0
	// events up to the next request
	play := func(l *line, atEnd bool) {
		counted := false
		count := func() {
			if !counted && !atEnd && hasEvc {
				l.cats = append(l.cats, ncat())
			}
			counted = true
		}
		redirected := false
		for k < len(evs) && evs[k].Kind != "HIT" && evs[k].Kind != "MISS" && (atEnd || evs[k].Kind != "ONDAYEND") {
			e := evs[k]
			k++
			atEnd0 := atEnd
			switch e.Kind {
			case "ADD":
				stored[e.File] = [2]int{feat["catSize"].indexOr(sizes[e.File]), feat["catNumReq"].indexOr(int64(freq[e.File]))}
			case "DELETE":
				l.deleted++
				delete(stored, e.File)
			case "KEEP":
				l.kept++
			case "SKIP":
				l.skips++
			case "REDIRECT":
				redirected = true
			case "ONFREE", "FORCEDCALL", "ONK", "ONDAYEND":
				if e.Kind == "FORCEDCALL" {
					l.forced++
				}
				if e.Kind == "ONK" {
					count()
				}
				l.runs++
				if evOnly {
					l.decisions += ncat()
				}
			}
			if atEnd0 && e.Kind == "ONDAYEND" {
				for k < len(evs) && (evs[k].Kind == "DELETE" || evs[k].Kind == "KEEP") {
					if evs[k].Kind == "DELETE" {
						l.deleted++
						delete(stored, evs[k].File)
					} else {
						l.kept++
					}
					k++
				}
				return
			}
		}
		if !redirected {
			count()
		}
	}
	for i, r := range recs {
		l := &lines[day[i]]
		if i > 0 && day[i] > day[i-1] && k < len(evs) && evs[k].Kind == "ONDAYEND" {
			play(l, true)
		}
		if k >= len(evs) || (evs[k].Kind != "HIT" && evs[k].Kind != "MISS") || evs[k].File != r.File {
			t.Fail("request %d for file %d is not the next one in the log\n%s", i, r.File, label)
		}
		hit := evs[k].Kind == "HIT"
		k++
		if !(k < len(evs) && evs[k].Kind == "REDIRECT") {
			l.served++
			if !hit {
				l.misses++
			}
			freq[r.File]++
			sizes[r.File] = r.Size
			if hit {
				stored[r.File] = [2]int{feat["catSize"].indexOr(r.Size), feat["catNumReq"].indexOr(int64(freq[r.File]))}
			}
		}
		play(l, false)
	}
	if k != len(evs) {
		t.Fail("%d events of the log are not explained, first %+v\n%s", len(evs)-k, evs[k], label)
	}

	num := func(i int, col string) float64 {
		v, err := strconv.ParseFloat(run.cell(i, col), 64)
		if err != nil {
			t.Fail("daily line %d: column %q is %q\n%s", i, col, run.cell(i, col), label)
		}
		return v
	}
	if len(run.Rows) != len(lines)-1 {
		t.Fail("%d daily lines, expected %d\n%s", len(run.Rows), len(lines)-1, label)
	}
	prev := map[string]float64{}
	for i := range run.Rows {
		l := lines[i]
		t.Eval(1)
		t.Count("rows", 1)
		check := func(col string, want float64) {
			if got := num(i, col); got != want {
				t.Fail("daily line %d: column %q is %v, expected %v (%+v)\n%s", i, col, got, want, l, label)
			}
		}
		store, not := num(i, "Action store"), num(i, "Action not store")
		if hasAdd {
			check("Action not store", float64(l.skips))
			check("Action store", float64(l.misses-l.skips))
			if l.skips > 0 && store > 0 {
				t.Count("rows-with-both-decisions", 1)
			}
		} else if store+not != 0 {
			t.Fail("daily line %d: %v decisions to store, %v not to store without an addition agent\n%s", i, store, not, label)
		}
		dec := 0.
		for _, c := range []string{"all", "half", "quarter", "one"} {
			dec += num(i, "Action delete "+c)
		}
		kept := num(i, "Action not delete")
		if (dec > 0) != (hasEvc && l.deleted > 0) || (kept > 0) != (l.kept > 0) {
			t.Fail("daily line %d: %v decisions to delete and %v to keep for %d deleted and %d kept files\n%s", i, dec, kept, l.deleted, l.kept, label)
		}
		check("Eviction forced calls", float64(l.forced))
		if hasEvc {
			t.Count("rows-of-evictions-agents", 1)
			sum, sq := 0, 0.
			for _, c := range l.cats {
				sum += c
			}
			mean := 0
			if len(l.cats) > 0 {
				mean = sum / len(l.cats)
			}
			for _, c := range l.cats {
				sq += float64((c - mean) * (c - mean))
			}
			check("Eviction mean num categories", float64(mean))
			if len(l.cats) > 1 {
				if got, want := num(i, "Eviction std dev num categories"), math.Sqrt(sq/float64(len(l.cats)-1)); math.Abs(got-want) > 0.00501 {
					t.Fail("daily line %d: the deviation of the number of categories is %v, expected %v\n%s", i, got, want, label)
				}
			}
			if evOnly {
				check("Eviction calls", float64(l.runs))
				if dec+kept != float64(l.decisions) {
					t.Fail("daily line %d: %v decisions for %d categories in %d runs\n%s", i, dec+kept, l.decisions, l.runs, label)
				}
				if l.runs > 0 {
					t.Count("rows-with-eviction-runs", 1)
				}
			}
		} else {
			check("Eviction calls", 0)
			check("Eviction mean num categories", -1)
			check("Eviction std dev num categories", -1)
			check("Eviction qvalue function", 0)
		}
		if !hasAdd {
			check("Addition qvalue function", 0)
		}
		for _, x := range []struct {
			col, agent string
			ok         bool
		}{{"Addition epsilon", "addition", hasAdd}, {"Eviction epsilon", "eviction", hasEvc}} {
			if !x.ok {
				continue
			}
			e := num(i, x.col)
			if e < 0.1 || e > 1 {
				t.Fail("daily line %d: %s is %v\n%s", i, x.col, e, label)
			}
			if p, ok := prev[x.col]; ok && !unleashed[x.agent] && e > p && p != start[x.agent] {
				t.Fail("daily line %d: %s grows from %v to %v\n%s", i, x.col, p, e, label)
			}
			if e < 1 {
				t.Count("epsilon-steps", 1)
			}
			prev[x.col] = e
		}
		t.Sig(mode, l.runs > 0, l.forced > 0, minInt(l.skips, 5), minInt(int(dec), 5), minInt(int(kept), 5))
	}
	// the tables printed at the end are the learned ones
	_, _, other := readDump(filepath.Join(run.Dir, "cache_dump.json.gz"))
	for _, x := range []struct {
		file, rec, agent string
		ok               bool
	}{{"additionQTable.csv", "ADDAGENT", "addition", hasAdd}, {"evictionQTable.csv", "EVCAGENT", "eviction", hasEvc}} {
		b, err := os.ReadFile(filepath.Join(run.Dir, x.file))
		if (err == nil) != x.ok {
			t.Fail("%s: %v (agent present: %v)\n%s", x.file, err, x.ok, label)
		}
		if !x.ok {
			continue
		}
		t.Eval(1)
		t.Count("printed-tables", 1)
		var a agentDump
		must(json.Unmarshal([]byte(other[x.rec]), &a))
		if d := decay[x.agent]; !unleashed[x.agent] && a.Epsilon > 0.1001 {
			n := -math.Log((a.Epsilon-0.1)/0.9) / d
			t.Eval(1)
			if a.Epsilon != start[x.agent] && (n < 0.5 || math.Abs(n-math.Round(n)) > 1e-4*math.Max(1, 1e-6/d)) {
				t.Fail("the exploration rate of the %s agent ends at %v, with start %v and decay %v\n%s", x.agent, a.Epsilon, start[x.agent], d, label)
			}
			if a.Epsilon != start[x.agent] {
				t.Count("final-rates", 1)
			}
		}
		text := strings.Split(strings.TrimSpace(string(b)), "\n")
		if len(text) != len(a.QTable.Actions)+1 {
			t.Fail("%s has %d lines for %d states\n%s", x.file, len(text), len(a.QTable.Actions), label)
		}
		for s, row := range a.QTable.Actions {
			cells := strings.Split(text[s+1], ",")
			for k, v := range row {
				got, err := strconv.ParseFloat(cells[k], 64)
				if err != nil || math.Abs(got-v) > 0.00501+1e-9*math.Abs(v) {
					t.Fail("%s: state %d is printed as %s, learned values %v\n%s", x.file, s, text[s+1], row, label)
				}
			}
		}
	}
	t.Sample(map[string]interface{}{"mode": mode, "records": len(recs), "days": len(lines), "events": len(evs)})
}

// indexOr is index, and 0 for a feature that is not there.
func (f FDef) indexOr(v interface{}) int {
	if f.Name == "" {
		return 0
	}
	return f.index(v)
}

func upText(ups []update) string {
	out := ""
	for i, u := range ups {
		if i == 8 {
			return out + " ..."
		}
		out += fmt.Sprintf(" %d->%d %v %+g;", u.state, u.next, u.d.cands, u.reward)
	}
	return out
}
