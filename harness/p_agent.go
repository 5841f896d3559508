package main

import (
	"encoding/json"
	"fmt"
	"math"
	"path/filepath"
	"strings"

	"simulator/v2/cache"
)

// ---- C71: when the eviction agent runs; C72: how often the agents explore -----------------------

func init() {
	register(&Prop{
		ID: "C71", Quick: 110, Deep: 1500, Run: runC71,
		NeedEvents: []string{"requests", "periodic-runs", "forced-runs", "space-runs", "day-end-runs", "empty-day-ends", "no-run", "skipped-full", "files-cleared", "exact-fits", "free-runs"},
		Rule:       "one evaluation = one request or counter reset whose runs of the eviction agent (or of the plain eviction) in the event log were compared with the due ones; distinct = distinct (mode, operation, hit, room, period, runs)",
	})
	register(&Prop{
		ID: "C72", Quick: 240, Deep: 4000, Run: runC72, CaseTimeout: 240,
		NeedEvents: []string{"addition-decisions", "eviction-decisions", "always-explores", "never-explores", "sometimes-explores", "seeds"},
		Rule:       "one evaluation = the share of one action among the decisions of an agent with a given rate and known values, compared with the expected share within 6 standard deviations; distinct = distinct (mode, rate, best action)",
	})
}

func runC71(t *T) {
	rng := t.Rng
	modes := append([]string{"evOnly-onK", "onK"}, aiModes...)
	mode := modes[t.Case%len(modes)]
	u := newUniverse(rng, 6+rng.Intn(25), drawCap(rng))
	o := Opts{Size: u.Cap, Seed: rng.Int63(), Log: true}
	aiOpts(&o, t.Dir, rng, mode)
	o.P.AIRLEvictionK = int64([]int{0, 1, 2, 3, 5, 8, 13, 32, 40}[rng.Intn(9)])
	k := o.P.AIRLEvictionK
	kind := strings.TrimPrefix(mode, "evOnly-")
	agent := kind != "scdl" && kind != "add"
	if rng.Intn(4) == 0 { // file sizes that fill the cache exactly
		part := u.Cap / float64([]int{2, 4, 8}[rng.Intn(3)])
		for id := range u.Size {
			u.Size[id] = part * float64(1+rng.Intn(2))
		}
	}
	if rng.Intn(3) == 0 {
		o.Redirect = true
		o.Gbit = u.Cap * float64(2+rng.Intn(20)) / 10800000
	}
	c := newCache(o)
	var ops []Op
	starts := map[int]bool{} // the operations after a clearing of the files
	for round := 0; round < 1+rng.Intn(3); round++ {
		if round > 0 {
			cache.ClearFiles(c)
			t.Count("files-cleared", 1)
			starts[len(ops)] = true
		}
		n, every := 40+rng.Intn(160), []int{0, 3, 12, 40}[rng.Intn(4)]
		if t.Deep {
			n *= 2
		}
		ops = append(ops, drive(t, c, u, n, every, 600, false)...)
	}
	must(cache.Terminate(c))
	evs := readLog(t, filepath.Join(t.Dir, "simulationLogFile.csv.gz"))
	parts := splitLog(t, ops, evs, mode)
	callsB := 0        // runs reported before the operation
	others := int64(0) // served requests since the last periodic run
	for i, op := range ops {
		label := fmt.Sprintf("%s (k %d), operation %d (%s of file %d of %v MB, hit %v, %v of %v MB occupied)", mode, k, i, op.Kind, op.R.File, op.R.Size, op.Hit, op.SizeB, op.MaxB)
		got := map[string]int{}
		skip := false
		order := ""
		for _, e := range parts[i] {
			switch e.Kind {
			case "ONK", "ONFREE", "ONDAYEND", "FORCEDCALL", "FREE":
				got[e.Kind]++
				order += " " + e.Kind
			case "ADD":
				order += " ADD"
			case "SKIP":
				skip = true
			}
		}
		due := map[string]int{}
		room := op.SizeB+op.R.Size <= op.MaxB
		switch {
		case op.Kind == "reset":
			if kind == "onDayEnd" {
				due["ONDAYEND"] = 1
				t.Count("day-end-runs", 1)
				if op.SizeB == 0 {
					t.Count("empty-day-ends", 1)
				}
			}
		case op.Redir:
		default:
			t.Count("requests", 1)
			if !op.Hit && !skip && !room {
				switch {
				case !agent:
					due["FREE"] = 1
					t.Count("free-runs", 1)
				case kind == "onFree":
					due["ONFREE"] = 1
					t.Count("space-runs", 1)
				default:
					due["FORCEDCALL"] = 1
					t.Count("forced-runs", 1)
				}
			}
			if !op.Hit && op.SizeB+op.R.Size == op.MaxB {
				t.Count("exact-fits", 1)
			}
			if skip && !room {
				t.Count("skipped-full", 1)
			}
			if kind == "onK" {
				if others == k {
					due["ONK"] = 1
					others = 0
					t.Count("periodic-runs", 1)
				} else {
					others++
				}
			}
			if len(due) == 0 {
				t.Count("no-run", 1)
			}
		}
		t.Eval(1)
		for _, ev := range []string{"ONK", "ONFREE", "ONDAYEND", "FORCEDCALL", "FREE"} {
			if ev == "FREE" && !agent && due[ev] != 0 && op.R.Size > op.MaxB {
				continue // nothing can make room for this file
			}
			if got[ev] != due[ev] {
				t.Fail("%s: the log has %d %s (%s ), %d are due; %d others since the last periodic run", label, got[ev], ev, order, due[ev], others)
			}
		}
		// the agent did run when the log says so, and only then
		if op.Kind == "reset" {
			callsB = 0
		}
		runs, ran := due["ONK"]+due["ONFREE"]+due["ONDAYEND"]+due["FORCEDCALL"], op.Calls-callsB
		callsB = op.Calls
		if agent && !starts[i] && (ran < runs || runs == 0 && ran != 0) {
			t.Fail("%s: %d runs are due, the agent reports %d more", label, runs, ran)
		}
		if strings.Contains(order, "ADD FORCEDCALL") || strings.Contains(order, "ADD ONFREE") || strings.Contains(order, "ONK ADD") {
			t.Fail("%s: the runs and the addition are in the order%s", label, order)
		}
		t.Sig(mode, op.Kind, op.Hit, room, minInt(int(k), 4), order)
	}
	t.Sample(map[string]interface{}{"mode": mode, "k": k, "operations": len(ops), "events": len(evs)})
}

// withValues is a dump of agents whose every state has the given values.
func withValues(t *T, c cache.Cache, values map[string][]float64) [][]byte {
	var out [][]byte
	for _, line := range c.Dumps(false) {
		var rec map[string]interface{}
		must(json.Unmarshal(line, &rec))
		var info struct{ Type string }
		must(json.Unmarshal([]byte(rec["info"].(string)), &info))
		if v := values[info.Type]; v != nil {
			var agent map[string]json.RawMessage
			var table map[string]json.RawMessage
			var actions [][]float64
			must(json.Unmarshal([]byte(rec["data"].(string)), &agent))
			must(json.Unmarshal(agent["qtable"], &table))
			must(json.Unmarshal(table["actions"], &actions))
			for i := range actions {
				if len(actions[i]) != len(v) {
					t.Fail("%s has %d actions, expected %d", info.Type, len(actions[i]), len(v))
				}
				copy(actions[i], v)
			}
			table["actions"], _ = json.Marshal(actions)
			agent["qtable"], _ = json.Marshal(table)
			b, err := json.Marshal(agent)
			must(err)
			rec["data"] = string(b)
			line, err = json.Marshal(rec)
			must(err)
			line = append(line, '\n')
		}
		out = append(out, line)
	}
	return out
}

func runC72(t *T) {
	rng := t.Rng
	mode := []string{"scdl", "add", "evOnly-onK", "evOnly-onDayEnd", "onK"}[t.Case%5]
	rate := []float64{1, 0, 0.5, 0.25, 0.1, 0.75, 0.9, 0.02}[rng.Intn(8)]
	hasAdd := !strings.HasPrefix(mode, "evOnly")
	hasEvc := mode != "scdl" && mode != "add"
	o := Opts{Size: 100, Seed: rng.Int63()}
	aiOpts(&o, t.Dir, rng, mode)
	o.Size = 1e9
	o.P.AIRLEvictionK = int64(rng.Intn(2))
	o.MaxDay, o.DeltaDays = 1e6, 1e6
	values := map[string][]float64{}
	best := map[string]int{}
	for rec, n := range map[string]int{"ADDAGENT": 2, "EVCAGENT": 5} {
		var v []float64
		for i := 0; i < n; i++ {
			v = append(v, -5+float64(i)*1.5)
		}
		values[rec] = v
	}
	for _, rec := range []string{"ADDAGENT", "EVCAGENT"} {
		v := values[rec]
		rng.Shuffle(len(v), func(i, j int) { v[i], v[j] = v[j], v[i] })
		for i := range v {
			if v[i] > v[best[rec]] {
				best[rec] = i
			}
		}
	}
	c0 := newCache(o)
	c := newCache(o)
	cache.Loads(c, withValues(t, c0, values), rate, 0.01)
	n := 16000
	if hasEvc {
		n = 800
	}
	if t.Deep {
		n *= 3
	}
	cnt := [7]int{}
	add := func() {
		now, _, _ := actionStats(c)
		for i := range cnt {
			cnt[i] += now[i]
		}
	}
	// every file is asked for once: nothing is learned, the values and the rate stay
	for i := 0; i < n; i++ {
		r := Req{File: int64(i + 1), Size: 0.5 + 100*rng.Float64()*rng.Float64(), Day: 1600000000 + int64(i/50)*86400}
		if _, redirected := ask(c, r); redirected {
			t.Fail("request %d is redirected", i)
		}
		if mode == "evOnly-onDayEnd" && i%2 == 0 || i%97 == 0 {
			add()
			cache.ClearStats(c)
			if mode == "evOnly-onDayEnd" { // the reset ran the agent: its decisions are counted since then
				continue
			}
		}
	}
	add()
	_, _, other := parseDump(c.Dumps(false))
	judge := func(rec string, counts []int) {
		var a agentDump
		must(json.Unmarshal([]byte(other[rec]), &a))
		for s := range a.QTable.Actions {
			if fmt.Sprint(a.QTable.Actions[s]) != fmt.Sprint(values[rec]) {
				t.Fail("%s, %s: the values of state %d change to %v without a repeated request", mode, rec, s, a.QTable.Actions[s])
			}
		}
		if a.Epsilon != rate {
			t.Fail("%s, %s: the rate is %v after loading it as %v", mode, rec, a.Epsilon, rate)
		}
		total := 0
		for _, x := range counts {
			total += x
		}
		for i, x := range counts {
			p := rate / float64(len(counts))
			if i == best[rec] {
				p += 1 - rate
			}
			t.Eval(1)
			if dev := math.Abs(float64(x) - p*float64(total)); dev > 6*math.Sqrt(p*(1-p)*float64(total))+8*math.Min(1, 1e9*p*(1-p))+1e-6 {
				t.Fail("%s, %s: action %d is taken %d times in %d decisions at rate %v (values %v): expected about %.1f; all: %v", mode, rec, i, x, total, rate, values[rec], p*float64(total), counts)
			}
		}
		t.Sig(mode, rec, rate, best[rec])
		t.Sample(map[string]interface{}{"mode": mode, "agent": rec, "rate": rate, "values": values[rec], "taken": counts})
	}
	if rate >= 0.5 { // the decisions follow from the seed, and another seed decides otherwise
		sequence := func(seed int64) (out [2]string) {
			oo := o
			oo.Seed = seed
			cc := newCache(oo)
			cache.Loads(cc, withValues(t, cc, values), rate, 0.01)
			last := [7]int{}
			for i := 0; i < 300; i++ {
				r := Req{File: int64(i + 1), Size: 1 + float64(i%7), Day: 1600000000 + int64(i/50)*86400}
				ask(cc, r)
				if i%3 == 0 && mode == "evOnly-onDayEnd" {
					cache.ClearStats(cc)
					last = [7]int{}
				}
				now, _, _ := actionStats(cc)
				for k := range now {
					out[minInt(k/2, 1)] += fmt.Sprintf("%d,", now[k]-last[k])
				}
				last = now
			}
			return
		}
		seed := []int64{0, 1, 42, rng.Int63()}[rng.Intn(4)]
		other := seed + 1 + rng.Int63n(1000)
		x, y, z := sequence(seed), sequence(seed), sequence(other)
		t.Eval(2)
		t.Count("seeds", 2)
		if x != y {
			t.Fail("%s: two caches with seed %d decide differently at rate %v", mode, seed, rate)
		}
		if hasAdd && x[0] == z[0] {
			t.Fail("%s: the addition agent takes the same 300 decisions at rate %v with seeds %d and %d", mode, rate, seed, other)
		}
		if hasEvc && x[1] == z[1] {
			t.Fail("%s: the eviction agent takes the same decisions at rate %v with seeds %d and %d", mode, rate, seed, other)
		}
	}
	switch rate {
	case 0:
		t.Count("never-explores", 1)
	case 1:
		t.Count("always-explores", 1)
	default:
		t.Count("sometimes-explores", 1)
	}
	if hasAdd {
		judge("ADDAGENT", []int{cnt[1], cnt[0]})
		t.Count("addition-decisions", cnt[0]+cnt[1])
	}
	if hasEvc {
		judge("EVCAGENT", []int{cnt[2+aNone], cnt[2+aOne], cnt[2+aQuarter], cnt[2+aHalf], cnt[2+aAll]})
		t.Count("eviction-decisions", cnt[2]+cnt[3]+cnt[4]+cnt[5]+cnt[6])
	}
}
