package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"simulator/v2/cache"
)

// ---- C64: every option of the configuration reaches the cache ---------------------------------

func init() {
	register(&Prop{
		ID: "C64", Quick: 300, Deep: 2500, Run: runC64, CaseTimeout: 240,
		NeedEvents: []string{"simulator-runs", "requests", "evictions", "options-given", "options-left-out", "logged-runs", "agents", "restarts", "weighted-runs", "redirections", "dumps-compared", "lines-compared", "no-dump"},
		Rule:       "one evaluation = one run of the simulator compared (contents in order, per-file statistics, learned tables, rates and maps, event log, counters of the last day line) with the cache built directly with the same options and asked the same requests; distinct = distinct (policy, options left out, evictions bucket)",
	})
}

func runC64(t *T) {
	rng := t.Rng
	types := []string{"lru", "weightFunLRU", "aiRL:scdl", "lfu", "aiRL:add", "weightFunLRU", "aiRL:onK", "sizeBig", "aiRL:onDayEnd", "sizeSmall", "aiRL:onFree",
		"random_lru", "aiRL:evOnly-onK", "lruDatasetVerifier", "aiRL:evOnly-onDayEnd", "aiNN", "aiRL:evOnly-onFree"}
	typ := types[t.Case%len(types)]
	real := strings.SplitN(typ, ":", 2)[0]
	mode := strings.TrimPrefix(typ, "aiRL:")
	u := newUniverse(rng, 10+rng.Intn(30), drawCap(rng))
	falling := real == "aiRL" && rng.Intn(2) == 0
	var recs []Rec
	if falling { // many days of files too many to keep: the agents get worse and worse
		day := int64(1514764800)
		next := 0
		for d := 0; d < 36+rng.Intn(20); d++ {
			for i := 0; i < 8+rng.Intn(8); i++ {
				r := Rec{Req: Req{File: int64(1 + next%7), Size: math.Floor(u.Cap * 0.4), Proto: int64(i % 2), Day: day, Site: 1, User: 1, FType: 2}}
				r.Bytes = r.Size * 1024 * 1024
				r.Success = true
				r.SuccText, r.CPUTime, r.IOTime, r.CPURaw, r.IORaw = "true", 5, 5, "5", "5"
				next++
				recs = append(recs, r)
			}
			day += 86400
		}
	} else {
		recs = drawRecords(rng, u, 4+rng.Intn(8), 60, true)
	}
	cfg := Cfg{"data": "data.csv", "outputFolder": "out", "type": "normal", "cache.type": real, "cache.size.value": u.Cap, "cache.size.unit": "M",
		"window.stop": 1000}
	o := Opts{Type: real, Size: u.Cap, Seed: 42, High: 95, Low: 75, Gbit: 10, MaxDay: 6, DeltaDays: 7, Region: "",
		WFunc: "FuncAdditiveExp", WParams: cache.WeightFunctionParameters{Alpha: 1, Beta: 1, Gamma: 1}}
	var left []string
	// give sets an option, or leaves it out, in which case the default holds
	give := func(key string, v interface{}, set func()) bool {
		if rng.Intn(5) < 2 {
			left = append(left, key)
			t.Count("options-left-out", 1)
			return false
		}
		t.Count("options-given", 1)
		cfg[key] = v
		set()
		return true
	}
	// the window, the dump and what it holds
	wSize, wStart, wStop := 7, 0, 1000
	wsz, wst := []int{1, 2, 3, 1000}[rng.Intn(4)], rng.Intn(2)
	give("window.size", wsz, func() { wSize = wsz })
	give("window.start", wst, func() { wStart = wst })
	if rng.Intn(3) == 0 {
		wStop = wStart + 1 + rng.Intn(2)
		cfg["window.stop"] = wStop
	}
	if wStart == 1 && wSize == 1000 {
		wSize = 2
		cfg["window.size"] = 2
	}
	dump, full := rng.Intn(6) > 0, true
	if dump || rng.Intn(2) == 0 {
		cfg["dump"] = dump
	}
	if rng.Intn(3) == 0 {
		full = rng.Intn(2) == 0
		cfg["dumpfilesandstats"] = full
	}
	seed := []int64{0, int64(rng.Intn(1000)), rng.Int63n(1 << 40)}[rng.Intn(3)]
	give("seed", seed, func() { o.Seed = seed })
	give("log", true, func() { o.Log = true; t.Count("logged-runs", 1) })
	marks := rng.Intn(2) == 0
	give("cache.watermarks", marks, func() { o.Marks = marks })
	hi, lo := 76+24*rng.Float64(), 1+74*rng.Float64()
	if rng.Intn(2) == 0 {
		hi, lo = math.Floor(hi), math.Floor(lo)
	}
	give("cache.watermark.high", hi, func() { o.High = hi })
	give("cache.watermark.low", lo, func() { o.Low = lo })
	redirect := rng.Intn(3) > 0
	give("cache.bandwidth.redirect", redirect, func() { o.Redirect = redirect })
	bw := float64(1 + rng.Intn(20))
	if rng.Intn(2) == 0 {
		bw = u.Cap * 60 * (0.02 + 0.2*rng.Float64()) / 10800000
	}
	give("cache.bandwidth.value", bw, func() { o.Gbit = bw })
	reg := []string{"all", "it", "us"}[rng.Intn(3)]
	give("region", reg, func() {
		if reg != "all" {
			o.Region = reg
		}
	})
	maxDay, delta := float64(1+rng.Intn(12)), float64(1+rng.Intn(4))
	give("cache.stats.maxNumDayDiff", maxDay, func() { o.MaxDay = maxDay })
	give("cache.stats.deltaDaysStep", delta, func() { o.DeltaDays = delta })
	add, evc := "", ""
	switch real {
	case "weightFunLRU":
		t.Count("weighted-runs", 1)
		name := []string{"FuncAdditive", "FuncAdditiveExp", "FuncMultiplicative"}[rng.Intn(3)]
		a, b, g := []float64{0, rng.Float64() * 3, rng.Float64() * 3}[rng.Intn(3)], []float64{0, rng.Float64() * 2, rng.Float64() * 2}[rng.Intn(3)], 0.1+2*rng.Float64()
		give("weightfunc.name", name, func() { o.WFunc = name })
		give("weightfunc.alpha", a, func() { o.WParams.Alpha = a })
		give("weightfunc.beta", b, func() { o.WParams.Beta = b })
		give("weightfunc.gamma", g, func() { o.WParams.Gamma = g })
	case "lruDatasetVerifier":
		o.Dataset = writeDataset(t.Dir, u.IDs[:len(u.IDs)/2])
		cfg["dataset2TestPath"] = o.Dataset
		cfg["ai.dataset2TestPath"] = o.Dataset
	case "aiNN":
		o.P.AIFeatureMap, _ = featureMapFiles(t.Dir, rng, u.Cap)
		cfg["ai.featuremap"] = o.P.AIFeatureMap
	case "aiRL":
		add, evc = featureMapFiles(t.Dir, rng, u.Cap)
		o.P.AIRLType = "SCDL2"
		kind := mode
		if mode == "scdl" || rng.Intn(2) == 0 {
			cfg["ai.rl.type"] = "SCDL2"
			if mode == "scdl" {
				cfg["ai.rl.type"], o.P.AIRLType = "SCDL", "SCDL"
			}
		}
		if mode == "scdl" || mode == "add" {
			kind, evc = "NONE", ""
		}
		if strings.HasPrefix(mode, "evOnly-") {
			kind, add = strings.TrimPrefix(mode, "evOnly-"), ""
		}
		o.P.AIRLAdditionFeatureMap, o.P.AIRLEvictionFeatureMap = add, evc
		for key, f := range map[string]string{"addition": add, "eviction": evc} {
			if f != "" {
				cfg["ai.rl."+key+".featuremap"] = f
				t.Count("agents", 1)
			}
		}
		o.P.EvictionAgentType = kind
		if kind != "onK" || rng.Intn(2) == 0 {
			cfg["ai.rl.eviction.type"] = kind
		}
		o.P.AIRLEvictionK = 32
		k := 1 + rng.Intn(40)
		give("ai.rl.eviction.k", k, func() { o.P.AIRLEvictionK = int64(k) })
		start, decay, unleash := 1., 0.0000042, true
		s, d, ul := []float64{0, 0.1 + 0.9*rng.Float64(), 0.1 + 0.9*rng.Float64(), 0.5}[rng.Intn(4)], []float64{0.001, 0.03, 0.2}[rng.Intn(3)], rng.Intn(3) == 0
		if falling {
			d = []float64{0.4, 0.2, 0.1}[rng.Intn(3)]
		}
		give("ai.rl.epsilon.start", s, func() { start = s })
		give("ai.rl.epsilon.decay", d, func() { decay = d })
		give("ai.rl.epsilon.unleash", ul, func() { unleash = ul })
		for _, agent := range []string{"addition", "eviction"} {
			start, decay, unleash := start, decay, unleash
			if rng.Intn(2) == 0 {
				s, d, ul := []float64{0, rng.Float64(), 0.1, 1}[rng.Intn(4)], []float64{0.002, 0.05, 0.3}[rng.Intn(3)], rng.Intn(2) == 0
				give("ai.rl."+agent+".epsilon.start", s, func() { start = s })
				give("ai.rl."+agent+".epsilon.decay", d, func() { decay = d })
				give("ai.rl."+agent+".epsilon.unleash", ul, func() { unleash = unleash || ul })
			}
			if agent == "addition" {
				o.P.AIRLAdditionEpsilonStart, o.P.AIRLAdditionEpsilonDecay, o.P.AIRLAdditionEpsilonUnleash = start, decay, unleash
			} else {
				o.P.AIRLEvictionEpsilonStart, o.P.AIRLEvictionEpsilonDecay, o.P.AIRLEvictionEpsilonUnleash = start, decay, unleash
			}
		}
	}
	label := typ + ": " + yamlOf(cfg)
	writeCSV(filepath.Join(t.Dir, "data.csv"), recs, csvColumns)
	run := t.sim(t.Dir, "conf", cfg)

	// the same cache without the simulator around it
	c := newCache(o)
	steps := map[string]int64{}
	var latest int64
	asked, step, win, row := 0, 0, 0, 0
	for i, r := range recs {
		if i == 0 {
			latest = r.Day
		}
		if r.Day-latest >= 23*3600 {
			if win >= wStart {
				if row >= len(run.Rows) {
					t.Fail("the run has %d daily lines, there are more days\nleft out: %v\n%s", len(run.Rows), left, label)
				}
				for _, p := range directRow(c, real) {
					if !sameText(p.name, run.cell(row, p.name), p.value) {
						t.Fail("line %d: %s is %s, %s for the cache built with the run's options\nleft out: %v\n%s", row, p.name, run.cell(row, p.name), p.value, left, label)
					}
				}
				t.Count("lines-compared", 1)
				row++
			}
			cache.ClearStats(c)
			latest = r.Day
			step++
			_, _, other := parseDump(c.Dumps(false))
			for _, rec := range []string{"ADDAGENT", "EVCAGENT"} {
				var a agentDump
				if other[rec] != "" {
					must(json.Unmarshal([]byte(other[rec]), &a))
					if a.Steps < steps[rec] {
						t.Count("restarts", 1)
					}
					steps[rec] = a.Steps
				}
			}
		}
		if step == wSize {
			win++
			step = 0
		}
		if win == wStop {
			break
		}
		if win < wStart || !r.success() || !r.regionOK(o.Region) {
			continue
		}
		eff, ok := r.cpuEff()
		if !ok {
			continue
		}
		q := r.Req
		q.CPU = eff
		asked++
		_, red := ask(c, q)
		if red {
			t.Count("redirections", 1)
		}
	}
	if row != len(run.Rows) {
		t.Fail("the run has %d daily lines, expected %d\nleft out: %v\n%s", len(run.Rows), row, left, label)
	}
	t.Count("requests", asked)
	t.Eval(1)
	want := c.Dumps(full)
	must(cache.Terminate(c))
	dumpFile := filepath.Join(run.Dir, "cache_dump.json.gz")
	if _, err := os.Stat(dumpFile); (err == nil) != dump {
		t.Fail("a dump was asked for: %v, there is one: %v\nleft out: %v\n%s", dump, err == nil, left, label)
	}
	logFile := filepath.Join(run.Dir, "simulationLogFile.csv.gz")
	if _, err := os.Stat(logFile); (err == nil) != o.Log {
		t.Fail("an event log was asked for: %v, there is one: %v\nleft out: %v\n%s", o.Log, err == nil, left, label)
	}
	var got [][]byte
	if dump {
		t.Count("dumps-compared", 1)
		got = bytes.Split(bytes.TrimSpace(gunzip(dumpFile)), []byte("\n"))
	} else {
		t.Count("no-dump", 1)
		got = want
	}
	split := func(recs [][]byte) (fs, st, other []string) {
		for _, r := range recs {
			r = bytes.TrimSpace(r)
			if len(r) == 0 {
				continue
			}
			var rec cache.DumpRecord
			var info cache.DumpInfo
			must(json.Unmarshal(r, &rec))
			must(json.Unmarshal([]byte(rec.Info), &info))
			switch info.Type {
			case "FILES":
				fs = append(fs, rec.Data)
			case "STATS":
				st = append(st, rec.Data)
			default:
				other = append(other, info.Type+" "+rec.Data)
			}
		}
		sort.Strings(st)
		sort.Strings(other)
		if real == "aiRL" {
			sort.Strings(fs)
		}
		return
	}
	if o.Log {
		w, g := gunzip(filepath.Join(t.Dir, "simulationLogFile.csv.gz")), gunzip(logFile)
		if !bytes.Equal(w, g) {
			t.Fail("the event log of the run is not that of the cache built with its options:\n%s\nleft out: %v\n%s", firstDiff(w, g), left, label)
		}
	}
	wf, ws, wo := split(want)
	gf, gs, gother := split(got)
	for _, p := range []struct {
		name string
		w, g []string
	}{{"stored files", wf, gf}, {"file statistics", ws, gs}, {"agents and feature maps", wo, gother}} {
		w, g := strings.Join(p.w, "\n"), strings.Join(p.g, "\n")
		if w != g {
			t.Fail("the %s of the run are not those of the cache built with its options:\n%s\nleft out: %v\n%s", p.name, firstDiff([]byte(w), []byte(g)), left, label)
		}
	}
	del := 0
	for i := range run.Rows {
		var n int
		fmt.Sscan(run.cell(i, "num deleted"), &n)
		del += n
	}
	t.Count("evictions", del)
	t.Sig(typ, strings.Join(left, " "), del/20)
	t.Sample(map[string]interface{}{"policy": typ, "left out": left, "requests": asked, "evictions": del})
}

type cellOf struct{ name, value string }

// directRow is the daily line of a cache.
func directRow(c cache.Cache, real string) []cellOf {
	f := func(v float64) string { return strconv.FormatFloat(v, 'f', 6, 64) }
	out := []cellOf{
		{"num req", fmt.Sprint(cache.NumRequests(c))}, {"num hit", fmt.Sprint(cache.NumHits(c))}, {"num added", fmt.Sprint(cache.NumAdded(c))},
		{"num deleted", fmt.Sprint(cache.NumDeleted(c))}, {"num redirected", fmt.Sprint(cache.NumRedirected(c))},
		{"num miss after delete", fmt.Sprint(cache.GetTotDeletedFileMiss(c))},
		{"size redirected", f(cache.RedirectedSize(c))}, {"cache size", f(cache.GetMaxSize(c))}, {"size", f(cache.Size(c))}, {"capacity", f(cache.Capacity(c))},
		{"bandwidth", f(cache.Bandwidth(c))}, {"bandwidth usage", f(cache.BandwidthUsage(c))},
		{"written data", f(cache.DataWritten(c))}, {"read data", f(cache.DataRead(c))}, {"read on hit data", f(cache.DataReadOnHit(c))},
		{"read on miss data", f(cache.DataReadOnMiss(c))}, {"deleted data", f(cache.DataDeleted(c))},
		{"avg free space", f(cache.AvgFreeSpace(c))}, {"std dev free space", f(cache.StdDevFreeSpace(c))},
		{"CPU efficiency", f(cache.CPUEff(c))}, {"CPU hit efficiency", f(cache.CPUHitEff(c))}, {"CPU miss efficiency", f(cache.CPUMissEff(c))},
		{"CPU efficiency upper bound", f(cache.CPUEffUpperBound(c))}, {"CPU efficiency lower bound", f(cache.CPUEffLowerBound(c))},
	}
	if real == "aiRL" {
		for _, x := range []struct {
			part string
			cols []string
		}{
			{"epsilonStats", []string{"Addition epsilon", "Eviction epsilon"}},
			{"valueFunctions", []string{"Addition qvalue function", "Eviction qvalue function"}},
			{"evictionStats", []string{"Eviction calls", "Eviction forced calls"}},
		} {
			vs := strings.Split(cache.ExtraOutput(c, x.part), ",")
			for i, n := range x.cols {
				out = append(out, cellOf{n, vs[i]})
			}
		}
	}
	return out
}

// sameText says whether two cells are the same number.
func sameText(name, a, b string) bool {
	x, ex := strconv.ParseFloat(strings.TrimSpace(a), 64)
	y, ey := strconv.ParseFloat(strings.TrimSpace(b), 64)
	if ex != nil || ey != nil {
		return a == b
	}
	return x == y || math.IsNaN(x) && math.IsNaN(y) || math.Abs(x-y) <= 1e-5*(1+math.Abs(y))
}
