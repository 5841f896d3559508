package main

import (
	"math"
	"path/filepath"
	"strings"

	"simulator/v2/cache"
)

// Admission rules, the infinite cache and the daily metrics of every policy.

func init() {
	register(&Prop{
		ID: "C25", Quick: 192, Deep: 6000, Run: runC25,
		NeedEvents: []string{"requests", "repeat-hits", "policies-compared", "counter-resets"},
		Rule:       "one evaluation = one request to an infinite cache whose outcome, contents and counters were compared with the set of files requested so far, or one comparison of its hits with those of a bounded policy on the same trace; distinct = distinct (files known bucket, policy compared, hits bucket)",
	})
	register(&Prop{
		ID: "C26", Quick: 60, Deep: 2000, Run: runC26,
		NeedEvents: []string{"stored", "refused", "too-big", "selected-misses", "unselected-misses", "random-misses", "same-seed-pairs"},
		Rule:       "one evaluation = one missing file whose storing was compared with the policy's admission rule, or one admission rate; distinct = distinct (policy, fits at once, too big, stored) situations by size decile",
	})
	register(&Prop{
		ID: "C29", Quick: 68, Deep: 2000, Run: runC29,
		NeedEvents: []string{"requests", "metric-checks", "misses-after-delete", "watermark-evictions", "counter-resets", "policies-with-agents"},
		Rule:       "one evaluation = one full comparison of the efficiency, free space, bandwidth and miss-after-delete figures with those computed from the outcomes of the requests since the last reset; distinct = distinct (policy, region, hits bucket, evictions bucket, misses after delete)",
	})
}

func runC25(t *T) {
	rng := t.Rng
	u := newUniverse(rng, 5+rng.Intn(60), drawCap(rng))
	o := Opts{Type: "infinite", Size: u.Cap, Seed: rng.Int63(), MaxDay: float64(1 + rng.Intn(6)), DeltaDays: float64(1 + rng.Intn(6))}
	c := newCache(o)
	kinds := []string{"lru", "lfu", "sizeBig", "sizeSmall", "random_lru", "random"}
	other := kinds[rng.Intn(len(kinds))]
	oo := o
	oo.Type = other
	oo.Marks = rng.Intn(2) == 0
	b := newCache(oo)
	tr := newTrace(rng, u, []int64{0, 600, 40000}[rng.Intn(3)])
	n := steps(t, 300, 800)
	seen := map[int64]bool{}
	var size, read, onHit float64
	var reqs, hits, added, bHits int64
	for i := 0; i < n; i++ {
		if rng.Intn(60) == 0 {
			cache.ClearStats(c)
			cache.ClearStats(b)
			reqs, hits, added, bHits, read, onHit = 0, 0, 0, 0, 0, 0
			t.Count("counter-resets", 1)
		}
		switch rng.Intn(120) {
		case 0:
			cache.Clear(c)
			cache.Clear(b)
			seen = map[int64]bool{}
			size = 0
			reqs, hits, added, bHits, read, onHit = 0, 0, 0, 0, 0, 0
			t.Count("clears", 1)
		case 1:
			cache.ClearFiles(c)
			cache.ClearFiles(b)
			seen = map[int64]bool{}
			size = 0
			t.Count("clears", 1)
		}
		r := tr.Next()
		h0 := cache.NumHits(b)
		ask(b, r)
		if cache.NumHits(b) > h0 {
			bHits++
			if !seen[r.File] {
				t.Fail("%s serves file %d as a hit on its first request", other, r.File)
			}
		}
		nh := cache.NumHits(c)
		add, red := ask(c, r)
		t.Count("requests", 1)
		reqs++
		read += r.Size
		hit := cache.NumHits(c) == nh+1
		t.Eval(1)
		if hit != seen[r.File] {
			t.Fail("infinite: request %d for file %d (requested before: %v) is a hit: %v", i, r.File, seen[r.File], hit)
		}
		if hit {
			hits++
			onHit += r.Size
			t.Count("repeat-hits", 1)
		} else {
			seen[r.File] = true
			size += r.Size
			added++
		}
		if add == hit || red {
			t.Fail("infinite: request %d for file %d: added %v, redirected %v, hit %v", i, r.File, add, red, hit)
		}
		if k := counters(c); k.Size != size || k.NReq != reqs || k.NHit != hits || k.NAdd != added || k.NDel != 0 || k.Dl != 0 || k.Read != read || k.OnHit != onHit || k.Size > k.Max {
			t.Fail("infinite: request %d: %+v, expected size %v, %d requests, %d hits, %d added, none deleted, read %v, %v on hits", i, k, size, reqs, hits, added, read, onHit)
		}
		if i%25 == 0 || i == n-1 {
			var want []int64
			for id := range seen {
				want = append(want, id)
			}
			if got := sortedIDs(ids(snap(c).Files)); !eqIDs(got, sortedIDs(want)) {
				t.Fail("infinite: files %v are stored, %v were requested", got, want)
			}
		}
		t.Eval(1)
		if cache.HitRate(c) < cache.HitRate(b)-1e-9 {
			t.Fail("the hit rate of the infinite cache (%v) is below that of %s (%v) on the same requests", cache.HitRate(c), other, cache.HitRate(b))
		}
	}
	t.Count("policies-compared", 1)
	t.Sig(other, len(seen)/8, hits/40, bHits/40)
	t.Sample(map[string]interface{}{"files": len(seen), "requests": reqs, "hits": hits, "compared_with": other, "its_hits": bHits})
}

func runC26(t *T) {
	rng := t.Rng
	kinds := []string{"lruDatasetVerifier", "random", "random_lru", "lru", "lfu", "sizeBig", "sizeSmall", "lruDatasetVerifier", "random", "random_lru"}
	typ := kinds[t.Case%len(kinds)]
	u := newUniverse(rng, 8+rng.Intn(40), drawCap(rng))
	o := Opts{Type: typ, Size: u.Cap, Seed: rng.Int63()}
	o.Marks = rng.Intn(3) == 0
	sel := map[int64]bool{}
	if typ == "lruDatasetVerifier" {
		var keep []int64
		for _, id := range u.IDs {
			if rng.Intn(2) == 0 {
				keep = append(keep, id)
				sel[id] = true
			}
		}
		rng.Shuffle(len(keep), func(i, j int) { keep[i], keep[j] = keep[j], keep[i] })
		if len(keep) > 0 && rng.Intn(2) == 0 {
			keep = append(keep, keep[0]) // listed twice
		}
		o.Dataset = writeDataset(t.Dir, keep)
	}
	c := newCache(o)
	isRandom := strings.HasPrefix(typ, "random")
	tr := newTrace(rng, u, 600)
	n := steps(t, 400, 1200)
	var stored, fitting int
	var decisions []bool
	in := map[int64]bool{}
	var misses []Req
	for i := 0; i < n; i++ {
		switch rng.Intn(120) {
		case 0:
			cache.ClearStats(c)
		case 1:
			cache.ClearFiles(c)
			in = map[int64]bool{}
		case 2:
			if !isRandom { // a restart starts the draws again
				d := newCache(o)
				cache.Loads(d, c.Dumps(true))
				c = d
			}
		}
		r := tr.Next()
		sizeB := cache.Size(c)
		add, _ := ask(c, r)
		hit := in[r.File]
		in = map[int64]bool{}
		for _, f := range snap(c).Files {
			in[f.Filename] = true
		}
		if hit {
			if add {
				t.Fail("%s: request %d: file %d is added although it was stored", typ, i, r.File)
			}
			continue
		}
		t.Eval(1)
		fits := r.Size <= u.Cap
		// a watermark clean-up right after may evict the file again, but it was added
		if !o.Marks && add != in[r.File] {
			t.Fail("%s: request %d: file %d reported as added: %v, stored: %v", typ, i, r.File, add, in[r.File])
		}
		switch {
		case !fits:
			t.Count("too-big", 1)
			if add {
				t.Fail("%s: request %d: file %d of %v MB is stored in a cache of %v MB", typ, i, r.File, r.Size, u.Cap)
			}
			if isRandom {
				decisions = append(decisions, false)
				misses = append(misses, r)
			}
		case isRandom:
			t.Count("random-misses", 1)
			fitting++
			if add {
				stored++
			}
			decisions = append(decisions, add)
			misses = append(misses, r)
		case typ == "lruDatasetVerifier":
			if sel[r.File] {
				t.Count("selected-misses", 1)
			} else {
				t.Count("unselected-misses", 1)
			}
			if add != sel[r.File] {
				t.Fail("%s: request %d: file %d (in the dataset: %v) of %v MB is stored: %v", typ, i, r.File, sel[r.File], r.Size, add)
			}
		default:
			if !add {
				t.Fail("%s: request %d: the missing file %d of %v MB is not stored in a cache of %v MB", typ, i, r.File, r.Size, u.Cap)
			}
		}
		if add {
			t.Count("stored", 1)
		} else {
			t.Count("refused", 1)
		}
		t.Sig(typ, sizeB+r.Size <= u.Cap, fits, add, int(10*r.Size/u.Cap))
	}
	if isRandom {
		t.Eval(1)
		if fitting > 50 && math.Abs(float64(stored)-float64(fitting)/2) > 6*math.Sqrt(float64(fitting))/2 {
			t.Fail("%s stores %d of %d missing files that fit, expected about half", typ, stored, fitting)
		}
		// the decisions are a function of the seed and of the number of misses only
		d := newCache(Opts{Type: typ, Size: 1e12, Seed: o.Seed})
		for i := range decisions {
			r := misses[i]
			r.File = int64(1000 + i)
			r.Size = 1 + float64(rng.Intn(5))
			add, _ := ask(d, r)
			if misses[i].Size <= u.Cap && add != decisions[i] {
				t.Fail("%s: with the same seed, miss %d is stored: %v in one cache and %v in another", typ, i, decisions[i], add)
			}
		}
		t.Count("same-seed-pairs", 1)
		t.Sig(typ, fitting/50, stored/50)
	}
	t.Sample(map[string]interface{}{"policy": typ, "requests": n, "stored_by_random": stored, "random_misses": fitting})
}

type metricOp struct {
	Op
	avg, sd, eff, hit, miss, up, low, use float64
	mad                                   int // misses after delete since the last reading, -1: not read
}

func runC29(t *T) {
	rng := t.Rng
	typ := logTypes[t.Case%len(logTypes)]
	u := newUniverse(rng, 8+rng.Intn(30), drawCap(rng))
	o, label := drawLogged(t, typ, u)
	o.Region = []string{"", "it", "us", "elsewhere"}[rng.Intn(4)]
	label += " region " + o.Region
	if rng.Intn(4) == 0 {
		o.MaxDay, o.DeltaDays = 0.02, 0.02 // statistics of evicted files are forgotten quickly
	}
	c := newCache(o)
	if strings.HasPrefix(typ, "aiRL:") {
		t.Count("policies-with-agents", 1)
	}
	tr := newTrace(rng, u, 600)
	var ops []Op
	var ms []metricOp
	in := map[int64]bool{}
	sizes := map[int64]float64{}
	var tick int64
	n := steps(t, 200, 500)
	for i := 0; i < n; i++ {
		op := Op{Kind: "req", Tick: tick}
		if rng.Intn(30) == 0 {
			op.Kind = "reset"
			cache.ClearStats(c)
			t.Count("counter-resets", 1)
		} else {
			op.R = tr.Next()
			sizes[op.R.File] = op.R.Size
			op.Hit = in[op.R.File]
			op.Added, op.Redir = ask(c, op.R)
			if !op.Redir {
				tick++
			}
			t.Count("requests", 1)
		}
		op.After = snap(c)
		in = map[int64]bool{}
		for _, f := range op.After.Files {
			in[f.Filename] = true
		}
		m := metricOp{Op: op, avg: cache.AvgFreeSpace(c), sd: cache.StdDevFreeSpace(c), eff: cache.CPUEff(c), hit: cache.CPUHitEff(c), miss: cache.CPUMissEff(c),
			up: cache.CPUEffUpperBound(c), low: cache.CPUEffLowerBound(c), use: cache.BandwidthUsage(c), mad: -1}
		if rng.Intn(12) == 0 {
			m.mad = int(cache.GetTotDeletedFileMiss(c))
		}
		ops = append(ops, op)
		ms = append(ms, m)
	}
	must(cache.Terminate(c))
	parts := splitLog(t, ops, readLog(t, filepath.Join(t.Dir, "simulationLogFile.csv.gz")), label)

	s := newRefSim("lru", u.Cap) // only its accumulators are used
	s.Region = o.Region
	daily := o.Gbit * 10800000
	if daily == 0 {
		daily = 10 * 10800000
	}
	s.Daily = daily
	hi, lo := map[int64]bool{}, map[int64]bool{} // files of the latest eviction round: at most, at least
	madHi, madLo := 0, 0
	for i, op := range ops {
		if op.Kind == "req" {
			if !op.Hit {
				if hi[op.R.File] {
					madHi++
				}
				if lo[op.R.File] {
					madLo++
					t.Count("misses-after-delete", 1)
				}
			}
		} else {
			s.Reset()
		}
		late := 0.
		sure := true
		for _, e := range parts[i] {
			switch e.Kind {
			case "FREE", "ONK", "ONDAYEND":
				hi, lo = map[int64]bool{}, map[int64]bool{}
				sure = true
			case "ONFREE", "FORCEDCALL":
				hi, lo = map[int64]bool{}, map[int64]bool{}
				sure = strings.HasPrefix(typ, "aiRL:evOnly") // with an addition agent there may be two rounds
			case "DELETE":
				hi[e.File] = true
				if sure {
					lo[e.File] = true
				}
				if e.Tick > op.Tick && op.Kind == "req" {
					late += sizes[e.File]
					t.Count("watermark-evictions", 1)
				}
			}
		}
		if op.Kind == "req" && !op.Redir {
			r := op.R
			s.NReq++
			s.Read += r.Size
			cur := 0.
			if r.CPU != 0 {
				switch r.Proto {
				case 1:
					s.upper += r.CPU
					s.nLocal++
					cur = r.CPU
				case 0:
					s.lower += r.CPU
					s.nRemote++
					cur = r.CPU + s.boundDiff()
				}
			}
			if op.Hit {
				s.NHit++
				s.nHitD++
				s.hitCPU += cur
			} else {
				s.nMissD++
				s.OnMs += r.Size
				if cur != 0 {
					s.missCPU += cur - s.boundDiff()
				}
			}
			s.free = append(s.free, op.After.Max-op.After.Size-late)
		}
		t.Eval(1)
		t.Count("metric-checks", 1)
		m := ms[i]
		mean, sd := s.freeStats()
		want := s.Row()
		for _, x := range []struct {
			name      string
			got, want float64
		}{{"average free space", m.avg, mean}, {"deviation of the free space", m.sd, sd}, {"CPU efficiency", m.eff, want["CPU efficiency"]},
			{"CPU efficiency on hits", m.hit, want["CPU hit efficiency"]}, {"CPU efficiency on misses", m.miss, want["CPU miss efficiency"]},
			{"upper bound", m.up, want["CPU efficiency upper bound"]}, {"lower bound", m.low, want["CPU efficiency lower bound"]},
			{"bandwidth usage", m.use, s.usage()}} {
			if math.IsNaN(x.got) && math.IsNaN(x.want) {
				continue
			}
			if !(math.Abs(x.got-x.want) <= 1e-6+1e-7*math.Abs(x.want)) {
				t.Fail("%s: after operation %d (%s of file %d, hit %v, redirected %v) the %s is %v, expected %v", label, i, op.Kind, op.R.File, op.Hit, op.Redir, x.name, x.got, x.want)
			}
		}
		if m.mad >= 0 {
			if m.mad < madLo || m.mad > madHi {
				t.Fail("%s: after operation %d, %d misses of files just evicted, expected %d to %d", label, i, m.mad, madLo, madHi)
			}
			madHi, madLo = 0, 0
		}
	}
	t.Sig(typ, o.Region, s.NHit/5, madHi)
	t.Sample(map[string]interface{}{"policy": typ, "region": o.Region, "operations": n, "hits_since_reset": s.NHit})
}
