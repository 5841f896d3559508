package main

import (
	"encoding/json"
	"fmt"
	"math"
	"path/filepath"
	"strings"

	"simulator/v2/cache"
	"simulator/v2/cache/files"
)

func init() {
	register(&Prop{
		ID: "C08", Quick: 384, Deep: 2400, Run: runC08, NeedEvents: []string{"restarts", "continued-requests", "continued-hits", "continued-evictions", "stats-only-files"},
		Rule: "one evaluation = one complete comparison between the cache that was dumped and the cache restored from the dump (contents, order, every statistics field, occupancy) or one continuation request whose outcome and counters were compared on both; distinct = distinct (policy, files held, statistics held, ring position class) at a restart and (policy, hit, added, evicted count) afterwards",
	})
	register(&Prop{
		ID: "C10", Quick: 384, Deep: 2400, Run: runC10, NeedEvents: []string{"full-clears", "file-clears", "stats-clears", "continued-requests"},
		Rule: "one evaluation = one comparison of a cache after a clear with a fresh instance (or with its own state before a partial clear), or one following request compared on both; distinct = distinct (policy, kind of clear, files held before, request outcome) situations",
	})
	register(&Prop{
		ID: "C11", Quick: 64, Deep: 2400, Run: runC11, NeedEvents: []string{"purged", "kept-because-stored", "kept-because-recent", "requests", "redirected"},
		Rule: "one evaluation = one comparison of the complete per-file statistics table with a reference table; distinct = distinct (policy, table size, files purged at this step, ring full) situations",
	})
	register(&Prop{
		ID: "C12", Quick: 240, Deep: 2400, Run: runC12, NeedEvents: []string{"admitted", "refused", "after-clear", "after-purge", "after-load"},
		Rule: "one evaluation = one request whose admission decision was compared with the weight recomputed from the request history and the mean over all known files; distinct = distinct (function, parameters, decision, hit, ratio bucket of weight to mean) situations",
	})
}

func statKey(f files.Stats, withTick bool) string {
	if !withTick {
		f.Recency, f.DeltaLastRequest = 0, 0
	}
	b, _ := json.Marshal(f)
	return string(b)
}

// sameSnap compares contents, order and statistics of two caches.
func sameSnap(typ string, a, b Snap, withTick bool) string {
	if a.Size != b.Size || (a.Max != b.Max && typ != "infinite") {
		return fmt.Sprintf("occupied %v/%v MB against %v/%v MB", a.Size, a.Max, b.Size, b.Max)
	}
	if !sameContents(typ, a, b) {
		return fmt.Sprintf("stored files, worst first, %v against %v", ids(a.Files), ids(b.Files))
	}
	fb := map[int64]files.Stats{}
	for _, f := range b.Files {
		fb[f.Filename] = f
	}
	for _, f := range a.Files {
		if statKey(f, withTick) != statKey(fb[f.Filename], withTick) {
			return fmt.Sprintf("stored file %s against %s", statKey(f, withTick), statKey(fb[f.Filename], withTick))
		}
	}
	if len(a.Stats) != len(b.Stats) {
		return fmt.Sprintf("statistics of %d files against %d", len(a.Stats), len(b.Stats))
	}
	for k, f := range a.Stats {
		g, ok := b.Stats[k]
		if !ok || statKey(f, withTick) != statKey(g, withTick) {
			return fmt.Sprintf("statistics of file %d: %s against %s", k, statKey(f, withTick), statKey(g, withTick))
		}
	}
	return ""
}

func sameCounters(a, b Snap) bool {
	return a.Size == b.Size && a.NReq == b.NReq && a.NHit == b.NHit && a.NAdd == b.NAdd && a.NDel == b.NDel && a.NRedir == b.NRedir &&
		a.RedirSize == b.RedirSize && a.Written == b.Written && a.Read == b.Read && a.OnHit == b.OnHit && a.OnMiss == b.OnMiss && a.Dl == b.Dl
}

func loadInto(c cache.Cache, typ, path string) {
	if strings.HasPrefix(typ, "aiRL") {
		cache.Loads(c, cache.Load(c, path), 0.3, 0.001)
		return
	}
	cache.Loads(c, cache.Load(c, path))
}

// nearTie tells whether the admission of id by the weight policy hinges on rounding.
func nearTie(s Snap, id int64) bool {
	if len(s.Stats) == 0 {
		return false
	}
	var sum, mx float64
	for _, f := range s.Stats {
		sum += f.Weight
		mx = math.Max(mx, math.Abs(f.Weight))
	}
	mean := sum / float64(len(s.Stats))
	w := s.Stats[id].Weight
	return math.Abs(w-mean) <= 1e-9*math.Max(mx, 1)
}

func runC08(t *T) {
	types := append(allBounded(), "infinite")
	typ := types[t.Case%len(types)]
	rng := t.Rng
	ai := strings.HasPrefix(typ, "aiRL:")
	u := newUniverse(rng, 6+rng.Intn(50), drawCap(rng))
	o, label := drawOpts(t.Dir, rng, u, typ)
	o.DeltaDays, o.MaxDay = 1e9, 1e9 // the age of the statistics is C11's subject
	o.Redirect = rng.Intn(3) == 0
	if o.Redirect {
		o.Gbit = u.Cap * 15 / 10800000
	}
	if typ != "infinite" && rng.Intn(3) == 0 {
		o.Marks, o.High, o.Low = true, 70+30*rng.Float64(), 60*rng.Float64()
	}
	a := newCache(o)
	tr := newTrace(rng, u, 900)
	cycles := 1 + rng.Intn(3)
	for cy := 0; cy < cycles; cy++ {
		n := 1 + rng.Intn(steps(t, 260, 600))
		for i := 0; i < n; i++ {
			ask(a, tr.Next())
		}
		sa := snap(a)
		path := filepath.Join(t.Dir, fmt.Sprintf("dump%d.json.gz", cy))
		cache.Dump(a, path, true)
		if s := snap(a); sameSnap(typ, sa, s, true) != "" {
			t.Fail("%s: dumping changed the cache: %s", label, sameSnap(typ, sa, s, true))
		}
		b := newCache(o)
		loadInto(b, typ, path)
		sb := snap(b)
		t.Eval(1)
		t.Count("restarts", 1)
		if d := sameSnap(typ, sa, sb, true); d != "" {
			t.Fail("%s: the restored cache differs from the dumped one: %s", label, d)
		}
		if nA, nB := numFiles(a), numFiles(b); nA != nB {
			t.Fail("%s: %d files before the dump, %d after loading it", label, nA, nB)
		}
		if len(sa.Stats) > len(sa.Files) {
			t.Count("stats-only-files", len(sa.Stats)-len(sa.Files))
		}
		ring := 0
		for _, f := range sa.Stats {
			if len(f.RequestedTimes) == 32 {
				ring = 1
			}
		}
		t.Sig(typ, len(sa.Files), len(sa.Stats)-len(sa.Files), ring)
		// the restored cache is used from now on; deterministic policies must behave alike
		deterministic := !ai && typ != "random" && typ != "random_lru"
		cache.ClearStats(a)
		cache.ClearStats(b)
		if ai {
			// the first request for each stored file must be a hit in the restored cache too
			for _, f := range snap(b).Files {
				if !cache.Check(b, f.Filename) {
					t.Fail("%s: restored file %d is not served", label, f.Filename)
				}
			}
			m := 1 + rng.Intn(100)
			for i := 0; i < m; i++ {
				ask(b, tr.Next())
				t.Count("continued-requests", 1)
			}
			a = b
			continue
		}
		m := steps(t, 120, 300)
		for i := 0; i < m; i++ {
			r := tr.Next()
			preB := counters(b)
			addB, redB := ask(b, r)
			t.Count("continued-requests", 1)
			t.Eval(1)
			if cB := counters(b); cB.NHit > preB.NHit {
				t.Count("continued-hits", 1)
			} else if cB.NDel > preB.NDel {
				t.Count("continued-evictions", int(cB.NDel-preB.NDel))
			}
			if !deterministic {
				continue
			}
			addA, redA := ask(a, r)
			ca, cb := counters(a), counters(b)
			if addA != addB || redA != redB || !sameCounters(ca, cb) {
				if typ == "weightFunLRU" && nearTie(snap(a), r.File) {
					t.Count("rounding-ties", 1)
					return
				}
				t.Fail("%s: request #%d (file %d, %v MB) after the restart: stored=%v redirected=%v with counters %+v; the cache that was never restarted: stored=%v redirected=%v %+v", label, i, r.File, r.Size, addB, redB, cb, addA, redA, ca)
			}
			t.Sig(typ, cb.NHit > preB.NHit, addB, cb.NDel-preB.NDel)
		}
		if deterministic {
			xa, xb := snap(a), snap(b)
			if d := sameSnap(typ, xa, xb, true); d != "" && typ != "weightFunLRU" {
				t.Fail("%s: %d requests after the restart the two caches differ: %s", label, m, d)
			}
		}
		a = b
	}
	t.Sample(map[string]interface{}{"policy": label, "restarts": cycles, "files": len(u.IDs), "held": numFiles(a)})
}

func runC10(t *T) {
	types := append(allBounded(), "infinite")
	typ := types[t.Case%len(types)]
	rng := t.Rng
	ai := strings.HasPrefix(typ, "aiRL:")
	u := newUniverse(rng, 6+rng.Intn(50), drawCap(rng))
	o, label := drawOpts(t.Dir, rng, u, typ)
	o.Redirect = rng.Intn(3) == 0
	if o.Redirect {
		o.Gbit = u.Cap * 15 / 10800000
	}
	if typ != "infinite" && rng.Intn(3) == 0 {
		o.Marks, o.High, o.Low = true, 70+30*rng.Float64(), 60*rng.Float64()
	}
	c := newCache(o)
	tr := newTrace(rng, u, []int64{300, 20000}[rng.Intn(2)])
	rounds := 2 + rng.Intn(3)
	for k := 0; k < rounds; k++ {
		n := 1 + rng.Intn(steps(t, 200, 500))
		for i := 0; i < n; i++ {
			ask(c, tr.Next())
		}
		before := snap(c)
		t.Eval(1)
		switch rng.Intn(3) {
		case 0:
			cache.Clear(c)
			t.Count("full-clears", 1)
			s := snap(c)
			if s.Size != 0 || len(s.Files) != 0 || len(s.Stats) != 0 || s.NReq != 0 || s.NHit != 0 || s.NAdd != 0 || s.NDel != 0 || s.NRedir != 0 ||
				s.Read != 0 || s.Written != 0 || s.Dl != 0 || s.OnHit != 0 || s.OnMiss != 0 || s.RedirSize != 0 {
				t.Fail("%s: after clearing everything the cache still reports %+v with %d files and %d statistics", label, counterView(s), len(s.Files), len(s.Stats))
			}
			if d := cache.GetTotDeletedFileMiss(c); d != 0 {
				t.Fail("%s: after clearing everything %d misses on deleted files are reported", label, d)
			}
			t.Sig(typ, "full", len(before.Files))
			fresh := newCache(o)
			cont(t, typ, label, c, fresh, tr, ai)
		case 1:
			cache.ClearFiles(c)
			t.Count("file-clears", 1)
			s := snap(c)
			if s.Size != 0 || len(s.Files) != 0 || (numFiles(c) > 0) {
				t.Fail("%s: after clearing the files the cache reports %v MB in %d files", label, s.Size, len(s.Files))
			}
			if len(s.Stats) != len(before.Stats) {
				t.Fail("%s: clearing the files changed the number of known files from %d to %d", label, len(before.Stats), len(s.Stats))
			}
			for id, f := range before.Stats {
				g := s.Stats[id]
				if statKey(f, false) != statKey(g, false) {
					t.Fail("%s: clearing the files changed the statistics of file %d from %s to %s", label, id, statKey(f, false), statKey(g, false))
				}
			}
			b2, s2 := before, s
			b2.Size, s2.Size = 0, 0
			if !sameCounters(b2, s2) {
				t.Fail("%s: clearing the files changed the counters from %+v to %+v", label, counterView(before), counterView(s))
			}
			for _, f := range before.Files {
				if cache.Check(c, f.Filename) {
					t.Fail("%s: file %d is still served after clearing the files", label, f.Filename)
				}
			}
			t.Sig(typ, "files", len(before.Files))
		default:
			cache.ClearStats(c)
			t.Count("stats-clears", 1)
			s := snap(c)
			if s.NReq != 0 || s.NHit != 0 || s.NAdd != 0 || s.Written != 0 || s.Read != 0 || s.OnHit != 0 || s.OnMiss != 0 || s.NRedir != 0 || s.RedirSize != 0 {
				t.Fail("%s: after resetting the run counters the cache reports %+v", label, counterView(s))
			}
			if !(ai && strings.Contains(typ, "onDayEnd")) {
				if s.NDel != 0 || s.Dl != 0 {
					t.Fail("%s: after resetting the run counters the cache reports %+v", label, counterView(s))
				}
				if d := sameSnap(typ, before, s, true); d != "" {
					t.Fail("%s: resetting the run counters changed the cache: %s", label, d)
				}
			}
			t.Sig(typ, "stats", len(before.Files))
		}
	}
	t.Sample(map[string]interface{}{"policy": label, "rounds": rounds, "files": len(u.IDs)})
}

// cont drives the cleared and the fresh cache with the same requests.
func cont(t *T, typ, label string, c, fresh cache.Cache, tr *Trace, ai bool) {
	n := 1 + t.Rng.Intn(steps(t, 150, 400))
	for i := 0; i < n; i++ {
		r := tr.Next()
		h0 := cache.NumHits(c)
		a1, r1 := ask(c, r)
		t.Count("continued-requests", 1)
		t.Eval(1)
		if ai || typ == "random_lru" || typ == "random" {
			// learned and random state is allowed to differ; nothing else may survive
			if i == 0 && cache.NumHits(c) != 0 {
				t.Fail("%s: the first request after clearing everything is a hit", label)
			}
			s := counters(c)
			if s.NReq+s.NRedir != int64(i+1) {
				t.Fail("%s: %d requests after a full clear, %d counted", label, i+1, s.NReq)
			}
			continue
		}
		a2, r2 := ask(fresh, r)
		x, y := counters(c), counters(fresh)
		if a1 != a2 || r1 != r2 || !sameCounters(x, y) {
			if typ == "weightFunLRU" && nearTie(snap(fresh), r.File) {
				return
			}
			t.Fail("%s: request #%d after clearing everything (file %d, %v MB): stored=%v redirected=%v %+v; a fresh cache: stored=%v redirected=%v %+v", label, i, r.File, r.Size, a1, r1, x, a2, r2, y)
		}
		for _, f := range []struct {
			n    string
			a, b float64
		}{{"cpu efficiency", cache.CPUEff(c), cache.CPUEff(fresh)}, {"mean free space", cache.AvgFreeSpace(c), cache.AvgFreeSpace(fresh)}, {"free space deviation", cache.StdDevFreeSpace(c), cache.StdDevFreeSpace(fresh)}} {
			if !near(f.a, f.b) && !(typ == "infinite" && f.n != "cpu efficiency") {
				t.Fail("%s: request #%d after clearing everything: %s is %v, %v in a fresh cache", label, i, f.n, f.a, f.b)
			}
		}
		t.Sig(typ, "cont", cache.NumHits(c)-h0, a1, r1)
	}
	if !(ai || typ == "random_lru" || typ == "random") {
		if d := sameSnap(typ, snap(c), snap(fresh), true); d != "" {
			t.Fail("%s: %d requests after clearing everything the cache differs from a fresh one: %s", label, n, d)
		}
		if a, b := cache.GetTotDeletedFileMiss(c), cache.GetTotDeletedFileMiss(fresh); a != b {
			t.Fail("%s: misses on deleted files %d, %d in a fresh cache", label, a, b)
		}
	}
}

// ---- C11: per-file statistics --------------------------------------------------------------

type refStat struct {
	freq, hit, miss int64
	size            float64
	first, last     int64
	times           []int64
}

func runC11(t *T) {
	types := allBounded()
	typ := types[t.Case%len(types)]
	rng := t.Rng
	u := newUniverse(rng, 8+rng.Intn(60), drawCap(rng))
	o, label := drawOpts(t.Dir, rng, u, typ)
	o.DeltaDays = []float64{0.5, 1, 2, 7}[rng.Intn(4)]
	o.MaxDay = []float64{0.5, 1, 3, 6}[rng.Intn(4)]
	o.Redirect = rng.Intn(2) == 0
	if o.Redirect {
		o.Gbit = u.Cap * 15 / 10800000
	}
	c := newCache(o)
	tr := newTrace(rng, u, int64(86400*math.Min(o.DeltaDays, o.MaxDay)/float64(4+rng.Intn(40))))
	if rng.Intn(3) == 0 {
		// requests dated at whole half-days, so that ages meet the limits exactly
		tr.DayStep *= 2
		tr.Align = 43200
	}
	ref := map[int64]*refStat{}
	var first int64
	have := false
	n := steps(t, 360, 900)
	for i := 0; i < n; i++ {
		r := tr.Next()
		h0 := cache.NumHits(c)
		_, red := ask(c, r)
		s := snap(c)
		held := map[int64]bool{}
		for _, f := range s.Files {
			held[f.Filename] = true
		}
		purged := 0
		if !red {
			t.Count("requests", 1)
			hit := cache.NumHits(c) > h0
			f := ref[r.File]
			if f == nil {
				f = &refStat{first: r.Day}
				ref[r.File] = f
			}
			f.freq++
			if hit {
				f.hit++
			} else {
				f.miss++
			}
			f.size, f.last = r.Size, r.Day
			f.times = append(f.times, r.Day)
			if len(f.times) > 32 {
				f.times = f.times[1:]
			}
			if !have {
				have, first = true, r.Day
			}
			if float64(r.Day-first)/86400 >= o.DeltaDays {
				for id, g := range ref {
					old := float64(r.Day-g.last)/86400 >= o.MaxDay
					if float64(r.Day-g.last)/86400 == o.MaxDay && !held[id] {
						t.Count("exactly-as-old-as-allowed", 1)
					}
					if old && !held[id] {
						delete(ref, id)
						purged++
					} else if old {
						t.Count("kept-because-stored", 1)
					} else if !held[id] {
						t.Count("kept-because-recent", 1)
					}
				}
				first = r.Day
				t.Count("purged", purged)
			}
		} else {
			t.Count("redirected", 1)
		}
		t.Eval(1)
		if len(s.Stats) != len(ref) {
			t.Fail("%s: after request #%d statistics are kept for %d files, expected %d (retention %v days, cleaning every %v days)", label, i, len(s.Stats), len(ref), o.MaxDay, o.DeltaDays)
		}
		cmp := func(what string, got files.Stats) {
			f := ref[got.Filename]
			if f == nil {
				t.Fail("%s: after request #%d %s knows file %d, which should have been forgotten", label, i, what, got.Filename)
				return
			}
			if got.Frequency != f.freq || got.NHits != f.hit || got.NMiss != f.miss || got.Size != f.size ||
				got.StatInsertTime.Unix() != f.first || got.StatLastUpdateTime.Unix() != f.last {
				t.Fail("%s: after request #%d file %d has requests=%d hits=%d misses=%d size=%v first=%d last=%d, observed %+v", label, i, got.Filename, got.Frequency, got.NHits, got.NMiss, got.Size, got.StatInsertTime.Unix(), got.StatLastUpdateTime.Unix(), *f)
			}
			var times []int64
			for _, x := range got.RequestedTimes {
				times = append(times, x.Unix())
			}
			if !eqIDs(sortedIDs(times), sortedIDs(f.times)) {
				t.Fail("%s: after request #%d file %d remembers request times %v, the last ones are %v", label, i, got.Filename, times, f.times)
			}
		}
		for id, f := range s.Stats {
			if id != f.Filename {
				t.Fail("statistics of %d filed under %d", f.Filename, id)
			}
			cmp("the statistics table", f)
		}
		for _, f := range s.Files {
			cmp("the cache", f)
		}
		lf := ref[r.File]
		t.Sig(typ, len(ref), purged, lf != nil && len(lf.times) == 32)
	}
	t.Sample(map[string]interface{}{"policy": label, "requests": n, "retention_days": o.MaxDay, "cleaning_days": o.DeltaDays, "known_files": len(ref)})
}

// ---- C12: weight admission -----------------------------------------------------------------------

func refWeight(fn string, p cache.WeightFunctionParameters, freq int64, size, mean float64) float64 {
	switch fn {
	case "FuncAdditive":
		return p.Alpha*float64(freq) + p.Beta*size + p.Gamma*mean
	case "FuncAdditiveExp":
		return math.Pow(float64(freq), p.Alpha) + math.Pow(size, p.Beta) + math.Pow(mean, p.Gamma)
	}
	return math.Pow(float64(freq), p.Alpha) * math.Pow(size, p.Beta) * math.Pow(mean, p.Gamma)
}

func runC12(t *T) {
	rng := t.Rng
	u := newUniverse(rng, 6+rng.Intn(40), drawCap(rng))
	o, label := drawOpts(t.Dir, rng, u, "weightFunLRU")
	o.WFunc = []string{"FuncAdditive", "FuncAdditiveExp", "FuncMultiplicative"}[t.Case%3]
	o.DeltaDays = []float64{1, 3, 1e9}[rng.Intn(3)]
	o.MaxDay = []float64{0.5, 2}[rng.Intn(2)]
	grid := rng.Intn(4) == 0
	if grid {
		// weights without rounding (requests plus size) and few sizes: a weight meets the mean exactly
		o.WFunc = "FuncAdditive"
		o.WParams = cache.WeightFunctionParameters{Alpha: 1, Beta: 1}
		k := 1 + rng.Intn(2)
		for _, id := range u.IDs {
			u.Size[id] = q64(u.Cap / 8 * float64(1+rng.Intn(k)))
		}
	}
	label = fmt.Sprintf("weightFunLRU:%s:%v/%v/%v", o.WFunc, o.WParams.Alpha, o.WParams.Beta, o.WParams.Gamma)
	c := newCache(o)
	tr := newTrace(rng, u, []int64{600, 4000}[rng.Intn(2)])
	ref := map[int64]*refStat{}
	wt := map[int64]float64{}
	var first int64
	have := false
	n := steps(t, 420, 1000)
	for i := 0; i < n; i++ {
		r := tr.Next()
		before := counters(c)
		resident := cache.Check(c, r.File)
		added, _ := ask(c, r)
		after := counters(c)
		f := ref[r.File]
		if f == nil {
			f = &refStat{first: r.Day}
			ref[r.File] = f
		}
		f.freq++
		f.size, f.last = r.Size, r.Day
		f.times = append(f.times, r.Day)
		if len(f.times) > 32 {
			f.times = f.times[1:]
		}
		var gap float64
		for _, x := range f.times {
			gap += float64(r.Day - x)
		}
		w := refWeight(o.WFunc, o.WParams, f.freq, f.size, gap/60/32)
		wt[r.File] = w
		var sum, mx float64
		for _, x := range wt {
			sum += x
			mx = math.Max(mx, math.Abs(x))
		}
		mean := sum / float64(len(wt))
		t.Eval(1)
		if !resident {
			tol := 1e-7 * math.Max(mx, 1)
			if grid {
				tol = 0
				if w == mean {
					t.Count("exactly-the-mean", 1)
				}
			}
			attempted := added || after.NDel > before.NDel
			switch {
			case w > mean+tol:
				t.Count("refused", 1)
				if added || after.NDel > before.NDel || after.Size != before.Size {
					t.Fail("%s: request #%d for file %d of weight %v was admitted, the mean weight of the %d known files is %v", label, i, r.File, w, len(wt), mean)
				}
				t.Sig(o.WFunc, o.WParams, false, int(math.Min(20, 4*w/math.Max(mean, 1e-9))))
			case w < mean-tol || grid:
				t.Count("admitted", 1)
				if !added && r.Size <= u.Cap {
					t.Fail("%s: request #%d for file %d of weight %v was not stored, the mean weight of the %d known files is %v", label, i, r.File, w, len(wt), mean)
				}
				t.Sig(o.WFunc, o.WParams, true, int(math.Min(20, 4*w/math.Max(mean, 1e-9))), attempted)
			default:
				t.Count("near-ties", 1)
			}
		}
		if !have {
			have, first = true, r.Day
		}
		if float64(r.Day-first)/86400 >= o.DeltaDays {
			first = r.Day
			k := 0
			for id, g := range ref {
				if float64(r.Day-g.last)/86400 >= o.MaxDay && !cache.Check(c, id) {
					delete(ref, id)
					delete(wt, id)
					k++
				}
			}
			t.Count("after-purge", k)
		}
		if i%24 == 0 {
			s := snap(c)
			for id, x := range wt {
				got := s.Stats[id].Weight
				if math.Abs(got-x) > 1e-9*math.Max(1, math.Abs(x)) {
					t.Fail("%s: after request #%d file %d has weight %v, its request history gives %v", label, i, id, got, x)
				}
			}
			if len(s.Stats) != len(wt) {
				t.Fail("%s: %d files known, %d weights expected", label, len(s.Stats), len(wt))
			}
		}
		switch rng.Intn(150) {
		case 0:
			cache.Clear(c)
			ref, wt, have = map[int64]*refStat{}, map[int64]float64{}, false
			t.Count("after-clear", 1)
		case 1:
			cache.ClearFiles(c)
			t.Count("after-clear-files", 1)
		case 2:
			p := filepath.Join(t.Dir, "d.gz")
			cache.Dump(c, p, true)
			c = newCache(o)
			cache.Loads(c, cache.Load(c, p))
			have = false // ages are counted from the first request after a restart
			t.Count("after-load", 1)
		case 3:
			cache.ClearStats(c)
		}
	}
	t.Sample(map[string]interface{}{"policy": label, "requests": n, "known_files": len(wt), "hits": cache.NumHits(c)})
}
