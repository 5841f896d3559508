package main

import (
	"compress/gzip"
	"encoding/json"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"simulator/v2/cache"
)

func writeDataset(dir string, keep []int64) string {
	p := filepath.Join(dir, "dataset.json.gz")
	f, err := os.Create(p)
	must(err)
	w := gzip.NewWriter(f)
	if keep == nil {
		keep = []int64{}
	}
	must(json.NewEncoder(w).Encode(map[string]interface{}{"selected_files": keep}))
	must(w.Close())
	must(f.Close())
	return p
}

// allBounded is every bounded cache configuration family.
func allBounded() []string {
	out := append([]string{}, boundedTypes...)
	out = append(out, "lruDatasetVerifier")
	for _, m := range aiModes {
		out = append(out, "aiRL:"+m)
	}
	return out
}

func drawCap(rng *rand.Rand) float64 {
	return []float64{64, 100, 128, 37.5, 1000, 4096}[rng.Intn(6)]
}

func steps(t *T, quick, deep int) int {
	if t.Deep {
		return deep
	}
	return quick
}

func init() {
	register(&Prop{
		ID: "C01", Quick: 192, Deep: 2400, Run: runC01, NeedEvents: []string{"requests", "evictions", "oversized", "dump-load", "direct-free"},
		Rule: "one evaluation = one comparison of the reported occupancy and contents against the configured capacity after an operation; distinct = distinct (policy, occupancy decile, operation kind, outcome) situations in which the cache was not empty",
	})
	register(&Prop{
		ID: "C02", Quick: 64, Deep: 2400, Run: runC02, NeedEvents: []string{"requests", "evictions", "stats-resets", "file-resets"},
		Rule: "one evaluation = one full balance (occupied size vs sum of held files, files vs added-deleted, bytes vs written-deleted) after an operation; distinct = distinct (policy, number of held files, operation kind) situations",
	})
	register(&Prop{
		ID: "C03", Quick: 112, Deep: 3000, Run: runC03, NeedEvents: []string{"requests", "evictions", "multi-evictions", "ties"},
		Rule: "one evaluation = comparison of the complete worst-first contents of the cache with the reference policy after one request; distinct = distinct (policy, evicted-set size, resident count, tie present) situations with at least one eviction",
	})
	register(&Prop{
		ID: "C04", Quick: 72, Deep: 2400, Run: runC04, NeedEvents: []string{"hits", "misses", "redirected", "resets"},
		Rule: "one evaluation = one request whose hit/miss outcome was compared with the observed contents before it plus the whole counter ledger; distinct = distinct (policy, hit, added, redirected, evicted, first-after-reset) outcomes crossed with the log2 of the request index",
	})
	register(&Prop{
		ID: "C06", Quick: 48, Deep: 1600, Run: runC06, NeedEvents: []string{"redirected", "miss-below-threshold", "hit-above-threshold", "boundary"},
		Rule: "one evaluation = one request compared with the redirect rule (and, when redirected, full snapshot equality); distinct = distinct (policy, hit, usage decile, redirected, enabled) situations",
	})
	register(&Prop{
		ID: "C07", Quick: 96, Deep: 1600, Run: runC07, NeedEvents: []string{"triggered", "not-triggered", "disabled"},
		Rule: "one evaluation = one request after which the watermark rule was compared with the observed worst-first contents; distinct = distinct (policy, triggered, number of files freed, enabled) situations",
	})
}

func sumSize(s Snap) float64 {
	var x float64
	for _, f := range s.Files {
		x += f.Size
	}
	return x
}

func numFiles(c cache.Cache) int {
	if n, ok := c.(interface{ NumFiles() int }); ok {
		return n.NumFiles()
	}
	return -1
}

func diffIDs(before, after []int64) (removed, addedIDs []int64) {
	a := map[int64]bool{}
	for _, id := range after {
		a[id] = true
	}
	b := map[int64]bool{}
	for _, id := range before {
		b[id] = true
		if !a[id] {
			removed = append(removed, id)
		}
	}
	for _, id := range after {
		if !b[id] {
			addedIDs = append(addedIDs, id)
		}
	}
	return
}

// ---- C01: occupancy never exceeds the capacity ---------------------------------------

func runC01(t *T) {
	types := allBounded()
	typ := types[t.Case%len(types)]
	rng := t.Rng
	u := newUniverse(rng, 8+rng.Intn(60), drawCap(rng))
	o, label := drawOpts(t.Dir, rng, u, typ)
	if rng.Intn(2) == 0 {
		o.Marks = true
		o.High, o.Low = 60+40*rng.Float64(), 60*rng.Float64()
	}
	o.Redirect = rng.Intn(3) == 0
	if o.Redirect {
		o.Gbit = u.Cap * 20 / 10800000
	}
	c := newCache(o)
	tr := newTrace(rng, u, []int64{0, 60, 3600, 40000}[rng.Intn(4)])
	chk := func(op string) {
		t.Eval(1)
		sz, mx := cache.Size(c), cache.GetMaxSize(c)
		if mx != u.Cap {
			t.Fail("%s: after %s the reported capacity is %v, configured %v", label, op, mx, u.Cap)
		}
		if sz < 0 || sz > mx {
			t.Fail("%s: after %s the cache reports %v MB occupied of %v MB", label, op, sz, mx)
		}
		if p := cache.Capacity(c); !near(p, sz/mx*100) {
			t.Fail("%s: after %s the occupancy percentage is %v, expected %v", label, op, p, sz/mx*100)
		}
		if sz > 0 {
			t.Sig(typ, int(sz/mx*10), op)
		}
	}
	full := func(op string) Snap {
		s := snap(c)
		t.Eval(1)
		if x := sumSize(s); x > s.Max {
			t.Fail("%s: after %s the files held sum to %v MB, capacity %v MB", label, op, x, s.Max)
		}
		for _, f := range s.Files {
			if f.Size > u.Cap {
				t.Fail("%s: after %s file %d of %v MB is stored in a cache of %v MB", label, op, f.Filename, f.Size, u.Cap)
			}
		}
		return s
	}
	n := steps(t, 400, 900)
	for i := 0; i < n; i++ {
		r := tr.Next()
		del := cache.NumDeleted(c)
		added, _ := ask(c, r)
		t.Count("requests", 1)
		if d := cache.NumDeleted(c) - del; d > 0 {
			t.Count("evictions", int(d))
		}
		if r.Size > u.Cap {
			t.Count("oversized", 1)
			if added {
				t.Fail("%s: a file of %v MB was reported as stored in a cache of %v MB", label, r.Size, u.Cap)
			}
		}
		chk("request")
		if i%16 == 0 || r.Size > u.Cap {
			full("request")
		}
		switch rng.Intn(120) {
		case 0:
			cache.ClearStats(c)
			chk("statistics reset")
		case 1:
			if !strings.HasPrefix(typ, "aiRL:") || typ == "aiRL:scdl" || typ == "aiRL:add" {
				if rng.Intn(2) == 0 {
					c.Free(rng.Float64()*120, true)
				} else {
					c.Free(rng.Float64()*u.Cap*1.2, false)
				}
				t.Count("direct-free", 1)
				chk("direct free")
				full("direct free")
			}
		case 2:
			if i > n/2 {
				before := snap(c)
				p := filepath.Join(t.Dir, "dump.gz")
				cache.Dump(c, p, true)
				c = newCache(o)
				if strings.HasPrefix(typ, "aiRL:") {
					cache.Loads(c, cache.Load(c, p), 0.5, 0.001)
				} else {
					cache.Loads(c, cache.Load(c, p))
				}
				t.Count("dump-load", 1)
				chk("load")
				s := full("load")
				if s.Size != before.Size {
					t.Fail("%s: occupancy %v MB before the dump, %v MB after loading it", label, before.Size, s.Size)
				}
			}
		case 3:
			cache.ClearFiles(c)
			chk("clearing files")
			if cache.Size(c) != 0 {
				t.Fail("%s: size %v after clearing the files", label, cache.Size(c))
			}
		}
	}
	t.Sample(map[string]interface{}{"policy": label, "capacity_MB": u.Cap, "files": len(u.IDs), "requests": n, "final_occupied_MB": cache.Size(c), "deleted": cache.NumDeleted(c)})
}

// ---- C02: conservation ------------------------------------------------------------------

func runC02(t *T) {
	types := append(allBounded(), "infinite")
	typ := types[t.Case%len(types)]
	rng := t.Rng
	u := newUniverse(rng, 8+rng.Intn(50), drawCap(rng))
	o, label := drawOpts(t.Dir, rng, u, typ)
	if rng.Intn(2) == 0 {
		o.Marks = typ != "infinite"
		o.High, o.Low = 60+40*rng.Float64(), 60*rng.Float64()
	}
	c := newCache(o)
	tr := newTrace(rng, u, []int64{60, 3600, 40000}[rng.Intn(3)])
	var base Snap
	baseN := 0
	var baseSum float64
	bal := func(op string) {
		s := snap(c)
		t.Eval(1)
		seen := map[int64]bool{}
		for _, f := range s.Files {
			if seen[f.Filename] {
				t.Fail("%s: after %s file %d is held twice", label, op, f.Filename)
			}
			seen[f.Filename] = true
			if want, ok := u.Size[f.Filename]; !ok || want != f.Size {
				t.Fail("%s: after %s the cache holds file %d with size %v, requested size %v", label, op, f.Filename, f.Size, want)
			}
		}
		sum := sumSize(s)
		if s.Size != sum {
			t.Fail("%s: after %s the cache reports %v MB occupied but holds files for %v MB", label, op, s.Size, sum)
		}
		if n := numFiles(c); n >= 0 && n != len(s.Files) {
			t.Fail("%s: after %s the cache reports %d files and lists %d", label, op, n, len(s.Files))
		}
		if got, want := int64(len(s.Files)-baseN), s.NAdd-s.NDel; got != want {
			t.Fail("%s: after %s files held changed by %d while added-deleted is %d (added %d deleted %d)", label, op, got, want, s.NAdd, s.NDel)
		}
		if got, want := sum-baseSum, s.Written-s.Dl; got != want {
			t.Fail("%s: after %s held bytes changed by %v MB while written-deleted is %v MB (written %v, deleted %v)", label, op, got, want, s.Written, s.Dl)
		}
		if s.NAdd < 0 || s.NDel < 0 || s.Written < 0 || s.Dl < 0 {
			t.Fail("%s: negative counters after %s: %+v", label, op, s)
		}
		t.Sig(typ, len(s.Files), op)
		_ = base
	}
	rebase := func() {
		s := snap(c)
		baseN, baseSum = len(s.Files), sumSize(s)
		// counters may already be non-zero when the reset itself evicts (end-of-day eviction)
		baseN -= int(s.NAdd - s.NDel)
		baseSum -= s.Written - s.Dl
	}
	n := steps(t, 130, 700)
	for i := 0; i < n; i++ {
		before := ids(snap(c).Files)
		r := tr.Next()
		del, addN := cache.NumDeleted(c), cache.NumAdded(c)
		delB, wr := cache.DataDeleted(c), cache.DataWritten(c)
		added, _ := ask(c, r)
		t.Count("requests", 1)
		after := ids(snap(c).Files)
		rem, add := diffIDs(before, after)
		if added {
			if cache.NumAdded(c) != addN+1 || cache.DataWritten(c) != wr+r.Size {
				t.Fail("%s: a stored file changed the added/written counters by %d / %v MB (size %v)", label, cache.NumAdded(c)-addN, cache.DataWritten(c)-wr, r.Size)
			}
		} else if cache.NumAdded(c) != addN || cache.DataWritten(c) != wr {
			t.Fail("%s: a request that stored nothing changed the added/written counters", label)
		}
		for _, id := range add {
			if id != r.File {
				t.Fail("%s: request for %d made file %d appear", label, r.File, id)
			}
		}
		if len(add) > 0 && !added {
			t.Fail("%s: file %d was stored by a request reported as not storing", label, r.File)
		}
		// a file can be stored and removed again within one request (watermark or learned eviction)
		extra := int64(0)
		if added && len(add) == 0 {
			extra = 1
		}
		if got := cache.NumDeleted(c) - del; got != int64(len(rem))+extra {
			t.Fail("%s: %d files disappeared while %d were counted as deleted", label, int64(len(rem))+extra, got)
		}
		var remSize float64
		for _, id := range rem {
			remSize += u.Size[id]
		}
		if extra == 1 {
			remSize += r.Size
		}
		if got := cache.DataDeleted(c) - delB; got != remSize {
			t.Fail("%s: %v MB disappeared while %v MB were counted as deleted", label, remSize, got)
		}
		t.Count("evictions", len(rem))
		bal("request")
		switch rng.Intn(60) {
		case 0:
			cache.ClearStats(c)
			t.Count("stats-resets", 1)
			rebase()
			s := snap(c)
			if s.Size != sumSize(s) {
				t.Fail("%s: after a statistics reset size %v != sum of files %v", label, s.Size, sumSize(s))
			}
		case 1:
			cache.ClearFiles(c)
			t.Count("file-resets", 1)
			rebase()
			s := snap(c)
			if s.Size != 0 || len(s.Files) != 0 {
				t.Fail("%s: after clearing the files the cache still reports %v MB and %d files", label, s.Size, len(s.Files))
			}
		case 2:
			if rng.Intn(4) == 0 {
				cache.Clear(c)
				t.Count("full-resets", 1)
				rebase()
			}
		}
	}
	t.Sample(map[string]interface{}{"policy": label, "requests": n, "held": len(snap(c).Files), "occupied_MB": cache.Size(c)})
}

// ---- C03: eviction order -----------------------------------------------------------------

func runC03(t *T) {
	types := append([]string{}, orderedTypes...)
	types = append(types, "random_lru", "weightFunLRU", "lruDatasetVerifier", "aiNN")
	typ := types[t.Case%len(types)]
	rng := t.Rng
	nf := 6 + rng.Intn(40)
	if t.Case%9 == 8 {
		nf = 150
	}
	u := newUniverse(rng, nf, drawCap(rng))
	o, label := drawOpts(t.Dir, rng, u, typ)
	c := newCache(o)
	m := newModel(typ, u.Cap)
	tr := newTrace(rng, u, []int64{0, 60, 3600, 30000}[rng.Intn(4)])
	n := steps(t, 420, 1200)
	lastEv := []int64{}
	for i := 0; i < n; i++ {
		r := tr.Next()
		_, resident := m.In[r.File]
		added, _ := ask(c, r)
		// Admission is the policy's own decision; what is checked here is what happens to the contents.
		admit := true
		s := snap(c)
		if typ == "random_lru" || typ == "weightFunLRU" || typ == "lruDatasetVerifier" {
			// a skipped request must leave the contents alone; an admitted one must evict in order
			admit = added
			if !added && !resident && r.Size > u.Cap {
				// storing was attempted and impossible, or skipped: both leave no file; contents tell which
				admit = len(s.Files) != len(m.In)
			}
		}
		fits := m.Size+r.Size <= m.Max
		hit, madded := m.Request(r, admit)
		t.Count("requests", 1)
		if hit != resident || madded != added {
			t.Fail("%s: request #%d for file %d (%v MB): stored=%v, the reference policy says %v (resident before: %v)", label, i, r.File, r.Size, added, madded, resident)
		}
		t.Eval(1)
		got, want := ids(s.Files), m.orderIDs()
		if !eqIDs(got, want) {
			t.Fail("%s: after request #%d (file %d, %v MB) the cache holds, worst first, %v; the reference policy holds %v; previous evictions %v", label, i, r.File, r.Size, got, want, lastEv)
		}
		if len(m.Evicted) > 0 {
			lastEv = append([]int64(nil), m.Evicted...)
			t.Count("evictions", len(m.Evicted))
			if len(m.Evicted) > 1 {
				t.Count("multi-evictions", 1)
			}
			t.Sig(typ, len(m.Evicted), len(m.In), hasTie(m))
			if fits && r.Size <= u.Cap {
				t.Fail("reference model evicted although the file fits")
			}
		}
		if hasTie(m) {
			t.Count("ties", 1)
		}
		// direct eviction requests
		if rng.Intn(40) == 0 && i > 20 {
			amt := q64(rng.Float64() * u.Cap)
			m.Evicted = m.Evicted[:0]
			want := m.Free(amt)
			if got := c.Free(amt, false); got != want {
				t.Fail("%s: asked to free %v MB, freed %v MB; the minimal worst-first prefix holds %v MB", label, amt, got, want)
			}
			if got, want := ids(snap(c).Files), m.orderIDs(); !eqIDs(got, want) {
				t.Fail("%s: after freeing %v MB the cache holds %v, the reference %v", label, amt, got, want)
			}
			t.Eval(1)
			t.Count("direct-free", 1)
		}
	}
	t.Sample(map[string]interface{}{"policy": label, "files": nf, "requests": n, "last_eviction": lastEv})
}

func hasTie(m *Model) bool {
	if m.Policy == "lru" {
		return false
	}
	seen := map[float64]bool{}
	for _, f := range m.In {
		k := f.Size
		if m.Policy == "lfu" {
			k = float64(f.Freq)
		}
		if seen[k] {
			return true
		}
		seen[k] = true
	}
	return false
}

// ---- C04: hits and misses -----------------------------------------------------------------

func runC04(t *T) {
	types := append(allBounded(), "infinite")
	typ := types[t.Case%len(types)]
	rng := t.Rng
	u := newUniverse(rng, 8+rng.Intn(40), drawCap(rng))
	o, label := drawOpts(t.Dir, rng, u, typ)
	o.Redirect = rng.Intn(2) == 0
	if o.Redirect {
		o.Gbit = u.Cap * (3 + 20*rng.Float64()) / 10800000
	}
	if typ != "infinite" && rng.Intn(3) == 0 {
		o.Marks = true
		o.High, o.Low = 70+30*rng.Float64(), 60*rng.Float64()
	}
	c := newCache(o)
	tr := newTrace(rng, u, 3600)
	var hits, misses, redir int64
	var onHit, onMiss, redirMB float64
	after0 := true
	n := steps(t, 330, 900)
	held := map[int64]bool{}
	refresh := func() {
		held = map[int64]bool{}
		for _, f := range snap(c).Files {
			held[f.Filename] = true
		}
	}
	for i := 0; i < n; i++ {
		r := tr.Next()
		was := held[r.File]
		h0 := cache.NumHits(c)
		added, red := ask(c, r)
		gotHit := cache.NumHits(c) - h0
		old := held
		refresh()
		switch {
		case red:
			redir++
			redirMB += r.Size
			t.Count("redirected", 1)
			if was || gotHit != 0 || added {
				t.Fail("%s: request #%d for file %d was redirected; resident=%v counted hits=%d stored=%v", label, i, r.File, was, gotHit, added)
			}
		case was:
			hits++
			onHit += r.Size
			t.Count("hits", 1)
			if gotHit != 1 || added {
				t.Fail("%s: request #%d for the stored file %d: counted hits=%d stored=%v", label, i, r.File, gotHit, added)
			}
		default:
			misses++
			onMiss += r.Size
			t.Count("misses", 1)
			if gotHit != 0 {
				t.Fail("%s: request #%d for file %d, which is not stored, was served as a hit", label, i, r.File)
			}
		}
		if added && was {
			t.Fail("%s: file %d stored twice", label, r.File)
		}
		s := counters(c)
		t.Eval(1)
		if s.NReq != hits+misses || s.NHit != hits || s.NRedir != redir {
			t.Fail("%s: request #%d: counters requests=%d hits=%d redirected=%d, observed requests %d hits %d misses %d redirected %d", label, i, s.NReq, s.NHit, s.NRedir, hits+misses, hits, misses, redir)
		}
		if s.OnHit != onHit || s.OnMiss != onMiss || s.Read != onHit+onMiss || s.RedirSize != redirMB {
			t.Fail("%s: request #%d: data read %v (on hit %v, on miss %v), redirected %v; observed on hit %v on miss %v redirected %v", label, i, s.Read, s.OnHit, s.OnMiss, s.RedirSize, onHit, onMiss, redirMB)
		}
		wantHR := 0.
		if hits+misses > 0 {
			wantHR = 100 * float64(hits) / float64(hits+misses)
		}
		if hr := cache.HitRate(c); !near(hr, wantHR) {
			t.Fail("%s: hit rate %v, expected %v (hits %d of %d)", label, hr, wantHR, hits, hits+misses)
		}
		if w := cache.WeightedHitRate(c); !near(w, wantHR*onHit) {
			t.Fail("%s: weighted hit rate %v, expected %v", label, w, wantHR*onHit)
		}
		lg := int(math.Log2(float64(i + 1)))
		t.Sig(typ, was, added, red, len(held) < len(old), after0, lg)
		after0 = false
		reset := func() {
			hits, misses, redir, onHit, onMiss, redirMB = 0, 0, 0, 0, 0, 0
			after0 = true
			t.Count("resets", 1)
			if hr := cache.HitRate(c); hr != 0 {
				t.Fail("%s: hit rate %v before any request", label, hr)
			}
			if s := counters(c); s.NReq != 0 || s.NHit != 0 || s.Read != 0 || s.OnHit != 0 || s.OnMiss != 0 || s.NRedir != 0 || s.RedirSize != 0 {
				t.Fail("%s: counters not zero after a reset: %+v", label, s)
			}
		}
		switch rng.Intn(90) {
		case 0:
			cache.ClearStats(c)
			refresh()
			reset()
		case 1:
			cache.ClearFiles(c)
			refresh()
			if len(held) != 0 {
				t.Fail("%s: files still stored after clearing", label)
			}
		case 2:
			cache.Clear(c)
			refresh()
			reset()
			if len(held) != 0 {
				t.Fail("%s: files still stored after clearing", label)
			}
		}
	}
	t.Sample(map[string]interface{}{"policy": label, "requests": n, "hits": hits, "misses": misses, "redirected": redir})
}

// ---- C06: redirection ------------------------------------------------------------------------

func runC06(t *T) {
	types := append(allBounded(), "infinite")
	typ := types[t.Case%len(types)]
	rng := t.Rng
	u := newUniverse(rng, 8+rng.Intn(30), drawCap(rng))
	for k := rng.Intn(3); k > 0; k-- {
		u.Size[u.IDs[rng.Intn(len(u.IDs))]] = 0 // an empty file is redirected like any other
	}
	o, label := drawOpts(t.Dir, rng, u, typ)
	o.Redirect = t.Case%5 != 4
	exact := rng.Intn(2) == 0
	daily := u.Cap * (2 + 6*rng.Float64())
	if exact {
		// bandwidth chosen so that the 95% mark is a reachable multiple of the size grain
		daily = q64(daily) * 20 / 19
	}
	o.Gbit = daily / 10800000
	c := newCache(o)
	if bw := cache.Bandwidth(c); math.Abs(bw-o.Gbit*10800000) > 1e-6*bw {
		t.Fail("%s: %v Gbit/s is reported as a daily bandwidth of %v MB, expected %v", label, o.Gbit, bw, o.Gbit*10800000)
	}
	tr := newTrace(rng, u, 1000)
	n := steps(t, 300, 800)
	var missRead, redirMB float64
	var redir int64
	before := snap(c)
	for i := 0; i < n; i++ {
		r := tr.Next()
		usage := missRead / (o.Gbit * 10800000) * 100
		if b := cache.BandwidthUsage(c); !near(b, usage) {
			t.Fail("%s: bandwidth usage %v%%, data read on misses says %v%%", label, b, usage)
		}
		if exact && i > 5 && usage < 94 && rng.Intn(12) == 0 {
			// approach the mark exactly with one file filling the gap
			need := 0.95*o.Gbit*10800000 - missRead
			if need > 0 && need < 1e9 {
				r.File, r.Size = int64(7777777000)+int64(i), q64(need)
				u.Size[r.File] = r.Size
				t.Count("boundary", 1)
			}
		}
		resident := false
		for _, f := range before.Files {
			if f.Filename == r.File {
				resident = true
			}
		}
		_, red := ask(c, r)
		want := o.Redirect && !resident && usage >= 95
		amb := math.Abs(usage-95) < 1e-9*95 && usage != 95
		t.Eval(1)
		if red != want && !(amb && !resident && o.Redirect) {
			t.Fail("%s: request #%d for file %d: redirected=%v; enabled=%v stored=%v bandwidth usage %v%%", label, i, r.File, red, o.Redirect, resident, usage)
		}
		after := snap(c)
		if red {
			redir++
			redirMB += r.Size
			t.Count("redirected", 1)
			if after.Size != before.Size || after.NReq != before.NReq || after.NHit != before.NHit || after.NAdd != before.NAdd || after.NDel != before.NDel ||
				after.Written != before.Written || after.Read != before.Read || after.OnHit != before.OnHit || after.OnMiss != before.OnMiss || after.Dl != before.Dl {
				t.Fail("%s: a redirected request changed the counters: before %+v after %+v", label, counterView(before), counterView(after))
			}
			if !sameContents(typ, before, after) {
				t.Fail("%s: a redirected request changed the contents: before %v after %v", label, ids(before.Files), ids(after.Files))
			}
			if len(after.Stats) != len(before.Stats) {
				t.Fail("%s: a redirected request changed the per-file statistics", label)
			}
			for k, f := range after.Stats {
				if g, ok := before.Stats[k]; !ok || g.Frequency != f.Frequency || g.NHits != f.NHits || g.NMiss != f.NMiss || g.Recency != f.Recency {
					t.Fail("%s: a redirected request changed the statistics of file %d", label, k)
				}
			}
		} else if !resident {
			missRead += r.Size
			t.Count("miss-below-threshold", 1)
		} else if usage >= 95 {
			t.Count("hit-above-threshold", 1)
		}
		if after.NRedir != redir || after.RedirSize != redirMB {
			t.Fail("%s: %d requests for %v MB redirected, reported %d and %v MB", label, redir, redirMB, after.NRedir, after.RedirSize)
		}
		t.Sig(typ, resident, int(usage/10), red, o.Redirect)
		before = after
		if (usage >= 95 && rng.Intn(25) == 0) || rng.Intn(200) == 0 {
			cache.ClearStats(c)
			missRead, redirMB, redir = 0, 0, 0
			before = snap(c)
		}
	}
	t.Sample(map[string]interface{}{"policy": label, "enabled": o.Redirect, "daily_MB": o.Gbit * 10800000, "requests": n, "redirected": redir})
}

func counterView(s Snap) Snap { s.Files, s.Stats = nil, nil; return s }

func sameContents(typ string, a, b Snap) bool {
	x, y := ids(a.Files), ids(b.Files)
	if typ == "random" || typ == "infinite" || strings.HasPrefix(typ, "aiRL:") {
		x, y = sortedIDs(x), sortedIDs(y)
	}
	return eqIDs(x, y)
}

// ---- C07: watermarks -----------------------------------------------------------------------

func runC07(t *T) {
	types := []string{"lru", "lfu", "sizeBig", "sizeSmall", "random_lru", "random", "weightFunLRU", "lruDatasetVerifier", "aiNN", "aiRL:scdl", "aiRL:add"}
	typ := types[t.Case%len(types)]
	rng := t.Rng
	u := newUniverse(rng, 8+rng.Intn(40), drawCap(rng))
	// no giant files: they would empty the cache too often
	for id, s := range u.Size {
		if s > u.Cap/3 {
			u.Size[id] = q64(s / 5)
		}
	}
	o, label := drawOpts(t.Dir, rng, u, typ)
	o.Marks = t.Case%6 != 5
	o.High = 55 + 44*rng.Float64()
	o.Low = o.High * rng.Float64()
	if rng.Intn(4) == 0 {
		o.High, o.Low = 95, 75
	}
	// sizes and marks on a grid of sixteenths of the capacity: the marks are met exactly
	exact := rng.Intn(3) == 0
	if exact {
		for _, id := range u.IDs {
			u.Size[id] = u.Cap / 16 * float64(1+rng.Intn(3))
		}
		k := 6 + rng.Intn(10)
		o.High = 6.25 * float64(k)
		o.Low = 6.25 * float64(1+rng.Intn(k-1))
	}
	c := newCache(o)
	// a twin without watermarks, loaded with the same contents before each request, tells
	// what the request alone does; here the model does that from the observed order.
	tr := newTrace(rng, u, 3600)
	n := steps(t, 380, 900)
	if o.Marks && rng.Intn(3) == 0 && !strings.HasPrefix(typ, "aiRL:") {
		// started from the dump of a cache filled without watermarks
		oo := o
		oo.Marks = false
		full := newCache(oo)
		for i := 0; i < 60; i++ {
			ask(full, tr.Next())
		}
		p := filepath.Join(t.Dir, "full.gz")
		cache.Dump(full, p, true)
		cache.Loads(c, cache.Load(c, p))
		if cache.Capacity(c) >= o.High {
			t.Count("started-above-the-high-mark", 1)
		}
	}
	before := snap(c)
	for i := 0; i < n; i++ {
		r := tr.Next()
		resident := false
		for _, f := range before.Files {
			if f.Filename == r.File {
				resident = true
			}
		}
		fitsNow := before.Size+r.Size <= u.Cap
		added, _ := ask(c, r)
		after := snap(c)
		t.Eval(1)
		if !o.Marks {
			t.Count("disabled", 1)
			if fitsNow && after.NDel != before.NDel {
				t.Fail("%s: watermarks are off and the file fits, yet %d files were evicted", label, after.NDel-before.NDel)
			}
			if added && after.Size > 0 && fitsNow && after.Size != before.Size+r.Size {
				t.Fail("%s: watermarks off: occupancy went from %v to %v after storing %v MB", label, before.Size, after.Size, r.Size)
			}
			t.Sig(typ, "off", len(after.Files))
			before = after
			continue
		}
		// Whatever happened, the request may not end at or above the high mark.
		hi := o.High / 100 * u.Cap
		if after.Size >= hi*(1+1e-9) || exact && after.Size >= hi {
			t.Fail("%s: request #%d left the cache %v%% full with the high watermark at %v%%", label, i, after.Cap, o.High)
		}
		// Reconstruct the occupancy the request itself produced (room-making happens before the mark is examined).
		del := after.NDel - before.NDel
		mid := before.Size
		if added {
			mid += r.Size
		}
		if fitsNow || !added {
			// no room-making unless an unstorable file was requested
			if !added && !resident && !fitsNow {
				before = after
				continue
			}
			if mid < hi*(1-1e-9) || exact && mid < hi {
				t.Count("not-triggered", 1)
				if del != 0 {
					t.Fail("%s: request #%d left %v%% occupied, below the high watermark %v%%, yet %d files were evicted", label, i, mid/u.Cap*100, o.High, del)
				}
			} else if mid > hi*(1+1e-9) || exact {
				t.Count("triggered", 1)
				if mid == hi {
					t.Count("exactly-at-the-high-mark", 1)
				}
				target := mid - (mid/u.Cap*100-o.Low)/100*u.Cap
				if after.Size > target*(1+1e-9)+1e-9 {
					t.Fail("%s: request #%d reached %v%% (high watermark %v%%) and eviction stopped at %v%%, above the low watermark %v%%", label, i, mid/u.Cap*100, o.High, after.Cap, o.Low)
				}
				var freed []int64
				rem, _ := diffIDs(ids(before.Files), ids(after.Files))
				freed = rem
				selfGone := added
				for _, f := range after.Files {
					if f.Filename == r.File {
						selfGone = false
					}
				}
				if selfGone {
					freed = append(freed, r.File)
				}
				if len(freed) == 0 {
					t.Fail("%s: request #%d reached the high watermark and nothing was evicted", label, i)
				}
				maxFreed, sum := 0., 0.
				szOf := func(id int64) float64 { return u.Size[id] }
				for _, id := range freed {
					sum += szOf(id)
					if szOf(id) > maxFreed {
						maxFreed = szOf(id)
					}
				}
				last := maxFreed
				if typ != "random" {
					// worst-first: the survivors must be a suffix of the order the request left behind
					order := expectedOrder(typ, before, r, added, resident, c, after)
					if order != nil {
						k := len(freed)
						if k > len(order) || !eqIDs(sortedIDs(order[:k]), sortedIDs(freed)) {
							t.Fail("%s: request #%d: the watermark freed %v; worst first the cache held %v", label, i, freed, order)
						}
						last = szOf(order[k-1])
						if !eqIDs(order[k:], ids(after.Files)) {
							t.Fail("%s: request #%d: after the watermark the cache holds %v, expected %v", label, i, ids(after.Files), order[k:])
						}
					}
				}
				if mid-(sum-last) < target*(1-1e-9)-1e-9 {
					t.Fail("%s: request #%d: the watermark freed %v MB in %d files although the low watermark was already met without the last one", label, i, sum, len(freed))
				}
				t.Sig(typ, "on", len(freed), len(after.Files))
			}
		}
		before = after
	}
	t.Sample(map[string]interface{}{"policy": label, "high": o.High, "low": o.Low, "enabled": o.Marks, "requests": n, "deleted": cache.NumDeleted(c)})
}

// expectedOrder is the worst-first order right after the request and before any watermark eviction.
func expectedOrder(typ string, before Snap, r Req, added, resident bool, c cache.Cache, after Snap) []int64 {
	type ent struct {
		id  int64
		key float64
	}
	m := newModel(typ, before.Max)
	seq := int64(0)
	for _, f := range before.Files {
		seq++
		m.In[f.Filename] = &MFile{ID: f.Filename, Size: f.Size, Freq: f.Frequency, Seq: seq}
	}
	seq++
	if resident {
		m.In[r.File].Seq = seq
		m.In[r.File].Freq++
	} else if added {
		st, ok := after.Stats[r.File]
		if !ok {
			return nil
		}
		m.In[r.File] = &MFile{ID: r.File, Size: r.Size, Freq: st.Frequency, Seq: seq}
	}
	return m.orderIDs()
}
