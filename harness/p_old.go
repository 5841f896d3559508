//go:build old

package main

import (
	"math"
	"os"

	oldcache "vh/old/cache"
	oldtable "vh/old/qtable"
)

// The packages vh/old/... are /repo/qLearning_smartCache/..., put there by the overlay check.sh generates.

func quietly(f func()) {
	out := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = null
	defer func() { os.Stdout = out; null.Close() }()
	f()
}

func init() {
	register(&Prop{ID: "C27", Quick: 60000, Deep: 1000000, Run: runOldCache, CaseTimeout: 40,
		Rule:       "one evaluation = the complete observable state (occupied size, capacity percentage, points, least valuable file, every file's statistics) after one operation; sizes carry a binary fraction unique to the file, so the occupied size tells exactly which files are stored",
		NeedEvents: []string{"evictions", "evictions of several files", "no eviction needed", "stored again", "too large", "removed", "exact fit"}})
	register(&Prop{ID: "C28", Quick: 30000, Deep: 600000, Run: runOldTable,
		Rule:       "one evaluation = one complete comparison: every value of the table after an update, an environment's state, or a best action",
		NeedEvents: []string{"tables", "updates", "states built", "beyond the last bound", "at a bound", "best actions", "actions not in numeric order"}})
}

func runOldCache(t *T) {
	n := 2 + t.Rng.Intn(10)
	names := make([]string, n)
	sizes := make([]float64, n)
	big := float64(1 + t.Rng.Intn(60))
	for i := range names {
		names[i] = string(rune('a'+i)) + "/file"
		sizes[i] = float64(t.Rng.Intn(int(big)+1)) + math.Pow(2, -float64(i+1))
	}
	capacity := float64(1+t.Rng.Intn(int(big)*n+1)) * []float64{1, 0.5, 0.25}[t.Rng.Intn(3)]
	if t.Rng.Intn(3) == 0 { // a capacity some set of files fills exactly
		capacity = 0
		for i := range sizes {
			if t.Rng.Intn(2) == 0 {
				capacity += sizes[i]
			}
		}
		if capacity == 0 {
			capacity = sizes[0]
		}
	}
	c := &oldcache.SimCache{MaxSize: capacity}
	c.Init()

	type stat struct{ num, size float64 }
	known := map[int]*stat{}
	in := map[int]bool{}
	value := func(i int) float64 { return known[i].size * known[i].num }
	occupied := func() (s float64) {
		for i := range in {
			s += known[i].size
		}
		return
	}
	// the files of a given total size: the fraction bits name them
	decode := func(total float64) (map[int]bool, bool) {
		set := map[int]bool{}
		f := total - math.Floor(total)
		whole := 0.0
		for i := 0; i < n; i++ {
			bit := math.Pow(2, -float64(i+1))
			if f >= bit {
				f -= bit
				set[i] = true
				whole += sizes[i]
			}
		}
		return set, f == 0 && whole == total
	}
	compare := func(op string) {
		t.Eval(1)
		occ := occupied()
		if got := c.GetSize(); got != occ {
			t.Fail("after %s: occupied size %v, the stored files sum to %v", op, got, occ)
		}
		if got, want := c.GetCapacity(), occ/capacity*100; got != want {
			t.Fail("after %s: capacity %v%%, want %v%%", op, got, want)
		}
		if occ > capacity {
			t.Fail("after %s: occupied %v exceeds the capacity %v", op, occ, capacity)
		}
		points, least := 0.0, math.MaxFloat64
		for i := range in {
			points += value(i)
			least = math.Min(least, value(i))
		}
		if got := c.GetPoints(); got != points {
			t.Fail("after %s: %v points, want %v", op, got, points)
		}
		name, v := c.GetMinValue()
		if v != least {
			t.Fail("after %s: least value %v, want %v", op, v, least)
		}
		ok := len(in) == 0 && name == ""
		for i := range in {
			ok = ok || (names[i] == name && value(i) == least)
		}
		if !ok {
			t.Fail("after %s: least valuable file %q is not a stored file of value %v", op, name, least)
		}
		for i := range names {
			s := c.GetStats(names[i])
			k := known[i]
			if (s == nil) != (k == nil) {
				t.Fail("after %s: statistics of %s known=%v, want %v", op, names[i], s != nil, k != nil)
			}
			if s != nil && (s.Size != k.size || s.NumReq != k.num || s.Value != value(i)) {
				t.Fail("after %s: statistics of %s are %+v, want %v requests of size %v", op, names[i], *s, k.num, k.size)
			}
		}
	}
	compare("Init")
	steps := steps(t, 200, 1500)
	for s := 0; s < steps; s++ {
		i := t.Rng.Intn(n)
		if t.Rng.Intn(3) > 0 {
			i = t.Rng.Intn(1 + n/2)
		}
		// every request updates the statistics first; later sizes do not change the known one
		size := sizes[i]
		asked := size
		if known[i] != nil && t.Rng.Intn(8) == 0 {
			asked = size + 1
		}
		gs, gn, gv := c.UpdateStats(names[i], asked)
		if known[i] == nil {
			known[i] = &stat{0, size}
		}
		known[i].num++
		if gs != size || gn != known[i].num || gv != value(i) {
			t.Fail("UpdateStats(%s) = %v %v %v, want %v %v %v", names[i], gs, gn, gv, size, known[i].num, value(i))
		}
		compare("UpdateStats")
		switch k := t.Rng.Intn(12); {
		case k < 8:
			before := map[int]bool{}
			for j := range in {
				before[j] = true
			}
			occ := occupied()
			c.Insert(names[i], size)
			after, exact := decode(c.GetSize())
			if !exact {
				t.Fail("after Insert(%s): the occupied size %v is not a sum of stored files", names[i], c.GetSize())
			}
			switch {
			case size > capacity:
				t.Count("too large", 1)
				in = before
				compare("Insert of a file larger than the cache")
				continue
			case before[i]:
				t.Count("stored again", 1)
				in = before
				compare("Insert of a stored file")
				continue
			}
			if !after[i] {
				t.Fail("Insert(%s) did not store it", names[i])
			}
			var gone []int
			for j := range before {
				if !after[j] {
					gone = append(gone, j)
				}
			}
			for j := range after {
				if j != i && !before[j] {
					t.Fail("Insert(%s) also stored %s", names[i], names[j])
				}
			}
			if occ+size <= capacity {
				t.Count("no eviction needed", 1)
				if occ+size == capacity {
					t.Count("exact fit", 1)
				}
				if len(gone) > 0 {
					t.Fail("Insert(%s) evicted %d files although it fitted", names[i], len(gone))
				}
			} else {
				t.Count("evictions", 1)
				if len(gone) > 1 {
					t.Count("evictions of several files", 1)
				}
				worst := math.Inf(-1)
				for _, j := range gone {
					worst = math.Max(worst, value(j))
				}
				for j := range after {
					if j != i && value(j) < worst {
						t.Fail("Insert(%s) evicted a file of value %v and kept %s of value %v", names[i], worst, names[j], value(j))
					}
				}
				left := 0.0
				for j := range after {
					left += known[j].size
				}
				needed := false
				for _, j := range gone {
					needed = needed || (value(j) == worst && left+known[j].size > capacity)
				}
				if !needed {
					t.Fail("Insert(%s) evicted more files than needed (%d)", names[i], len(gone))
				}
			}
			t.Sig(len(gone), len(after), size > capacity/2, s%7)
			in = after
			compare("Insert")
		case k < 10:
			j := t.Rng.Intn(n)
			c.Remove(names[j])
			if in[j] {
				t.Count("removed", 1)
			}
			delete(in, j)
			compare("Remove")
		case k == 10 && t.Rng.Intn(20) == 0:
			c.Init()
			known, in = map[int]*stat{}, map[int]bool{}
			compare("Init")
		}
	}
	t.Sample(map[string]interface{}{"capacity": capacity, "files": n, "stored at the end": len(in)})
}

func runOldTable(t *T) {
	for {
		// draw the features
		nf, wide, most := 1+t.Rng.Intn(4), 6, 400
		switch t.Case % 300 {
		case 0: // many states
			nf, wide, most = 3+t.Rng.Intn(3), 9, 5000
		case 1: // many buckets
			nf, wide, most = 1+t.Rng.Intn(3), 45, 3000
		}
		feats := make([][]float64, nf)
		names := make([]string, nf)
		total := 1
		for i := range feats {
			nb := 1 + t.Rng.Intn(wide)
			feats[i] = make([]float64, nb)
			v := float64(t.Rng.Intn(5) - 2)
			for j := range feats[i] {
				feats[i][j] = v
				v += float64(1+t.Rng.Intn(40)) / 4
			}
			if t.Rng.Intn(3) == 0 && nb > 1 {
				feats[i][nb-1] = -1 // open end
			}
			names[i] = string(rune('a' + i))
			total *= nb
		}
		buckets := 0
		for _, f := range feats {
			buckets += len(f)
		}
		if total > most || buckets > 52 || most == 5000 && total < 1000 || wide == 45 && buckets < 30 {
			continue
		}
		if most > 400 {
			t.Count("big tables", 1)
		}
		actions := [][]oldtable.ActionType{
			{oldtable.ActionNotStore, oldtable.ActionStore},
			{oldtable.ActionStore, oldtable.ActionNotStore},
			{oldtable.ActionNotStore},
			{oldtable.ActionStore}}[[]int{0, 0, 1, 1, 2, 3}[t.Rng.Intn(6)]]
		if actions[0] == oldtable.ActionNotStore {
			t.Count("actions not in numeric order", 1)
		}
		runTable(t, feats, names, actions, total)
		return
	}
}

func runTable(t *T, feats [][]float64, names []string, actions []oldtable.ActionType, total int) {
	tab := &oldtable.QTable{}
	quietly(func() { tab.Init(feats, names, actions) })
	// the table keeps its own copy of what it was given
	given := make([][]float64, len(feats))
	for i := range feats {
		given[i] = append([]float64{}, feats[i]...)
		for j := range feats[i] {
			feats[i][j] = -999
		}
		names[i] = "?"
	}
	feats = given
	acts := append([]oldtable.ActionType{}, actions...)
	for i := range actions {
		actions[i] = 77
	}
	defer func() { copy(actions, acts) }()
	t.Count("tables", 1)

	decay := tab.DecayRate
	if decay != 0.005 || tab.Epsilon != 1 || tab.MaxEpsilon != 1 || tab.MinEpsilon != 0.01 {
		t.Fail("initial parameters: decay %v epsilon %v max %v min %v", decay, tab.Epsilon, tab.MaxEpsilon, tab.MinEpsilon)
	}
	// every combination of buckets is a state of its own
	type row struct {
		vec []float64
		idx uint64
		val []float64
	}
	var rows []*row
	byKey := map[string]*row{}
	seen := map[uint64]string{}
	key := func(v []float64) string {
		b := make([]byte, len(v))
		for i := range v {
			b[i] = '0'
			if v[i] != 0 {
				b[i] = '1'
			}
		}
		return string(b)
	}
	combo := make([]int, len(feats))
	for k := 0; k < total; k++ {
		r := k
		var vec []float64
		for i := range feats {
			combo[i] = r % len(feats[i])
			r /= len(feats[i])
			one := make([]float64, len(feats[i]))
			one[combo[i]] = 1
			vec = append(vec, one...)
		}
		x := &row{vec: vec, idx: tab.GetStateIdx(vec), val: make([]float64, len(acts))}
		if other, dup := seen[x.idx]; dup {
			t.Fail("states %s and %s share the index %d", other, key(vec), x.idx)
		}
		seen[x.idx] = key(vec)
		rows = append(rows, x)
		byKey[key(vec)] = x
	}
	all := func(op string) {
		t.Eval(1)
		for _, x := range rows {
			for a := range acts {
				if got := tab.GetAction(x.idx, acts[a]); !(got == x.val[a] || math.Abs(got-x.val[a]) <= 1e-9*math.Max(1, math.Abs(x.val[a]))) {
					t.Fail("after %s: state %s, action %d is worth %v, want %v (actions %v)", op, key(x.vec), acts[a], got, x.val[a], acts)
				} else {
					x.val[a] = got
				}
			}
		}
	}
	all("Init")
	n := steps(t, 120, 900)
	for s := 0; s < n; s++ {
		// an environment
		args := make([]float64, len(feats))
		var want []float64
		for i, f := range feats {
			switch t.Rng.Intn(4) {
			case 0:
				args[i] = f[t.Rng.Intn(len(f))]
			case 1:
				args[i] = f[t.Rng.Intn(len(f))] + []float64{-1e-9, 1e-9, 0.125, -0.125}[t.Rng.Intn(4)]
			case 2:
				args[i] = float64(t.Rng.Intn(200)-20) / 2
			default:
				args[i] = 1e6
			}
			b := len(f) - 1
			past := true
			for j := range f {
				if args[i] <= f[j] {
					b = j
					past = false
					if args[i] == f[j] {
						t.Count("at a bound", 1)
					}
					break
				}
			}
			if past {
				t.Count("beyond the last bound", 1)
			}
			one := make([]float64, len(f))
			one[b] = 1
			want = append(want, one...)
		}
		got := tab.GenCurState(args)
		t.Count("states built", 1)
		t.Eval(1)
		if len(got) != len(want) {
			t.Fail("the state of %v has %d entries, want %d", args, len(got), len(want))
		}
		for i := range got {
			if got[i] != want[i] {
				t.Fail("the state of %v is %v, want %v (bounds %v)", args, got, want, feats)
			}
		}
		x := byKey[key(want)]
		if t.Rng.Intn(3) == 0 {
			x = rows[t.Rng.Intn(len(rows))]
		}
		best := tab.GetBestAction(x.vec)
		top := math.Inf(-1)
		for _, v := range x.val {
			top = math.Max(top, v)
		}
		okBest := false
		for a := range acts {
			okBest = okBest || (acts[a] == best && x.val[a] == top)
		}
		t.Eval(1)
		t.Count("best actions", 1)
		if !okBest {
			t.Fail("best action %d of state %s with values %v of actions %v", best, key(x.vec), x.val, acts)
		}
		// an update: only the given action's own value moves
		a := t.Rng.Intn(len(acts))
		reward := float64(t.Rng.Intn(41)-20) / 2
		if t.Rng.Intn(10) == 0 {
			tab.DecayRate = []float64{0, 0.005, 0.5, 1}[t.Rng.Intn(4)]
		}
		tab.Update(x.vec, acts[a], reward)
		t.Count("updates", 1)
		x.val[a] += 0.9 * (reward + tab.DecayRate*top - x.val[a])
		t.Sig(len(feats), len(rows), a, len(acts), math.Signbit(reward), top == x.val[a])
		if s < 40 || s%10 == 0 || s == n-1 {
			all("Update")
		} else if g := tab.GetAction(x.idx, acts[a]); math.Abs(g-x.val[a]) > 1e-9*math.Max(1, math.Abs(x.val[a])) {
			t.Fail("Update: state %s, action %d is worth %v, want %v (actions %v)", key(x.vec), acts[a], g, x.val[a], acts)
		}
	}
	t.Sample(map[string]interface{}{"features": feats, "states": total, "actions": acts})
}
