package main

import (
	"fmt"
	"sort"

	"simulator/v2/cache/files"
	"simulator/v2/cache/queue"
)

func init() {
	register(&Prop{
		ID: "C05", Quick: 216, Deep: 8000, Run: runC05, NeedEvents: []string{"insert", "update", "remove", "remove-worst", "rejected", "up-to-size"},
		Rule: "one evaluation = one complete comparison of a replacement queue (membership, size, worst-first, best-first and up-to-size listings) with a reference list after an operation; distinct = distinct (queue kind, operation, number of files, number of equal-key groups) situations with at least two files",
	})
}

type qModel struct {
	kind string
	seq  int64
	in   map[int64]*qEntry
}

type qEntry struct {
	st  *files.Stats
	key float64
	seq int64
}

func (m *qModel) key(s *files.Stats) float64 {
	switch m.kind {
	case "lfu":
		return float64(s.Frequency)
	case "sizeBig":
		return -s.Size
	case "sizeSmall":
		return s.Size
	case "weight":
		return s.Weight
	}
	return 0
}

func (m *qModel) touch(s *files.Stats) {
	m.seq++
	m.in[s.Filename] = &qEntry{s, m.key(s), m.seq}
}

func (m *qModel) order() []*files.Stats {
	es := make([]*qEntry, 0, len(m.in))
	for _, e := range m.in {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool {
		if es[i].key != es[j].key {
			return es[i].key < es[j].key
		}
		return es[i].seq < es[j].seq
	})
	out := make([]*files.Stats, len(es))
	for i, e := range es {
		out[i] = e.st
	}
	return out
}

func samePtrs(a, b []*files.Stats) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func names(in []*files.Stats) string {
	var s []string
	for i, f := range in {
		if i > 30 {
			s = append(s, "...")
			break
		}
		s = append(s, fmt.Sprint(f.Filename))
	}
	return fmt.Sprint(s)
}

func rejects(f func()) (yes bool) {
	defer func() {
		if recover() != nil {
			yes = true
		}
	}()
	f()
	return false
}

func runC05(t *T) {
	rng := t.Rng
	kinds := []string{"lru", "lfu", "sizeBig", "sizeSmall", "weight", "none"}
	kind := kinds[t.Case%len(kinds)]
	var q queue.Queue
	switch kind {
	case "lru":
		q = &queue.LRU{}
	case "lfu":
		q = &queue.LFU{}
	case "sizeBig":
		q = &queue.SizeBig{}
	case "sizeSmall":
		q = &queue.SizeSmall{}
	case "weight":
		q = &queue.Weighted{}
	case "none":
		q = &queue.QueueNone{}
	}
	queue.Init(q)
	m := &qModel{kind: kind, in: map[int64]*qEntry{}}
	pool := map[int64]*files.Stats{}
	nIDs := 4 + rng.Intn(50)
	keySpan := 1 + rng.Intn(8)
	newStat := func(id int64) *files.Stats {
		return &files.Stats{Filename: id, Size: float64(1+rng.Intn(keySpan)) / 4, Frequency: int64(1 + rng.Intn(keySpan)), Weight: float64(rng.Intn(keySpan)) / 8}
	}
	for i := 0; i < nIDs; i++ {
		id := rng.Int63() - rng.Int63()
		if rng.Intn(2) == 0 {
			id = int64(i)
		}
		pool[id] = newStat(id)
	}
	var all []int64
	for id := range pool {
		all = append(all, id)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })

	compare := func(op string) {
		t.Eval(1)
		want := m.order()
		if n := queue.Len(q); n != len(want) {
			t.Fail("%s queue after %s reports %d files, %d were inserted and not removed", kind, op, n, len(want))
		}
		for _, id := range all {
			if got := queue.Check(q, id); got != (m.in[id] != nil) {
				t.Fail("%s queue after %s: membership of %d is %v", kind, op, id, got)
			}
		}
		worst := append([]*files.Stats(nil), queue.GetFromWorst(q)...)
		best := append([]*files.Stats(nil), queue.Get(q)...)
		if kind == "none" {
			seen := map[*files.Stats]bool{}
			for _, l := range [][]*files.Stats{worst, best} {
				for k := range seen {
					delete(seen, k)
				}
				for _, f := range l {
					if seen[f] || m.in[f.Filename] == nil || m.in[f.Filename].st != f {
						t.Fail("%s queue after %s lists %s", kind, op, names(l))
					}
					seen[f] = true
				}
				if len(seen) != len(want) {
					t.Fail("%s queue after %s lists %d of %d files", kind, op, len(seen), len(want))
				}
			}
		} else {
			if !samePtrs(worst, want) {
				t.Fail("%s queue after %s lists worst-first %s, expected %s", kind, op, names(worst), names(want))
			}
			rev := make([]*files.Stats, len(want))
			for i, f := range want {
				rev[len(want)-1-i] = f
			}
			if !samePtrs(best, rev) {
				t.Fail("%s queue after %s lists best-first %s, expected %s", kind, op, names(best), names(rev))
			}
		}
		if len(want) > 0 {
			var tot float64
			for _, f := range want {
				tot += f.Size
			}
			amount := tot * rng.Float64() * 1.1
			if rng.Intn(4) == 0 { // land exactly on a prefix sum
				amount = 0
				for i := 0; i <= rng.Intn(len(want)); i++ {
					amount += want[i].Size
				}
			}
			if amount <= 0 {
				amount = 0.25
			}
			got := append([]*files.Stats(nil), queue.GetWorstFilesUp2Size(q, amount)...)
			t.Count("up-to-size", 1)
			if kind == "none" {
				var s float64
				seen := map[*files.Stats]bool{}
				for i, f := range got {
					if seen[f] || m.in[f.Filename] == nil {
						t.Fail("%s queue lists a duplicate or unknown file %d", kind, f.Filename)
					}
					seen[f] = true
					s += f.Size
					if s >= amount && i != len(got)-1 {
						t.Fail("%s queue lists more files than needed for %v MB", kind, amount)
					}
				}
				if s < amount && len(got) != len(want) {
					t.Fail("%s queue lists %v MB for a request of %v MB while holding %v MB", kind, s, amount, tot)
				}
			} else {
				var exp []*files.Stats
				var s float64
				for _, f := range want {
					exp = append(exp, f)
					s += f.Size
					if s >= amount {
						break
					}
				}
				if !samePtrs(got, exp) {
					t.Fail("%s queue lists %s to reach %v MB, expected %s", kind, names(got), amount, names(exp))
				}
			}
			for _, f := range want {
				if queue.GetFileStats(q, f.Filename) != f {
					t.Fail("%s queue after %s returns other statistics for file %d", kind, op, f.Filename)
				}
			}
		}
		if len(want) > 1 {
			groups := map[float64]int{}
			for _, e := range m.in {
				groups[e.key]++
			}
			t.Sig(kind, op, len(want), len(groups))
		}
		t.Count(op, 1)
	}
	inList := func() []int64 {
		var out []int64
		for _, id := range all {
			if m.in[id] != nil {
				out = append(out, id)
			}
		}
		return out
	}
	n := steps(t, 500, 1500)
	grow := true
	for i := 0; i < n; i++ {
		if rng.Intn(60) == 0 {
			grow = !grow
		}
		id := all[rng.Intn(len(all))]
		present := m.in[id] != nil
		r := rng.Intn(10)
		switch {
		case r < 4 && grow || r < 2:
			if present {
				dup := pool[id]
				if rng.Intn(2) == 0 { // the same name with other statistics
					dup = newStat(id)
				}
				if !rejects(func() { queue.Insert(q, dup) }) {
					t.Fail("%s queue accepted file %d twice", kind, id)
				}
				compare("rejected")
				continue
			}
			st := pool[id]
			if rng.Intn(3) == 0 {
				st = newStat(id)
				pool[id] = st
			}
			queue.Insert(q, st)
			m.touch(st)
			compare("insert")
		case r < 7:
			if !present {
				st := pool[id]
				if rng.Intn(2) == 0 {
					st = newStat(id)
				}
				if !rejects(func() { queue.Update(q, st) }) {
					t.Fail("%s queue accepted an update of the absent file %d", kind, id)
				}
				compare("rejected")
				continue
			}
			st := m.in[id].st
			switch rng.Intn(4) {
			case 0:
				st.Frequency += int64(rng.Intn(3))
				st.Weight += float64(rng.Intn(5)-2) / 8
				st.Size = float64(1+rng.Intn(keySpan)) / 4
			case 1:
				st.Frequency++
			case 2:
				st.Weight = float64(rng.Intn(keySpan)) / 8
			}
			queue.Update(q, st)
			m.touch(st)
			compare("update")
		case r < 9:
			in := inList()
			if len(in) == 0 {
				continue
			}
			k := 1
			if rng.Intn(4) == 0 {
				k = 1 + rng.Intn(len(in))
				if k > 6 {
					k = 6
				}
			}
			rng.Shuffle(len(in), func(a, b int) { in[a], in[b] = in[b], in[a] })
			victims := append([]int64(nil), in[:k]...)
			for _, v := range victims {
				delete(m.in, v)
			}
			queue.Remove(q, victims)
			compare("remove")
		default:
			ord := m.order()
			if len(ord) == 0 {
				continue
			}
			k := 1 + rng.Intn(len(ord))
			if rng.Intn(3) > 0 && k > 4 {
				k = 1 + rng.Intn(4)
			}
			var victims []int64
			for _, f := range ord[:k] {
				victims = append(victims, f.Filename)
				delete(m.in, f.Filename)
			}
			queue.RemoveWorst(q, victims)
			compare("remove-worst")
		}
	}
	t.Sample(map[string]interface{}{"queue": kind, "names": nIDs, "operations": n, "left": len(m.in)})
}
