package main

import (
	"compress/gzip"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"simulator/v2/cache"
	"simulator/v2/cache/ai/featuremap"
	"simulator/v2/cache/ai/qlearn"
)

func init() {
	register(&Prop{
		ID: "C19", Quick: 8000, Deep: 120000, Run: runC19,
		NeedEvents: []string{"features", "lookups", "no-bucket", "open-right", "compressed"},
		Rule:       "one evaluation = one value looked up in a parsed feature (or one structural fact of a feature map) compared with the JSON definition; distinct = distinct (type, buckets, open, position of the value relative to the bounds)",
	})
	register(&Prop{
		ID: "C20", Quick: 6000, Deep: 100000, Run: runC20,
		NeedEvents: []string{"tables", "states", "printed-rows", "one-feature", "one-value-features"},
		Rule:       "one evaluation = one state of a learning table whose index, values and printed line were compared with the enumeration of the feature values; distinct = distinct (feature sizes, role) tables",
	})
	register(&Prop{
		ID: "C21", Quick: 8000, Deep: 120000, Run: runC21,
		NeedEvents: []string{"updates", "epsilon-steps", "best-actions", "ties", "remembered", "memory-full", "unleashed"},
		Rule:       "one evaluation = one agent operation after which the whole table, the exploration rate, the value and the memory were compared with the model; distinct = distinct (role, operation, memory bucket, tie size)",
	})
	register(&Prop{
		ID: "C34", Quick: 120, Deep: 3000, Run: runC34,
		NeedEvents: []string{"requests", "updates", "greedy-decisions", "greedy-stores", "explored-decisions", "rewards-positive", "rewards-negative"},
		Rule:       "one evaluation = one request after which the addition agent's complete table, its decision and its exploration rate were compared with the reference learner; distinct = distinct (variant, hit, action, remembered choices bucket, reward sign)",
	})
	register(&Prop{
		ID: "C09", Quick: 480, Deep: 6000, Run: runC09,
		NeedEvents: []string{"restarts", "table-cells", "non-zero-cells", "feature-maps", "continued-requests", "other-maps"},
		Rule:       "one evaluation = one restart of a learning cache whose tables, feature maps, files and statistics were compared before and after; distinct = distinct (mode, non-zero cells bucket, requests bucket)",
	})
}

// ---- feature maps ----------------------------------------------------------------------

// FDef is the definition of one feature.
type FDef struct {
	Name, Type string
	Ints       []int64
	Floats     []float64
	Strings    []string
	Bools      []bool
	Open, File bool
}

func (f FDef) size() int {
	n := len(f.Ints) + len(f.Floats) + len(f.Strings) + len(f.Bools)
	if f.Open && (f.Type == "int" || f.Type == "float") {
		n++
	}
	return n
}

// index is the documented bucket of a value.
func (f FDef) index(v interface{}) int {
	switch f.Type {
	case "int":
		for i, b := range f.Ints {
			if v.(int64) <= b {
				return i
			}
		}
		if f.Open {
			return len(f.Ints)
		}
	case "float":
		for i, b := range f.Floats {
			if v.(float64) <= b {
				return i
			}
		}
		if f.Open {
			return len(f.Floats)
		}
	case "string":
		for i, b := range f.Strings {
			if v.(string) == b {
				return i
			}
		}
	case "bool":
		for i, b := range f.Bools {
			if v.(bool) == b {
				return i
			}
		}
	}
	return -1
}

// label is the printed form of a bucket.
func (f FDef) label(i int) string {
	switch f.Type {
	case "int":
		if i == len(f.Ints) {
			return "max"
		}
		return strconv.FormatInt(f.Ints[i], 10)
	case "float":
		if i == len(f.Floats) {
			return "max"
		}
		return fmt.Sprintf("%.2f", f.Floats[i])
	case "string":
		return f.Strings[i]
	}
	return strconv.FormatBool(f.Bools[i])
}

func (f FDef) sameLabel(got string, i int) bool {
	want := f.label(i)
	if got == want {
		return true
	}
	a, e1 := strconv.ParseFloat(got, 64)
	b, e2 := strconv.ParseFloat(want, 64)
	return f.Type == "float" && e1 == nil && e2 == nil && math.Abs(a-b) < 1e-9
}

func (f FDef) json(rng *rand.Rand) string {
	key := []string{"buckets", "values"}[rng.Intn(2)]
	var v interface{}
	switch f.Type {
	case "int":
		v = f.Ints
	case "float":
		v = f.Floats
	case "string":
		v = f.Strings
	default:
		v = f.Bools
	}
	b, _ := json.Marshal(v)
	parts := []string{fmt.Sprintf(`"type":%q`, f.Type), fmt.Sprintf(`%q:%s`, key, b)}
	if f.Open || rng.Intn(4) == 0 {
		parts = append(parts, fmt.Sprintf(`"openRight":%v`, f.Open))
	}
	if f.File || rng.Intn(4) == 0 {
		parts = append(parts, fmt.Sprintf(`"fileFeature":%v`, f.File))
	}
	rng.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	return fmt.Sprintf("%q:{%s}", f.Name, strings.Join(parts, ","))
}

var letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"

func drawFeatures(rng *rand.Rand, n, maxSize int, openOnly bool) []FDef {
	var out []FDef
	seen := map[string]bool{}
	for len(out) < n {
		k := 1 + rng.Intn(6)
		name := ""
		for i := 0; i < k; i++ {
			name += string(letters[rng.Intn(len(letters))])
		}
		if seen[name] {
			continue
		}
		seen[name] = true
		f := FDef{Name: name, Type: []string{"int", "float", "string", "bool"}[rng.Intn(4)], File: rng.Intn(3) == 0}
		if openOnly {
			f.Type = []string{"int", "float"}[rng.Intn(2)]
		}
		sz := 1 + rng.Intn(maxSize)
		none := rng.Intn(15) == 0 // a single, open bucket
		f.Ints, f.Floats = nil, nil
		switch f.Type {
		case "int":
			v := int64(rng.Intn(40) - 20)
			if rng.Intn(4) == 0 {
				v = []int64{1<<24 + 1, 1<<31 - 2, 1 << 32, 1600000001, 1<<53 - 100000}[rng.Intn(5)]
			}
			if none {
				sz, f.Ints, f.Open = 0, []int64{}, true
			}
			for i := 0; i < sz; i++ {
				f.Ints = append(f.Ints, v)
				v += 1 + int64(rng.Intn(1000))
			}
			f.Open = f.Open || openOnly || rng.Intn(2) == 0
		case "float":
			v := rng.Float64()*40 - 20
			if none {
				sz, f.Floats, f.Open = 0, []float64{}, true
			}
			for i := 0; i < sz; i++ {
				f.Floats = append(f.Floats, math.Round(v*1000)/1000)
				v += 0.01 + rng.Float64()*1000
			}
			f.Open = f.Open || openOnly || rng.Intn(2) == 0
		case "string":
			for i := 0; i < sz; i++ {
				f.Strings = append(f.Strings, fmt.Sprintf("v%d%c", i, letters[rng.Intn(26)]))
			}
			rng.Shuffle(sz, func(i, j int) { f.Strings[i], f.Strings[j] = f.Strings[j], f.Strings[i] })
		case "bool":
			f.Bools = [][]bool{{true, false}, {false, true}, {true}, {false}}[rng.Intn(4)]
		}
		out = append(out, f)
	}
	return out
}

// writeFeatures stores the map in a random order and returns the features sorted by name.
func writeFeatures(rng *rand.Rand, path string, fs []FDef) []FDef {
	var parts []string
	for _, f := range fs {
		parts = append(parts, f.json(rng))
	}
	rng.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	data := "{" + strings.Join(parts, ",") + "}"
	file, err := os.Create(path)
	must(err)
	if strings.HasSuffix(path, ".json") {
		file.WriteString(data)
	} else {
		z := gzip.NewWriter(file)
		z.Write([]byte(data))
		must(z.Close())
	}
	must(file.Close())
	out := append([]FDef{}, fs...)
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func runC19(t *T) {
	rng := t.Rng
	fs := drawFeatures(rng, 1+rng.Intn(7), 1+rng.Intn(6), false)
	ext := []string{".json", ".json", ".json.gz", ".gz", ".json.gzip"}[rng.Intn(5)]
	p := filepath.Join(t.Dir, "fm"+ext)
	if ext != ".json" {
		t.Count("compressed", 1)
	}
	sorted := writeFeatures(rng, p, fs)
	m := featuremap.Parse(p)
	t.Eval(1)
	if len(m.Features) != len(sorted) {
		t.Fail("%d features read, the map has %d", len(m.Features), len(sorted))
	}
	var file []FDef
	for i, f := range sorted {
		t.Count("features", 1)
		o := m.Features[i]
		if o.Name != f.Name {
			t.Fail("feature %d is %q, expected %q (features are in name order)", i, o.Name, f.Name)
		}
		if got, ok := m.FeatureIdxMap[f.Name]; !ok || got != i {
			t.Fail("feature %q is at position %d, the index says %d", f.Name, i, got)
		}
		if o.Size() != f.size() {
			t.Fail("feature %+v has %d values, expected %d", f, o.Size(), f.size())
		}
		if o.FileFeature != f.File {
			t.Fail("feature %q: file feature is %v, expected %v", f.Name, o.FileFeature, f.File)
		}
		w := 1
		for _, g := range sorted[i+1:] {
			w *= g.size()
		}
		if m.FeatureIdxWeights[i] != w {
			t.Fail("feature %q has index weight %d, expected %d", f.Name, m.FeatureIdxWeights[i], w)
		}
		if f.Open {
			t.Count("open-right", 1)
		}
		k := 0
		for v := range o.Values() {
			if v.Idx != k || v.Val != o.Value(k) {
				t.Fail("feature %q lists value %d as (%d, %v), expected %v", f.Name, k, v.Idx, v.Val, o.Value(k))
			}
			if !f.sameLabel(o.ToString(k), k) {
				t.Fail("value %d of feature %q prints as %q, expected %q", k, f.Name, o.ToString(k), f.label(k))
			}
			k++
		}
		if k != f.size() {
			t.Fail("feature %q lists %d values, expected %d", f.Name, k, f.size())
		}
		if f.File {
			file = append(file, f)
		}
		// look values up around every bound
		var probes []interface{}
		switch f.Type {
		case "int":
			probes = append(probes, int64(math.MinInt64), int64(math.MaxInt64), int64(0))
			for _, b := range f.Ints {
				probes = append(probes, b-1, b, b+1)
			}
			for j := 0; j < 6; j++ {
				probes = append(probes, int64(rng.Intn(4000)-500))
			}
		case "float":
			probes = append(probes, -math.MaxFloat64, math.MaxFloat64, 0., math.Inf(-1))
			for _, b := range f.Floats {
				probes = append(probes, math.Nextafter(b, math.Inf(-1)), b, math.Nextafter(b, math.Inf(1)), b-0.5, b+0.5)
			}
			for j := 0; j < 6; j++ {
				probes = append(probes, rng.Float64()*4000-500)
			}
		case "string":
			probes = append(probes, "", "zz", f.Strings[0]+"x", strings.ToUpper(f.Strings[0]))
			for _, b := range f.Strings {
				probes = append(probes, b)
			}
		default:
			probes = append(probes, true, false)
		}
		for _, v := range probes {
			t.Eval(1)
			t.Count("lookups", 1)
			got, want := o.Index(v), f.index(v)
			if got != want {
				t.Fail("value %v of feature %+v is in bucket %d, expected %d", v, f, got, want)
			}
			if want < 0 {
				t.Count("no-bucket", 1)
			}
			t.Sig(f.Type, f.size(), f.Open, want)
		}
	}
	if len(m.FileFeatures) != len(file) {
		t.Fail("%d file features, expected %d", len(m.FileFeatures), len(file))
	}
	for i, f := range file {
		w := 1
		for _, g := range file[i+1:] {
			w *= g.size()
		}
		if m.FileFeatures[i].Name != f.Name || m.FileFeatureIdxMap[f.Name] != i || m.FileFeatureIdxWeights[i] != w {
			t.Fail("file feature %d is %q (index %d, weight %d), expected %q weight %d", i, m.FileFeatures[i].Name,
				m.FileFeatureIdxMap[f.Name], m.FileFeatureIdxWeights[i], f.Name, w)
		}
	}
	if len(m.FeatureIdxMap) != len(sorted) || len(m.FileFeatureIdxMap) != len(file) {
		t.Fail("the feature indexes name %d and %d features, expected %d and %d", len(m.FeatureIdxMap), len(m.FileFeatureIdxMap), len(sorted), len(file))
	}
	t.Sample(map[string]interface{}{"features": sorted, "extension": ext})
}

// ---- tables ----------------------------------------------------------------------------

var roleActions = map[qlearn.AgentRole][]qlearn.ActionType{
	qlearn.AdditionAgent: {qlearn.ActionNotStore, qlearn.ActionStore},
	qlearn.EvictionAgent: {qlearn.ActionNotDelete, qlearn.ActionDeleteOne, qlearn.ActionDeleteQuarter, qlearn.ActionDeleteHalf, qlearn.ActionDeleteAll},
}

var actionNames = map[qlearn.ActionType]string{qlearn.ActionNotStore: "ActionNotStore", qlearn.ActionStore: "ActionStore",
	qlearn.ActionNotDelete: "ActionNotDelete", qlearn.ActionDeleteOne: "ActionDeleteOne", qlearn.ActionDeleteQuarter: "ActionDeleteQuarter",
	qlearn.ActionDeleteHalf: "ActionDeleteHalf", qlearn.ActionDeleteAll: "ActionDeleteAll"}

func drawAgent(t *T, n, maxSize int, decay float64, unleash bool) (*qlearn.Agent, []FDef, qlearn.AgentRole, float64) {
	rng := t.Rng
	p := filepath.Join(t.Dir, fmt.Sprintf("t%d.json", rng.Int63()))
	fs := writeFeatures(rng, p, drawFeatures(rng, n, maxSize, false))
	m := featuremap.Parse(p)
	role := []qlearn.AgentRole{qlearn.AdditionAgent, qlearn.EvictionAgent}[rng.Intn(2)]
	a := &qlearn.Agent{}
	eps := []float64{1, 1, 1, 0, 0.1}[rng.Intn(5)]
	a.Init(&m, role, eps, decay, unleash, rng.Int63())
	return a, fs, role, eps
}

func runC20(t *T) {
	rng := t.Rng
	n := 1 + rng.Intn(5)
	maxSize := 1 + rng.Intn(6)
	if n > 3 && maxSize > 4 {
		maxSize = 4
	}
	a, fs, role, _ := drawAgent(t, n, maxSize, 0.01, true)
	want := 1
	var sizes []int
	for _, f := range fs {
		want *= f.size()
		sizes = append(sizes, f.size())
	}
	t.Count("tables", 1)
	if n == 1 {
		t.Count("one-feature", 1)
	}
	acts := roleActions[role]
	if len(a.QTable.States) != want || len(a.QTable.Actions) != want || a.NumStates != want || a.NumVars != want*len(acts) {
		t.Fail("features of sizes %v give %d states, %d action rows, %d reported states and %d variables; expected %d states and %d variables",
			sizes, len(a.QTable.States), len(a.QTable.Actions), a.NumStates, a.NumVars, want, want*len(acts))
	}
	// every combination of feature values has its own row
	idx := make([]int, len(fs))
	seen := map[int]bool{}
	for {
		t.Eval(1)
		t.Count("states", 1)
		s := a.QTable.FeatureIdxs2StateIdx(idx...)
		if s < 0 || s >= want || seen[s] {
			t.Fail("feature values %v (sizes %v) map to state %d of %d, used before: %v", idx, sizes, s, want, seen[s])
		}
		seen[s] = true
		if fmt.Sprint(a.QTable.States[s]) != fmt.Sprint(idx) {
			t.Fail("feature values %v map to the state of values %v", idx, a.QTable.States[s])
		}
		if len(a.QTable.Actions[s]) != len(acts) {
			t.Fail("state %d has %d actions, expected %d", s, len(a.QTable.Actions[s]), len(acts))
		}
		for k, v := range a.QTable.Actions[s] {
			if v != 0 {
				t.Fail("a fresh table has value %v for action %d of state %d", v, k, s)
			}
		}
		k := len(idx) - 1
		for k >= 0 {
			idx[k]++
			if idx[k] < sizes[k] {
				break
			}
			idx[k] = 0
			k--
		}
		if k < 0 {
			break
		}
	}
	for _, s := range sizes {
		if s == 1 {
			t.Count("one-value-features", 1)
		}
	}
	// numeric features are translated to indexes by position
	// print: one line per state with its values
	model := map[int][]float64{}
	for k := 0; k < 12; k++ {
		s := rng.Intn(want)
		act := acts[rng.Intn(len(acts))]
		r := math.Round((rng.Float64()*20-10)*10) / 10
		before := a.GetActionValue(s, act)
		a.UpdateTable(s, s, act, r)
		if model[s] == nil {
			model[s] = make([]float64, len(acts))
		}
		for i, x := range acts {
			if x == act {
				model[s][i] = a.GetActionValue(s, act)
			}
		}
		_ = before
	}
	lines := strings.Split(strings.TrimRight(a.QTableToString(), "\n"), "\n")
	if len(lines) != want+1 {
		t.Fail("the printed table has %d lines, expected a header and %d states", len(lines), want)
	}
	var head []string
	for _, x := range acts {
		head = append(head, actionNames[x])
	}
	for _, f := range fs {
		head = append(head, f.Name)
	}
	if lines[0] != strings.Join(head, ",") {
		t.Fail("the printed table starts with %q, expected %q", lines[0], strings.Join(head, ","))
	}
	for s := 0; s < want; s++ {
		t.Eval(1)
		t.Count("printed-rows", 1)
		cells := strings.Split(lines[s+1], ",")
		if len(cells) != len(head) {
			t.Fail("line %d of the printed table has %d columns, expected %d", s, len(cells), len(head))
		}
		for k := range acts {
			v := 0.
			if model[s] != nil {
				v = model[s][k]
			}
			got, err := strconv.ParseFloat(cells[k], 64)
			if err != nil || math.Abs(got-v) > 0.0051 {
				t.Fail("the printed value of %s in state %v is %q, expected %v", head[k], a.QTable.States[s], cells[k], v)
			}
		}
		for k, f := range fs {
			if !f.sameLabel(cells[len(acts)+k], a.QTable.States[s][k]) {
				t.Fail("state %v is printed with %s = %q, expected %q", a.QTable.States[s], f.Name, cells[len(acts)+k], f.label(a.QTable.States[s][k]))
			}
		}
	}
	// numeric translation
	for k := 0; k < 20; k++ {
		var vals []interface{}
		var idxs []int
		ok := true
		for _, f := range fs {
			switch f.Type {
			case "int":
				v := int64(rng.Intn(3000) - 100)
				vals = append(vals, v)
				idxs = append(idxs, f.index(v))
			case "float":
				v := rng.Float64()*3000 - 100
				vals = append(vals, v)
				idxs = append(idxs, f.index(v))
			default:
				ok = false
			}
		}
		if !ok {
			break
		}
		if got := a.QTable.Features2Idxs(vals...); fmt.Sprint(got) != fmt.Sprint(idxs) {
			t.Fail("values %v are translated to %v, expected %v", vals, got, idxs)
		}
	}
	t.Sig(sizes, role)
	t.Sample(map[string]interface{}{"features": fs, "states": want, "actions": head[:len(acts)]})
}

// ---- agent -----------------------------------------------------------------------------

func runC21(t *T) {
	rng := t.Rng
	decay := []float64{0.0000042, 0.001, 0.02, 0.3}[rng.Intn(4)]
	unleash := rng.Intn(2) == 0
	a, _, role, eps := drawAgent(t, 1+rng.Intn(3), 3, decay, unleash)
	acts := roleActions[role]
	ns := len(a.QTable.States)
	q := make([][]float64, ns)
	for i := range q {
		q[i] = make([]float64, len(acts))
	}
	var steps int64
	qv := 0.
	mem := map[int64][]qlearn.Choice{}
	best := func(s int) (float64, int) {
		m := q[s][0]
		for _, v := range q[s] {
			m = math.Max(m, v)
		}
		n := 0
		for _, v := range q[s] {
			if v == m {
				n++
			}
		}
		return m, n
	}
	stepEps := func() {
		if eps > 0.1 {
			steps++
			eps = 0.1 + 0.9*math.Exp(-decay*float64(steps))
		}
	}
	nops := 150
	if t.Deep {
		nops = 500
	}
	var last string
	for i := 0; i < nops; i++ {
		t.Eval(1)
		switch op := rng.Intn(14); op {
		case 0, 1, 2, 3:
			s, n, k := rng.Intn(ns), rng.Intn(ns), rng.Intn(len(acts))
			r := float64(rng.Intn(13)-6) / 2
			if rng.Intn(6) == 0 {
				r = rng.NormFloat64() * 100
			}
			bn, _ := best(n)
			q[s][k] += 0.9 * (r + 0.5*bn - q[s][k])
			qv += r
			a.UpdateTable(s, n, acts[k], r)
			t.Count("updates", 1)
			last = fmt.Sprintf("update of state %d action %s with reward %v and next state %d", s, actionNames[acts[k]], r, n)
			t.Sig(role, "update", s == n, r > 0)
		case 4, 5:
			n := 1 + rng.Intn(30)
			for j := 0; j < n; j++ {
				prev := a.Epsilon
				a.UpdateEpsilon()
				stepEps()
				if a.Epsilon > prev+1e-12 && prev <= 1 && prev != 0 {
					t.Fail("a step of the exploration rate raised it from %v to %v", prev, a.Epsilon)
				}
			}
			t.Count("epsilon-steps", n)
			last = "exploration rate steps"
		case 6, 7:
			s := rng.Intn(ns)
			m, n := best(s)
			got := a.GetBestAction(s)
			t.Count("best-actions", 1)
			if n > 1 {
				t.Count("ties", 1)
			}
			k := -1
			for j, x := range acts {
				if x == got {
					k = j
				}
			}
			if k < 0 || math.Abs(q[s][k]-m) > 1e-9*(1+math.Abs(m)) {
				t.Fail("best action of values %v is %s", q[s], actionNames[got])
			}
			if bv := a.GetBestActionValue(s); math.Abs(bv-m) > 1e-9*(1+math.Abs(m)) {
				t.Fail("best value of %v is %v", q[s], bv)
			}
			t.Sig(role, "best", n)
			last = "best action"
		case 8, 9, 10:
			key := int64(rng.Intn(3))
			c := qlearn.Choice{State: rng.Intn(ns), Action: acts[rng.Intn(len(acts))], Tick: int64(i), Size: rng.Float64(), Hit: rng.Intn(2) == 0}
			n := 1
			if rng.Intn(8) == 0 {
				n = 34
			}
			for j := 0; j < n; j++ {
				c.Frequency = int64(j)
				if op == 8 && rng.Intn(4) == 0 {
					a.SaveMemoryWithNoLimits(key, c)
					mem[key] = append(mem[key], c)
					continue
				}
				a.SaveMemory(key, c)
				if len(mem[key]) >= 32 {
					mem[key] = append([]qlearn.Choice{}, mem[key][1:]...)
					t.Count("memory-full", 1)
				}
				mem[key] = append(mem[key], c)
			}
			last = "remembering a choice"
			t.Sig(role, "save", len(mem[key])/8)
		case 11:
			key := int64(rng.Intn(3))
			got, ok := a.Remember(key)
			want, wok := mem[key]
			delete(mem, key)
			if ok != wok || len(got) != len(want) {
				t.Fail("recalling a key gives %d choices (%v), expected %d (%v)", len(got), ok, len(want), wok)
			}
			for j := range got {
				if got[j] != want[j] {
					t.Fail("recalled choice %d is %+v, expected %+v", j, got[j], want[j])
				}
			}
			t.Count("remembered", len(got))
			last = "recalling"
			t.Sig(role, "recall", len(got)/8)
		case 12:
			switch rng.Intn(5) {
			case 0:
				key := int64(rng.Intn(3))
				a.DeleteMemory(key)
				delete(mem, key)
				last = "deleting a memory"
			case 1:
				a.ResetMemories()
				mem = map[int64][]qlearn.Choice{}
				last = "forgetting everything"
			case 2:
				a.ResetQValue()
				qv = 0
				last = "resetting the value"
			case 3:
				if rng.Intn(4) == 0 {
					a.ResetTableAction()
					for s := range q {
						q[s] = make([]float64, len(acts))
					}
				}
				last = "resetting the table"
			default:
				sa, ss := 0, 0
				for s := range q {
					any := false
					for _, v := range q[s] {
						if v != 0 {
							sa++
							any = true
						}
					}
					if any {
						ss++
					}
				}
				ac, sc := a.GetCoverage()
				if math.Abs(ac-100*float64(sa)/float64(ns*len(acts))) > 1e-9 || math.Abs(sc-100*float64(ss)/float64(ns)) > 1e-9 {
					t.Fail("coverage is %v%% of the actions and %v%% of the states, expected %d of %d and %d of %d", ac, sc, sa, ns*len(acts), ss, ns)
				}
				last = "coverage"
			}
		default:
			if decay < 0.0001 || rng.Intn(3) > 0 {
				a.UnleashEpsilon(nil)
				if unleash {
					eps, steps = 1, 0
				}
			} else {
				a.UnleashEpsilon(0.5)
				if unleash {
					eps, steps = 1, 0
					for eps > 0.5 {
						stepEps()
					}
				}
			}
			t.Count("unleashed", 1)
			last = "raising the exploration rate again"
		}
		for s := range q {
			for k := range q[s] {
				if got := a.GetActionValue(s, acts[k]); math.Abs(got-q[s][k]) > 1e-9*(1+math.Abs(q[s][k])) {
					t.Fail("after %s: value of state %d action %s is %v, expected %v", last, s, actionNames[acts[k]], got, q[s][k])
				}
				q[s][k] = a.GetActionValue(s, acts[k])
			}
		}
		if math.Abs(a.Epsilon-eps) > 1e-9 || (a.Epsilon < 0.1 && eps >= 0.1) {
			t.Fail("after %s: the exploration rate is %v, expected %v (decay %v, step %d)", last, a.Epsilon, eps, decay, steps)
		}
		if math.Abs(a.QValue-qv) > 1e-6*(1+math.Abs(qv)) {
			t.Fail("after %s: the sum of the rewards is %v, expected %v", last, a.QValue, qv)
		}
		if len(a.Memory) != len(mem) {
			t.Fail("after %s: %d remembered keys, expected %d", last, len(a.Memory), len(mem))
		}
		for k, v := range mem {
			got := a.Memory[k]
			if len(got) != len(v) {
				t.Fail("after %s: %d choices remembered, expected %d", last, len(got), len(v))
			}
			if len(v) > 0 && (got[0] != v[0] || got[len(v)-1] != v[len(v)-1]) {
				t.Fail("after %s: the remembered choices are not the latest ones in order", last)
			}
		}
	}
	t.Sample(map[string]interface{}{"role": role, "decay": decay, "states": ns, "operations": nops})
}

// ---- the addition agent inside the cache -------------------------------------------------

type agentDump struct {
	QTable struct {
		States      [][]int
		Actions     [][]float64
		ActionTypes []int
	}
	Epsilon float64
	QValue  float64
	Steps   int64 `json:"episodeCounter"`
}

type fmDump struct {
	Feature []struct{ Name string }
}

func addAgent(c cache.Cache) (agentDump, []string) {
	_, _, other := parseDump(c.Dumps(false))
	var a agentDump
	var f fmDump
	must(json.Unmarshal([]byte(other["ADDAGENT"]), &a))
	must(json.Unmarshal([]byte(other["ADDFEATUREMAPMANAGER"]), &f))
	var names []string
	for _, x := range f.Feature {
		names = append(names, x.Name)
	}
	return a, names
}

func readFeatures(path string) []FDef {
	var raw map[string]struct {
		Type      string
		Buckets   []float64
		OpenRight bool
		FileFeat  bool `json:"fileFeature"`
	}
	b, err := os.ReadFile(path)
	must(err)
	must(json.Unmarshal(b, &raw))
	var out []FDef
	for n, r := range raw {
		f := FDef{Name: n, Type: r.Type, Open: r.OpenRight, File: r.FileFeat}
		for _, v := range r.Buckets {
			if r.Type == "int" {
				f.Ints = append(f.Ints, int64(v))
			} else {
				f.Floats = append(f.Floats, v)
			}
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func runC34(t *T) {
	rng := t.Rng
	variant := []string{"scdl", "add"}[t.Case%2]
	u := newUniverse(rng, 6+rng.Intn(25), drawCap(rng))
	o := Opts{Size: u.Cap, Seed: rng.Int63()}
	aiOpts(&o, t.Dir, rng, variant)
	greedy := rng.Intn(3) > 0
	if greedy {
		o.P.AIRLAdditionEpsilonStart = 0
	}
	// bandwidth comparable with the traffic, so that all reward rules fire
	o.Gbit = u.Cap * float64(2+rng.Intn(60)) / 10800000
	c := newCache(o)
	fs := readFeatures(o.P.AIRLAdditionFeatureMap)
	d0, names := addAgent(c)
	var want []string
	for _, f := range fs {
		want = append(want, f.Name)
	}
	if fmt.Sprint(names) != fmt.Sprint(want) {
		t.Fail("the agent's features are %v, the map has %v", names, want)
	}
	rows := map[string]int{}
	for i, s := range d0.QTable.States {
		rows[fmt.Sprint(s)] = i
	}
	store, not := 1, 0
	q := make([][]float64, len(d0.QTable.States))
	for i := range q {
		q[i] = make([]float64, 2)
	}
	type choice struct {
		state, action int
		size          float64
	}
	mem := map[int64][]choice{}
	eps := o.P.AIRLAdditionEpsilonStart
	var steps int64
	update := func(s, n, a int, r float64) {
		m := math.Max(q[n][0], q[n][1])
		q[s][a] += 0.9 * (r + 0.5*m - q[s][a])
		if eps > 0.1 {
			steps++
			eps = 0.1 + 0.9*math.Exp(-o.P.AIRLAdditionEpsilonDecay*float64(steps))
		}
		t.Count("updates", 1)
		if r > 0 {
			t.Count("rewards-positive", 1)
		} else {
			t.Count("rewards-negative", 1)
		}
	}
	st := map[int64]*struct{ freq, tick int64 }{}
	var tick int64
	actions := func() (s, n int) {
		fmt.Sscanf(cache.ExtraOutput(c, "actionStats"), "%d,%d", &s, &n)
		return
	}
	tr := newTrace(rng, u, 0) // one instant: no change of day
	day := tr.Day
	nreq := 250
	if t.Deep {
		nreq = 600
	}
	bw := o.Gbit * 10800000
	for i := 0; i < nreq; i++ {
		if rng.Intn(60) == 0 {
			cache.ClearStats(c)
		}
		r := tr.Next()
		r.Day = day
		s0 := counters(c)
		store0, not0 := actions()
		before := snap(c)
		hit := false
		for _, f := range before.Files {
			hit = hit || f.Filename == r.File
		}
		hitRate := 0.
		if s0.NReq > 0 {
			hitRate = 100 * float64(s0.NHit) / float64(s0.NReq)
		}
		// the state the agent sees
		x := st[r.File]
		delta := int64(math.MaxInt64)
		if x == nil {
			x = &struct{ freq, tick int64 }{}
			st[r.File] = x
		} else {
			delta = tick - x.tick
		}
		x.freq++
		x.tick = tick
		tick++
		var idx []int
		for _, f := range fs {
			switch f.Name {
			case "size":
				idx = append(idx, f.index(r.Size))
			case "numReq":
				idx = append(idx, f.index(x.freq))
			case "deltaLastRequest":
				idx = append(idx, f.index(delta))
			case "percOcc":
				idx = append(idx, f.index(s0.Size/s0.Max*100))
			case "hitRate":
				idx = append(idx, f.index(hitRate))
			}
		}
		state := rows[fmt.Sprint(idx)]
		nmem := len(mem[r.File])
		if variant == "scdl" {
			for _, m := range mem[r.File] {
				gb := m.size / 1024
				rew := 0.
				if m.action == not {
					if s0.OnMiss/bw < 0.5 || s0.Written/s0.Read < 0.1 {
						rew -= gb
					}
				} else if s0.OnMiss/bw > 0.75 || s0.Written/s0.Read > 0.5 {
					rew -= gb
				}
				if s0.OnMiss/s0.Read > 0.5 {
					rew -= gb
				}
				if rew == 0 {
					rew = -gb
					if hit {
						rew = gb
					}
				}
				update(m.state, m.state, m.action, rew)
			}
			delete(mem, r.File)
		}
		qs, qn := q[state][store], q[state][not]
		added, _ := ask(c, r)
		store1, not1 := actions()
		act := -1
		switch {
		case store1 == store0+1 && not1 == not0:
			act = store
		case store1 == store0 && not1 == not0+1:
			act = not
		case store1 != store0 || not1 != not0:
			t.Fail("one request changed the action counters from %d,%d to %d,%d", store0, not0, store1, not1)
		}
		if hit == (act >= 0) {
			t.Fail("a decision was taken: %v, the request was a hit: %v", act >= 0, hit)
		}
		if added && act != store {
			t.Fail("a file was stored against the decision of the addition agent")
		}
		if act == store && !added && r.Size <= s0.Max-s0.Size {
			t.Fail("a file that fits was not stored although the agent decided to store it")
		}
		if !hit {
			if greedy {
				t.Count("greedy-decisions", 1)
				if act == store {
					t.Count("greedy-stores", 1)
				}
				if qs > qn+1e-9 && act != store || qn > qs+1e-9 && act != not {
					t.Fail("%s, request %d: with exploration off and learned values not-store %v, store %v the agent chose %v", variant, i, qn, qs,
						[]string{"not to store", "to store"}[act])
				}
			} else {
				t.Count("explored-decisions", 1)
			}
			mem[r.File] = append(mem[r.File], choice{state, act, r.Size})
		}
		if variant == "add" {
			m := mem[r.File]
			for k := 0; k+2 < len(m); k++ {
				rew := 1.
				if !hit {
					rew = -1
					if m[k].action == not {
						rew = -2
					}
				}
				update(m[k].state, m[k+1].state, m[k].action, rew)
			}
		}
		t.Eval(1)
		t.Count("requests", 1)
		t.Sig(variant, hit, act, minInt(nmem, 4), greedy)
		d, _ := addAgent(c)
		for s := range q {
			for k := range q[s] {
				got := d.QTable.Actions[s][k]
				if math.Abs(got-q[s][k]) > 1e-9*(1+math.Abs(q[s][k])) {
					t.Fail("%s, request %d (file %d, hit %v, %d remembered choices): learned value of %s in state %v is %v, expected %v", variant, i, r.File, hit, nmem,
						[]string{"not storing", "storing"}[k], d.QTable.States[s], got, q[s][k])
				}
				q[s][k] = got
			}
		}
		if math.Abs(d.Epsilon-eps) > 1e-9 {
			t.Fail("%s, request %d: exploration rate is %v, expected %v after %d steps", variant, i, d.Epsilon, eps, steps)
		}
	}
	t.Sample(map[string]interface{}{"variant": variant, "greedy": greedy, "features": want, "requests": nreq})
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---- C09 -------------------------------------------------------------------------------

func tableCells(data string) (n, nonzero int) {
	var a agentDump
	if json.Unmarshal([]byte(data), &a) != nil {
		return
	}
	for _, r := range a.QTable.Actions {
		for _, v := range r {
			n++
			if v != 0 {
				nonzero++
			}
		}
	}
	return
}

func runC09(t *T) {
	rng := t.Rng
	mode := aiModes[t.Case%len(aiModes)]
	u := newUniverse(rng, 8+rng.Intn(30), drawCap(rng))
	o := Opts{Size: u.Cap, Seed: rng.Int63()}
	aiOpts(&o, t.Dir, rng, mode)
	c := newCache(o)
	tr := newTrace(rng, u, 400)
	n := 60 + rng.Intn(300)
	for i := 0; i < n; i++ {
		if rng.Intn(80) == 0 {
			cache.ClearStats(c)
		}
		ask(c, tr.Next())
	}
	for round := 0; round < 2; round++ {
		t.Eval(1)
		t.Count("restarts", 1)
		eps := []float64{1, 0.5, 0.2, 0}[rng.Intn(4)]
		withFiles := rng.Intn(4) > 0
		o2 := o
		var c3 cache.Cache // restarted with the very same feature maps instead
		// the restarted cache takes its feature maps from the dump, whatever it was made with
		if rng.Intn(2) == 0 {
			other := filepath.Join(t.Dir, fmt.Sprintf("other%d", round))
			must(os.Mkdir(other, 0o755))
			a, e := featureMapFiles(other, rng, o.Size)
			if o2.P.AIRLAdditionFeatureMap != "" {
				o2.P.AIRLAdditionFeatureMap = a
			}
			if o2.P.AIRLEvictionFeatureMap != "" {
				o2.P.AIRLEvictionFeatureMap = e
			}
			t.Count("other-maps", 1)
			c3 = newCache(o)
		}
		c2 := newCache(o2)
		if c3 != nil {
			cache.Loads(c3, c.Dumps(withFiles), eps, 0.01)
		}
		file := filepath.Join(t.Dir, fmt.Sprintf("d%d.json.gz", round))
		if rng.Intn(2) == 0 {
			c.Dump(file, withFiles)
			cache.Loads(c2, cache.Load(c2, file), eps, 0.01)
		} else {
			cache.Loads(c2, c.Dumps(withFiles), eps, 0.01)
		}
		for _, k := range []string{"additionQTable", "evictionQTable"} {
			a, b := cache.ExtraOutput(c, k), cache.ExtraOutput(c2, k)
			if a != b {
				t.Fail("%s: %s differs after a restart:\n%s", mode, k, firstDiff([]byte(a), []byte(b)))
			}
		}
		fa, sa, oa := parseDump(c.Dumps(true))
		fb, sb, ob := parseDump(c2.Dumps(true))
		for _, k := range []string{"ADDAGENT", "EVCAGENT", "ADDFEATUREMAPMANAGER", "EVCFEATUREMAPMANAGER"} {
			if (oa[k] == "") != (ob[k] == "") {
				t.Fail("%s: %s is in one dump only", mode, k)
			}
			if oa[k] == "" {
				continue
			}
			if strings.HasSuffix(k, "MANAGER") {
				t.Count("feature-maps", 1)
				if oa[k] != ob[k] {
					t.Fail("%s: %s differs after a restart:\n%s\n%s", mode, k, oa[k], ob[k])
				}
				continue
			}
			cells, nz := tableCells(oa[k])
			t.Count("table-cells", cells)
			t.Count("non-zero-cells", nz)
			var x, y agentDump
			must(json.Unmarshal([]byte(oa[k]), &x))
			must(json.Unmarshal([]byte(ob[k]), &y))
			if fmt.Sprint(x.QTable) != fmt.Sprint(y.QTable) {
				t.Fail("%s: the learned values of %s differ after a restart", mode, k)
			}
			if y.Epsilon != eps {
				t.Fail("%s: the exploration rate of %s is %v after a restart with %v", mode, k, y.Epsilon, eps)
			}
			t.Sig(mode, k, nz/8, n/60, withFiles)
		}
		if withFiles {
			if mode == "scdl" || mode == "add" {
				if !eqIDs(ids(fa), ids(fb)) {
					t.Fail("%s: stored files after a restart are %v, before %v", mode, ids(fb), ids(fa))
				}
			} else if !eqIDs(sortedIDs(ids(fa)), sortedIDs(ids(fb))) {
				t.Fail("%s: stored files after a restart are %v, before %v", mode, sortedIDs(ids(fb)), sortedIDs(ids(fa)))
			}
			if fmt.Sprint(sa) != fmt.Sprint(sb) {
				t.Fail("%s: the file statistics differ after a restart", mode)
			}
		} else if len(fb) != 0 || len(sb) != 0 || cache.Size(c2) != 0 {
			t.Fail("%s: a dump without files restores %d files and %d statistics", mode, len(fb), len(sb))
		}
		// the restarted cache keeps working
		for i := 0; i < 60; i++ {
			r := tr.Next()
			ask(c2, r)
			t.Count("continued-requests", 1)
			if c3 != nil {
				ask(c3, r)
				if x, y := fmt.Sprint(counters(c2), cache.ExtraOutput(c2, "actionStats")), fmt.Sprint(counters(c3), cache.ExtraOutput(c3, "actionStats")); x != y {
					t.Fail("%s: %d requests after a restart with other feature maps the counters are\n%s, with the same feature maps\n%s", mode, i, x, y)
				}
			}
			if s := cache.Size(c2); s < 0 || s > cache.GetMaxSize(c2) {
				t.Fail("%s: %v of %v MB used after a restart", mode, s, cache.GetMaxSize(c2))
			}
		}
		c = c2
	}
	t.Sample(map[string]interface{}{"mode": mode, "requests": n})
}
