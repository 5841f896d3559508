package main

import (
	"encoding/json"
	"fmt"
	"math"

	"simulator/v2/cache"
)

// ---- C63: agents that do worse and worse explore again -------------------------------------------

func init() {
	register(&Prop{
		ID: "C63", Quick: 60, Deep: 300, Run: runC63, CaseTimeout: 240,
		NeedEvents: []string{"comparisons", "falls", "unleashed-to-1", "unleashed-to-half", "fall-interrupted", "unleash-off", "eight-falls-off", "addition-agents", "eviction-agents", "two-agents", "forgotten-decisions"},
		Rule:       "one evaluation = the exploration rates of the agents after one request compared with those before it and with the falls of their value functions since the last comparisons; distinct = distinct (mode, agent, falls in a row, value negative, unleashed, allowed)",
	})
}

// driftRef follows the comparisons of one agent's value function.
type driftRef struct {
	name, rec     string
	decay         float64
	allowed       bool
	prev          float64
	known, unsure bool
	falls         int
}

func runC63(t *T) {
	rng := t.Rng
	mode := []string{"add", "scdl", "evOnly-onK", "add", "evOnly-onFree", "onK", "evOnly-onDayEnd", "onFree"}[t.Case%8]
	u := newUniverse(rng, 20, 100)
	o := Opts{Size: 100, Seed: rng.Int63()}
	aiOpts(&o, t.Dir, rng, mode)
	add, evc := &driftRef{name: "addition", rec: "ADDAGENT"}, &driftRef{name: "eviction", rec: "EVCAGENT"}
	add.decay, evc.decay = []float64{0.01, 0.02, 0.03}[rng.Intn(3)], []float64{0.002, 0.005}[rng.Intn(2)]
	add.allowed, evc.allowed = rng.Intn(4) > 0, rng.Intn(4) > 0
	o.P.AIRLAdditionEpsilonDecay, o.P.AIRLEvictionEpsilonDecay = add.decay, evc.decay
	o.P.AIRLAdditionEpsilonUnleash, o.P.AIRLEvictionEpsilonUnleash = add.allowed, evc.allowed
	o.P.AIRLEvictionK = int64(1 + rng.Intn(8))
	o.MaxDay, o.DeltaDays = 1000, 1000
	if rng.Intn(2) == 0 { // little exploration from the start
		o.P.AIRLAdditionEpsilonStart, o.P.AIRLEvictionEpsilonStart = 0.105, 0.105
	}
	var agents []*driftRef
	if o.P.AIRLAdditionFeatureMap != "" {
		agents = append(agents, add)
		t.Count("addition-agents", 1)
	}
	if o.P.AIRLEvictionFeatureMap != "" {
		agents = append(agents, evc)
		t.Count("eviction-agents", 1)
	}
	if len(agents) == 2 {
		t.Count("two-agents", 1)
	}
	c := newCache(o)
	state := func() map[string]agentDump {
		_, _, other := parseDump(c.Dumps(false))
		out := map[string]agentDump{}
		for _, a := range agents {
			var d agentDump
			must(json.Unmarshal([]byte(other[a.rec]), &d))
			out[a.rec] = d
		}
		return out
	}
	ndays := 60 + rng.Intn(60)
	if t.Deep {
		ndays *= 3
	}
	day, n := int64(1600000000), 0
	var lastDay int64
	good, left := true, 1+rng.Intn(6)
	seen := map[int64]bool{} // files with a decision the addition agent can remember
	runs, fresh := -1, 0     // runs of the eviction agent since it forgot everything (-1: it did not)
	calls := func() int {
		_, n, _ := actionStats(c)
		return n
	}
	var asked []int64
	sizes := map[int64]float64{}
	at := 0
	for d := 0; d < ndays; d++ {
		if left == 0 {
			good = !good
			left = []int{3, 5, 7, 8, 9, 10, 14}[rng.Intn(7)]
			if good {
				left = []int{1, 1, 2, 5}[rng.Intn(4)]
			}
		}
		left--
		day += int64(1+rng.Intn(3)) * 86400
		per := 3 + rng.Intn(25)
		if good && rng.Intn(2) == 0 {
			per *= 4
		}
		if rng.Intn(2) == 0 {
			cache.ClearStats(c)
			if runs >= 0 {
				runs += calls()
			}
		}
		quiet := rng.Intn(7) == 0 // a day that teaches nothing
		if quiet {
			per = 1
			t.Count("quiet-days", 1)
		}
		hits := 0
		if rng.Intn(2) == 0 {
			hits = 1 + rng.Intn(4)
		}
		for k := 0; k < per; k++ {
			// a good day asks for few small files, a bad one for many that cannot all be stored
			r := Req{File: int64(1 + rng.Intn(3)), Size: 10, Day: day}
			if !good {
				at++
				r.File = int64(100 + at%9)
				r.Size = 45
				if rng.Intn(8) == 0 {
					r.File = u.IDs[rng.Intn(len(u.IDs))] + 1000
				}
			}
			if quiet {
				fresh++
				r.File, r.Size = int64(1000000+fresh), 1./1024
			} else if k < hits && len(asked) > 0 { // stored files first
				if id := asked[rng.Intn(len(asked))]; cache.Check(c, id) {
					r.File, r.Size = id, sizes[id]
				}
			}
			asked = append(asked, r.File)
			sizes[r.File] = r.Size
			if len(asked) > 12 {
				asked = asked[1:]
			}
			before := state()
			adds := cache.NumHits(c)
			calls0 := calls()
			_, redirected := ask(c, r)
			if redirected {
				t.Fail("a request was redirected")
			}
			hit := cache.NumHits(c) > adds
			after := state()
			n++
			if run := calls() - calls0; runs >= 0 {
				runs += run
				if run == 0 && runs <= 1 {
					t.Count("forgotten-evictions", 1)
					if x, y := before["EVCAGENT"].QValue, after["EVCAGENT"].QValue; x != y {
						t.Fail("%s, request %d: the eviction agent forgot its decisions and ran %d times since; its value goes from %v to %v", mode, n, runs, x, y)
					}
				}
			}
			newDay := r.Day != lastDay
			lastDay = r.Day
			for _, a := range agents {
				b, e := before[a.rec], after[a.rec]
				unleash := false
				if newDay && b.Epsilon <= 0.11 {
					t.Count("comparisons", 1)
					if !a.known {
						a.known = b.QValue != 0
					} else if b.QValue < a.prev {
						a.falls++
						t.Count("falls", 1)
					} else {
						if a.falls > 3 {
							t.Count("fall-interrupted", 1)
						}
						a.falls = 0
					}
					if a.known && b.QValue == 0 {
						a.unsure = true // a value of exactly 0 is not told from no value
					}
					a.prev = b.QValue
				}
				if a.unsure {
					continue
				}
				label := fmt.Sprintf("%s, request %d, %s agent, value %v, %d falls in a row", mode, n, a.name, b.QValue, a.falls)
				if a.falls >= 8 {
					a.falls = 0
					unleash = a.allowed
					if !a.allowed {
						t.Count("eight-falls-off", 1)
					}
				}
				t.Eval(1)
				if !a.allowed {
					t.Count("unleash-off", 1)
				}
				steps := -math.Log((e.Epsilon-0.1)/0.9) / a.decay
				switch {
				case !unleash:
					if e.Epsilon > b.Epsilon+1e-12 && !(n == 1 || b.Epsilon == 0.105) {
						t.Fail("%s: the exploration rate rises from %v to %v", label, b.Epsilon, e.Epsilon)
					}
				case e.Epsilon < 0.15 && math.Abs(e.QValue-b.QValue) > 1/a.decay:
					// a request that trains many decisions at once uses up the exploration again
					t.Count("many-steps-at-once", 1)
				case e.Epsilon < 0.15 || e.Epsilon > 1 || math.Abs(steps-math.Round(steps)) > 1e-4:
					t.Fail("%s: the exploration rate goes from %v to %v, unleashing is on", label, b.Epsilon, e.Epsilon)
				case b.QValue < 0:
					t.Count("unleashed-to-1", 1)
					if e.Epsilon <= 0.5 && math.Abs(e.QValue-b.QValue) <= 0.4/a.decay {
						t.Fail("%s: the exploration rate goes from %v to %v, not back to 1", label, b.Epsilon, e.Epsilon)
					}
					if a == add {
						seen = map[int64]bool{}
					} else {
						runs = calls() - calls0
					}
				default:
					t.Count("unleashed-to-half", 1)
					if e.Epsilon > 0.5 {
						t.Fail("%s: the exploration rate goes from %v to %v, not to at most 0.5", label, b.Epsilon, e.Epsilon)
					}
				}
				if a == add {
					if !seen[r.File] {
						// nothing to learn from: all it decided about the file is forgotten
						if e.QValue != b.QValue && mode == "add" {
							t.Fail("%s: a file with no remembered decision changes the value to %v", label, e.QValue)
						}
						t.Count("forgotten-decisions", 1)
					}
					if !hit {
						seen[r.File] = true
					}
				}
				t.Sig(mode, a.name, a.falls, b.QValue < 0, unleash, a.allowed)
			}
		}
	}
	must(cache.Terminate(c))
	t.Sample(map[string]interface{}{"mode": mode, "days": ndays, "requests": n})
}
