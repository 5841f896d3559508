package main

import (
	"encoding/json"
	"path/filepath"
	"strconv"
	"strings"
)

// A simulation split in two runs.

func init() {
	register(&Prop{
		ID: "C35", Quick: 144, Deep: 5000, Run: runC35, CaseTimeout: 300,
		NeedEvents: []string{"simulator-runs", "hot-starts", "cold-starts", "cold-starts-no-stats", "dumps-without-files", "unnamed-dumps", "rows", "rows-with-evictions"},
		Rule:       "one evaluation = one daily line of a run that loaded a dump compared with the line it must equal (one uninterrupted run, a fresh run, or the reference with emptied contents), or one comparison of the final contents and statistics; distinct = distinct (policy, kind of start, split day, rows, evictions bucket)",
	})
}

// dayIndex numbers the days of a log as the daily lines do.
func dayIndex(recs []Rec) []int {
	out := make([]int, len(recs))
	d := 0
	var latest int64
	for i, r := range recs {
		if i == 0 {
			latest = r.Day
		}
		if r.Day-latest >= 23*3600 {
			latest = r.Day
			d++
		}
		out[i] = d
	}
	return out
}

func runC35(t *T) {
	rng := t.Rng
	u := newUniverse(rng, 10+rng.Intn(40), drawCap(rng))
	kind := []string{"hot", "hot", "cold", "nostats", "nofiles"}[t.Case%5]
	types := []string{"lru", "lfu", "sizeBig", "sizeSmall", "weightFunLRU", "lruDatasetVerifier", "aiNN"}
	typ := types[rng.Intn(len(types))]
	if kind == "cold" {
		typ = simTypes[rng.Intn(4)]
	}
	recs := drawRecords(rng, u, 4+rng.Intn(6), 50, rng.Intn(2) == 0)
	if len(recs) == 0 {
		return
	}
	day := dayIndex(recs)
	last := day[len(day)-1]
	if last < 2 {
		return
	}
	k := 1 + rng.Intn(last-1)
	cut := 0
	for day[cut] < k {
		cut++
	}
	base, ref := drawSim(rng, u, typ, 50)
	t.policyConf(typ, u, base)
	base["dump"] = true
	base["cache.stats.maxNumDayDiff"], base["cache.stats.deltaDaysStep"] = 1000., 1000. // the clean-up days are not part of a dump
	ref.M.MaxDay, ref.M.DeltaDays = 1000, 1000
	if v, ok := base["ai.dataset2TestPath"].(string); ok && !filepath.IsAbs(v) {
		base["ai.dataset2TestPath"] = filepath.Join(t.Dir, v)
	}
	with := func(over Cfg) Cfg {
		c := Cfg{}
		for k, v := range base {
			c[k] = v
		}
		for k, v := range over {
			c[k] = v
		}
		return c
	}
	writeCSV(filepath.Join(t.Dir, "data.csv"), recs, csvColumns)
	writeCSV(filepath.Join(t.Dir, "second.csv"), recs[cut:], csvColumns)
	dump := filepath.Join(t.Dir, "first.json.gz")

	first := with(Cfg{"outputFolder": "first", "dumpfilename": dump})
	if rng.Intn(2) == 0 {
		first["window.size"], first["window.start"], first["window.stop"] = 1, 0, k
	} else {
		first["window.size"], first["window.start"], first["window.stop"] = k, 0, 1
	}
	if kind == "nofiles" {
		first["dumpfilesandstats"] = false
	}
	unnamed := rng.Intn(3) == 0 // dumped to and loaded from the default place
	if unnamed {
		delete(first, "dumpfilename")
		t.Count("unnamed-dumps", 1)
	}
	a := t.sim(t.Dir, "c1", first)

	second := with(Cfg{"outputFolder": "second", "loaddump": true, "loaddumpfilename": dump, "overwrite": true, "dumpfilename": filepath.Join(t.Dir, "second.json.gz")})
	if rng.Intn(2) == 0 {
		second["data"] = "second.csv"
	} else {
		second["window.size"], second["window.start"], second["window.stop"] = k, 1, 1000
	}
	switch kind {
	case "cold":
		second["coldstart"] = true
	case "nostats":
		second["coldstart"], second["coldstartnostats"] = true, true
	}
	label := kind + ": " + yamlOf(second)
	if unnamed {
		delete(second, "loaddumpfilename")
	}
	if unnamed || rng.Intn(2) == 0 { // the same output folder: the first results are archived
		second["outputFolder"] = "first"
	}
	b := t.sim(t.Dir, "c2", second)

	skip := map[string]bool{"num miss after delete": true}
	compare := func(want *SimRun, from int) {
		if len(b.Rows) != len(want.Rows)-from {
			t.Fail("%d daily lines after the restart, expected %d\n%s", len(b.Rows), len(want.Rows)-from, label)
		}
		for i := range b.Rows {
			t.Eval(1)
			t.Count("rows", 1)
			for _, c := range rowColumns {
				if !skip[c] && b.cell(i, c) != want.cell(i+from, c) && !closeCells(c, b.cell(i, c), want.cell(i+from, c)) {
					t.Fail("daily line %d (%s) after the restart: column %q is %s, expected %s (split after day %d)\n%s", i, b.cell(i, "date"), c, b.cell(i, c), want.cell(i+from, c), k, label)
				}
			}
			if b.cell(i, "num deleted") != "0" {
				t.Count("rows-with-evictions", 1)
			}
		}
		fa, sa, _ := readDump(filepath.Join(want.Dir, "cache_dump.json.gz"))
		fb, sb, _ := readDump(filepath.Join(t.Dir, "second.json.gz"))
		t.Eval(1)
		if x, y := ids(fa), ids(fb); !eqIDs(x, y) {
			t.Fail("files stored at the end: %v, expected %v\n%s", y, x, label)
		}
		if kind == "hot" {
			for id, s := range sa {
				r, ok := sb[id]
				ja, _ := json.Marshal(s)
				jb, _ := json.Marshal(r)
				if !ok || string(ja) != string(jb) {
					t.Fail("statistics of file %d at the end: %s, expected %s\n%s", id, jb, ja, label)
				}
			}
		}
		if len(sa) != len(sb) {
			t.Fail("statistics of %d files at the end, expected %d\n%s", len(sb), len(sa), label)
		}
	}
	switch kind {
	case "hot":
		t.Count("hot-starts", 1)
		whole := t.sim(t.Dir, "c3", with(Cfg{"outputFolder": "whole"}))
		if len(a.Rows) != k {
			t.Fail("%d daily lines in the first run, expected %d\n%s", len(a.Rows), k, yamlOf(first))
		}
		for i := range a.Rows {
			if strings.Join(a.Rows[i], ",") != strings.Join(whole.Rows[i], ",") {
				t.Fail("daily line %d of the first run is %v, of the uninterrupted run %v\n%s", i, a.Rows[i], whole.Rows[i], yamlOf(first))
			}
		}
		compare(whole, k)
	case "cold":
		t.Count("cold-starts", 1)
		reg := regionOf(base)
		refRun(ref, recs, reg, k, 0, 1)
		ref.M.In = map[int64]*MFile{}
		ref.M.Size = 0
		ref.D = map[int64]bool{}
		ref.missAfterDel = 0
		ref.Reset()
		want := refRun(ref, recs[cut:], reg, 1000, 0, 1000)
		cols := []string{}
		for _, c := range rowColumns[1:] {
			if !skip[c] {
				cols = append(cols, c)
			}
		}
		t.compareRows(b, want, cols, label)
		fb, sb, _ := readDump(filepath.Join(t.Dir, "second.json.gz"))
		if x, y := ref.M.orderIDs(), ids(fb); !eqIDs(x, y) {
			t.Fail("files stored at the end: %v, expected %v\n%s", y, x, label)
		}
		for id, f := range ref.M.Stats {
			if s, ok := sb[id]; !ok || s.Frequency != f.Freq || s.NHits != f.NHit || s.NMiss != f.Miss {
				t.Fail("statistics of file %d after a cold start: %+v, expected %d requests (%d hits)\n%s", id, s, f.Freq, f.NHit, label)
			}
		}
	default:
		if kind == "nostats" {
			t.Count("cold-starts-no-stats", 1)
		} else {
			t.Count("dumps-without-files", 1)
		}
		skip = nil
		compare(t.sim(t.Dir, "c3", with(Cfg{"outputFolder": "fresh", "data": "second.csv"})), 0)
	}
	t.Sig(typ, kind, k, len(b.Rows))
	t.Sample(map[string]interface{}{"policy": typ, "start": kind, "records": len(recs), "split_day": k, "rows_after": len(b.Rows)})
}

// closeCells absorbs the rounding of sums accumulated in another order.
func closeCells(col, a, b string) bool {
	var x float64
	var err error
	if x, err = strconv.ParseFloat(b, 64); err != nil {
		return false
	}
	return sameCell(col, a, x)
}
