package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"simulator/v2/cache"
)

func init() {
	register(&Prop{
		ID: "C13", Quick: 288, Deep: 10000, Run: runC13, CaseTimeout: 120,
		NeedEvents: []string{"simulator-runs", "jumped", "filtered", "invalid", "redirected", "served", "stopped-early", "ran-to-the-end"},
		Rule:       "one evaluation = one simulator run whose run statistics and daily request counts were compared with an independent classification of every input record; distinct = distinct (region, redirection, window, early stop, which record classes occur) runs",
	})
	register(&Prop{
		ID: "C14", Quick: 96, Deep: 4000, Run: runC14, CaseTimeout: 120,
		NeedEvents: []string{"simulator-runs", "gzip", "permuted-columns", "extra-columns", "folder"},
		Rule:       "one evaluation = one simulator run on an equivalent form of the same log whose daily results and run statistics were compared with those of the plain single file; distinct = distinct (form, days, records bucket)",
	})
	register(&Prop{
		ID: "C15", Quick: 200, Deep: 8000, Run: runC15, CaseTimeout: 120,
		NeedEvents: []string{"records", "served", "failed-job", "exit-code", "data-type", "file-type", "site", "invalid-efficiency", "exactly-100"},
		Rule:       "one evaluation = one input record whose presence or absence in the cache at the end of the run was compared with the selection rules; distinct = distinct (region, data type, file type, site class, success, exit code, efficiency class, served) records",
	})
	register(&Prop{
		ID: "C16", Quick: 200, Deep: 8000, Run: runC16, CaseTimeout: 120,
		NeedEvents: []string{"simulator-runs", "rows", "cells", "rows-with-evictions", "rows-with-redirections", "empty-days"},
		Rule:       "one evaluation = one daily line of which every column was compared with the reference simulation; distinct = distinct (policy, hits, evictions, redirections bucket) days with at least one request",
	})
	register(&Prop{
		ID: "C18", Quick: 144, Deep: 600, Run: runC18, CaseTimeout: 200,
		NeedEvents: []string{"simulator-runs", "rows", "learned-cells", "evictions", "random-policy-pairs", "resumed-pairs"},
		Rule:       "one evaluation = one pair of simulator runs with the same configuration, seed and data, compared byte by byte (daily results, run statistics, learned tables, dumped files); distinct = distinct (policy, rows, evictions bucket)",
	})
	register(&Prop{
		ID: "C31", Quick: 288, Deep: 10000, Run: runC31, CaseTimeout: 120,
		NeedEvents: []string{"simulator-runs", "days-before-start", "days-after-stop", "short-gaps", "rows"},
		Rule:       "one evaluation = one simulator run whose daily lines (dates and request counts) and served files were compared with the window selected by day counting; distinct = distinct (size, start, stop, days available)",
	})
	register(&Prop{
		ID: "C32", Quick: 72, Deep: 2400, Run: runC32, CaseTimeout: 200,
		NeedEvents: []string{"simulator-runs", "kept-results", "overwritten-results", "archived-results"},
		Rule:       "one evaluation = one comparison of all result files of a folder before and after a run; distinct = distinct (overwrite, hot start, results present, number of archived results)",
	})
	register(&Prop{
		ID: "C33", Quick: 160, Deep: 6000, Run: runC33, CaseTimeout: 120,
		NeedEvents: []string{"simulator-runs", "rejected", "defaults", "units"},
		Rule:       "one evaluation = one simulator run with a drawn configuration whose output location, reported capacity and bandwidth, and rejection were compared with the documented configuration rules; distinct = distinct (policy, unit, value, region, defaulted keys)",
	})
}

var simTypes = []string{"lru", "lfu", "sizeBig", "sizeSmall"}

// drawSim draws a configuration of a deterministic policy and its reference.
func drawSim(rng *rand.Rand, u *Universe, typ string, perDay int) (Cfg, *RefSim) {
	cfg := Cfg{
		"data": "data.csv", "outputFolder": "out", "type": "normal", "seed": rng.Intn(1000),
		"cache.type": typ, "cache.size.value": u.Cap, "cache.size.unit": []string{"M", "m"}[rng.Intn(2)],
		"window.size": 1000, "window.start": 0, "window.stop": 1000,
	}
	s := newRefSim(typ, u.Cap)
	if rng.Intn(2) == 0 {
		cfg["cache.watermarks"] = true
		s.Marks = true
		if rng.Intn(2) == 0 {
			s.High, s.Low = 60+float64(rng.Intn(40)), float64(rng.Intn(60))
			cfg["cache.watermark.high"], cfg["cache.watermark.low"] = s.High, s.Low
		}
	}
	bw := float64(1 + rng.Intn(20))
	if rng.Intn(2) == 0 {
		// a bandwidth used up by a fraction of a day's traffic
		bw = u.Cap * float64(perDay) * (0.02 + 0.2*rng.Float64()) / 10800000
	}
	cfg["cache.bandwidth.value"] = bw
	s.Daily = bw * 10800000
	if rng.Intn(3) > 0 {
		cfg["cache.bandwidth.redirect"] = true
		s.Redirect = true
	}
	reg := []string{"all", "it", "us", ""}[rng.Intn(4)]
	if reg == "" {
		reg = "all"
	} else {
		cfg["region"] = reg
	}
	if reg != "all" {
		s.Region = reg
	}
	if rng.Intn(2) == 0 {
		s.M.MaxDay, s.M.DeltaDays = float64(1+rng.Intn(3)), float64(1+rng.Intn(3))
		cfg["cache.stats.maxNumDayDiff"], cfg["cache.stats.deltaDaysStep"] = s.M.MaxDay, s.M.DeltaDays
	}
	return cfg, s
}

func regionOf(cfg Cfg) string {
	if v, ok := cfg["region"]; ok {
		return v.(string)
	}
	return "all"
}

func drawWindow(rng *rand.Rand, cfg Cfg) (size, start, stop int) {
	size = 1 + rng.Intn(4)
	start = rng.Intn(3)
	stop = start + 1 + rng.Intn(4)
	if rng.Intn(3) == 0 {
		stop = 1000
	}
	cfg["window.size"], cfg["window.start"], cfg["window.stop"] = size, start, stop
	return
}

// ---- C13 --------------------------------------------------------------------------------

func runC13(t *T) {
	rng := t.Rng
	u := newUniverse(rng, 10+rng.Intn(40), drawCap(rng))
	perDay := 40
	typ := simTypes[rng.Intn(4)]
	recs := drawRecords(rng, u, 3+rng.Intn(14), perDay, true)
	cfg, s := drawSim(rng, u, typ, perDay)
	wSize, wStart, wStop := 1000, 0, 1000
	if rng.Intn(4) > 0 {
		wSize, wStart, wStop = drawWindow(rng, cfg)
	}
	writeCSV(filepath.Join(t.Dir, "data.csv"), recs, csvColumns)
	run := t.sim(t.Dir, "conf", cfg)
	ref := refRun(s, recs, regionOf(cfg), wSize, wStart, wStop)
	label := yamlOf(cfg)
	t.Eval(1)
	st := run.Stats
	type pair struct {
		what      string
		got, want int64
	}
	for _, p := range []pair{
		{"records processed", st.TotNumRecords, ref.Total}, {"records before the window", st.TotJumpedRecords, ref.Jumped},
		{"filtered records", st.TotFilteredRecords, ref.Filtered}, {"invalid records", st.TotInvalidRecords, ref.Invalid},
		{"redirected records", st.TotRedirectedRecords, ref.Redirected},
	} {
		if p.got != p.want {
			t.Fail("run statistics report %d %s, the log has %d (of %d records)\n%s", p.got, p.what, p.want, len(recs), label)
		}
	}
	if !near(st.SizeRedirectedRecords, ref.RedirMB) {
		t.Fail("run statistics report %v MB redirected, expected %v\n%s", st.SizeRedirectedRecords, ref.RedirMB, label)
	}
	var rowReq, rowRedir int64
	for i := range run.Rows {
		var a, b int64
		fmt.Sscan(run.cell(i, "num req"), &a)
		fmt.Sscan(run.cell(i, "num redirected"), &b)
		rowReq += a
		rowRedir += b
	}
	if rowReq != ref.Served-ref.Left {
		t.Fail("the daily lines sum to %d requests, %d were served on the completed days\n%s", rowReq, ref.Served-ref.Left, label)
	}
	if left := st.TotNumRecords - st.TotJumpedRecords - st.TotFilteredRecords - st.TotInvalidRecords - st.TotRedirectedRecords - rowReq; left != ref.Left {
		t.Fail("records do not add up: %d are left for the unfinished day, which served %d\n%s", left, ref.Left, label)
	}
	if rowRedir > st.TotRedirectedRecords {
		t.Fail("the daily lines sum to %d redirections, the run statistics report %d\n%s", rowRedir, st.TotRedirectedRecords, label)
	}
	t.Count("jumped", int(ref.Jumped))
	t.Count("filtered", int(ref.Filtered))
	t.Count("invalid", int(ref.Invalid))
	t.Count("redirected", int(ref.Redirected))
	t.Count("served", int(ref.Served))
	if ref.Broke {
		t.Count("stopped-early", 1)
	} else {
		t.Count("ran-to-the-end", 1)
	}
	t.Sig(regionOf(cfg), s.Redirect, wSize, wStart, wStop, ref.Broke, ref.Jumped > 0, ref.Filtered > 0, ref.Invalid > 0, ref.Redirected > 0)
	t.Sample(map[string]interface{}{"config": cfg, "stats": st})
}

// ---- C14 --------------------------------------------------------------------------------

func runC14(t *T) {
	rng := t.Rng
	u := newUniverse(rng, 10+rng.Intn(30), drawCap(rng))
	typ := simTypes[t.Case%4]
	recs := drawRecords(rng, u, 3+rng.Intn(6), 40, true)
	cfg, _ := drawSim(rng, u, typ, 40)
	if rng.Intn(2) == 0 {
		drawWindow(rng, cfg)
	}
	writeCSV(filepath.Join(t.Dir, "data.csv"), recs, csvColumns)
	ref := t.sim(t.Dir, "ref", cfg)
	perm := func() []string {
		c := append([]string{}, csvColumns...)
		switch rng.Intn(3) {
		case 0:
			t.Count("permuted-columns", 1)
			rng.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
		case 1:
			t.Count("extra-columns", 1)
			for i := 0; i < 3; i++ {
				k := rng.Intn(len(c) + 1)
				name := fmt.Sprintf("Extra%d", i)
				if rng.Intn(2) == 0 { // nearly the name of a known column
					known := csvColumns[rng.Intn(len(csvColumns))]
					name = []string{known + "s", "My" + known, strings.ToLower(known) + "_", known + fmt.Sprint(i)}[rng.Intn(4)]
				}
				c = append(c[:k], append([]string{name}, c[k:]...)...)
			}
		}
		return c
	}
	for k := 0; k < 4; k++ {
		var form string
		c2 := Cfg{}
		for a, b := range cfg {
			c2[a] = b
		}
		c2["outputFolder"] = fmt.Sprintf("out%d", k)
		switch k {
		case 0:
			form = "permuted"
			p := perm()
			if rng.Intn(2) == 0 {
				rng.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
				t.Count("permuted-columns", 1)
			}
			c2["data"] = "v0.csv"
			writeCSV(filepath.Join(t.Dir, "v0.csv"), recs, p)
		case 1:
			form = "gzip"
			t.Count("gzip", 1)
			ext := []string{".gz", ".csv.gz", ".gzip"}[rng.Intn(3)]
			c2["data"] = "v1" + ext
			writeCSV(filepath.Join(t.Dir, "x.gz"), recs, perm())
			must(os.Rename(filepath.Join(t.Dir, "x.gz"), filepath.Join(t.Dir, "v1"+ext)))
		default:
			form = "folder"
			t.Count("folder", 1)
			d := filepath.Join(t.Dir, fmt.Sprintf("v%d", k))
			must(os.Mkdir(d, 0o755))
			c2["data"] = fmt.Sprintf("v%d", k)
			parts := 1 + rng.Intn(5)
			cut := []int{0}
			for i := 1; i < parts; i++ {
				cut = append(cut, rng.Intn(len(recs)+1))
			}
			cut = append(cut, len(recs))
			sort.Ints(cut)
			for i := 0; i+1 < len(cut); i++ {
				ext := ".csv"
				if k == 3 && rng.Intn(2) == 0 || k == 2 && rng.Intn(4) == 0 {
					ext = ".csv.gz"
					t.Count("gzip", 1)
				}
				writeCSV(filepath.Join(d, fmt.Sprintf("results_%02d%s", i, ext)), recs[cut[i]:cut[i+1]], perm())
			}
			if rng.Intn(2) == 0 {
				must(os.WriteFile(filepath.Join(d, "README.txt"), []byte("not a log\n"), 0o644))
				must(os.WriteFile(filepath.Join(d, "results_00.json"), []byte("{}\n"), 0o644))
			}
			form += fmt.Sprint(len(cut) - 1)
		}
		got := t.sim(t.Dir, fmt.Sprintf("conf%d", k), c2)
		t.Eval(1)
		a, _ := json.Marshal(ref.Rows)
		b, _ := json.Marshal(got.Rows)
		if !bytes.Equal(a, b) {
			t.Fail("the %s form of the same log gives other daily results\n%s\n%s\n%s", form, clip(string(a), 900), clip(string(b), 900), yamlOf(c2))
		}
		x, y := ref.Stats, got.Stats
		x.Extra, y.Extra = "", ""
		if x != y {
			t.Fail("the %s form of the same log gives other run statistics: %+v against %+v\n%s", form, x, y, yamlOf(c2))
		}
		t.Sig(form, len(ref.Rows), len(recs)/50)
	}
	t.Sample(map[string]interface{}{"records": len(recs), "days": len(ref.Rows), "config": cfg})
}

// ---- C15 --------------------------------------------------------------------------------

func runC15(t *T) {
	rng := t.Rng
	u := newUniverse(rng, 20, 1000)
	recs := drawRecords(rng, u, 1+rng.Intn(3), 300, true)
	if len(recs) == 0 {
		return
	}
	region := []string{"all", "us", "it"}[t.Case%3]
	for i := range recs { // one file per record; the cache keeps everything
		recs[i].File = int64(i + 1)
		recs[i].Size = float64(1+rng.Intn(64)) / 64
		recs[i].Bytes = recs[i].Size*1024*1024 + float64(rng.Intn(2000)) // not only whole kilobytes
		recs[i].Size = recs[i].Bytes / (1024 * 1024)
		if rng.Intn(3) == 0 { // near the limits of the selections
			recs[i].Site = int64(7 + rng.Intn(4))
		}
	}
	typ := append([]string{"infinite"}, simTypes...)[rng.Intn(5)]
	cfg := Cfg{"data": "data.csv", "outputFolder": "out", "type": "normal", "cache.type": typ, "cache.size.value": 1000., "cache.size.unit": "G",
		"cache.bandwidth.value": 10., "region": region, "window.size": 100, "window.start": 0, "window.stop": 10, "dump": true}
	writeCSV(filepath.Join(t.Dir, "data.csv"), recs, csvColumns)
	run := t.sim(t.Dir, "conf", cfg)
	fs, st, _ := readDump(filepath.Join(run.Dir, "cache_dump.json.gz"))
	have := map[int64]float64{}
	for _, f := range fs {
		have[f.Filename] = f.Size
	}
	for _, r := range recs {
		eff, ok := r.cpuEff()
		want := r.success() && r.regionOK(region) && ok
		size, got := have[r.File]
		t.Eval(1)
		t.Count("records", 1)
		if got != want {
			t.Fail("region %s: record {exit code %d, success %q, data type %d, file type %d, site %d, CPU %s, IO %s} served: %v, expected %v",
				region, r.Exit, r.SuccText, r.DataType, r.FType, r.Site, r.CPURaw, r.IORaw, got, want)
		}
		if got {
			t.Count("served", 1)
			if size != r.Size {
				t.Fail("a file of %v bytes is stored with %v MB, expected %v", r.Bytes, size, r.Size)
			}
			if s := st[r.File]; typ != "infinite" && s.Frequency != 1 {
				t.Fail("a file requested once has %d requests in its statistics", s.Frequency)
			}
		}
		switch {
		case !r.Success:
			t.Count("failed-job", 1)
		case r.Exit != 0:
			t.Count("exit-code", 1)
		case region != "all" && !r.regionOK(region):
			switch {
			case region == "it" || (r.DataType != 0 && r.DataType != 3):
				t.Count("data-type", 1)
			case r.FType != 2 && r.FType != 9:
				t.Count("file-type", 1)
			default:
				t.Count("site", 1)
			}
		case !ok:
			t.Count("invalid-efficiency", 1)
		case eff == 100:
			t.Count("exactly-100", 1)
		}
		t.Sig(region, r.DataType, r.FType, r.Site, r.Success, r.Exit, ok, got)
	}
	t.Sample(map[string]interface{}{"region": region, "records": len(recs), "served": len(fs)})
}

// ---- C16 --------------------------------------------------------------------------------

// compareRows judges every daily line against the reference.
func (t *T) compareRows(run *SimRun, ref *RefRun, cols []string, label string) {
	if len(run.Rows) != len(ref.Rows) {
		t.Fail("%d daily lines, expected %d\n%s", len(run.Rows), len(ref.Rows), label)
	}
	for i := range run.Rows {
		t.Eval(1)
		t.Count("rows", 1)
		if d := run.cell(i, "date"); !strings.HasPrefix(d, ref.Dates[i].UTC().Format("2006-01-02 15:04:05")) {
			t.Fail("daily line %d is dated %q, expected %v\n%s", i, d, ref.Dates[i].UTC(), label)
		}
		for _, c := range cols {
			t.Count("cells", 1)
			if got, want := run.cell(i, c), ref.Rows[i][c]; !sameCell(c, got, want) {
				t.Fail("daily line %d (%s): column %q is %s, expected %v\n%s", i, run.cell(i, "date"), c, got, want, label)
			}
		}
		if len(run.Rows[i]) != len(run.Header) {
			t.Fail("daily line %d has %d columns, the header %d\n%s", i, len(run.Rows[i]), len(run.Header), label)
		}
	}
}

func runC16(t *T) {
	rng := t.Rng
	u := newUniverse(rng, 10+rng.Intn(40), drawCap(rng))
	typ := simTypes[t.Case%4]
	recs := drawRecords(rng, u, 4+rng.Intn(8), 60, rng.Intn(2) == 0)
	cfg, s := drawSim(rng, u, typ, 60)
	writeCSV(filepath.Join(t.Dir, "data.csv"), recs, csvColumns)
	run := t.sim(t.Dir, "conf", cfg)
	label := yamlOf(cfg)
	if strings.Join(run.Header, ",") != strings.Join(rowColumns, ",") {
		t.Fail("header %v, expected %v\n%s", run.Header, rowColumns, label)
	}
	ref := refRun(s, recs, regionOf(cfg), 1000, 0, 1000)
	t.compareRows(run, ref, rowColumns[1:], label)
	for _, r := range ref.Rows {
		if r["num deleted"] > 0 {
			t.Count("rows-with-evictions", 1)
		}
		if r["num redirected"] > 0 {
			t.Count("rows-with-redirections", 1)
		}
		if r["num req"] == 0 {
			t.Count("empty-days", 1)
		} else {
			t.Sig(typ, r["num hit"], r["num deleted"], r["num redirected"])
		}
	}
	t.Sample(map[string]interface{}{"policy": typ, "records": len(recs), "first_day": run.Rows[0]})
}

// ---- C18 --------------------------------------------------------------------------------

func readDump(path string) (fs []fileStats, st map[int64]fileStats, other map[string]string) {
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	z, err := gzip.NewReader(f)
	must(err)
	var buf bytes.Buffer
	_, err = buf.ReadFrom(z)
	must(err)
	var recs [][]byte
	for _, l := range bytes.Split(buf.Bytes(), []byte("\n")) {
		if len(bytes.TrimSpace(l)) > 0 {
			recs = append(recs, l)
		}
	}
	return parseDump(recs)
}

// policies are all the policies a simulation can be configured with, the learning cache once per mode.
var policies = []string{"lru", "lfu", "sizeBig", "sizeSmall", "random_lru", "random", "weightFunLRU", "lruDatasetVerifier", "aiNN", "infinite",
	"aiRL:scdl", "aiRL:add", "aiRL:onK", "aiRL:onDayEnd", "aiRL:onFree", "aiRL:evOnly-onK", "aiRL:evOnly-onDayEnd", "aiRL:evOnly-onFree"}

// policyConf completes the configuration with what the policy needs.
func (t *T) policyConf(typ string, u *Universe, cfg Cfg) {
	rng := t.Rng
	real := strings.SplitN(typ, ":", 2)[0]
	switch {
	case real == "aiRL":
		mode := strings.TrimPrefix(typ, "aiRL:")
		add, evc := featureMapFiles(t.Dir, rng, u.Cap)
		cfg["ai.rl.type"] = "SCDL2"
		cfg["ai.rl.eviction.type"] = "NONE"
		cfg["ai.rl.epsilon.decay"] = []float64{0.0000042, 0.001, 0.05}[rng.Intn(3)]
		switch mode {
		case "scdl":
			cfg["ai.rl.type"] = "SCDL"
			cfg["ai.rl.addition.featuremap"] = add
		case "add":
			cfg["ai.rl.addition.featuremap"] = add
		default:
			cfg["ai.rl.eviction.type"] = strings.TrimPrefix(mode, "evOnly-")
			cfg["ai.rl.eviction.featuremap"] = evc
			cfg["ai.rl.eviction.k"] = 1 + rng.Intn(30)
			if !strings.HasPrefix(mode, "evOnly-") {
				cfg["ai.rl.addition.featuremap"] = add
			}
		}
	case real == "weightFunLRU":
		cfg["weightfunc.name"] = []string{"FuncAdditive", "FuncAdditiveExp", "FuncMultiplicative"}[rng.Intn(3)]
		cfg["weightfunc.alpha"], cfg["weightfunc.beta"], cfg["weightfunc.gamma"] = 1., 0.5, 1.
	case real == "aiNN":
		cfg["ai.featuremap"], _ = featureMapFiles(t.Dir, rng, u.Cap)
	case real == "lruDatasetVerifier":
		cfg["ai.dataset2TestPath"] = writeDataset(t.Dir, u.IDs[:len(u.IDs)/2])
	}
}

// runsDiffer says how two runs differ in their results, empty when they do not.
func (t *T) runsDiffer(a, b *SimRun, unordered bool) string {
	differ := ""
	ra, rb := mustRead(filepath.Join(a.Dir, "simulation_results.csv")), mustRead(filepath.Join(b.Dir, "simulation_results.csv"))
	switch {
	case !bytes.Equal(ra, rb):
		differ = fmt.Sprintf("daily results differ:\n%s", firstDiff(ra, rb))
	case a.Stats != b.Stats:
		differ = fmt.Sprintf("run statistics differ: %+v %+v", a.Stats, b.Stats)
	default:
		fa, sa, _ := readDump(filepath.Join(a.Dir, "cache_dump.json.gz"))
		fb, sb, _ := readDump(filepath.Join(b.Dir, "cache_dump.json.gz"))
		x, y := ids(fa), ids(fb)
		if unordered { // no defined order
			x, y = sortedIDs(x), sortedIDs(y)
		}
		if !eqIDs(x, y) {
			differ = fmt.Sprintf("files stored at the end differ: %v %v", x, y)
			break
		}
		ja, _ := json.Marshal(sa)
		jb, _ := json.Marshal(sb)
		if !bytes.Equal(ja, jb) {
			differ = "file statistics at the end differ"
			break
		}
		for _, q := range []string{"additionQTable.csv", "evictionQTable.csv"} {
			qa, ea := os.ReadFile(filepath.Join(a.Dir, q))
			qb, eb := os.ReadFile(filepath.Join(b.Dir, q))
			if (ea == nil) != (eb == nil) || !bytes.Equal(qa, qb) {
				differ = fmt.Sprintf("learned table %s differs:\n%s", q, firstDiff(qa, qb))
			}
			if ea == nil {
				for _, l := range strings.Split(string(qa), "\n")[1:] {
					for _, v := range strings.Split(l, ",") {
						if strings.Trim(v, "0.") != "" {
							t.Count("learned-cells", 1)
						}
					}
				}
			}
		}
	}
	return differ
}

func runC18(t *T) {
	rng := t.Rng
	u := newUniverse(rng, 10+rng.Intn(40), drawCap(rng))
	types := []string{"lru", "lfu", "sizeBig", "sizeSmall", "random_lru", "random", "random", "weightFunLRU", "lruDatasetVerifier", "aiNN",
		"aiRL:scdl", "aiRL:add", "aiRL:onK", "aiRL:onDayEnd", "aiRL:onFree", "aiRL:evOnly-onK", "aiRL:onK"}
	typ := types[t.Case%len(types)]
	recs := drawRecords(rng, u, 4+rng.Intn(6), 80, true)
	real := strings.SplitN(typ, ":", 2)[0]
	cfg, _ := drawSim(rng, u, real, 80)
	cfg["dump"] = true
	keepAll := typ == "random" && t.Case%2 == 0
	if keepAll { // everything fits: only the admissions are random
		cfg["cache.size.unit"] = "G"
		delete(cfg, "cache.watermarks")
	}
	t.policyConf(typ, u, cfg)
	writeCSV(filepath.Join(t.Dir, "data.csv"), recs, csvColumns)
	if !keepAll && rng.Intn(3) == 0 { // both runs continue a third one
		cfg["outputFolder"] = "first"
		first := t.sim(t.Dir, "first", cfg)
		cfg["loaddump"] = true
		cfg["loaddumpfilename"] = filepath.Join(first.Dir, "cache_dump.json.gz")
		if rng.Intn(3) == 0 {
			cfg["coldstart"] = true
		}
		t.Count("resumed-pairs", 1)
	}
	cfg["outputFolder"] = "a"
	a := t.sim(t.Dir, "ca", cfg)
	cfg["outputFolder"] = "b"
	b := t.sim(t.Dir, "cb", cfg, "GOMAXPROCS=1", "GOGC=5") // another schedule
	t.Eval(1)
	if real == "random" {
		t.Count("random-policy-pairs", 1)
	}
	differ := t.runsDiffer(a, b, real == "random" || real == "aiRL")
	del := 0
	for i := range a.Rows {
		var n int
		fmt.Sscan(a.cell(i, "num deleted"), &n)
		del += n
	}
	t.Count("evictions", del)
	t.Count("rows", len(a.Rows))
	t.Sig(typ, len(a.Rows), del/20)
	if differ != "" {
		key := ""
		if real == "random" && !keepAll {
			key = "random-eviction-not-seeded"
		}
		t.Report(key, "%s: two runs with the same configuration, seed and data: %s\n%s", typ, differ, yamlOf(cfg))
	}
	t.Sample(map[string]interface{}{"policy": typ, "rows": len(a.Rows), "evictions": del})
}

func mustRead(p string) []byte {
	b, err := os.ReadFile(p)
	must(err)
	return b
}

func firstDiff(a, b []byte) string {
	la, lb := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	for i := 0; i < len(la) && i < len(lb); i++ {
		if la[i] != lb[i] {
			return la[i] + "\n" + lb[i]
		}
	}
	return fmt.Sprintf("(%d against %d lines)", len(la), len(lb))
}

// ---- C31 --------------------------------------------------------------------------------

func runC31(t *T) {
	rng := t.Rng
	nDays := 3 + rng.Intn(20)
	cfg := Cfg{"data": "data.csv", "outputFolder": "out", "type": "normal", "cache.type": simTypes[rng.Intn(4)], "cache.size.value": 1000.,
		"cache.size.unit": "G", "cache.bandwidth.value": 10., "dump": true}
	wSize, wStart, wStop := drawWindow(rng, cfg)
	switch rng.Intn(8) {
	case 0, 1:
		wSize = nDays
		cfg["window.size"] = wSize
	case 2: // the usual weeks
		wSize = 7
		delete(cfg, "window.size")
	case 3:
		wSize = 5 + rng.Intn(6)
		cfg["window.size"] = wSize
	}
	if wSize > 4 {
		nDays *= 2
	}
	// one file per record, so the dump tells which records were served
	var recs []Rec
	day := int64(1514764800) + int64(rng.Intn(100))*86400
	type d struct {
		start int64
		n     int
	}
	var dayOf []int
	var days []d
	start := day
	days = append(days, d{start, 0})
	quiet := false
	for k := 0; k < nDays*4; k++ {
		r := Rec{Req: Req{File: int64(len(recs) + 1), Size: 1, Day: day, Proto: 1}, Bytes: 1048576, Success: true, SuccText: "true",
			CPUTime: 10, IOTime: 10, CPURaw: "10", IORaw: "10"}
		if day-start >= 23*3600 {
			start = day
			days = append(days, d{start, 0})
			quiet = rng.Intn(5) == 0 // a day without a successful job
		}
		r.FType = 2
		if quiet || rng.Intn(10) == 0 {
			r.Success, r.SuccText = false, "false"
			t.Count("failed-jobs", 1)
		} else {
			days[len(days)-1].n++
		}
		dayOf = append(dayOf, len(days)-1)
		recs = append(recs, r)
		switch rng.Intn(8) {
		case 0, 1, 2:
		case 3:
			day += int64(rng.Intn(3600 * 6))
		case 4:
			day = start + 23*3600 - int64(rng.Intn(2)) // exactly 23 hours, or a second less
			t.Count("short-gaps", 1)
		case 5:
			day += 86400 * int64(1+rng.Intn(9))
		default:
			day = start + 86400
		}
	}
	writeCSV(filepath.Join(t.Dir, "data.csv"), recs, csvColumns)
	run := t.sim(t.Dir, "conf", cfg)
	label := yamlOf(cfg)
	t.Eval(1)
	from, to := wSize*wStart, wSize*wStop
	fs, _, _ := readDump(filepath.Join(run.Dir, "cache_dump.json.gz"))
	served := map[int64]bool{}
	for _, f := range fs {
		served[f.Filename] = true
	}
	for i, r := range recs {
		want := dayOf[i] >= from && dayOf[i] < to && r.Success
		if served[r.File] != want {
			t.Fail("a record of day %d was served: %v; the window covers days %d to %d\n%s", dayOf[i], served[r.File], from, to-1, label)
		}
		switch {
		case dayOf[i] < from:
			t.Count("days-before-start", 1)
		case dayOf[i] >= to:
			t.Count("days-after-stop", 1)
		}
	}
	var wantRows []d
	for i, x := range days {
		if i >= from && i < to && i < len(days)-1 {
			wantRows = append(wantRows, x)
		}
	}
	if len(wantRows) != len(run.Rows) {
		t.Fail("%d daily lines, the window has %d completed days\n%s", len(run.Rows), len(wantRows), label)
	}
	for i, x := range wantRows {
		t.Count("rows", 1)
		if dd := run.cell(i, "date"); !strings.HasPrefix(dd, utc(x.start)) {
			t.Fail("daily line %d is dated %q, expected %q\n%s", i, dd, utc(x.start), label)
		}
		if run.cell(i, "num req") != fmt.Sprint(x.n) {
			t.Fail("daily line %d (%s) has %s requests, the day has %d\n%s", i, utc(x.start), run.cell(i, "num req"), x.n, label)
		}
	}
	var jumped, read, failed int64
	for i, k := range dayOf {
		if k < from && k < to {
			jumped++
		}
		if k < to {
			read++
		}
		if k >= from && k < to && !recs[i].Success {
			failed++
		}
	}
	if run.Stats.TotNumRecords != read || run.Stats.TotFilteredRecords != failed {
		t.Fail("%d records reported as read and %d as filtered out, expected %d and %d\n%s", run.Stats.TotNumRecords, run.Stats.TotFilteredRecords, read, failed, label)
	}
	if run.Stats.TotJumpedRecords != jumped {
		t.Fail("%d records reported before the window, expected %d\n%s", run.Stats.TotJumpedRecords, jumped, label)
	}
	t.Sig(wSize, wStart, wStop, len(days))
	t.Sample(map[string]interface{}{"window": []int{wSize, wStart, wStop}, "days": len(days), "lines": len(run.Rows)})
}

// ---- C32 --------------------------------------------------------------------------------

func csvFiles(dir string) map[string]string {
	out := map[string]string{}
	es, err := os.ReadDir(dir)
	if err != nil {
		return out
	}
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".csv") && strings.HasPrefix(e.Name(), "simulation_results") {
			out[e.Name()] = string(mustRead(filepath.Join(dir, e.Name())))
		}
	}
	return out
}

func runC32(t *T) {
	rng := t.Rng
	u := newUniverse(rng, 12, 100)
	base := Cfg{"data": "data.csv", "outputFolder": "out", "type": "normal", "cache.type": simTypes[rng.Intn(4)], "cache.size.value": 100.,
		"cache.size.unit": "M", "cache.bandwidth.value": 10., "window.size": 100, "window.start": 0, "window.stop": 10, "dump": true}
	if rng.Intn(3) == 0 { // dump kept elsewhere
		must(os.Mkdir(filepath.Join(t.Dir, "dumps"), 0o755))
		base["dumpfilename"] = filepath.Join(t.Dir, "dumps", "d.json.gz")
		base["loaddumpfilename"] = base["dumpfilename"]
	}
	dir := outDir(t.Dir, base)
	exec := func(over Cfg, recs []Rec) {
		cfg := Cfg{}
		for k, v := range base {
			cfg[k] = v
		}
		for k, v := range over {
			cfg[k] = v
		}
		writeCSV(filepath.Join(t.Dir, "data.csv"), recs, csvColumns)
		out, err := execSim(t.Dir, "conf", cfg)
		t.Count("simulator-runs", 1)
		if err != nil {
			t.Fail("the simulator ended with %v\n%s\n%s", err, yamlOf(cfg), tail(out, 1500))
		}
	}
	archived := 0
	fresh := func() []Rec { return drawRecords(rng, u, 4+rng.Intn(4), 40, false) }
	exec(nil, fresh())
	for i := 0; i < 5+rng.Intn(6); i++ {
		before := csvFiles(dir)
		cur := before["simulation_results.csv"]
		if len(cur) == 0 {
			t.Fail("no simulation_results.csv after run %d in %s", i, dir)
		}
		t.Eval(1)
		switch k := rng.Intn(4); k {
		case 0: // neither overwrite nor anything else: nothing may change
			over := Cfg{}
			if rng.Intn(2) == 0 {
				over["loaddump"] = true
			}
			all := allFiles(dir)
			exec(over, fresh())
			if d := diffFiles(all, allFiles(dir)); d != "" {
				t.Fail("a run without overwrite changed the completed results: %s", d)
			}
			t.Count("kept-results", 1)
			t.Sig("keep", archived, len(over))
		case 1: // overwrite
			recs := fresh()
			exec(Cfg{"overwrite": true}, recs)
			after := csvFiles(dir)
			if after["simulation_results.csv"] == cur {
				t.Fail("a run with overwrite left the old results")
			}
			for n, c := range before {
				if n != "simulation_results.csv" && after[n] != c {
					t.Fail("a run with overwrite touched the archived results %s", n)
				}
			}
			t.Count("overwritten-results", 1)
			t.Sig("overwrite", archived)
		default: // hot start: the previous results are archived
			recs := fresh()
			exec(Cfg{"overwrite": true, "loaddump": true}, recs)
			after := csvFiles(dir)
			archived++
			for n, c := range before {
				if n != "simulation_results.csv" && after[n] != c {
					t.Fail("a hot start changed the archived results %s (%d archived before)", n, len(before)-1)
				}
			}
			var fresh []string
			for n := range after {
				if _, ok := before[n]; !ok {
					fresh = append(fresh, n)
				}
			}
			if len(fresh) != 1 || after[fresh[0]] != cur {
				t.Fail("a hot start must keep the previous results under a new name; new files %v", fresh)
			}
			t.Count("archived-results", 1)
			t.Sig("archive", archived)
		}
	}
	t.Sample(map[string]interface{}{"folder": filepath.Base(dir), "result_files": len(csvFiles(dir))})
}

func allFiles(dir string) map[string]string {
	out := map[string]string{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if !e.IsDir() {
			out[e.Name()] = string(mustRead(filepath.Join(dir, e.Name())))
		}
	}
	return out
}

func diffFiles(a, b map[string]string) string {
	for n, c := range a {
		if x, ok := b[n]; !ok {
			return n + " disappeared"
		} else if x != c {
			return n + " changed"
		}
	}
	for n := range b {
		if _, ok := a[n]; !ok {
			return n + " appeared"
		}
	}
	return ""
}

// ---- C33 --------------------------------------------------------------------------------

func runC33(t *T) {
	rng := t.Rng
	u := newUniverse(rng, 12, 64)
	recs := drawRecords(rng, u, 3, 20, false)
	if len(recs) < 3 {
		return
	}
	writeCSV(filepath.Join(t.Dir, "data.csv"), recs, csvColumns)
	cfg := Cfg{"data": "data.csv", "cache.type": simTypes[rng.Intn(4)], "window.stop": 100}
	defaulted := ""
	opt := func(key string, v interface{}) {
		if rng.Intn(4) > 0 {
			cfg[key] = v
		} else {
			defaulted += " " + key
			t.Count("defaults", 1)
		}
	}
	cfg["type"] = "normal"
	opt("outputFolder", []string{"out", "a/b/c", filepath.Join(t.Dir, "abs")}[rng.Intn(3)])
	value := []float64{1, 2, 10, 100, 2048, 0.5, 1.25}[rng.Intn(7)]
	unit := []string{"M", "G", "T", "P", "m", "g", "t", "p"}[rng.Intn(8)]
	opt("cache.size.value", value)
	opt("cache.size.unit", unit)
	bwv := float64(1 + rng.Intn(40))
	if rng.Intn(3) == 0 {
		bwv += []float64{0.25, 0.7, 0.9, 0.1}[rng.Intn(4)]
	}
	opt("cache.bandwidth.value", bwv)
	opt("region", []string{"us", "it", "all", "xx"}[rng.Intn(4)])
	weight := rng.Intn(6) == 0
	if weight {
		cfg["cache.type"] = "weightFunLRU"
		cfg["weightfunc.name"] = []string{"FuncAdditive", "FuncAdditiveExp", "FuncMultiplicative"}[rng.Intn(3)]
		cfg["weightfunc.alpha"], cfg["weightfunc.beta"], cfg["weightfunc.gamma"] = 1.5, 0.25, 2.
	}
	if rng.Intn(5) == 0 { // must be refused
		switch rng.Intn(3) {
		case 0:
			cfg["cache.size.unit"] = []string{"X", "MB", "K", ""}[rng.Intn(4)]
		case 1:
			cfg["cache.type"] = []string{"nope", "LRU", ""}[rng.Intn(3)]
		default:
			cfg["cache.type"] = "weightFunLRU"
			cfg["weightfunc.name"] = "FuncNope"
			cfg["weightfunc.alpha"], cfg["weightfunc.beta"], cfg["weightfunc.gamma"] = 1., 1., 1.
		}
		_, err := execSim(t.Dir, "conf", cfg)
		t.Eval(1)
		t.Count("simulator-runs", 1)
		t.Count("rejected", 1)
		if err == nil {
			t.Fail("the configuration was accepted: %s", yamlOf(cfg))
		}
		if _, e := os.Stat(filepath.Join(outDir(t.Dir, cfg), "simulation_results.csv")); e == nil {
			t.Fail("a refused configuration produced results: %s", yamlOf(cfg))
		}
		t.Sig("rejected", cfg["cache.type"], cfg["cache.size.unit"])
		return
	}
	run := t.sim(t.Dir, "conf", cfg)
	t.Eval(1)
	value, unit = 100, "T"
	if v, ok := cfg["cache.size.value"]; ok {
		value = v.(float64)
	}
	if v, ok := cfg["cache.size.unit"]; ok {
		unit = v.(string)
	}
	mult := map[string]float64{"M": 1, "G": 1 << 10, "T": 1 << 20, "P": 1 << 30}[strings.ToUpper(unit)]
	bw := 10.
	if v, ok := cfg["cache.bandwidth.value"]; ok {
		bw = v.(float64)
	}
	t.Count("units", 1)
	for i := range run.Rows {
		if !sameCell("cache size", run.cell(i, "cache size"), value*mult) {
			t.Fail("%v %s is a cache of %s MB, expected %v\n%s", value, unit, run.cell(i, "cache size"), value*mult, yamlOf(cfg))
		}
		if !sameCell("bandwidth", run.cell(i, "bandwidth"), bw*10800000) {
			t.Fail("%v Gbit/s is a daily bandwidth of %s MB, expected %v\n%s", bw, run.cell(i, "bandwidth"), bw*10800000, yamlOf(cfg))
		}
	}
	if got := cache.GetCacheSize(value, unit); got != value*mult {
		t.Fail("%v %s is %v MB, expected %v", value, unit, got, value*mult)
	}
	// the configuration in use is written next to the results
	if _, err := os.Stat(filepath.Join(run.Dir, "config.yaml")); err != nil {
		t.Fail("the effective configuration is not written next to the results: %v", err)
	}
	t.Sig(cfg["cache.type"], unit, value, regionOf(cfg), defaulted)
	t.Sample(map[string]interface{}{"config": cfg, "defaulted": defaulted, "folder": run.Dir[len(t.Dir):]})
}
