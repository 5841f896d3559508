package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// A run and its configuration file.

func init() {
	register(&Prop{
		ID: "C38", Quick: 120, Deep: 2500, Run: runC38, CaseTimeout: 300,
		NeedEvents: []string{"simulator-runs", "saved-configurations", "decoys", "other-folders", "dotted-names", "rows", "evictions", "logged-runs", "resumed-runs", "overwritten-runs"},
		Rule:       "one evaluation = a run from the configuration saved in a result folder compared with the run that saved it (daily lines, run statistics, contents, tables, event log), or a run judged on which of several configuration files it used; distinct = distinct (policy, configuration name, rows, evictions bucket)",
	})
}

var outLine = regexp.MustCompile(`(?m)^(\s*outputfolder:).*$`)

func runC38(t *T) {
	rng := t.Rng
	u := newUniverse(rng, 10+rng.Intn(40), drawCap(rng))
	var types []string
	for _, p := range policies {
		if p != "random" && p != "infinite" {
			types = append(types, p)
		}
	}
	typ := types[t.Case%len(types)]
	real := strings.SplitN(typ, ":", 2)[0]
	recs := drawRecords(rng, u, 4+rng.Intn(6), 60, true)
	cfg, _ := drawSim(rng, u, real, 60)
	if rng.Intn(2) == 0 {
		drawWindow(rng, cfg)
	}
	t.policyConf(typ, u, cfg)
	if real == "weightFunLRU" {
		cfg["weightfunc.alpha"], cfg["weightfunc.beta"], cfg["weightfunc.gamma"] = float64(rng.Intn(40))/7, rng.Float64(), 0.1+rng.Float64()
	}
	if real == "aiRL" {
		if rng.Intn(2) == 0 {
			cfg["ai.rl.epsilon.unleash"] = false
		}
		if rng.Intn(2) == 0 {
			cfg["ai.rl.epsilon.start"] = 0.1 + 0.9*rng.Float64()
			cfg["ai.rl.eviction.epsilon.decay"] = 0.01
		}
	}
	cfg["dump"] = true
	// the folder of the files named in the configuration, and how the configuration is called
	home := filepath.Join(t.Dir, "conf dir")
	must(os.MkdirAll(home, 0o755))
	moved := rng.Intn(2) == 0
	if !moved {
		home = t.Dir
	} else {
		t.Count("other-folders", 1)
	}
	if rng.Intn(3) == 0 { // the log is somewhere else, named relatively
		cfg["data"] = []string{"logs/year 1/requests.csv", "../other/requests.csv", "./logs/../data.csv"}[rng.Intn(3)]
		must(os.MkdirAll(filepath.Join(home, "logs", "year 1"), 0o755))
		if !moved {
			cfg["data"] = strings.TrimPrefix(cfg["data"].(string), "../")
		}
		must(os.MkdirAll(filepath.Dir(filepath.Join(home, cfg["data"].(string))), 0o755))
		t.Count("logs-elsewhere", 1)
	}
	writeCSV(filepath.Join(home, cfg["data"].(string)), recs, csvColumns)
	for k, v := range cfg { // the helpers write beside the case, the configuration names them relatively
		if s, ok := v.(string); ok && strings.HasPrefix(s, t.Dir+"/") {
			rel, err := filepath.Rel(home, s)
			must(err)
			cfg[k] = rel
		}
	}
	name := []string{"conf.yml", "conf.yaml", "lru_100T.v2.yml", "a b.yaml"}[rng.Intn(4)]
	if strings.Count(name, ".") > 1 {
		t.Count("dotted-names", 1)
	}
	if rng.Intn(2) == 0 {
		// a configuration of the same name with another ending, which must not be taken for this one
		decoy := Cfg{}
		for k, v := range cfg {
			decoy[k] = v
		}
		decoy["outputFolder"] = "decoy"
		stem := strings.TrimSuffix(name, filepath.Ext(name))
		for _, e := range []string{".json", ".yaml", ".yml", ""} {
			if e != filepath.Ext(name) {
				must(os.WriteFile(filepath.Join(home, stem+e), []byte(yamlOf(decoy)), 0o644))
			}
		}
		for _, e := range []string{".json", ".yaml", ".yml", ".toml"} { // and one of the whole name with an ending
			must(os.WriteFile(filepath.Join(home, name+e), []byte(yamlOf(decoy)), 0o644))
		}
		t.Count("decoys", 1)
	}
	run := func(conf, out string, c Cfg) *SimRun {
		o, err := execFile(t.Dir, conf)
		t.Count("simulator-runs", 1)
		if err != nil {
			t.Fail("the simulator ended with %v for %s\n%s\n%s", err, conf, yamlOf(c), tail(o, 1500))
		}
		if _, err := os.Stat(filepath.Join(home, "decoy")); err == nil {
			t.Fail("asked to run %s, the simulator ran another configuration of the same folder", conf)
		}
		d := map[string]interface{}{}
		for k, v := range c {
			d[k] = v
		}
		d["outputFolder"] = out
		r, err := readRun(outDir(home, d))
		if err != nil {
			t.Fail("no usable results (%v) for %s\n%s\n%s", err, conf, yamlOf(c), tail(o, 1500))
		}
		return r
	}
	if rng.Intn(3) == 0 { // a run that starts from the dump of another
		first := Cfg{}
		for k, v := range cfg {
			first[k] = v
		}
		first["outputFolder"] = "first"
		must(os.WriteFile(filepath.Join(home, "first.conf.yaml"), []byte(yamlOf(first)), 0o644))
		r := run(filepath.Join(home, "first.conf.yaml"), "first", first)
		cfg["loaddump"] = true
		cfg["loaddumpfilename"] = filepath.Join(r.Dir, "cache_dump.json.gz")
		if rng.Intn(2) == 0 {
			cfg["coldstart"] = true
		}
		t.Count("resumed-runs", 1)
	}
	logged := rng.Intn(2) == 0
	if logged {
		cfg["log"] = true
		t.Count("logged-runs", 1)
	}
	cfg["outputFolder"] = "a"
	conf := filepath.Join(home, name)
	must(os.WriteFile(conf, []byte(yamlOf(cfg)), 0o644))
	if rng.Intn(3) == 0 { // the result folder has the results of another configuration
		old := Cfg{}
		for k, v := range cfg {
			old[k] = v
		}
		old["cache.stats.maxNumDayDiff"], old["cache.stats.deltaDaysStep"] = 1., 1.
		old["cache.watermarks"] = true
		old["cache.watermark.high"], old["cache.watermark.low"] = 50., 20.
		old["window.size"], old["window.start"], old["window.stop"] = 1, 0, 3
		old["seed"] = 123456
		if real == "aiRL" {
			old["ai.rl.epsilon.decay"] = 0.5
		}
		must(os.WriteFile(filepath.Join(home, "old.yaml"), []byte(yamlOf(old)), 0o644))
		run(filepath.Join(home, "old.yaml"), "a", old)
		cfg["overwrite"] = true
		must(os.WriteFile(conf, []byte(yamlOf(cfg)), 0o644))
		t.Count("overwritten-runs", 1)
	}
	arg := conf
	if rng.Intn(2) == 0 {
		var err error
		arg, err = filepath.Rel(t.Dir, conf)
		must(err)
	}
	a := run(arg, "a", cfg)
	t.Eval(1)
	saved, err := os.ReadFile(filepath.Join(a.Dir, "config.yaml"))
	if err != nil {
		t.Fail("the run saved no configuration: %v\n%s", err, yamlOf(cfg))
	}
	t.Count("saved-configurations", 1)
	again := outLine.ReplaceAll(saved, []byte("${1} b"))
	if bytes.Equal(again, saved) {
		t.Fail("the saved configuration does not tell the output folder\n%s\nsaved:\n%s", yamlOf(cfg), saved)
	}
	savedName := filepath.Join(home, "saved.again.yaml")
	must(os.WriteFile(savedName, again, 0o644))
	b := run(savedName, "b", cfg)
	t.Eval(1)
	if d := t.runsDiffer(a, b, real == "aiRL"); d != "" {
		t.Fail("%s: the saved configuration gives another run: %s\n%s\nsaved:\n%s", typ, d, yamlOf(cfg), saved)
	}
	readLogFile := func(r *SimRun) ([]byte, error) {
		p := filepath.Join(r.Dir, "simulationLogFile.csv.gz")
		if _, err := os.Stat(p); err != nil {
			return nil, err
		}
		return gunzip(p), nil
	}
	la, ea := readLogFile(a)
	lb, eb := readLogFile(b)
	if (ea == nil) != (eb == nil) || logged != (ea == nil) || (logged && len(la) == 0) {
		t.Fail("%s: an event log was asked for: %v, it was written: %v, from the saved configuration: %v\n%s", typ, logged, ea == nil, eb == nil, yamlOf(cfg))
	}
	if !bytes.Equal(la, lb) {
		t.Fail("%s: the saved configuration gives another event log:\n%s\n%s", typ, firstDiff(la, lb), yamlOf(cfg))
	}
	del := 0
	for i := range a.Rows {
		var n int
		fmt.Sscan(a.cell(i, "num deleted"), &n)
		del += n
	}
	t.Count("evictions", del)
	t.Count("rows", len(a.Rows))
	t.Sig(typ, name, len(a.Rows), del/20)
	t.Sample(map[string]interface{}{"policy": typ, "name": name, "rows": len(a.Rows), "evictions": del})
}
