package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Schedules: the simulator under the race detector and under different numbers of processors.

func init() {
	register(&Prop{
		ID: "C23", Quick: 51, Deep: 680, Run: runC23, CaseTimeout: 600,
		NeedEvents: []string{"race-runs", "plain-runs", "log-events", "evictions", "category-runs", "folder", "gzip", "records"},
		Rule:       "one evaluation = one simulator run under the race detector (any report fails) or one comparison of all its outputs, event log included, with a run under another schedule; distinct = distinct (policy, packaging, processors, rows, evictions bucket)",
	})
}

// outputs are the files a run leaves that must not depend on the schedule.
type outputs struct {
	run *SimRun
	log []byte
	sum string
}

// scheduled runs the simulator in its own directory under a schedule.
func (t *T) scheduled(bin, dir string, cfg Cfg, env ...string) *outputs {
	must(os.MkdirAll(dir, 0o755))
	p := filepath.Join(dir, "conf.yml")
	must(os.WriteFile(p, []byte(yamlOf(cfg)), 0o644))
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "sim", p)
	cmd.Dir = dir
	cmd.Env = append(append(os.Environ(), "TZ=UTC", "GORACE=halt_on_error=1 exitcode=66"), env...)
	b, err := cmd.CombinedOutput()
	out := string(b)
	if i := strings.Index(out, "WARNING: DATA RACE"); i >= 0 {
		t.Fail("data race during the simulation of %s\n%s", yamlOf(cfg), clip(out[i:], 2500))
	}
	if ctx.Err() != nil {
		t.Fail("the simulation of a small log did not finish within 150 s (env %v): %s\n%s", env, yamlOf(cfg), tail(out, 800))
	}
	if err != nil {
		t.Fail("the simulator ended with %v (env %v) for %s\n%s", err, env, yamlOf(cfg), tail(out, 2500))
	}
	r, err := readRun(outDir(dir, cfg))
	if err != nil {
		t.Fail("no usable results (%v) for %s\n%s", err, yamlOf(cfg), tail(out, 1500))
	}
	o := &outputs{run: r}
	o.log = gunzip(filepath.Join(r.Dir, "simulationLogFile.csv.gz"))
	fs, st, _ := readDump(filepath.Join(r.Dir, "cache_dump.json.gz"))
	js, _ := json.Marshal(st)
	o.sum = fmt.Sprint(sortedIDs(ids(fs)), string(js))
	for _, q := range []string{"additionQTable.csv", "evictionQTable.csv"} {
		if b, err := os.ReadFile(filepath.Join(r.Dir, q)); err == nil {
			o.sum += string(b)
		}
	}
	return o
}

func runC23(t *T) {
	rng := t.Rng
	u := newUniverse(rng, 10+rng.Intn(40), drawCap(rng))
	typ := policies[t.Case%len(policies)]
	real := strings.SplitN(typ, ":", 2)[0]
	big := rng.Intn(3) == 0
	days, perDay := 3+rng.Intn(4), 60
	if big { // more records than the reader's buffer, more lines than the log writer's
		days, perDay = 3, 1500
	}
	recs := drawRecords(rng, u, days, perDay, rng.Intn(2) == 0)
	cfg, _ := drawSim(rng, u, real, perDay)
	cfg["dump"] = true
	cfg["dumpfilesandstats"] = true
	cfg["log"] = true
	t.policyConf(typ, u, cfg)
	if real == "infinite" { // its watermark clean-up would evict in no defined order
		delete(cfg, "cache.watermarks")
	}
	if rng.Intn(4) == 0 { // stop before the end of the log: the readers are left behind
		cfg["window.size"], cfg["window.stop"] = 1, days-1
	}
	for k, v := range cfg { // each run has its own directory
		if s, ok := v.(string); ok && (strings.HasSuffix(s, ".json") || strings.HasSuffix(s, ".json.gz")) && !filepath.IsAbs(s) {
			cfg[k] = filepath.Join(t.Dir, s)
		}
	}
	pack := t.Case / len(policies) % 3
	switch pack {
	case 0:
		writeCSV(filepath.Join(t.Dir, "data.csv.gz"), recs, csvColumns)
		cfg["data"] = filepath.Join(t.Dir, "data.csv.gz")
		t.Count("gzip", 1)
	case 1:
		d := filepath.Join(t.Dir, "logs")
		must(os.Mkdir(d, 0o755))
		for i, n := 0, 0; i < len(recs); n++ {
			j := i + 1 + rng.Intn(len(recs)/3+1)
			if j > len(recs) {
				j = len(recs)
			}
			writeCSV(filepath.Join(d, fmt.Sprintf("part-%03d%s", n, []string{".csv", ".csv.gz"}[rng.Intn(2)])), recs[i:j], csvColumns)
			i = j
		}
		cfg["data"] = d
		t.Count("folder", 1)
	default:
		writeCSV(filepath.Join(t.Dir, "data.csv"), recs, csvColumns)
		cfg["data"] = filepath.Join(t.Dir, "data.csv")
	}
	procs := []int{2, 4, 8}[rng.Intn(3)]
	a := t.scheduled(os.Getenv("SIM_RACE_BIN"), filepath.Join(t.Dir, "race"), cfg, fmt.Sprintf("GOMAXPROCS=%d", procs))
	t.Count("race-runs", 1)
	t.Eval(1)
	t.Count("records", len(recs))
	t.Count("log-events", bytes.Count(a.log, []byte("\n")))
	del := bytes.Count(a.log, []byte(",DELETE,"))
	t.Count("evictions", del)
	t.Count("category-runs", bytes.Count(a.log, []byte(",ONK,"))+bytes.Count(a.log, []byte(",ONFREE,"))+bytes.Count(a.log, []byte(",ONDAYEND,")))
	t.Sig(typ, pack, procs, len(a.run.Rows), del/50)
	for i, env := range [][]string{{"GOMAXPROCS=1", "GOGC=5"}, {"GOMAXPROCS=8"}} {
		b := t.scheduled(simBin(), filepath.Join(t.Dir, fmt.Sprintf("plain%d", i)), cfg, env...)
		t.Count("plain-runs", 1)
		if real == "random" { // a recorded finding of C18: its evictions are not seeded
			continue
		}
		t.Eval(1)
		ra, rb := mustRead(filepath.Join(a.run.Dir, "simulation_results.csv")), mustRead(filepath.Join(b.run.Dir, "simulation_results.csv"))
		switch {
		case !bytes.Equal(ra, rb):
			t.Fail("%s: the daily results depend on the schedule (%v):\n%s\n%s", typ, env, firstDiff(ra, rb), yamlOf(cfg))
		case a.run.Stats != b.run.Stats:
			t.Fail("%s: the run statistics depend on the schedule (%v): %+v %+v\n%s", typ, env, a.run.Stats, b.run.Stats, yamlOf(cfg))
		case !bytes.Equal(a.log, b.log):
			t.Fail("%s: the event log depends on the schedule (%v):\n%s\n%s", typ, env, firstDiff(a.log, b.log), yamlOf(cfg))
		case a.sum != b.sum:
			t.Fail("%s: the dumped state depends on the schedule (%v):\n%s\n%s", typ, env, firstDiff([]byte(a.sum), []byte(b.sum)), yamlOf(cfg))
		}
	}
	t.Sample(map[string]interface{}{"policy": typ, "records": len(recs), "log_lines": bytes.Count(a.log, []byte("\n")), "processors": procs})
}
