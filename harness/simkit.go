package main

import (
	"bytes"
	"compress/gzip"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"simulator/v2/cache/files"
)

// ---- reference simulation -----------------------------------------------------------

// RefSim is the reference for a whole cache: contents, counters, daily metrics.
type RefSim struct {
	M                                   *Model
	Redirect                            bool
	Daily                               float64 // daily bandwidth, MB
	Marks                               bool
	High, Low                           float64
	Region                              string
	NReq, NHit, NAdd, NDel, NRedir      int64
	RedirMB, Written, Read, OnHit, OnMs float64
	Dl                                  float64
	upper, lower, hitCPU, missCPU       float64
	nLocal, nRemote, nHitD, nMissD      int64
	free                                []float64
	D                                   map[int64]bool
	missAfterDel                        int64
}

func newRefSim(policy string, max float64) *RefSim {
	return &RefSim{M: newModel(policy, max), Daily: 10 * 10800000, D: map[int64]bool{}, High: 95, Low: 75}
}

func (s *RefSim) usage() float64 { return s.OnMs / s.Daily * 100 }

func (s *RefSim) boundDiff() float64 {
	switch s.Region {
	case "":
		d := s.upper/float64(s.nLocal) - s.lower/float64(s.nRemote)
		if !math.IsNaN(d) && d > 0 {
			return d
		}
		return 0
	case "it":
		return 19
	case "us":
		return 10
	}
	return 0
}

func (s *RefSim) round(evicted []int64) {
	s.D = map[int64]bool{}
	for _, id := range evicted {
		s.D[id] = true
	}
}

// Request serves r as the property statements describe.
func (s *RefSim) Request(r Req) (hit, added, redirected bool) {
	_, hit = s.M.In[r.File]
	if !hit && s.D[r.File] {
		s.missAfterDel++
	}
	if !hit && s.Redirect && s.usage() >= 95 {
		s.NRedir++
		s.RedirMB += r.Size
		return false, false, true
	}
	room := !hit && s.M.Size+r.Size > s.M.Max
	b0 := s.M.Size
	hit, added = s.M.Request(r, true)
	if room {
		s.round(s.M.Evicted)
	}
	s.NReq++
	s.NDel += int64(len(s.M.Evicted))
	del := b0 - s.M.Size
	if added {
		del += r.Size
		s.NAdd++
		s.Written += r.Size
	}
	s.Dl += del
	s.Read += r.Size
	cur := 0.
	if r.CPU != 0 {
		if r.Proto == 1 {
			s.upper += r.CPU
			s.nLocal++
			cur = r.CPU
		} else if r.Proto == 0 {
			s.lower += r.CPU
			s.nRemote++
			cur = r.CPU + s.boundDiff()
		}
	}
	if hit {
		s.NHit++
		s.OnHit += r.Size
		s.nHitD++
		s.hitCPU += cur
	} else {
		s.OnMs += r.Size
		s.nMissD++
		if cur != 0 {
			s.missCPU += cur - s.boundDiff()
		}
	}
	s.free = append(s.free, s.M.Max-s.M.Size)
	if s.Marks {
		if p := s.M.Size / s.M.Max * 100; p >= s.High {
			s.M.Evicted = s.M.Evicted[:0]
			got := s.M.Free((p - s.Low) * s.M.Max / 100)
			s.NDel += int64(len(s.M.Evicted))
			s.Dl += got
			s.round(s.M.Evicted)
		}
	}
	return hit, added, false
}

// Reset is the end of a day.
func (s *RefSim) Reset() {
	s.NReq, s.NHit, s.NAdd, s.NDel, s.NRedir = 0, 0, 0, 0, 0
	s.RedirMB, s.Written, s.Read, s.OnHit, s.OnMs, s.Dl = 0, 0, 0, 0, 0, 0
	s.upper, s.lower, s.hitCPU, s.missCPU = 0, 0, 0, 0
	s.nLocal, s.nRemote, s.nHitD, s.nMissD = 0, 0, 0, 0
	s.free = s.free[:0]
}

func (s *RefSim) freeStats() (mean, sd float64) {
	var sum float64
	for _, v := range s.free {
		sum += v
	}
	mean = sum / float64(len(s.free))
	var q float64
	for _, v := range s.free {
		q += (v - mean) * (v - mean)
	}
	return mean, math.Sqrt(q / float64(len(s.free)-1))
}

// Row is the expected daily line (without the date), by column name.
func (s *RefSim) Row() map[string]float64 {
	hr := 0.
	if s.NReq > 0 {
		hr = 100 * float64(s.NHit) / float64(s.NReq)
	}
	mean, sd := s.freeStats()
	r := map[string]float64{
		"num req": float64(s.NReq), "num hit": float64(s.NHit), "num added": float64(s.NAdd), "num deleted": float64(s.NDel),
		"num redirected": float64(s.NRedir), "num miss after delete": float64(s.missAfterDel), "size redirected": s.RedirMB,
		"cache size": s.M.Max, "size": s.M.Size, "capacity": s.M.Size / s.M.Max * 100, "bandwidth": s.Daily,
		"bandwidth usage": s.usage(), "hit rate": hr, "weighted hit rate": hr * s.OnHit, "written data": s.Written,
		"read data": s.Read, "read on hit data": s.OnHit, "read on miss data": s.OnMs, "deleted data": s.Dl,
		"avg free space": mean, "std dev free space": sd,
		"CPU efficiency":             (s.hitCPU + s.missCPU) / float64(s.nHitD+s.nMissD),
		"CPU hit efficiency":         s.hitCPU / float64(s.nHitD),
		"CPU miss efficiency":        s.missCPU / float64(s.nMissD),
		"CPU efficiency upper bound": s.upper / float64(s.nLocal),
		"CPU efficiency lower bound": s.lower / float64(s.nRemote),
	}
	return r
}

var rowColumns = []string{"date", "num req", "num hit", "num added", "num deleted", "num redirected", "num miss after delete", "size redirected",
	"cache size", "size", "capacity", "bandwidth", "bandwidth usage", "hit rate", "weighted hit rate", "written data", "read data",
	"read on hit data", "read on miss data", "deleted data", "avg free space", "std dev free space", "CPU efficiency",
	"CPU hit efficiency", "CPU miss efficiency", "CPU efficiency upper bound", "CPU efficiency lower bound"}

func sameCell(col, got string, want float64) bool {
	g, err := strconv.ParseFloat(got, 64)
	if err != nil {
		return false
	}
	if math.IsNaN(g) || math.IsNaN(want) {
		return math.IsNaN(g) && math.IsNaN(want)
	}
	tol := 2e-6 + 1e-8*math.Abs(want)
	if col == "hit rate" || col == "weighted hit rate" {
		tol = 0.006 + 1e-8*math.Abs(want)
	}
	return math.Abs(g-want) <= tol
}

// ---- data sets ------------------------------------------------------------------------

// Rec is one job log record.
type Rec struct {
	Req
	Bytes                   float64
	Exit                    int64
	Success                 bool
	CPUTime, IOTime         float64
	DataType, Region        int64
	CPURaw, IORaw, SuccText string
}

var csvColumns = strings.Split("Filename,SiteName,UserID,TaskID,TaskMonitorID,JobID,Protocol,JobExecExitCode,JobStart,JobEnd,NumCPU,WrapWC,WrapCPU,Size,DataType,FileType,JobLengthH,JobLengthM,JobSuccess,CPUTime,IOTime,reqDay,Region,Campaign,Process", ",")

func (r Rec) field(name string) string {
	switch name {
	case "Filename":
		return strconv.FormatInt(r.File, 10)
	case "SiteName":
		return strconv.FormatInt(r.Site, 10)
	case "UserID":
		return strconv.FormatInt(r.User, 10)
	case "Protocol":
		return strconv.FormatInt(r.Proto, 10)
	case "JobExecExitCode":
		return strconv.FormatInt(r.Exit, 10)
	case "Size":
		return strconv.FormatFloat(r.Bytes, 'f', 1, 64)
	case "DataType":
		return strconv.FormatInt(r.DataType, 10)
	case "FileType":
		return strconv.FormatInt(r.FType, 10)
	case "JobSuccess":
		return r.SuccText
	case "CPUTime":
		return r.CPURaw
	case "IOTime":
		return r.IORaw
	case "reqDay":
		return strconv.FormatFloat(float64(r.Day), 'f', 1, 64)
	case "Region":
		return strconv.FormatInt(r.Region, 10)
	case "TaskID", "TaskMonitorID", "JobID", "Campaign", "Process", "NumCPU":
		return strconv.FormatInt(r.File%97+7, 10)
	case "JobStart", "JobEnd":
		return strconv.FormatInt(r.Day-100, 10)
	}
	return "12.5"
}

// success, invalid and cpu are the documented record rules.
func (r Rec) success() bool { return r.Success && r.Exit == 0 }

func (r Rec) cpuEff() (eff float64, valid bool) {
	eff = r.CPUTime / (r.CPUTime + r.IOTime) * 100
	return eff, !(math.IsNaN(eff) || math.IsInf(eff, 0) || eff < 0 || eff > 100)
}

// regionOK says whether the region's selection keeps the record.
func (r Rec) regionOK(region string) bool {
	switch region {
	case "us":
		return (r.DataType == 0 || r.DataType == 3) && (r.FType == 2 || r.FType == 9) && r.Site < 9
	case "it":
		return r.DataType == 0 || r.DataType == 1
	}
	return true
}

// drawRecords draws a log over several days.
func drawRecords(rng *rand.Rand, u *Universe, days, perDay int, dirty bool) []Rec {
	var out []Rec
	tr := newTrace(rng, u, 0)
	day := int64(1514764800) + int64(rng.Intn(300))*86400
	for d := 0; d < days; d++ {
		n := perDay/2 + rng.Intn(perDay+1)
		if dirty && rng.Intn(8) == 0 {
			n = rng.Intn(3)
		}
		intra := rng.Intn(2) == 0
		for i := 0; i < n; i++ {
			r := Rec{Req: tr.Next()}
			r.Day = day
			if intra {
				r.Day += int64(float64(i) / float64(n) * 3600)
			}
			r.Bytes = r.Size * 1024 * 1024
			r.Success, r.Exit = true, 0
			r.SuccText = []string{"true", "True", "1", "TRUE"}[rng.Intn(4)]
			r.CPUTime = float64(rng.Intn(4000)) / 4
			r.IOTime = float64(1+rng.Intn(2000)) / 4
			if rng.Intn(10) == 0 {
				r.CPUTime = 0
			}
			r.DataType = int64(rng.Intn(2)) * 3
			r.FType = []int64{2, 9}[rng.Intn(2)]
			r.Site = int64(rng.Intn(9))
			if dirty {
				switch rng.Intn(12) {
				case 0:
					r.Success, r.SuccText = false, []string{"false", "False", "0"}[rng.Intn(3)]
				case 1:
					r.Exit = int64(rng.Intn(3)*50 - 50)
				case 2:
					r.IOTime, r.CPUTime = 0, 0 // undefined efficiency
				case 3:
					r.CPUTime = -1 - float64(rng.Intn(50))
				case 4:
					r.CPUTime, r.IOTime = 100, -float64(1+rng.Intn(99)) // above 100%
				case 5:
					r.CPUTime, r.IOTime = 10, -10 // infinite
				case 6, 7:
					r.DataType = int64(rng.Intn(6) - 1)
				case 8:
					r.FType = int64(rng.Intn(13) - 1)
				case 9:
					r.Site = int64(rng.Intn(20))
				case 10:
					r.CPUTime, r.IOTime = 50, 0 // exactly 100%
				}
			}
			r.CPURaw = strconv.FormatFloat(r.CPUTime, 'f', -1, 64)
			r.IORaw = strconv.FormatFloat(r.IOTime, 'f', -1, 64)
			r.Proto = int64(rng.Intn(2))
			out = append(out, r)
		}
		gap := int64(1)
		if rng.Intn(6) == 0 {
			gap = int64(2 + rng.Intn(5))
		}
		day += gap * 86400
		if intra && rng.Intn(3) == 0 {
			day += 3600
		}
		switch rng.Intn(10) {
		case 0:
			day -= 3600 // exactly 23 hours later when the gap is one day
		case 1:
			day -= 3601 // one second short of it
		}
	}
	return out
}

func writeCSV(path string, recs []Rec, cols []string) {
	var buf bytes.Buffer
	w := csv.NewWriter(&buf)
	must(w.Write(cols))
	for _, r := range recs {
		row := make([]string, len(cols))
		for i, c := range cols {
			row[i] = r.field(c)
		}
		must(w.Write(row))
	}
	w.Flush()
	data := buf.Bytes()
	if strings.HasSuffix(path, ".gz") {
		var z bytes.Buffer
		zw := gzip.NewWriter(&z)
		zw.Write(data)
		must(zw.Close())
		data = z.Bytes()
	}
	must(os.WriteFile(path, data, 0o644))
}

// ---- running the simulator --------------------------------------------------------------

// Cfg is a simulator configuration: dotted keys below sim.
type Cfg map[string]interface{}

func yamlOf(cfg Cfg) string {
	root := map[string]interface{}{}
	var keys []string
	for k := range cfg {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		parts := strings.Split(k, ".")
		m := root
		for _, p := range parts[:len(parts)-1] {
			n, ok := m[p].(map[string]interface{})
			if !ok {
				n = map[string]interface{}{}
				m[p] = n
			}
			m = n
		}
		m[parts[len(parts)-1]] = cfg[k]
	}
	b, err := json.Marshal(map[string]interface{}{"sim": root}) // JSON is YAML
	must(err)
	return string(b)
}

// SimRun is what a simulator run left behind.
type SimRun struct {
	Dir    string
	Header []string
	Rows   [][]string
	Stats  struct {
		Extra                 string  `json:"extra"`
		TotNumRecords         int64   `json:"totNumRecords"`
		TotJumpedRecords      int64   `json:"totJumpedRecords"`
		TotInvalidRecords     int64   `json:"totInvalidRecords"`
		TotFilteredRecords    int64   `json:"totFilteredRecords"`
		TotRedirectedRecords  int64   `json:"totRedirectedRecords"`
		SizeRedirectedRecords float64 `json:"sizeRedirectedRecords"`
	}
	Log string
}

func (r *SimRun) cell(i int, col string) string {
	for k, h := range r.Header {
		if h == col {
			return r.Rows[i][k]
		}
	}
	return "(no column " + col + ")"
}

func simBin() string {
	b := os.Getenv("SIM_BIN")
	if b == "" {
		panic("SIM_BIN is not set")
	}
	return b
}

// execSim runs the simulator binary with the configuration; err is a non-zero exit.
func execSim(dir, name string, cfg Cfg, extraEnv ...string) (string, error) {
	p := filepath.Join(dir, name+".yml")
	must(os.WriteFile(p, []byte(yamlOf(cfg)), 0o644))
	return execFile(dir, p, extraEnv...)
}

// execFile runs the simulator in a folder on a configuration file.
func execFile(dir, p string, extraEnv ...string) (string, error) {
	cmd := exec.Command(simBin(), "sim", p)
	cmd.Dir = dir
	cmd.Env = append(append(os.Environ(), "TZ=UTC"), extraEnv...)
	out, err := cmd.CombinedOutput()
	return string(out), err
}

func readRun(dir string) (*SimRun, error) {
	r := &SimRun{Dir: dir}
	f, err := os.Open(filepath.Join(dir, "simulation_results.csv"))
	if err != nil {
		return nil, err
	}
	defer f.Close()
	all, err := csv.NewReader(f).ReadAll()
	if err != nil && err != io.EOF {
		return nil, err
	}
	if len(all) == 0 {
		return nil, fmt.Errorf("empty results file")
	}
	r.Header, r.Rows = all[0], all[1:]
	b, err := os.ReadFile(filepath.Join(dir, "simulation_run_stats.json"))
	if err != nil {
		return nil, err
	}
	return r, json.Unmarshal(b, &r.Stats)
}

// baseName is the documented output folder of a run.
func baseName(cfg Cfg) string {
	size, unit, bw, region := 100., "T", 10., "all"
	get := func(k string, p *float64) {
		if v, ok := cfg[k]; ok {
			*p = v.(float64)
		}
	}
	get("cache.size.value", &size)
	get("cache.bandwidth.value", &bw)
	if v, ok := cfg["cache.size.unit"]; ok {
		unit = v.(string)
	}
	if v, ok := cfg["region"]; ok {
		region = v.(string)
	}
	typ := cfg["cache.type"].(string)
	tail := fmt.Sprintf("%0.0f%s_%0.0fGbit_%s", size, strings.ToUpper(unit), bw, region)
	if typ == "weightFunLRU" {
		def := func(key string, v interface{}) interface{} {
			if x, ok := cfg[key]; ok {
				return x
			}
			return v
		}
		return fmt.Sprintf("weightFunLRU_%s_%0.2f_%0.2f_%0.2f", def("weightfunc.name", "FuncAdditiveExp"), def("weightfunc.alpha", 1.), def("weightfunc.beta", 1.), def("weightfunc.gamma", 1.))
	}
	if typ == "aiRL" {
		sub := "SCDL2"
		if v, ok := cfg["ai.rl.type"]; ok {
			sub = v.(string)
		}
		if sub == "SCDL2" {
			e := "onK"
			if v, ok := cfg["ai.rl.eviction.type"]; ok {
				e = v.(string)
			}
			sub += "-" + e
		}
		typ += "_" + sub
	}
	return typ + "_" + tail
}

func outDir(dir string, cfg Cfg) string {
	o, _ := cfg["outputFolder"].(string)
	if o == "" {
		o = "."
	}
	if !filepath.IsAbs(o) {
		o = filepath.Join(dir, o)
	}
	return filepath.Join(o, "run_full_normal", baseName(cfg))
}

// sim runs the simulator and fails the case when it does not finish properly.
func (t *T) sim(dir, name string, cfg Cfg, env ...string) *SimRun {
	out, err := execSim(dir, name, cfg, env...)
	t.Count("simulator-runs", 1)
	if err != nil {
		t.Fail("the simulator ended with %v for %s\n%s", err, yamlOf(cfg), tail(out, 1500))
	}
	r, err := readRun(outDir(dir, cfg))
	if err != nil {
		t.Fail("no usable results (%v) for %s\n%s", err, yamlOf(cfg), tail(out, 1500))
	}
	r.Log = out
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// RefRun is the expected outcome of a simulation.
type RefRun struct {
	Dates                            []time.Time
	Rows                             []map[string]float64
	Total, Jumped, Filtered, Invalid int64
	Redirected, Served               int64
	RedirMB                          float64
	ServedIdx                        []int
	Left                             int64 // served but in the unfinished day
	Broke                            bool
	HoursAmbiguous                   bool
}

// refRun replays a log through the reference simulation.
func refRun(s *RefSim, recs []Rec, region string, wSize, wStart, wStop int) *RefRun {
	o := &RefRun{}
	var latest int64
	have := false
	step, win := 0, 0
	for i, r := range recs {
		if !have {
			have, latest = true, r.Day
		}
		if r.Day-latest >= 23*3600 {
			if win >= wStart {
				o.Dates = append(o.Dates, time.Unix(latest, 0))
				o.Rows = append(o.Rows, s.Row())
				s.missAfterDel = 0
			}
			s.Reset()
			o.Left = 0
			latest = r.Day
			step++
		}
		if step == wSize {
			win++
			step = 0
		}
		if win == wStop {
			o.Broke = true
			break
		}
		o.Total++
		if win < wStart {
			o.Jumped++
			continue
		}
		if !r.success() || !r.regionOK(region) {
			o.Filtered++
			continue
		}
		eff, ok := r.cpuEff()
		if !ok {
			o.Invalid++
			continue
		}
		q := r.Req
		q.CPU = eff
		_, _, red := s.Request(q)
		if red {
			o.Redirected++
			o.RedirMB += q.Size
			continue
		}
		o.Served++
		o.Left++
		o.ServedIdx = append(o.ServedIdx, i)
	}
	return o
}

type fileStats = files.Stats

func utc(s int64) string { return time.Unix(s, 0).UTC().Format("2006-01-02 15:04:05") }

func gunzip(path string) []byte {
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	z, err := gzip.NewReader(f)
	must(err)
	b, err := io.ReadAll(z)
	must(err)
	return b
}
