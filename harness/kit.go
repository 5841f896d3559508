package main

import (
	"encoding/json"
	"math"
	"sort"

	"simulator/v2/cache"
	"simulator/v2/cache/files"
)

// ---- driving the code under test -------------------------------------------------

// Opts configures a cache instance.
type Opts struct {
	Type      string
	Size      float64 // megabytes
	Redirect  bool
	Gbit      float64
	Marks     bool
	High, Low float64
	Log       bool
	Seed      int64
	Region    string
	WFunc     string
	WParams   cache.WeightFunctionParameters
	Dataset   string
	MaxDay    float64
	DeltaDays float64
	P         cache.InitParameters // extra (AI) parameters
}

func newCache(o Opts) cache.Cache {
	if o.MaxDay == 0 {
		o.MaxDay = 6
	}
	if o.DeltaDays == 0 {
		o.DeltaDays = 7
	}
	if o.High == 0 {
		o.High = 95
	}
	if o.Low == 0 {
		o.Low = 75
	}
	if o.Gbit == 0 {
		o.Gbit = 10
	}
	if o.WFunc == "" {
		o.WFunc = "FuncAdditiveExp"
		o.WParams = cache.WeightFunctionParameters{Alpha: 1, Beta: 1, Gamma: 1}
	}
	c := cache.Create(o.Type, o.Size, "M", o.WFunc, o.WParams)
	p := o.P
	p.Log = o.Log
	p.RedirectReq = o.Redirect
	p.Watermarks = o.Marks
	p.HighWatermark = o.High
	p.LowWatermark = o.Low
	p.Dataset2TestPath = o.Dataset
	p.FunctionTypeString = o.WFunc
	p.WfParams = o.WParams
	p.RandSeed = o.Seed
	p.MaxNumDayDiff = o.MaxDay
	p.DeltaDaysStep = o.DeltaDays
	cache.InitInstance(o.Type, c, p)
	cache.SetRegion(c, o.Region)
	cache.SetBandwidth(c, o.Gbit)
	return c
}

// Req is one request.
type Req struct {
	File  int64
	Size  float64
	Proto int64
	CPU   float64
	Day   int64
	Site  int64
	User  int64
	FType int64
}

func ask(c cache.Cache, r Req) (added, redirected bool) {
	return cache.GetFile(c, r.File, r.Size, r.Proto, r.CPU, r.Day, r.Site, r.User, r.FType)
}

// Snap is everything observable about a cache instance.
type Snap struct {
	Size, Max, Cap                   float64
	NReq, NHit, NAdd, NDel, NRedir   int64
	RedirSize                        float64
	Written, Read, OnHit, OnMiss, Dl float64
	Files                            []files.Stats // worst first where the policy has an order
	Stats                            map[int64]files.Stats
}

func counters(c cache.Cache) Snap {
	return Snap{
		Size: cache.Size(c), Max: cache.GetMaxSize(c), Cap: cache.Capacity(c),
		NReq: cache.NumRequests(c), NHit: cache.NumHits(c), NAdd: cache.NumAdded(c), NDel: cache.NumDeleted(c),
		NRedir: cache.NumRedirected(c), RedirSize: cache.RedirectedSize(c),
		Written: cache.DataWritten(c), Read: cache.DataRead(c), OnHit: cache.DataReadOnHit(c), OnMiss: cache.DataReadOnMiss(c), Dl: cache.DataDeleted(c),
	}
}

// snap returns counters plus contents (through the public dump).
func snap(c cache.Cache) Snap {
	s := counters(c)
	s.Files, s.Stats, _ = parseDump(c.Dumps(true))
	return s
}

func parseDump(recs [][]byte) (fs []files.Stats, st map[int64]files.Stats, other map[string]string) {
	st = map[int64]files.Stats{}
	other = map[string]string{}
	for _, r := range recs {
		var rec cache.DumpRecord
		var info cache.DumpInfo
		must(json.Unmarshal(r, &rec))
		must(json.Unmarshal([]byte(rec.Info), &info))
		switch info.Type {
		case "FILES":
			var f files.Stats
			must(json.Unmarshal([]byte(rec.Data), &f))
			fs = append(fs, f)
		case "STATS":
			var f files.Stats
			must(json.Unmarshal([]byte(rec.Data), &f))
			st[f.Filename] = f
		default:
			other[info.Type] = rec.Data
		}
	}
	return fs, st, other
}

func ids(fs []files.Stats) []int64 {
	out := make([]int64, len(fs))
	for i, f := range fs {
		out[i] = f.Filename
	}
	return out
}

func sortedIDs(in []int64) []int64 {
	out := append([]int64(nil), in...)
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func eqIDs(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func near(a, b float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	return math.Abs(a-b) <= 1e-6+1e-9*math.Max(math.Abs(a), math.Abs(b))
}

// ---- reference model ---------------------------------------------------------------

// MFile is the model's view of one file.
type MFile struct {
	ID         int64
	Size       float64
	Freq       int64
	NHit, Miss int64
	Last       int64 // unix seconds of the last processed request
	First      int64
	Seq        int64 // logical time of the last processed request
}

// Model is the reference cache: a plain map ordered on demand.
type Model struct {
	Policy   string
	Max      float64
	Size     float64
	In       map[int64]*MFile
	Stats    map[int64]*MFile
	Seq      int64
	Evicted  []int64 // during the last operation
	EvictLog int
	// cleaning of old statistics
	MaxDay, DeltaDays float64
	First, Last       int64
	HaveFirst         bool
}

func newModel(policy string, max float64) *Model {
	return &Model{Policy: policy, Max: max, In: map[int64]*MFile{}, Stats: map[int64]*MFile{}, MaxDay: 6, DeltaDays: 7}
}

// less is "a is worse (evicted earlier) than b".
func (m *Model) less(a, b *MFile) bool {
	switch m.Policy {
	case "lfu":
		if a.Freq != b.Freq {
			return a.Freq < b.Freq
		}
	case "sizeBig":
		if a.Size != b.Size {
			return a.Size > b.Size
		}
	case "sizeSmall":
		if a.Size != b.Size {
			return a.Size < b.Size
		}
	}
	return a.Seq < b.Seq
}

// Order returns resident files, worst first.
func (m *Model) Order() []*MFile {
	out := make([]*MFile, 0, len(m.In))
	for _, f := range m.In {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return m.less(out[i], out[j]) })
	return out
}

// Free evicts the minimal worst-first prefix holding at least amount.
func (m *Model) Free(amount float64) float64 {
	var got float64
	if amount <= 0 {
		return 0
	}
	for _, f := range m.Order() {
		if got >= amount {
			break
		}
		got += f.Size
		delete(m.In, f.ID)
		m.Size -= f.Size
		m.Evicted = append(m.Evicted, f.ID)
	}
	return got
}

// Request serves one request; admit says whether a miss may be stored.
func (m *Model) Request(r Req, admit bool) (hit, added bool) {
	m.Evicted = m.Evicted[:0]
	m.Seq++
	f := m.Stats[r.File]
	if f == nil {
		f = &MFile{ID: r.File, First: r.Day}
		m.Stats[r.File] = f
	}
	_, hit = m.In[r.File]
	f.Size = r.Size
	f.Freq++
	f.Last = r.Day
	f.Seq = m.Seq
	if hit {
		f.NHit++
	} else {
		f.Miss++
	}
	if !m.HaveFirst {
		m.HaveFirst = true
		m.First = r.Day
	}
	m.Last = r.Day
	if !hit && admit {
		if m.Size+r.Size > m.Max {
			m.Free(r.Size)
		}
		if m.Size+r.Size <= m.Max {
			m.In[r.File] = f
			m.Size += r.Size
			added = true
		}
	}
	m.clean()
	return hit, added
}

// clean forgets statistics of old files that are not stored.
func (m *Model) clean() {
	if float64(m.Last-m.First)/86400. >= m.DeltaDays {
		for id, f := range m.Stats {
			if _, in := m.In[id]; !in && float64(m.Last-f.Last)/86400. >= m.MaxDay {
				delete(m.Stats, id)
			}
		}
		m.First = m.Last
	}
}

func (m *Model) orderIDs() []int64 {
	var out []int64
	for _, f := range m.Order() {
		out = append(out, f.ID)
	}
	return out
}
