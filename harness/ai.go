package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

// featureMapFiles writes an addition and an eviction feature map for files of the given size scale.
// catRecency is a single open bucket, so categories depend only on size and request count.
func featureMapFiles(dir string, rng *rand.Rand, scale float64) (add, evc string) {
	bs := func(n int, unit float64) string {
		var s []string
		v := 0.
		for i := 0; i < n; i++ {
			v += unit * (0.2 + rng.Float64())
			s = append(s, fmt.Sprintf("%.3f", v))
		}
		return strings.Join(s, ",")
	}
	bi := func(n int, unit int) string {
		var s []string
		v := 0
		for i := 0; i < n; i++ {
			v += 1 + rng.Intn(unit)
			s = append(s, fmt.Sprintf("%d", v))
		}
		return strings.Join(s, ",")
	}
	var feats []string
	feats = append(feats, fmt.Sprintf(`"size":{"type":"float","buckets":[%s],"openRight":true}`, bs(1+rng.Intn(3), scale/8)))
	feats = append(feats, fmt.Sprintf(`"numReq":{"type":"int","buckets":[%s],"openRight":true}`, bi(1+rng.Intn(3), 4)))
	if rng.Intn(2) == 0 {
		feats = append(feats, fmt.Sprintf(`"deltaLastRequest":{"type":"int","buckets":[%s],"openRight":true}`, bi(1+rng.Intn(2), 50)))
	}
	if rng.Intn(2) == 0 {
		feats = append(feats, `"percOcc":{"type":"float","buckets":[50,80],"openRight":true}`)
	}
	if rng.Intn(3) == 0 {
		feats = append(feats, `"hitRate":{"type":"float","buckets":[20,50],"openRight":true}`)
	}
	add = filepath.Join(dir, "add.json")
	must(os.WriteFile(add, []byte("{"+strings.Join(feats, ",")+"}"), 0o644))

	feats = feats[:0]
	feats = append(feats, fmt.Sprintf(`"catSize":{"type":"float","buckets":[%s],"openRight":true,"fileFeature":true}`, bs(1+rng.Intn(2), scale/8)))
	feats = append(feats, fmt.Sprintf(`"catNumReq":{"type":"int","buckets":[%s],"openRight":true,"fileFeature":true}`, bi(1+rng.Intn(2), 4)))
	feats = append(feats, `"catDeltaLastRequest":{"type":"int","buckets":[4000000000000000000],"openRight":true,"fileFeature":true}`)
	if rng.Intn(2) == 0 {
		feats = append(feats, `"catPercOcc":{"type":"float","buckets":[25,50],"openRight":true}`)
	}
	if rng.Intn(2) == 0 {
		feats = append(feats, `"percOcc":{"type":"float","buckets":[50,80],"openRight":true}`)
	}
	if rng.Intn(3) == 0 {
		feats = append(feats, `"hitRate":{"type":"float","buckets":[20,50],"openRight":true}`)
	}
	evc = filepath.Join(dir, "evc.json")
	must(os.WriteFile(evc, []byte("{"+strings.Join(feats, ",")+"}"), 0o644))
	return add, evc
}

// aiOpts fills the learning parameters. mode: scdl, add, onK, onDayEnd, onFree, evOnly-<x>
func aiOpts(o *Opts, dir string, rng *rand.Rand, mode string) {
	o.Type = "aiRL"
	add, evc := featureMapFiles(dir, rng, o.Size)
	o.P.AIRLType = "SCDL2"
	o.P.EvictionAgentType = "NONE"
	decays := []float64{0.0000042, 0.001, 0.05}
	o.P.AIRLAdditionEpsilonStart = 1
	o.P.AIRLAdditionEpsilonDecay = decays[rng.Intn(3)]
	o.P.AIRLAdditionEpsilonUnleash = rng.Intn(2) == 0
	o.P.AIRLEvictionEpsilonStart = 1
	o.P.AIRLEvictionEpsilonDecay = decays[rng.Intn(3)]
	o.P.AIRLEvictionEpsilonUnleash = rng.Intn(2) == 0
	o.P.AIRLEvictionK = int64(1 + rng.Intn(40))
	switch mode {
	case "scdl":
		o.P.AIRLType = "SCDL"
		o.P.AIRLAdditionFeatureMap = add
	case "add":
		o.P.AIRLAdditionFeatureMap = add
	default:
		evOnly := strings.HasPrefix(mode, "evOnly-")
		o.P.EvictionAgentType = strings.TrimPrefix(mode, "evOnly-")
		o.P.AIRLEvictionFeatureMap = evc
		if !evOnly {
			o.P.AIRLAdditionFeatureMap = add
		}
	}
}

var aiModes = []string{"scdl", "add", "onK", "onDayEnd", "onFree", "evOnly-onK", "evOnly-onDayEnd", "evOnly-onFree"}

// drawOpts draws a configuration of any bounded cache.
func drawOpts(dir string, rng *rand.Rand, u *Universe, typ string) (Opts, string) {
	o := Opts{Type: typ, Size: u.Cap, Seed: rng.Int63()}
	label := typ
	switch {
	case strings.HasPrefix(typ, "aiRL:"):
		aiOpts(&o, dir, rng, strings.TrimPrefix(typ, "aiRL:"))
	case typ == "aiNN":
		o.P.AIFeatureMap, _ = featureMapFiles(dir, rng, u.Cap)
	case typ == "weightFunLRU":
		o.WFunc = []string{"FuncAdditive", "FuncAdditiveExp", "FuncMultiplicative"}[rng.Intn(3)]
		g := func() float64 { return []float64{0, 0.5, 1, 1, 2}[rng.Intn(5)] }
		o.WParams.Alpha, o.WParams.Beta, o.WParams.Gamma = g(), g(), g()
		label += ":" + o.WFunc
	case typ == "lruDatasetVerifier":
		var keep []int64
		for _, id := range u.IDs {
			if rng.Intn(2) == 0 {
				keep = append(keep, id)
			}
		}
		o.Dataset = writeDataset(dir, keep)
	}
	return o, label
}
