package main

import (
	"math"
	"math/rand"
)

// Universe is a set of files with fixed sizes.
type Universe struct {
	IDs  []int64
	Size map[int64]float64
	Cap  float64
}

func q64(x float64) float64 {
	v := math.Round(x*64) / 64
	if v <= 0 {
		v = 1. / 64
	}
	return v
}

// newUniverse draws file names and sizes (all multiples of 1/64 MB, so sums are exact).
func newUniverse(rng *rand.Rand, n int, capacity float64) *Universe {
	u := &Universe{Size: map[int64]float64{}, Cap: capacity}
	style := rng.Intn(5)
	idStyle := rng.Intn(3)
	for len(u.IDs) < n {
		var id int64
		switch idStyle {
		case 0:
			id = int64(len(u.IDs))
		case 1:
			id = int64(rng.Uint32())
		default:
			id = rng.Int63() - rng.Int63()
		}
		if _, dup := u.Size[id]; dup {
			continue
		}
		var s float64
		switch style {
		case 0:
			s = capacity / float64(4+rng.Intn(2))
		case 1:
			s = rng.Float64() * capacity / 6
		case 2:
			s = math.Pow(rng.Float64(), 4) * capacity
		case 3: // few distinct sizes: many ties
			s = float64(1+rng.Intn(3)) * capacity / 16
		default:
			s = rng.Float64() * capacity / 2
		}
		switch rng.Intn(40) {
		case 0:
			s = capacity
		case 1:
			s = capacity + 1./64
		case 2:
			s = capacity * 3
		case 3:
			s = 1. / 64
		}
		u.IDs = append(u.IDs, id)
		u.Size[id] = q64(s)
	}
	return u
}

// Trace draws request sequences with changing access patterns.
type Trace struct {
	U       *Universe
	rng     *rand.Rand
	pattern int
	left    int
	pos     int
	Day     int64
	DayStep int64 // mean seconds between requests
	hot     []int64
	cpu     bool
	Align   int64 // requests are dated at multiples of it
}

func newTrace(rng *rand.Rand, u *Universe, dayStep int64) *Trace {
	return &Trace{U: u, rng: rng, Day: 1514764800 + int64(rng.Intn(86400*30)), DayStep: dayStep, cpu: true}
}

func (t *Trace) pick() int64 {
	if t.left == 0 {
		t.pattern = t.rng.Intn(6)
		t.left = 5 + t.rng.Intn(60)
		k := 1 + t.rng.Intn(6)
		t.hot = t.hot[:0]
		for i := 0; i < k; i++ {
			t.hot = append(t.hot, t.U.IDs[t.rng.Intn(len(t.U.IDs))])
		}
	}
	t.left--
	n := len(t.U.IDs)
	switch t.pattern {
	case 0: // uniform
		return t.U.IDs[t.rng.Intn(n)]
	case 1: // skewed
		return t.U.IDs[int(math.Pow(t.rng.Float64(), 3)*float64(n))%n]
	case 2: // cyclic scan
		t.pos++
		return t.U.IDs[((t.pos%n)+n)%n]
	case 3: // hot set
		return t.hot[t.rng.Intn(len(t.hot))]
	case 4: // hot set with noise
		if t.rng.Intn(3) == 0 {
			return t.U.IDs[t.rng.Intn(n)]
		}
		return t.hot[t.rng.Intn(len(t.hot))]
	default: // backward scan
		t.pos--
		return t.U.IDs[((t.pos%n)+n)%n]
	}
}

// Next returns the next request.
func (t *Trace) Next() Req {
	id := t.pick()
	if t.DayStep > 0 && t.rng.Intn(3) > 0 {
		t.Day += int64(t.rng.Intn(int(2*t.DayStep) + 1))
	}
	day := t.Day
	if t.Align > 0 {
		day -= day % t.Align
	}
	r := Req{File: id, Size: t.U.Size[id], Day: day, Site: int64(t.rng.Intn(4)), User: int64(t.rng.Intn(5)), FType: int64(t.rng.Intn(5)), Proto: int64(t.rng.Intn(2))}
	if t.cpu {
		r.CPU = float64(t.rng.Intn(101))
		if t.rng.Intn(20) == 0 {
			r.Proto = 2
		}
	}
	return r
}

var boundedTypes = []string{"lru", "lfu", "sizeBig", "sizeSmall", "random_lru", "random", "weightFunLRU", "aiNN"}
var orderedTypes = []string{"lru", "lfu", "sizeBig", "sizeSmall"}
