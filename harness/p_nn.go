package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"math"
	"os"
	"path/filepath"

	"simulator/v2/cache/ai/neuralnet"

	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Prop{ID: "C39", Quick: 15000, Deep: 200000, Run: runC39,
		Rule:       "one evaluation = one output entry of a prediction, or one predicted class, compared with the feed-forward evaluation done in the monitor",
		NeedEvents: []string{"predictions", "softmax outputs", "column outputs", "hard_sigmoid clipped", "gzip models", "json models", "classes other than 0"}})
}

// runC39: a network read from a file predicts what the file says.
func runC39(t *T) {
	rng := t.Rng
	type part struct {
		Shape  []int       `json:"shape"`
		Values interface{} `json:"values"`
	}
	type layer struct {
		Name       string `json:"name"`
		Weights    part   `json:"weights"`
		Bias       part   `json:"bias"`
		Activation string `json:"activation_function"`
	}
	dims := []int{1 + rng.Intn(6)}
	for k := 1 + rng.Intn(4); k > 0; k-- {
		dims = append(dims, 1+rng.Intn(6))
	}
	if rng.Intn(5) == 0 { // wide layers
		dims[rng.Intn(len(dims))] = 7 + rng.Intn(40)
		dims[len(dims)-1] = 7 + rng.Intn(20)
	}
	scale := []float64{0.3, 1, 4}[rng.Intn(3)]
	var layers []layer
	var W [][][]float64
	var B [][]float64
	for l := 1; l < len(dims); l++ {
		w := make([][]float64, dims[l-1])
		for i := range w {
			w[i] = make([]float64, dims[l])
			for j := range w[i] {
				w[i][j] = rng.NormFloat64() * scale
				if rng.Intn(10) == 0 {
					w[i][j] = 0
				}
			}
		}
		b := make([]float64, dims[l])
		for j := range b {
			b[j] = rng.NormFloat64() * scale
		}
		act := []string{"sigmoid", "hard_sigmoid"}[rng.Intn(2)]
		if l == len(dims)-1 && rng.Intn(2) == 0 {
			act = "softmax"
		}
		layers = append(layers, layer{"dense", part{[]int{dims[l-1], dims[l]}, w}, part{[]int{dims[l]}, b}, act})
		W, B = append(W, w), append(B, b)
	}
	buf, err := json.MarshalIndent(map[string]interface{}{"name": "DonkeyModel", "layers": layers}, "", "  ")
	must(err)
	path := filepath.Join(t.Dir, "m.dump.json")
	if rng.Intn(2) == 0 {
		path += []string{".gz", ".gzip"}[rng.Intn(2)]
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		w.Write(buf)
		must(w.Close())
		buf = z.Bytes()
		t.Count("gzip models", 1)
	} else {
		t.Count("json models", 1)
	}
	must(os.WriteFile(path, buf, 0o644))
	model := neuralnet.LoadModel(path)
	last := layers[len(layers)-1].Activation
	for k := 0; k < steps(t, 6, 20); k++ {
		x := make([]float64, dims[0])
		for i := range x {
			x[i] = rng.NormFloat64() * 2
			if rng.Intn(3) == 0 {
				x[i] = float64(rng.Intn(2)) // one-hot like
			}
		}
		cur := append([]float64{}, x...)
		for l := range layers {
			next := make([]float64, dims[l+1])
			sum := 0.0
			for j := range next {
				z := B[l][j]
				for i := range cur {
					z += cur[i] * W[l][i][j]
				}
				switch layers[l].Activation {
				case "sigmoid":
					z = 1 / (1 + math.Exp(-z))
				case "hard_sigmoid":
					z = z/5 + 0.5
					if z < 0 || z > 1 {
						t.Count("hard_sigmoid clipped", 1)
						z = math.Max(0, math.Min(1, z))
					}
				default:
					z = math.Exp(z)
				}
				next[j] = z
				sum += z
			}
			if layers[l].Activation == "softmax" {
				for j := range next {
					next[j] /= sum
				}
			}
			cur = next
		}
		in := mat.NewDense(len(x), 1, append([]float64{}, x...))
		out := model.Predict(in)
		t.Count("predictions", 1)
		r, c := out.Dims()
		if last == "softmax" {
			t.Count("softmax outputs", 1)
		} else {
			t.Count("column outputs", 1)
		}
		if r*c != len(cur) || (r != 1 && c != 1) {
			t.Fail("the output has shape %dx%d, want a vector of %d entries", r, c, len(cur))
		}
		vec := make([]float64, len(cur))
		for j := range cur {
			vec[j] = out.At(j/c, j%c)
			t.Eval(1)
			if !(math.Abs(vec[j]-cur[j]) <= 1e-9) {
				t.Fail("output %d is %v, want %v (activations %v, shape %v)", j, vec[j], cur[j], last, dims)
			}
		}
		for i := range x {
			if in.At(i, 0) != x[i] {
				t.Fail("the prediction changed its input")
			}
		}
		best := neuralnet.GetPredictionArgMax(out)
		t.Eval(1)
		if best < 0 || best >= len(vec) {
			t.Fail("predicted class %d of %d", best, len(vec))
		}
		for j := range vec {
			if vec[j] > vec[best] {
				t.Fail("predicted class %d of output %v (%dx%d)", best, vec, r, c)
			}
		}
		if best > 0 {
			t.Count("classes other than 0", 1)
		}
		t.Sig(dims, last, best)
	}
	t.Sample(map[string]interface{}{"layers": dims, "last": last, "file": filepath.Base(path)})
}
