package common

// Native side of the checks: runs the executable specification against the real code on generated inputs.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"testing"
	"time"
)

type vnT struct {
	R        *rand.Rand
	hints    []int
	dict     []int
	strs     []string
	deadline time.Time
	evals    int
	seen     map[uint64]bool
	rule     string
	samples  []string
	viol     []map[string]interface{}
	keys     map[string]bool
	out      string
	last     time.Time
	mu       sync.Mutex
}

func vnStart(t *testing.T, rule string) *vnT {
	seed, _ := strconv.ParseInt(os.Getenv("VN_SEED"), 10, 64)
	b, err := strconv.ParseFloat(os.Getenv("VN_BUDGET"), 64)
	if err != nil {
		b = 3
	}
	v := &vnT{R: rand.New(rand.NewSource(seed)), seen: map[uint64]bool{}, keys: map[string]bool{}, rule: rule, out: os.Getenv("VN_OUT"), deadline: time.Now().Add(time.Duration(b * float64(time.Second)))}
	var hs []string
	json.Unmarshal([]byte(os.Getenv("VN_HINTS")), &hs)
	for _, h := range hs {
		if n, err := strconv.Atoi(h); err == nil {
			v.hints = append(v.hints, n)
		}
	}
	if b, err := os.ReadFile(os.Getenv("VN_DICT")); err == nil {
		var d struct{ Strs, Ints []string }
		json.Unmarshal(b, &d)
		v.strs = d.Strs
		for _, x := range d.Ints {
			if n, err := strconv.Atoi(x); err == nil {
				v.dict = append(v.dict, n, n+1, n-1)
			}
		}
	}
	t.Cleanup(func() { v.finish(t) })
	return v
}

func (v *vnT) more() bool {
	v.mu.Lock()
	defer v.mu.Unlock()
	return time.Now().Before(v.deadline) && len(v.viol) < 20
}

// Par runs f in n goroutines, each with its own random source, until the time is used up
func (v *vnT) Par(n int, f func(r *rand.Rand, i int)) {
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int, r *rand.Rand) {
			defer wg.Done()
			for i := g; v.more(); i += n {
				f(r, i)
			}
		}(g, rand.New(rand.NewSource(v.R.Int63())))
	}
	wg.Wait()
}

// Case registers one evaluated case.
func (v *vnT) Case(desc string, nontrivial bool) {
	v.mu.Lock()
	defer v.mu.Unlock()
	v.evals++
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(desc))
		if len(v.seen) < 2000000 {
			v.seen[h.Sum64()] = true
		}
		if len(v.samples) < 3 || v.evals%5000 == 0 && len(v.samples) < 6 {
			v.samples = append(v.samples, desc)
		}
	}
}

// Mark records the case about to run, for failures that end the process.
func (v *vnT) Mark(desc string) {
	if v.out != "" {
		os.WriteFile(v.out+".case", []byte(desc), 0644)
	}
}

func (v *vnT) Fail(key, input, format string, a ...interface{}) {
	v.mu.Lock()
	defer v.mu.Unlock()
	if v.keys[key] {
		return
	}
	v.keys[key] = true
	v.viol = append(v.viol, map[string]interface{}{"key": key, "input": input, "message": fmt.Sprintf(format, a...)})
	v.save()
}

// Guard runs f; a panic of the code under test is a violation.
func (v *vnT) Guard(key, input string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			v.Fail(key, input, "panic: %v\n%s", r, st)
		}
	}()
	f()
	return true
}

func (v *vnT) save() {
	if v.out == "" {
		return
	}
	b, _ := json.Marshal(map[string]interface{}{"evaluations": v.evals, "distinct": len(v.seen), "rule": v.rule, "samples": v.samples, "violations": v.viol})
	os.WriteFile(v.out, b, 0644)
}
func (v *vnT) finish(t *testing.T) {
	v.save()
	for _, x := range v.viol {
		t.Logf("%v\n%v\n%v", x["key"], x["input"], x["message"])
	}
	if len(v.viol) > 0 {
		t.Fail()
	}
}

// Int: a number from hints, small values, edges
func (v *vnT) Int(lo, hi int) int {
	switch k := v.R.Intn(10); {
	case k < 1 && len(v.hints) > 0:
		if h := v.hints[v.R.Intn(len(v.hints))]; h >= lo && h <= hi {
			return h
		}
	case k < 2 && len(v.dict) > 0:
		if h := v.dict[v.R.Intn(len(v.dict))]; h >= lo && h <= hi {
			return h
		}
	case k < 3:
		if v.R.Intn(2) == 0 {
			return lo
		}
		return hi
	}
	return lo + v.R.Intn(hi-lo+1)
}
func (v *vnT) Bool() bool { return v.R.Intn(2) == 0 }
func (v *vnT) Pick(xs ...int) int { return xs[v.R.Intn(len(xs))] }
func (v *vnT) PickS(xs ...string) string { return xs[v.R.Intn(len(xs))] }

// Str: a short text: literals of the sources, plain words, punctuation, arbitrary bytes
func (v *vnT) Str() string {
	switch v.R.Intn(8) {
	case 0:
		return ""
	case 1, 2:
		if len(v.strs) > 0 {
			return v.strs[v.R.Intn(len(v.strs))]
		}
	case 3:
		b := make([]byte, v.R.Intn(6))
		v.R.Read(b)
		return string(b)
	case 4:
		b := make([]byte, v.R.Intn(12))
		for i := range b {
			b[i] = byte(32 + v.R.Intn(95))
		}
		return string(b)
	case 5:
		return v.PickS("a,b", "|", "#", "=", ":", ";", " x ", "\u00e6\u00f8", "\\n", "-1", "0", "a|b|c", "<x>", "&amp;", "%d")
	}
	b := make([]byte, 1+v.R.Intn(9))
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789"[v.R.Intn(42)]
	}
	return string(b)
}
func vnJSON(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		return fmt.Sprintf("%+v", x)
	}
	return string(b)
}
