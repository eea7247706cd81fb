package c30

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"zntr.io/solid/sdk/randomness"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

// source is what both generators offer.
type source interface {
	Seed(int64)
	Int63() int64
	Uint32() uint32
	Uint64() uint64
	Int31() int32
	Int() int
	Int63n(int64) int64
	Int31n(int32) int32
	Intn(int) int
	Float64() float64
	Float32() float32
	Perm(int) []int
	NormFloat64() float64
	ExpFloat64() float64
	Shuffle(int, func(i, j int))
	Read([]byte) (int, error)
}

// op is one call.
type op struct {
	name string
	n    int64
}

// call runs one call and describes its result.
func call(r source, o op) (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprintf("panic %v", p)
		}
	}()
	switch o.name {
	case "Seed":
		r.Seed(o.n)
		return ""
	case "Int63":
		return fmt.Sprint(r.Int63())
	case "Uint32":
		return fmt.Sprint(r.Uint32())
	case "Uint64":
		return fmt.Sprint(r.Uint64())
	case "Int31":
		return fmt.Sprint(r.Int31())
	case "Int":
		return fmt.Sprint(r.Int())
	case "Int63n":
		return fmt.Sprint(r.Int63n(o.n))
	case "Int31n":
		return fmt.Sprint(r.Int31n(int32(o.n)))
	case "Intn":
		return fmt.Sprint(r.Intn(int(o.n)))
	case "Float64":
		return fmt.Sprint(math.Float64bits(r.Float64()))
	case "Float32":
		return fmt.Sprint(math.Float32bits(r.Float32()))
	case "NormFloat64":
		return fmt.Sprint(math.Float64bits(r.NormFloat64()))
	case "ExpFloat64":
		return fmt.Sprint(math.Float64bits(r.ExpFloat64()))
	case "Perm":
		return fmt.Sprint(r.Perm(int(o.n)))
	case "Shuffle":
		v := make([]int, max(o.n, 0))
		for i := range v {
			v[i] = i
		}
		r.Shuffle(int(o.n), func(i, j int) { v[i], v[j] = v[j], v[i] })
		return fmt.Sprint(v)
	case "Shuffle panic":
		r.Shuffle(int(o.n), func(i, j int) { panic("swap") })
		return ""
	case "Read":
		b := make([]byte, o.n)
		n, err := r.Read(b)
		return fmt.Sprintf("%x %d %v", b, n, err)
	}
	panic("HARNESS-ERROR: " + o.name)
}

var plain = []string{"Int63", "Uint32", "Uint64", "Int31", "Int", "Float64", "Float32", "NormFloat64", "ExpFloat64"}

func drawOp(t *rapid.T, allowPanic bool) op {
	o := op{name: fx.Pick(t, "op", append(slices.Clone(plain), "Seed", "Int63n", "Int31n", "Intn", "Perm", "Shuffle", "Read", "Shuffle panic")...)}
	switch o.name {
	case "Seed":
		o.n = rapid.Int64().Draw(t, "seed")
	case "Int63n":
		o.n = fx.Pick(t, "n", int64(1), 2, 3, 10, 1<<31, 1<<40, 1<<62, math.MaxInt64, 1<<62+1, 7919)
	case "Int31n":
		o.n = fx.Pick(t, "n", int64(1), 2, 3, 10, 1<<20, 1<<30, math.MaxInt32, 1<<30+1, 7919)
	case "Intn":
		o.n = fx.Pick(t, "n", int64(1), 2, 3, 10, 1<<31-1, 1<<31, 1<<40, math.MaxInt64, 7919)
	case "Perm", "Shuffle", "Shuffle panic":
		o.n = int64(fx.Int(t, "n", 0, 20))
		if o.name == "Shuffle panic" && !allowPanic {
			o = op{name: "Perm", n: o.n}
		}
	case "Read":
		o.n = int64(fx.Int(t, "n", 0, 23))
	}
	if allowPanic && o.n > 0 && o.name != "Seed" && o.name != "Read" && fx.Chance(t, "bad", 8) {
		o.n = fx.Pick(t, "badn", int64(0), -1, -7)
	}
	return o
}

// within fails when f does not end.
func within(t fx.TB, what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatalf("no answer after a minute: %s", what)
	}
}

func together(n int, f func(w int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() { defer wg.Done(); <-start; f(w) }()
	}
	close(start)
	wg.Wait()
}

func TestC30(t *testing.T) {
	if os.Getenv("C30_CHILD") != "" {
		b := make([]byte, 16)
		randomness.Reader.Read(b)
		fmt.Printf("CHILD %d %x %d\n", randomness.Int63(), b, randomness.CryptoSeed())
		return
	}
	s := hx.New(t, "C30", "(sequence) a drawn seed and call sequence (all methods, re-seeding, invalid bounds whose panic is recovered) on the locked generator and on math/rand with the same seed, answer by answer; (shared) 2-8 goroutines drawing from one locked generator under the race detector, the multiset of their draws against the sequential draws; (global) bounds and permutations of the package-level functions used concurrently; distinctness across crypto seeds, readers and processes. Non-trivial: a sequence of at least 3 calls of 2 kinds, identified by its calls; every contended round.",
		"math/rand of the installed toolchain is the standard generator", "re-seeding is not used concurrently, as documented", "a swap function which draws from the generator it is called by is outside the contract")

	s.Prop("sequence", 6000, func(c *hx.Case) {
		seed := fx.Pick(c.T, "special", rapid.Int64().Draw(c.T, "seed"), 0, 1, -1, math.MaxInt64, math.MinInt64, 1<<31-1)
		var ops []op
		for n := fx.Int(c.T, "n", 1, 40); n > 0; n-- {
			ops = append(ops, drawOp(c.T, true))
		}
		l, r := randomness.NewLockedRand(seed), rand.New(rand.NewSource(seed))
		bad := ""
		kinds := map[string]bool{}
		within(c.T, fmt.Sprintf("seed %d calls %v", seed, ops), func() {
			for i, o := range ops {
				kinds[o.name] = true
				want := call(r, o)
				if got := call(l, o); got != want {
					bad = fmt.Sprintf("seed %d, calls %v: call %d gives %s, the standard generator %s", seed, ops[:i+1], i, got, want)
					return
				}
			}
		})
		if bad != "" {
			c.Fatalf("%s", bad)
		}
		for k := range kinds {
			c.Hit("%s", k)
		}
		if len(ops) >= 3 && len(kinds) >= 2 {
			c.NonTrivial("%d %v", seed, ops)
		}
	})

	s.Prop("reseed", 1500, func(c *hx.Case) {
		a, b := rapid.Int64().Draw(c.T, "a"), rapid.Int64().Draw(c.T, "b")
		var pre, ops []op
		for n := fx.Int(c.T, "pre", 0, 8); n > 0; n-- {
			pre = append(pre, drawOp(c.T, false))
		}
		for n := fx.Int(c.T, "n", 1, 10); n > 0; n-- {
			ops = append(ops, drawOp(c.T, false))
		}
		used, fresh := randomness.NewLockedRand(a), randomness.NewLockedRand(b)
		for _, o := range pre {
			call(used, o)
		}
		used.Seed(b)
		for i, o := range ops {
			if x, y := call(used, o), call(fresh, o); x != y {
				c.Fatalf("after %v and re-seeding, call %d of %v gives %s, a fresh generator %s", pre, i, ops, x, y)
			}
		}
		x, y := make([]byte, 32), make([]byte, 32)
		randomness.NewReader(b).Read(x)
		rand.New(rand.NewSource(b)).Read(y)
		if !bytes.Equal(x, y) {
			c.Fatalf("reader of seed %d gives %x, the standard generator %x", b, x, y)
		}
		c.NonTrivial("%v %v", pre, ops)
	})

	s.Prop("shared", 400, func(c *hx.Case) {
		seed := rapid.Int64().Draw(c.T, "seed")
		o := drawOp(c.T, false)
		for o.name == "Seed" {
			o = op{name: "Int63"}
		}
		n, per := fx.Int(c.T, "workers", 2, 8), fx.Int(c.T, "draws", 1, 60)
		yield := rapid.Bool().Draw(c.T, "yield")
		l := randomness.NewLockedRand(seed)
		got := make([][]string, n)
		within(c.T, fmt.Sprintf("seed %d, %d goroutines calling %v", seed, n, o), func() {
			together(n, func(w int) {
				for i := 0; i < per; i++ {
					got[w] = append(got[w], call(l, o))
					if yield {
						runtime.Gosched()
					}
				}
			})
		})
		var all, want []string
		for _, g := range got {
			all = append(all, g...)
		}
		r := rand.New(rand.NewSource(seed))
		for i := 0; i < n*per; i++ {
			want = append(want, call(r, o))
		}
		sort.Strings(all)
		sort.Strings(want)
		if !slices.Equal(all, want) {
			c.Fatalf("seed %d: %d goroutines calling %v %d times each hand out %v, expected in some order %v", seed, n, o, per, all, want)
		}
		c.Hit("%s", o.name)
		c.NonTrivial("%d %v %d %d", seed, o, n, per)
	})

	// Mixed calls under the race detector; then the generator is still sound.
	s.Prop("mixed", 200, func(c *hx.Case) {
		seed := rapid.Int64().Draw(c.T, "seed")
		n := fx.Int(c.T, "workers", 2, 6)
		ops := make([][]op, n)
		for w := range ops {
			for k := fx.Int(c.T, "calls", 1, 12); k > 0; k-- {
				o := drawOp(c.T, true)
				if o.name != "Seed" {
					ops[w] = append(ops[w], o)
				}
			}
		}
		l := randomness.NewLockedRand(seed)
		within(c.T, fmt.Sprintf("seed %d concurrent %v", seed, ops), func() {
			together(n, func(w int) {
				for _, o := range ops[w] {
					call(l, o)
				}
			})
			l.Seed(seed)
		})
		if x, y := l.Uint64(), rand.New(rand.NewSource(seed)).Uint64(); x != y {
			c.Fatalf("after concurrent use and re-seeding the generator gives %d, expected %d", x, y)
		}
		c.NonTrivial("%d %v", seed, ops)
	})

	s.Prop("global", 400, func(c *hx.Case) {
		n := fx.Int(c.T, "workers", 2, 6)
		b63, b31, bn := rapid.Int64Range(1, math.MaxInt64).Draw(c.T, "b63"), rapid.Int32Range(1, math.MaxInt32).Draw(c.T, "b31"), rapid.IntRange(1, math.MaxInt64).Draw(c.T, "bn")
		k := fx.Int(c.T, "perm", 0, 12)
		bads := make([]string, n)
		draws := make([]int64, n)
		within(c.T, "global functions", func() {
			together(n, func(w int) {
				bad := func(format string, a ...any) { bads[w] = fmt.Sprintf(format, a...) }
				draws[w] = randomness.Int63()
				if draws[w] < 0 || randomness.Int31() < 0 || randomness.Int() < 0 {
					bad("negative draw")
				}
				if v := randomness.Int63n(b63); v < 0 || v >= b63 {
					bad("Int63n(%d) = %d", b63, v)
				}
				if v := randomness.Int31n(b31); v < 0 || v >= b31 {
					bad("Int31n(%d) = %d", b31, v)
				}
				if v := randomness.Intn(bn); v < 0 || v >= bn {
					bad("Intn(%d) = %d", bn, v)
				}
				if v := randomness.Float64(); v < 0 || v >= 1 {
					bad("Float64 %v", v)
				}
				if v := randomness.Float32(); v < 0 || v >= 1 {
					bad("Float32 %v", v)
				}
				if v := randomness.ExpFloat64(); v < 0 || math.IsInf(v, 0) || math.IsNaN(v) {
					bad("ExpFloat64 %v", v)
				}
				if v := randomness.NormFloat64(); math.IsInf(v, 0) || math.IsNaN(v) {
					bad("NormFloat64 %v", v)
				}
				_, _ = randomness.Uint32(), randomness.Uint64()
				p := randomness.Perm(k)
				q := make([]int, k)
				for i := range q {
					q[i] = i
				}
				randomness.Shuffle(k, func(i, j int) { q[i], q[j] = q[j], q[i] })
				for _, x := range [][]int{p, q} {
					y := slices.Clone(x)
					sort.Ints(y)
					for i := range y {
						if len(y) != k || y[i] != i {
							bad("not a permutation of %d: %v", k, x)
						}
					}
				}
				buf := make([]byte, 24)
				if m, err := randomness.Reader.Read(buf); m != 24 || err != nil || bytes.Equal(buf, make([]byte, 24)) {
					bad("Reader: %d, %v, %x", m, err, buf)
				}
			})
		})
		for _, b := range bads {
			if b != "" {
				c.Fatalf("%s", b)
			}
		}
		sort.Slice(draws, func(i, j int) bool { return draws[i] < draws[j] })
		for i := 1; i < n; i++ {
			if draws[i] == draws[i-1] {
				c.Fatalf("two goroutines draw %d", draws[i])
			}
		}
		c.NonTrivial("%d %d %d %d %d", n, b63, b31, bn, k)
	})

	// The global functions have the distributions of the standard generator (bounds more than 8 standard deviations wide).
	s.Direct("global_distributions", func(t *testing.T) int {
		n := 40000
		for _, f := range []struct {
			name           string
			draw           func() float64
			mean, variance float64
		}{
			{"Int63", func() float64 { return float64(randomness.Int63()) / (1 << 63) }, 1. / 2, 1. / 12},
			{"Uint32", func() float64 { return float64(randomness.Uint32()) / (1 << 32) }, 1. / 2, 1. / 12},
			{"Uint64", func() float64 { return float64(randomness.Uint64()) / (1 << 64) }, 1. / 2, 1. / 12},
			{"Int31", func() float64 { return float64(randomness.Int31()) / (1 << 31) }, 1. / 2, 1. / 12},
			{"Int", func() float64 { return float64(randomness.Int()) / (1 << 63) }, 1. / 2, 1. / 12},
			{"Int63n", func() float64 { return float64(randomness.Int63n(3<<60)) / (3 << 60) }, 1. / 2, 1. / 12},
			{"Int31n", func() float64 { return float64(randomness.Int31n(3<<29)) / (3 << 29) }, 1. / 2, 1. / 12},
			{"Intn", func() float64 { return float64(randomness.Intn(3<<29)) / (3 << 29) }, 1. / 2, 1. / 12},
			{"Float64", randomness.Float64, 1. / 2, 1. / 12},
			{"Float32", func() float64 { return float64(randomness.Float32()) }, 1. / 2, 1. / 12},
			{"ExpFloat64", randomness.ExpFloat64, 1, 1},
			{"NormFloat64", randomness.NormFloat64, 0, 1},
		} {
			sum, sq := 0., 0.
			for range n {
				v := f.draw()
				sum += v
				sq += (v - f.mean) * (v - f.mean)
			}
			if m := sum / float64(n); math.Abs(m-f.mean) > 0.05 {
				t.Fatalf("%s has the mean %v, not %v", f.name, m, f.mean)
			}
			if v := sq / float64(n); math.Abs(v-f.variance) > 0.15*f.variance {
				t.Fatalf("%s has the variance %v, not %v", f.name, v, f.variance)
			}
		}
		return 12 * n
	})

	// The global functions draw anew on every call.
	s.Direct("global_varies", func(t *testing.T) int {
		perm := func(f func([]int)) func() string {
			return func() string {
				v := make([]int, 60)
				for i := range v {
					v[i] = i
				}
				f(v)
				if sort.IntsAreSorted(v) {
					t.Fatalf("left in order: %v", v)
				}
				return fmt.Sprint(v)
			}
		}
		for name, f := range map[string]func() string{
			"Int63":       func() string { return fmt.Sprint(randomness.Int63()) },
			"Uint32":      func() string { return fmt.Sprint(randomness.Uint32()) },
			"Uint64":      func() string { return fmt.Sprint(randomness.Uint64()) },
			"Int31":       func() string { return fmt.Sprint(randomness.Int31()) },
			"Int":         func() string { return fmt.Sprint(randomness.Int()) },
			"Int63n":      func() string { return fmt.Sprint(randomness.Int63n(1 << 62)) },
			"Int31n":      func() string { return fmt.Sprint(randomness.Int31n(1 << 30)) },
			"Intn":        func() string { return fmt.Sprint(randomness.Intn(1 << 30)) },
			"Float64":     func() string { return fmt.Sprint(randomness.Float64()) },
			"Float32":     func() string { return fmt.Sprint(randomness.Float32()) },
			"ExpFloat64":  func() string { return fmt.Sprint(randomness.ExpFloat64()) },
			"NormFloat64": func() string { return fmt.Sprint(randomness.NormFloat64()) },
			"Perm":        perm(func(v []int) { copy(v, randomness.Perm(len(v))) }),
			"Shuffle":     perm(func(v []int) { randomness.Shuffle(len(v), func(i, j int) { v[i], v[j] = v[j], v[i] }) }),
		} {
			seen := map[string]bool{}
			for range 24 {
				seen[f()] = true
			}
			if len(seen) < 16 { // a repetition of this order never happens by chance
				t.Fatalf("%s drew %d values in 24 calls", name, len(seen))
			}
		}
		return 14 * 24
	})

	s.Direct("crypto_seeds", func(t *testing.T) int {
		const n = 4000
		seen := map[int64]bool{}
		var or int64
		and := int64(-1)
		for i := 0; i < n; i++ {
			v := randomness.CryptoSeed()
			if seen[v] {
				t.Fatalf("crypto seed %d drawn twice", v)
			}
			seen[v] = true
			or |= v
			and &= v
		}
		if or != -1 || and != 0 {
			t.Fatalf("bits of %d crypto seeds never vary: or %x and %x", n, or, and)
		}
		// each bit is set about half of the time
		for b := 0; b < 64; b++ {
			k := 0
			for v := range seen {
				if v>>b&1 == 1 {
					k++
				}
			}
			if k < n*2/5 || k > n*3/5 { // more than 12 standard deviations
				t.Fatalf("bit %d is set in %d of %d crypto seeds", b, k, n)
			}
		}
		s.Note("crypto_seeds", "seeds")
		return n
	})

	s.Direct("processes", func(t *testing.T) int {
		exe, err := os.Executable()
		if err != nil {
			t.Fatalf("HARNESS-ERROR: %v", err)
		}
		seen := map[string]int{}
		const n = 6
		for i := 0; i < n; i++ {
			cmd := exec.Command(exe, "-test.run=TestC30", "-test.v=true")
			cmd.Env = append(os.Environ(), "C30_CHILD=1", "HX_EVIDENCE=")
			out, err := cmd.CombinedOutput()
			if err != nil {
				t.Fatalf("HARNESS-ERROR: child: %v\n%s", err, out)
			}
			for _, line := range strings.Split(string(out), "\n") {
				if f := strings.Fields(line); len(f) == 4 && f[0] == "CHILD" {
					for _, v := range f[1:] {
						seen[v]++
						if seen[v] > 1 {
							t.Fatalf("two processes draw the same %s", v)
						}
					}
				}
			}
		}
		if len(seen) != 3*n {
			t.Fatalf("HARNESS-ERROR: %d values", len(seen))
		}
		return n
	})
}
