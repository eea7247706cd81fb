// Package hx is the small driver shared by all checks: it runs rapid
// properties with a per-property case budget, measures what was generated and
// writes the evidence file of the property.
package hx

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var started = time.Now()

// Thorough is true for the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Suite is the check of one listed property.
type Suite struct {
	T     *testing.T
	ID    string
	Rule  string
	Notes []string

	mu       sync.Mutex
	evals    int
	steps    int
	distinct map[uint64]struct{}
	classes  map[string]int
	samples  []string
	perProp  map[string]*propStat
	order    []string
	known    map[string]bool
	cut      bool
	exhaust  map[string]int
}

type propStat struct {
	evals, nontrivial, samples int
}

// New starts the check of a property and schedules its evidence file.
func New(t *testing.T, id, rule string, assumptions ...string) *Suite {
	s := &Suite{
		T: t, ID: id, Rule: rule, Notes: assumptions,
		distinct: map[uint64]struct{}{}, classes: map[string]int{},
		perProp: map[string]*propStat{}, known: map[string]bool{}, exhaust: map[string]int{},
	}
	t.Cleanup(s.write)
	return s
}

// Case is one generated case.
type Case struct {
	*rapid.T
	s    *Suite
	prop string
	non  bool
	key  string
	cls  map[string]int
	st   int
}

// Hit counts a class of cases (at most once per case and class).
func (c *Case) Hit(format string, a ...any) {
	c.cls[fmt.Sprintf(format, a...)] = 1
}

// Step counts one operation of a history.
func (c *Case) Step() { c.st++ }

// NonTrivial marks the case as non-trivial; the text identifies it.
func (c *Case) NonTrivial(format string, a ...any) {
	c.non = true
	c.key += fmt.Sprintf(format, a...) + ";"
}

func (s *Suite) stat(name string) *propStat {
	st := s.perProp[name]
	if st == nil {
		st = &propStat{}
		s.perProp[name] = st
		s.order = append(s.order, name)
	}
	return st
}

func (s *Suite) done(c *Case) {
	s.mu.Lock()
	defer s.mu.Unlock()
	st := s.stat(c.prop)
	s.evals++
	st.evals++
	s.steps += c.st
	for k := range c.cls {
		s.classes[c.prop+"/"+k]++
	}
	if c.non {
		h := fnv.New64a()
		_, _ = h.Write([]byte(c.prop + "|" + c.key))
		if _, ok := s.distinct[h.Sum64()]; !ok {
			s.distinct[h.Sum64()] = struct{}{}
			st.nontrivial++
			if n := st.nontrivial; st.samples < 3 && (n == 2 || n == 20 || n == 150) {
				st.samples++
				k := c.key
				if len(k) > 600 {
					k = k[:600] + "..."
				}
				s.samples = append(s.samples, c.prop+": "+k)
			}
		}
	}
}

// Deadline is the soft limit after which no further cases are generated.
func softLimit() time.Duration {
	def := 420
	if Thorough() {
		def = 1500
	}
	return time.Duration(envInt("HX_SOFT_LIMIT", def)) * time.Second
}

// Prop runs one sub-property on n generated cases (scaled in the thorough tier).
func (s *Suite) Prop(name string, n int, f func(c *Case)) {
	if only := os.Getenv("HX_ONLY"); only != "" && only != name {
		return
	}
	if Thorough() {
		n *= envInt("HX_MULT", 15)
	}
	if m := os.Getenv("HX_SCALE"); m != "" {
		x, _ := strconv.ParseFloat(m, 64)
		n = max(1, int(float64(n)*x))
	}
	s.mu.Lock()
	s.stat(name)
	s.mu.Unlock()
	s.T.Run(name, func(t *testing.T) {
		if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
			t.Fatal(err)
		}
		if base := envInt("HX_RSEED", 0); base > 0 {
			h := fnv.New32a()
			_, _ = h.Write([]byte(name))
			_ = flag.Set("rapid.seed", strconv.Itoa(base+int(h.Sum32())))
		}
		rapid.Check(t, func(rt *rapid.T) {
			if time.Since(started) > softLimit() {
				s.mu.Lock()
				s.cut = true
				s.mu.Unlock()
				return
			}
			c := &Case{T: rt, s: s, prop: name, cls: map[string]int{}}
			watch(name)
			f(c)
			unwatch()
			s.done(c)
		})
	})
}

// Bubble runs f under a fake clock which starts 2000-01-01T00:00:00Z. Stores
// with background goroutines must be created before the bubble.
func (c *Case) Bubble(f func()) {
	rapid.SyncTest(c.T, func(*rapid.T) { f() })
}

// Direct runs a deterministic (not generated) enumeration as a subtest; count
// is what was enumerated.
func (s *Suite) Direct(name string, f func(t *testing.T) int) {
	if only := os.Getenv("HX_ONLY"); only != "" && only != name {
		return
	}
	s.T.Run(name, func(t *testing.T) {
		n := f(t)
		s.mu.Lock()
		defer s.mu.Unlock()
		st := s.stat(name)
		st.evals += n
		s.evals += n
		s.exhaust[name] = n
	})
}

// Note records one enumerated non-trivial case of Direct.
func (s *Suite) Note(prop, key string) {
	c := &Case{s: s, prop: prop, cls: map[string]int{}, non: true, key: key}
	s.done(c)
	s.mu.Lock()
	s.evals--
	s.perProp[prop].evals--
	s.mu.Unlock()
}

var (
	knownOnce sync.Once
	knownKeys map[string]string
)

func loadKnown() {
	knownKeys = map[string]string{}
	p := os.Getenv("HX_KNOWN")
	if p == "" {
		p = "/verif/known-findings.txt"
	}
	f, err := os.Open(p)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "finding: ") {
			continue
		}
		// finding: property=<id> key=<key> <what>
		parts := strings.SplitN(strings.TrimPrefix(line, "finding: "), " ", 3)
		if len(parts) != 3 {
			continue
		}
		id := strings.TrimPrefix(parts[0], "property=")
		key := strings.TrimPrefix(parts[1], "key=")
		knownKeys[id+"/"+key] = parts[2]
	}
}

// Known reports whether the failure identified by key is a listed finding, and
// announces it once.
func (s *Suite) Known(key string) bool {
	knownOnce.Do(loadKnown)
	what, ok := knownKeys[s.ID+"/"+key]
	if !ok {
		return false
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.known[key] {
		s.known[key] = true
		fmt.Printf("\nKNOWN-FINDING: property=%s key=%s %s\n", s.ID, key, what)
	}
	return true
}

// A single case takes milliseconds; one which does not end is a hang of the
// code under test.
const hangLimit = 300 * time.Second

var (
	watchMu   sync.Mutex
	watchName string
	watchAt   time.Time
	watchOnce sync.Once
)

func watch(name string) {
	watchMu.Lock()
	watchName, watchAt = name, time.Now()
	watchMu.Unlock()
	watchOnce.Do(func() {
		go func() {
			for {
				time.Sleep(5 * time.Second)
				watchMu.Lock()
				n, at := watchName, watchAt
				watchMu.Unlock()
				if !at.IsZero() && time.Since(at) > hangLimit {
					fmt.Printf("\n--- FAIL: Test/%s\npanic: HX-HANG: a case of %s did not end within %s\n", n, n, hangLimit)
					_ = pprof.Lookup("goroutine").WriteTo(os.Stdout, 2)
					os.Exit(2)
				}
			}
		}()
	})
}

func unwatch() {
	watchMu.Lock()
	watchAt = time.Time{}
	watchMu.Unlock()
}

func (s *Suite) write() {
	out := os.Getenv("HX_EVIDENCE")
	if out == "" {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	tier := "quick"
	if Thorough() {
		tier = "thorough"
	}
	per := map[string]any{}
	for _, n := range s.order {
		per[n] = map[string]int{"evaluations": s.perProp[n].evals, "distinct_nontrivial": s.perProp[n].nontrivial}
	}
	samples := append([]string(nil), s.samples...)
	if len(samples) > 40 {
		samples = samples[:40]
	}
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]any{
		"evaluations":         s.evals,
		"distinct_nontrivial": len(s.distinct),
		"rule":                s.Rule,
		"samples":             samples,
		"operations":          s.steps,
		"sub_properties":      per,
		"classes":             s.classes,
	}
	if len(s.exhaust) > 0 {
		cov["enumerated"] = s.exhaust
	}
	if s.cut {
		cov["cut_short"] = "the soft time limit was reached; remaining cases were not generated"
	}
	if len(s.known) > 0 {
		var k []string
		for n := range s.known {
			k = append(k, n)
		}
		sort.Strings(k)
		cov["known_findings_observed"] = k
	}
	viol := 0
	if s.T.Failed() {
		viol = 1
	}
	ev := map[string]any{
		"property":    s.ID,
		"tier":        tier,
		"seed":        envInt("VERIF_SEED", 1),
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": append([]string{}, s.Notes...),
		"wall_s":      time.Since(started).Seconds(),
		"violations":  viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		s.T.Errorf("evidence: %v", err)
		return
	}
	if err := os.WriteFile(out, append(b, '\n'), 0o644); err != nil {
		s.T.Errorf("evidence: %v", err)
	}
}
