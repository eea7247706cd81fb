package c23

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"pgregory.net/rapid"

	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/token"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

const (
	alnum = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
	cons  = "BCDFGHJKLMNPQRSTVWXZ"
	digit = "0123456789"
)

type kind struct {
	name, alphabet, fixed string // fixed are the literal characters, ? a drawn one
	format                *regexp.Regexp
	gen                   func(issuer string) (string, error)
	validate              func(issuer, in string) error
}

func pattern(groups ...int) string {
	var out []string
	for _, n := range groups {
		out = append(out, strings.Repeat("?", n))
	}
	return strings.Join(out, "-")
}

// half of the values come from one long-lived generator of their kind
var (
	codeGen   = either(generator.DefaultAuthorizationCode)
	deviceGen = either(generator.DefaultDeviceCode)
	clientGen = either(generator.DefaultClientID)
	uriGen    = either(generator.DefaultRequestURI)
	userGen   = either(generator.DefaultDeviceUserCode)
	numGen    = either(generator.DefaultNumDeviceUserCode)
	opaqueGen = either(token.OpaqueToken)
)

func either[G any](mk func() G) func() G {
	var n atomic.Uint32
	g := mk()
	return func() G {
		if n.Add(1)%2 == 0 {
			return g
		}
		return mk()
	}
}

var kinds = []kind{
	{"authorization code", alnum, pattern(32), regexp.MustCompile(`^[A-Za-z0-9]{32}$`),
		func(i string) (string, error) { return codeGen().Generate(bg, i) },
		func(i, v string) error { return generator.DefaultAuthorizationCode().Validate(bg, i, v) }},
	{"device code", alnum, pattern(32), regexp.MustCompile(`^[A-Za-z0-9]{32}$`),
		func(i string) (string, error) { return deviceGen().Generate(bg, i) },
		func(i, v string) error { return generator.DefaultDeviceCode().Validate(bg, i, v) }},
	{"client id", alnum, pattern(16), regexp.MustCompile(`^[A-Za-z0-9]{16}$`),
		func(string) (string, error) { return clientGen().Generate(bg) }, nil},
	{"request uri", alnum, "urn:solid:" + pattern(32), regexp.MustCompile(`^urn:solid:[A-Za-z0-9]{32}$`),
		func(i string) (string, error) { return uriGen().Generate(bg, i) },
		func(i, v string) error { return generator.DefaultRequestURI().Validate(bg, i, v) }},
	{"user code", cons, pattern(4, 4), regexp.MustCompile(`^[BCDFGHJKLMNPQRSTVWXZ]{4}-[BCDFGHJKLMNPQRSTVWXZ]{4}$`),
		func(i string) (string, error) { return userGen().Generate(bg, i) }, nil},
	{"numeric user code", digit, pattern(3, 3, 3), regexp.MustCompile(`^[0-9]{3}-[0-9]{3}-[0-9]{3}$`),
		func(i string) (string, error) { return numGen().Generate(bg, i) }, nil},
	{"opaque token", alnum, "???." + pattern(28), regexp.MustCompile(`^[A-Za-z0-9]{3}\.[A-Za-z0-9]{28}$`),
		func(string) (string, error) { return opaqueGen().Generate(bg, nil) }, nil},
}

// TestEmit prints values for a parent process.
func TestEmit(t *testing.T) {
	if os.Getenv("C23_EMIT") == "" {
		t.Skip("only as a child")
	}
	for _, k := range kinds {
		for i := 0; i < 50; i++ {
			v, _ := k.gen("https://op.example")
			fmt.Printf("EMIT %s\n", v)
		}
	}
}

func TestC23(t *testing.T) {
	s := hx.New(t, "C23", "large samples of each of the seven kinds of code (also drawn concurrently): format, own validator, repetitions against the birthday bound, character frequencies per position, equality of positions; values of three child processes are compared with each other; and drawn strings of other lengths or formats which the validators must refuse. Non-trivial: every refused string, and every kind with its sample, identified by the text.",
		"values surrounded by white space are not decided", "statistical bounds are chosen for a false alarm probability below 1e-12")

	// statistics: one enumeration per kind
	for _, k := range kinds {
		s.Direct("sample of "+strings.ReplaceAll(k.name, " ", "_"), func(t *testing.T) int {
			n := 20000
			if hx.Thorough() {
				n = 200000
			}
			values := make([]string, n)
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := g; i < n; i += 8 {
						v, err := k.gen(fmt.Sprintf("https://op.example/%d", i%5))
						if err != nil {
							v = "error: " + err.Error()
						}
						values[i] = v
					}
				}()
			}
			wg.Wait()
			var at []int
			for i := range k.fixed {
				if k.fixed[i] == '?' {
					at = append(at, i)
				}
			}
			count := make([]map[byte]int, len(at))
			for i := range count {
				count[i] = map[byte]int{}
			}
			seen := map[string]bool{}
			repeats := 0
			same := map[[2]int]int{}
			for _, v := range values {
				if !k.format.MatchString(v) {
					t.Fatalf("%s %q", k.name, v)
				}
				if k.validate != nil {
					if err := k.validate("https://op.example", v); err != nil {
						t.Fatalf("%s %q is refused by its validator: %v", k.name, v, err)
					}
				}
				if seen[v] {
					repeats++
				}
				seen[v] = true
				for i, p := range at {
					count[i][v[p]]++
					for j := 0; j < i; j++ {
						if v[at[j]] == v[p] {
							same[[2]int{j, i}]++
						}
					}
				}
			}
			space := 1.0
			for range at {
				space *= float64(len(k.alphabet))
			}
			expected := float64(n) * float64(n) / 2 / space
			if float64(repeats) > expected*2+8 {
				t.Fatalf("%s: %d repetitions among %d values, %.3f expected", k.name, repeats, n, expected)
			}
			mean := float64(n) / float64(len(k.alphabet))
			for i, p := range at {
				for j := range k.alphabet {
					if got := float64(count[i][k.alphabet[j]]); got < mean*0.5 || got > mean*1.6 {
						t.Fatalf("%s: %q occurs %.0f times at position %d of %d values", k.name, k.alphabet[j], got, p, n)
					}
				}
				for j := 0; j < i; j++ {
					if got := float64(same[[2]int{j, i}]); got > mean*1.6 || got < mean*0.5 {
						t.Fatalf("%s: positions %d and %d agree in %.0f of %d values", k.name, at[j], p, got, n)
					}
				}
			}
			s.Note("sample of "+strings.ReplaceAll(k.name, " ", "_"), values[0])
			return n
		})
	}

	s.Direct("processes", func(t *testing.T) int {
		exe, err := os.Executable()
		if err != nil {
			t.Fatalf("HARNESS-ERROR: %v", err)
		}
		from := map[string]int{}
		n := 0
		for child := 1; child <= 3; child++ {
			cmd := exec.Command(exe, "-test.run", "^TestEmit$", "-test.v")
			cmd.Env = append(os.Environ(), "C23_EMIT=1")
			out, err := cmd.Output()
			if err != nil {
				t.Fatalf("HARNESS-ERROR: child: %v", err)
			}
			sc := bufio.NewScanner(bytes.NewReader(out))
			common, got := 0, 0
			for sc.Scan() {
				v, ok := strings.CutPrefix(sc.Text(), "EMIT ")
				if !ok {
					continue
				}
				got++
				if old, ok := from[v]; ok && old != child {
					common++
				}
				from[v] = child
			}
			if got != 50*len(kinds) {
				t.Fatalf("HARNESS-ERROR: child emitted %d values", got)
			}
			if common > 2 {
				t.Fatalf("a restarted process repeats %d of %d values", common, got)
			}
			n += got
		}
		return n
	})

	s.Prop("validators", 20000, func(c *hx.Case) {
		var with []kind
		for _, k := range kinds {
			if k.validate != nil {
				with = append(with, k)
			}
		}
		k := fx.Pick(c.T, "kind", with...)
		good, err := k.gen("https://op.example")
		if err != nil {
			c.Fatalf("%s: %v", k.name, err)
		}
		var in string
		uri := k.name == "request uri"
		id := strings.TrimPrefix(good, "urn:solid:")
		switch fx.Int(c.T, "how", 0, 9) {
		case 0:
			in = good[:fx.Int(c.T, "cut", 0, len(good)-1)]
		case 1:
			in = good + fx.Str(c.T, "more", alnum, 1, 40)
		case 2:
			in = fx.Str(c.T, "any", alnum+"-_:./", 0, 80)
		case 3:
			in = strings.Repeat(good, fx.Int(c.T, "times", 2, 4))
		case 4:
			at := fx.Int(c.T, "at", 0, len(id)-1)
			in = strings.TrimSuffix(good, id) + id[:at] + fx.Pick(c.T, "char", "-", "_", ".", ":", "é", "\x00", "/", " ", "\n", "%", "A2") + id[at+1:]
		case 5:
			in = fx.Pick(c.T, "prefix", "urn:ietf:params:oauth:request_uri:", "urn:solid", "URN:SOLID:", "solid:", "xurn:solid:", "urn:solid:urn:solid:", "https://", "urn:Solid:", "urn:solid::", "urn:solie:") + id
		case 6:
			in = good + fx.Pick(c.T, "suffix", "\nx", "#", "?x=1", "\n"+good, "/") + fx.Str(c.T, "tail", alnum, 0, 3)
		case 7:
			in = fx.Pick(c.T, "before", "x\n", "a ", good+"\n", "/") + good
		case 8:
			in = id
		default:
			in = rapid.String().Draw(c.T, "arbitrary")
		}
		if strings.TrimSpace(in) != in {
			return
		}
		err = k.validate(fx.Pick(c.T, "issuer", "https://op.example", "", "x"), in)
		want := k.format.MatchString(in)
		switch {
		case want && err != nil:
			c.Fatalf("%s %q refused: %v", k.name, in, err)
		case uri && !want && err == nil:
			c.Fatalf("%s %q accepted", k.name, in)
		case !uri && err == nil && len(in) != 32 && len([]rune(in)) != 32:
			c.Fatalf("%s %q of %d bytes accepted", k.name, in, len(in))
		}
		c.Hit("%s %v", k.name, want)
		c.NonTrivial("%s %q", k.name, in)
	})
}
