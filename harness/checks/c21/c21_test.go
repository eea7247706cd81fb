package c21

import (
	"encoding/base64"
	"fmt"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"zntr.io/solid/sdk/pairwise"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var chars = rapid.RuneFrom([]rune("abcABC019.-_:/@ \t%é\u00e9e\u0301\u2003日\x00"))

func text(t *rapid.T, label string) string {
	switch fx.Int(t, label+"_kind", 0, 5) {
	case 0:
		return fx.Pick(t, label, "https://client.example/sector.json", "client.example", "Client.example", "client.example.", "a", "ab", "b", "1", "11")
	case 1:
		return rapid.StringOfN(chars, 1, 4, -1).Draw(t, label)
	case 2: // longer than a hash block
		return strings.Repeat(rapid.StringOfN(chars, 1, 3, -1).Draw(t, label), fx.Int(t, label+"_times", 40, 120))
	case 3:
		return rapid.String().Draw(t, label)
	default:
		return fx.Str(t, label, fx.Alnum+".-@", 1, 40)
	}
}

// vary changes a string somewhere.
func vary(t *rapid.T, label, s string) string {
	switch fx.Int(t, label+"_how", 0, 4) {
	case 0:
		return fx.Mutate(t, label, s)
	case 1:
		return fx.FlipCase(t, label, s)
	case 2: // one rune
		r := []rune(s)
		if len(r) == 0 {
			return "a"
		}
		i := fx.Int(t, label+"_at", 0, len(r)-1)
		r[i] = fx.Pick(t, label+"_to", 'a', 'b', ' ', '0', 'é')
		return string(r)
	case 3: // the end
		return s + string(chars.Draw(t, label+"_c"))
	default:
		return text(t, label)
	}
}

func salts(t *rapid.T, label string) []byte {
	return rapid.SliceOfN(rapid.Byte(), 16, 64).Draw(t, label)
}

// the encoder of the last salt of a case: some comparisons use it again.
var last struct {
	c    *hx.Case
	salt string
	e    pairwise.Encoder
}

func encode(c *hx.Case, salt []byte, sector, subject string) string {
	if last.c != c || last.salt != string(salt) || fx.Chance(c.T, "new encoder", 3) {
		last.c, last.salt, last.e = c, string(salt), pairwise.Hash(salt)
	}
	id, err := last.e.Encode(sector, subject)
	if err != nil {
		c.Fatalf("Encode(%q, %q) with a %d byte salt: %v", sector, subject, len(salt), err)
	}
	b, err := base64.RawURLEncoding.Strict().DecodeString(id)
	if err != nil || len(id) != 43 || len(b) != 32 {
		c.Fatalf("Encode(%q, %q) = %q is not 43 base64url characters", sector, subject, id)
	}
	return id
}

func TestC21(t *testing.T) {
	s := hx.New(t, "C21", "drawn salts of 16..64 bytes, sectors and subjects (short, long, Unicode, with inner and outer white space): identifiers are compared with those of the same input (another encoder, surrounding white space, concurrent use) and of varied inputs (one rune, the end, the case, the split between sector and subject, one salt bit), which must differ; all identifiers of a population are pairwise distinct; unusable salts and subjects. Non-trivial: every compared pair, identified by both inputs.",
		"salts longer than 64 bytes are refused by the hash function and not required to work")

	s.Prop("same", 4000, func(c *hx.Case) {
		salt, sector, subject := salts(c.T, "salt"), text(c.T, "sector"), text(c.T, "subject")
		if strings.TrimSpace(subject) == "" {
			subject += "x"
		}
		id := encode(c, salt, sector, subject)
		pad := fx.Pick(c.T, "pad", "", " ", "\t\n", "\u2003", "\r\n  ")
		e := pairwise.Hash(append([]byte{}, salt...))
		for i := 0; i < 2; i++ {
			if got, err := e.Encode(sector, pad+subject+pad); err != nil || got != id {
				c.Fatalf("Encode(%q, %q) = %q (%v), was %q", sector, pad+subject+pad, got, err, id)
			}
			// another use of the encoder in between does not matter
			if _, err := e.Encode(subject, "other"); err != nil {
				c.Fatalf("Encode(%q): %v", subject, err)
			}
		}
		var wg sync.WaitGroup
		got := make([]string, 4)
		for i := range got {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if i%2 == 1 {
					_, _ = e.Encode("other sector", "other")
				}
				got[i], _ = e.Encode(sector, subject)
			}()
		}
		wg.Wait()
		for _, g := range got {
			if g != id {
				c.Fatalf("concurrent Encode(%q, %q) = %q, was %q", sector, subject, g, id)
			}
		}
		c.NonTrivial("%q %q %x", sector, subject, salt)
	})

	s.Prop("different", 20000, func(c *hx.Case) {
		salt, sector, subject := salts(c.T, "salt"), text(c.T, "sector"), text(c.T, "subject")
		salt2, sector2, subject2 := append([]byte{}, salt...), sector, subject
		how := fx.Pick(c.T, "how", "subject", "sector", "both", "salt bit", "salt length", "split", "swap")
		switch how {
		case "subject":
			subject2 = vary(c.T, "subject2", subject)
		case "sector":
			sector2 = vary(c.T, "sector2", sector)
		case "both":
			sector2, subject2 = vary(c.T, "sector2", sector), vary(c.T, "subject2", subject)
		case "salt bit":
			salt2[fx.Int(c.T, "at", 0, len(salt)-1)] ^= 1 << fx.Int(c.T, "bit", 0, 7)
		case "salt length":
			if len(salt2) < 64 {
				salt2 = append(salt2, byte(fx.Int(c.T, "byte", 0, 255)))
			} else {
				salt2 = salt2[:63]
			}
		case "split":
			all := []rune(sector + subject)
			at := fx.Int(c.T, "at", 0, len(all))
			sector2, subject2 = string(all[:at]), string(all[at:])
		case "swap":
			sector2, subject2 = subject, sector
		}
		s1, s2 := strings.TrimSpace(subject), strings.TrimSpace(subject2)
		if s1 == "" || s2 == "" || (sector == sector2 && s1 == s2 && string(salt) == string(salt2)) {
			return
		}
		a, b := encode(c, salt, sector, subject), encode(c, salt2, sector2, subject2)
		if a == b && !(string(salt) == string(salt2) && sector+s1 == sector2+s2 && s.Known("concatenation")) {
			c.Fatalf("(%x, %q, %q) and (%x, %q, %q) both give %q", salt, sector, subject, salt2, sector2, subject2, a)
		}
		c.Hit("%s", how)
		c.NonTrivial("%s %x %q %q / %q %q", how, salt, sector, subject, sector2, subject2)
	})

	s.Prop("population", 150, func(c *hx.Case) {
		salt := salts(c.T, "salt")
		seen := map[string]string{}
		for i := 0; i < 60; i++ {
			sector, subject := text(c.T, "sector"), strings.TrimSpace(text(c.T, "subject"))
			if subject == "" {
				continue
			}
			in := fmt.Sprintf("%q %q", sector, subject)
			id := encode(c, salt, sector, subject)
			cat := sector + subject
			if old, ok := seen[id]; ok && old != in && old != in+"|"+cat && !(strings.HasSuffix(old, "|"+cat) && s.Known("concatenation")) {
				c.Fatalf("%s and %s give %q", old, in, id)
			}
			seen[id] = in + "|" + cat
			c.NonTrivial("%s", in)
		}
	})

	s.Prop("refused", 2000, func(c *hx.Case) {
		salt, subject := salts(c.T, "salt"), "subject"
		if fx.Chance(c.T, "short", 2) {
			salt = salt[:fx.Int(c.T, "len", 0, 15)]
			if len(salt) == 0 && fx.Chance(c.T, "nil", 2) {
				salt = nil
			}
		} else {
			subject = fx.Pick(c.T, "blank", "", " ", "\t", " \n ", "\u2003\u00a0", "\r\n")
		}
		sector := text(c.T, "sector")
		if id, err := pairwise.Hash(salt).Encode(sector, subject); err == nil || id != "" {
			c.Fatalf("Encode(%q, %q) with a %d byte salt: %q", sector, subject, len(salt), id)
		}
		c.NonTrivial("%q %d %q", sector, len(salt), subject)
	})

	s.Direct("split_known", func(t *testing.T) int {
		salt := []byte("0123456789abcdef")
		for _, p := range [][4]string{{"a", "bc", "ab", "c"}, {"https://rp.example/1", "23", "https://rp.example/12", "3"}} {
			x, err1 := pairwise.Hash(salt).Encode(p[0], p[1])
			y, err2 := pairwise.Hash(salt).Encode(p[2], p[3])
			if err1 != nil || err2 != nil {
				t.Fatalf("%q: %v, %v", p, err1, err2)
			}
			if x == y && !s.Known("concatenation") {
				t.Fatalf("(%q, %q) and (%q, %q) both give %q", p[0], p[1], p[2], p[3], x)
			}
		}
		return 2
	})
}
