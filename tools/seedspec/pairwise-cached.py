ID="pairwise-cached"; PROP="C21"
NEEDS="one encoder used for the same subject and two sectors"
BREAKS="The encoder remembers the identifier by subject alone, so clients of different sectors receive the same one and can link the user."
EDITS=[("sdk/pairwise/hash.go","type hashEncoder struct {\n	salt []byte\n","type hashEncoder struct {\n	salt  []byte\n	known sync.Map\n"),
("sdk/pairwise/hash.go","	\"strings\"\n\n","	\"strings\"\n	\"sync\"\n\n"),
("sdk/pairwise/hash.go","	// Encode hash as Raw Base64 URL\n	return base64.RawURLEncoding.EncodeToString(sub[:]), nil","	// Encode hash as Raw Base64 URL\n	id, _ := t.known.LoadOrStore(subject, base64.RawURLEncoding.EncodeToString(sub[:]))\n	return id.(string), nil"),
]
PKG="sdk/pairwise"
DEMO='''
package pairwise

import "testing"

func TestDemo(t *testing.T) {
	e := Hash([]byte("0123456789abcdef0123456789abcdef"))
	a, err := e.Encode("https://a.example", "alice")
	if err != nil {
		t.Fatal(err)
	}
	b, err := e.Encode("https://b.example", "alice")
	if err != nil {
		t.Fatal(err)
	}
	if a == b {
		t.Fatal("the same identifier in two sectors")
	}
}
'''
