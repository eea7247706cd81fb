ID="pkce-shared-buffer"; PROP="C22"
NEEDS="two pairs generated at the same time"
BREAKS="The random bytes of all pairs pass through one buffer: pairs generated concurrently can be equal, or their bytes mixed."
EDITS=[("sdk/pkce/verifier.go","""	random := make([]byte, codeVerifierLen)
	if _, err := rand.Read(random); err != nil {""","""	if _, err := rand.Read(random); err != nil {"""),
("sdk/pkce/verifier.go","// CodeVerifier generates","// random is the buffer of the generated verifiers.\nvar random = make([]byte, codeVerifierLen)\n\n// CodeVerifier generates")]
PKG="sdk/pkce"; FLAGS="-race "
DEMO='''
package pkce

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	var seen sync.Map
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				v, _, err := CodeVerifier()
				if err != nil {
					t.Error(err)
				}
				if _, dup := seen.LoadOrStore(v, true); dup {
					t.Error("verifier generated twice")
				}
			}
		}()
	}
	wg.Wait()
}
'''
