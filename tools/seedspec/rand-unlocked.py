ID="rand-unlocked"; PROP="C30"
NEEDS="two goroutines which draw at the same time, one of them with Read or Float32"
BREAKS="Read takes its bytes from the source without the lock: concurrent draws race and can be handed out twice."
EDITS=[("sdk/randomness/locked_rand.go","""	lr.lk.Lock()
	n, err = lr.r.Read(p)
	lr.lk.Unlock()
	return
""","""	n, err = lr.r.Read(p)
	return
""")]
PKG="sdk/randomness"; FLAGS="-race "
DEMO='''
package randomness

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	r := NewLockedRand(1)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := make([]byte, 16)
			for i := 0; i < 1000; i++ {
				_, _ = r.Read(b)
				r.Int63()
			}
		}()
	}
	wg.Wait()
}
'''
