package props

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/superisaac/jlib"

	"pgregory.net/rapid"

	"verif/pbt"
)

func c14Gen(t *rapid.T) sCase {
	span := pbt.Pick(t, "span", int64(0), 20, 3000, 25000)
	c := sCase{Calls: genSCalls(t, span)}
	if pbt.Chance(t, 60, "pushes?") {
		n := pbt.Size(t, 6, 150, "npushes")
		for i := 0; i < n; i++ {
			c.Pushes = append(c.Pushes, sPush{At: pbt.Pick(t, "pat", int64(0), 1, int64(pbt.Uniform(t, 300, "p")), int64(pbt.Uniform(t, int(span)+2000, "p2"))),
				Kind: pbt.Pick(t, "kind", "notify", "notify", "request", "result", "error", "none")})
		}
	}
	if pbt.Chance(t, 30, "sends?") {
		n := 1 + pbt.Uniform(t, 5, "nsends")
		for i := 0; i < n; i++ {
			c.Sends = append(c.Sends, sSend{At: int64(pbt.Uniform(t, int(span)+1, "sat"))})
		}
	}
	c.Explicit = pbt.Chance(t, 30, "explicit")
	c.NoHandle = pbt.Chance(t, 5, "nohandler")
	c.OnMsg = pbt.Pick(t, "onmsg", "", "", "send")
	return c
}

// c14Ids makes ids on several goroutines at once.
type c14Ids struct {
	Lanes int `json:"lanes"`
	N     int `json:"n"`
}

func c14IdsRun(r *pbt.Rec, c c14Ids) error {
	ids := make([][]string, c.Lanes)
	var wg sync.WaitGroup
	for i := range ids {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < c.N; j++ {
				ids[i] = append(ids[i], jlib.NewUuid())
			}
		}()
	}
	wg.Wait()
	seen := make(map[string]bool, c.Lanes*c.N)
	for _, lane := range ids {
		for _, id := range lane {
			if seen[id] {
				return fmt.Errorf("the id %s was made twice among %d", id, c.Lanes*c.N)
			}
			seen[id] = true
		}
	}
	if c.Lanes > 1 {
		r.NonTrivial()
	}
	return nil
}

func TestC14(t *testing.T) {
	pbt.Check(t, "C14",
		pbt.Part[sCase]{Name: "concurrent", Quick: 12000, Gen: c14Gen, Run: sRun, Limit: 10 * time.Second},
		pbt.Part[wCase]{Name: "wire", Quick: 3000, Gen: func(t *rapid.T) wCase { return wGen(t, true, false, false) }, Run: wCheck},
		pbt.Part[c14Ids]{Name: "ids", Quick: 6, Gen: func(t *rapid.T) c14Ids {
			return c14Ids{1 + pbt.Uniform(t, 8, "lanes"), 1000 + pbt.Uniform(t, 30000, "n")}
		}, Run: c14IdsRun},
	)
}
