package props

import (
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/pbt"
)

func c15Gen(t *rapid.T) sCase {
	span := pbt.Pick(t, "span", int64(0), 20, 3000, 25000, 60000)
	c := sCase{Calls: genSCalls(t, span)}
	if pbt.Chance(t, 80, "events?") {
		n := 1 + pbt.Uniform(t, 4, "nevents")
		for i := 0; i < n; i++ {
			c.Events = append(c.Events, sEvent{At: pbt.Pick(t, "eat", int64(0), 1, int64(pbt.Uniform(t, 300, "e")), int64(pbt.Uniform(t, int(span)+2000, "e2"))),
				Kind: pbt.Pick(t, "kind", "drop", "drop", "readerr", "close", "reset", "close", "writefail", "refuse", "cancel")})
		}
	}
	if pbt.Chance(t, 20, "blocks?") {
		c.Blocks = map[int]int64{}
		for i := range c.Calls {
			// replies may come very late, so an id has only one user
			c.Calls[i].ID, c.Calls[i].IDType = pbt.IntID(int64(i)), ""
		}
		n := 1 + pbt.Uniform(t, 3, "nblocks")
		for i := 0; i < n; i++ {
			c.Blocks[pbt.Uniform(t, len(c.Calls)+1, "nth")] = pbt.Pick(t, "ms", int64(1), 100, 5000, 9999, 12000, 40000)
		}
	}
	if pbt.Chance(t, 20, "lags?") {
		c.Lags = map[int]int64{}
		for i, n := 0, 1+pbt.Uniform(t, 2, "nlags"); i < n; i++ {
			c.Lags[pbt.Uniform(t, 3, "conn")] = pbt.Pick(t, "lag", int64(1), 20, 1000, 15000)
		}
	}
	if pbt.Chance(t, 30, "pushes?") {
		n := 1 + pbt.Uniform(t, 6, "npushes")
		for i := 0; i < n; i++ {
			c.Pushes = append(c.Pushes, sPush{At: int64(pbt.Uniform(t, int(span)+2000, "p2")),
				Kind: pbt.Pick(t, "kind", "notify", "notify", "request", "result", "error", "none")})
		}
	}
	if pbt.Chance(t, 30, "sends?") {
		n := 1 + pbt.Uniform(t, 5, "nsends")
		for i := 0; i < n; i++ {
			c.Sends = append(c.Sends, sSend{At: int64(pbt.Uniform(t, int(span)+1, "sat"))})
		}
	}
	c.Explicit = pbt.Chance(t, 50, "explicit")
	if c.Explicit {
		c.Waiters = pbt.Pick(t, "waiters", 0, 1, 1, 1, 2)
	}
	c.OnConn = pbt.Pick(t, "onconn", "", "count", "send", "call")
	return c
}

func wLanesGen(t *rapid.T) wLanes {
	var c wLanes
	for i, n := 0, 16+pbt.Uniform(t, 17, "lanes"); i < n; i++ {
		c.Lanes = append(c.Lanes, wGen(t, false, true, true))
	}
	return c
}

func TestC15(t *testing.T) {
	pbt.Check(t, "C15",
		pbt.Part[sCase]{Name: "virtual", Quick: 12000, Gen: c15Gen, Run: sRun, Limit: 10 * time.Second},
		pbt.Part[wCase]{Name: "wire", Quick: 3000, Gen: func(t *rapid.T) wCase { return wGen(t, false, true, false) }, Run: wCheck},
		pbt.Part[wLanes]{Name: "lanes", Quick: 8, Gen: wLanesGen, Run: wLanesRun},
	)
}
