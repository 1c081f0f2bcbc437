package main

import (
	"fmt"

	sdk "github.com/cosmos/cosmos-sdk/types"
)

var extraEnvs = map[string]*Env{}

// extraEnv starts (once per process) the application of an enumeration and
// returns a fresh branch of its initial state.
func extraEnv(sc *Scenario) (*Env, sdk.Context) {
	e, ok := extraEnvs[sc.Name]
	if !ok {
		e, _ = sc.start()
		extraEnvs[sc.Name] = e
	}
	ctx, _ := e.Base.CacheContext()
	return e, ctx.WithEventManager(sdk.NewEventManager())
}

// fairness: long runs of designations at constant stake.
func bundleFairness() *Extra {
	vals := []uint64{1, 2, 3, 5, 9}
	type cs struct {
		st   []uint64
		join uint64
	}
	var cases []cs
	var rec func(n int, cur []uint64)
	rec = func(n int, cur []uint64) {
		if len(cur) == n {
			for _, j := range []uint64{0, 1, 7} {
				cases = append(cases, cs{append([]uint64{}, cur...), j})
			}
			return
		}
		for _, v := range vals {
			rec(n, append(cur, v))
		}
	}
	for n := 1; n <= 4; n++ {
		rec(n, nil)
	}
	names := []string{"S1", "S2", "S3", "S4"}
	sc := &Scenario{Name: "fairness", Gen: bundleGen(), Ops: func(*Env) []*Op { return nil },
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			return bundleSetup(e, ctx, bcfg{pools: 1, stakers: append(append([]string{}, names...), "S5"), stake: map[string]uint64{}, member: map[string][]uint64{"S1": {}, "S2": {}, "S3": {}, "S4": {}, "S5": {}}, maxPoints: 1 << 40, maxPower: "1"})
		}}
	return &Extra{Name: "designation-frequency", Note: "every stake vector of 1-4 validators over {1,2,3,5,9}, optionally a fifth joining half way, 60-120 successive designations by upload timeout",
		N: func(tier string) int {
			return len(cases)
		},
		Run: func(tier string, i int, fail Fail) (int, int) {
			c := cases[i]
			e, ctx := extraEnv(sc)
			total := uint64(0)
			stake := map[string]uint64{}
			for n, s := range c.st {
				e.delegate(ctx, names[n], names[n], s*K)
				e.join(ctx, names[n], 0, valOf(names[n], 0), 0)
				total += s
				stake[names[n]] = s
			}
			e.do(ctx, opClaim("S1", 0))
			steps := 0
			next := func() string {
				ctx = e.block(ctx, 660)
				ctx = e.block(ctx, 0)
				steps += 2
				return lab(e.prop(ctx, 0).NextUploader)
			}
			run := func(rounds int, fresh string) {
				cnt := map[string]uint64{}
				for r := 1; r <= rounds; r++ {
					cnt[next()]++
					for _, s := range sortedKeys(stake) {
						// |count - r*s/total| < 2 (a newcomer may lag by its entry penalty)
						lag := uint64(2)
						if s == fresh || fresh != "" {
							lag = 4
						}
						a, b := cnt[s]*total, uint64(r)*stake[s]
						if absDiff(a, b) >= lag*total {
							fail("not-proportional", "stakes %v join %d: after %d designations %s was designated %d times, its share is %d/%d", c.st, c.join, r, s, cnt[s], stake[s], total)
							return
						}
					}
					if fresh != "" && r <= 1 && cnt[fresh] > 0 && len(c.st) > 0 {
						fail("queue-jump", "stakes %v join %d: the newcomer is designated first", c.st, c.join)
					}
				}
			}
			run(60, "")
			if c.join > 0 {
				e.delegate(ctx, "S5", "S5", c.join*K)
				e.join(ctx, "S5", 0, valOf("S5", 0), 0)
				stake["S5"] = c.join
				total += c.join
				run(60, "S5")
			}
			return 1, steps
		}}
}

var _ = fmt.Sprint
