package main

// X03: block processing never fails.

import (
	sdk "github.com/cosmos/cosmos-sdk/types"
)

func ruleHalt(e *Env, st *Step, fail Fail) {
	if st.Phase == "end" || st.Phase == "begin" {
		if !st.OK() {
			fail("block-fails", "%s: the %s of the block fails: %v %s", where(st), st.Phase, st.Err, st.Panic)
			return
		}
	}
	if st.Post != nil && st.Post.HaltPlan {
		fail("emergency-halt", "%s schedules an emergency halt", where(st))
	}
}

// blocksOnly restricts a reference rule to the work of blocks.
func blocksOnly(r Rule, name string) Rule {
	return func(e *Env, st *Step, fail Fail) {
		if st.Phase == "op" || !st.OK() {
			return
		}
		r(e, st, func(rule, format string, args ...any) {
			// inflation, rewards and bundles of the same block change balances and pools too (judged under D04, I01, T02, B01)
			if rule != "unbonding-balance" && rule != "pool-record" {
				fail("work-"+name+"-"+rule, format, args...)
			}
		})
	}
}

// stateBlocks lets the chain run on from every state.
func stateBlocks(dts ...int64) StateRule {
	return func(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
		c, _ := ctx.CacheContext()
		for i, dt := range dts {
			if err, p := e.endBlock(quiet(c)); err != nil || p != "" {
				fail("block-fails", "the end of block %d after this state fails: %v %s", i, err, p)
				return
			}
			c = nextCtx(c, dt)
			if err, p := e.beginBlock(c); err != nil || p != "" {
				fail("block-fails", "the begin of block %d after this state fails: %v %s", i+1, err, p)
				return
			}
		}
		if _, err := e.App.UpgradeKeeper.GetUpgradePlan(c); err == nil {
			fail("emergency-halt", "the blocks after this state schedule an emergency halt")
		}
	}
}

// haltExtremes: every parameter and pool field at its limits in a state with work due.
func haltExtremes() *Extra {
	type cs struct {
		what string
		ops  []*Op
	}
	var l []cs
	for _, mod := range sortedKeys(paramFields) {
		for _, f := range sortedKeys(paramFields[mod]) {
			for _, v := range paramVals(mod, f) {
				if v.ok {
					l = append(l, cs{mod + "." + f + "=" + v.raw, []*Op{opParams(mod, f+"="+v.raw, `{"`+f+`":`+v.raw+`}`)}})
				}
			}
		}
	}
	single := len(l)
	fields := []string{`"UploadInterval":1`, `"UploadInterval":18446744073709551615`, `"MinDelegation":0`, `"MinDelegation":18446744073709551615`, `"MaxBundleSize":1`, `"InflationShareWeight":"0"`, `"InflationShareWeight":"0.000000000000000001"`,
		`"InflationShareWeight":"1000000000000000000"`, `"StorageProviderId":0`, `"CompressionId":99`, `"EndKey":"x"`, `"Runtime":""`}
	every := map[string][]*Op{}
	for _, p := range fields {
		for id := uint64(0); id < 3; id++ {
			if id < 2 {
				l = append(l, cs{p, []*Op{opUpdatePool(id, "{"+p+"}")}})
			}
			every[p] = append(every[p], opUpdatePool(id, "{"+p+"}"))
		}
		l = append(l, cs{p + " everywhere", every[p]})
	}
	l = append(l, cs{"every pool disabled", []*Op{opDisable(0), opDisable(1), opDisable(2)}},
		cs{"every pool disabled and enabled", []*Op{opDisable(0), opDisable(1), opDisable(2), opEnable(0), opEnable(1), opEnable(2)}},
		cs{"every member leaves", []*Op{opLeave("S1", 0), opLeave("S1", 1), opLeave("S2", 0), opLeave("S2", 1), opLeave("S3", 0), opLeave("S3", 2)}})
	for _, at := range []int64{1, 60, 100} {
		for _, d := range []uint64{1, 60, 1 << 63, 1<<64 - 1} {
			l = append(l, cs{"upgrade", []*Op{opSchedule("@kyve/test", "9", "{}", inSec(at), d, "")}})
		}
	}
	// every limit of a parameter together with every limit of the pools
	var pairs []cs
	for _, x := range l[:single] {
		for _, p := range fields {
			pairs = append(pairs, cs{x.what + " and " + p + " everywhere", append(append([]*Op{}, x.ops...), every[p]...)})
		}
	}
	in := mixedInits()
	steps := [][]int64{{1, 1, 1}, {61, 61, 61}, {200, 1, 200}, {6 * day, 6 * day}, {365 * day, 1, 365 * day}}
	sc := &Scenario{Name: "mixed-extremes", Gen: inflationGen(), Setup: mixedSetup, Ops: func(*Env) []*Op { return nil }}
	dims := []int{len(l), len(in), len(steps)}
	return &Extra{Name: "extremes", Note: "every parameter of every module and every pool field at its limits x six situations x five patterns of block times, and every pair of a parameter limit and a pool field limit",
		N: func(string) int { return dims[0]*dims[1]*dims[2] + len(pairs)*len(in) },
		Run: func(tier string, i int, fail Fail) (int, int) {
			var c cs
			var k, n int
			if s := dims[0] * dims[1] * dims[2]; i < s {
				x := digits(i, dims)
				c, k, n = l[x[0]], x[1], x[2]
			} else {
				x := digits(i-s, []int{len(pairs), len(in)})
				c, k, n = pairs[x[0]], x[1], 1
			}
			e, ctx := extraEnv(sc)
			ctx = in[k].f(e, ctx)
			ctx = e.try(ctx, c.ops...)
			stateBlocks(steps[n]...)(e, ctx, nil, func(rule, format string, args ...any) {
				fail(rule, in[k].name+", "+c.what+": "+format, args...)
			})
			return len(steps[n]), len(steps[n])
		}}
}

func deep(sc *Scenario, q, th int) *Scenario { sc.Quick, sc.Thor = q, th; return sc }

func buildHalt() {
	gl := govLife(3, 4)
	gl.Name = "gov-blocks"
	ops := gl.Ops
	gl.Ops = func(e *Env) []*Op {
		l := append([]*Op{}, ops(e)...)
		return append(l, opGovVote("S1", 1), opGovVote("S2", 2), opGovVote("D1", 1), blockOp(3*day))
	}
	scs := []*Scenario{mixedWorld("mixed", 2, 4), bundleNeighbours(), gl, deep(poolLife(4, 5), 3, 5), deep(membershipWorld(4, 5), 3, 5), deep(delaysWorld(4, 6), 3, 5), deep(bundleMachine(), 4, 5), deep(teamWorld("team-claims", 3, 4, 0), 3, 4), deep(inflationWorld(3, 4), 3, 4)}
	register(&Property{ID: "X03", Scenarios: scs, Rules: []Rule{ruleHalt, blocksOnly(rulePoints, "points"), blocksOnly(ruleDecision, "decision"), blocksOnly(ruleDelays, "delays"), blocksOnly(ruleUnbonding, "unbonding"), blocksOnly(rulePools, "pools")},
		States: []StateRule{stateBlocks(1, 200, 6*day, 30*day)}, Extra: []*Extra{haltExtremes()}})
}
