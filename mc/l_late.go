package main

// Long histories: the same worlds, started where counters and identifiers are about to
// need a second byte (255 -> 256) or a second digit (9 -> 10), which no history of bounded
// depth reaches from zero.

import (
	"encoding/json"
	"fmt"
	"sort"

	"github.com/KYVENetwork/chain/app"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

func then(f, g func(a *app.App, gs map[string]json.RawMessage)) func(a *app.App, gs map[string]json.RawMessage) {
	return func(a *app.App, gs map[string]json.RawMessage) {
		if f != nil {
			f(a, gs)
		}
		g(a, gs)
	}
}

// lateQueues gives a copy of a scenario on a chain which has already handled n
// undelegations, leave requests and commission changes.
func lateQueues(sc *Scenario, n uint64, q, th int) *Scenario {
	c := *sc
	c.Name += fmt.Sprintf("-after-%d", n)
	c.Note += fmt.Sprintf("; started after %d earlier queue entries", n)
	c.Quick, c.Thor = q, th
	c.Gen.Modify = then(sc.Gen.Modify, func(a *app.App, gs map[string]json.RawMessage) {
		var d delegationtypes.GenesisState
		a.AppCodec().MustUnmarshalJSON(gs[delegationtypes.ModuleName], &d)
		d.QueueStateUndelegation = delegationtypes.QueueState{LowIndex: n, HighIndex: n}
		gs[delegationtypes.ModuleName] = a.AppCodec().MustMarshalJSON(&d)
		var s stakerstypes.GenesisState
		a.AppCodec().MustUnmarshalJSON(gs[stakerstypes.ModuleName], &s)
		s.QueueStateCommission = stakerstypes.QueueState{LowIndex: n, HighIndex: n}
		s.QueueStateLeave = stakerstypes.QueueState{LowIndex: n, HighIndex: n}
		gs[stakerstypes.ModuleName] = a.AppCodec().MustMarshalJSON(&s)
	})
	return &c
}

// latePeriods gives a copy of a delegation scenario in which S0 has a long history of
// payouts and withdrawals behind it.
func latePeriods(sc *Scenario, n, q, th int) *Scenario {
	c := *sc
	c.Name += fmt.Sprintf("-after-%d", n)
	c.Note += fmt.Sprintf("; started after %d reward periods of the same validator", n)
	c.Quick, c.Thor = q, th
	setup := sc.Setup
	c.Setup = func(e *Env, ctx sdk.Context) sdk.Context {
		ctx = setup(e, ctx)
		for i := 0; i < 2*n; i++ {
			if d, ok := e.App.DelegationKeeper.GetDelegationData(ctx, acc("S0")); ok && d.LatestIndexK >= uint64(n) {
				break
			}
			e.do(ctx, opWithdraw("S0", "S0"))
		}
		return ctx
	}
	return &c
}

// manyGen is a chain whose validators work in pools of higher numbers.
func manyGen() GenCfg {
	g := bundleGen()
	for _, s := range []string{"S1", "S2", "S3"} {
		for _, p := range []uint64{10, 11, 255, 256, 257} {
			g.Funded[valOf(s, p)] = nil
		}
	}
	return g
}

// farGen is a chain on which the next pool gets the number 255.
func farGen() GenCfg {
	g := manyGen()
	g.Modify = then(g.Modify, func(a *app.App, gs map[string]json.RawMessage) {
		var p pooltypes.GenesisState
		a.AppCodec().MustUnmarshalJSON(gs[pooltypes.ModuleName], &p)
		p.PoolCount = 255
		gs[pooltypes.ModuleName] = a.AppCodec().MustMarshalJSON(&p)
	})
	return g
}

// farPools: three pools numbered 255, 256 and 257 next to pools 0 and 1, with shared
// validators and funders.
func farPools(q, th int) *Scenario {
	return poolsAt("far-pools", manyGen(), 255, [3]uint64{255, 256, 257}, q, th)
}

// manyPools: the same in pools 1, 10 and 11 of twelve.
func manyPools(q, th int) *Scenario {
	return poolsAt("many-pools", manyGen(), 0, [3]uint64{1, 10, 11}, q, th)
}

func poolsAt(name string, gen GenCfg, first uint64, ps [3]uint64, q, th int) *Scenario {
	a, b, c := ps[0], ps[1], ps[2]
	return &Scenario{Name: name, Gen: gen, Quick: q, Thor: th,
		Note: fmt.Sprintf("pools %d, %d and %d", a, b, c) + " with shared validators and a funder of two of them: work, votes, leaving, joining, funding, defunding, switching off, upkeep and a further pool",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			if first > 0 {
				// pools 0 and 1 are in use as well, the numbers between are not
				e.createPool(ctx, poolCfg{Name: "Zero", Interval: 60, StorageId: 1})
				e.createPool(ctx, poolCfg{Name: "One", Interval: 60, StorageId: 1})
				e.App.PoolKeeper.SetPoolCount(ctx, first)
			}
			ctx = bundleSetup(e, ctx, bcfg{first: first, pools: int(c - first + 1), stakers: []string{"S1", "S2", "S3"}, stake: map[string]uint64{"S1": 3 * K, "S2": 3 * K, "S3": 2 * K},
				member: map[string][]uint64{"S1": {a, b}, "S2": {a, b}, "S3": {b}}, dels: map[string]uint64{"D1@S2": K}, maxPoints: 2, maxPower: "0.6", leave: 60})
			e.setWhitelist(ctx, wl(DENOM, 6, 1, 1, "1"))
			e.must(ctx, &funderstypes.MsgCreateFunder{Creator: acc("D2"), Moniker: "f"})
			e.do(ctx, opFund("D2", a, kyve(1000), kyve(40)))
			e.do(ctx, opFund("D2", b, kyve(2000), kyve(30)))
			if first > 0 {
				e.join(ctx, "S1", 0, valOf("S1", 0), 0)
				e.join(ctx, "S3", 0, valOf("S3", 0), 0)
				e.join(ctx, "S2", 1, valOf("S2", 1), 0)
				e.do(ctx, opFund("D2", 0, kyve(3000), kyve(20)))
				e.do(ctx, opClaim("S3", 0))
			}
			e.do(ctx, opClaim("S1", a))
			e.do(ctx, opClaim("S2", b))
			ctx = e.block(ctx, 60)
			e.do(ctx, opSubmit(a, "", "", nil))
			e.do(ctx, opVote("S2", a, vVALID))
			return ctx
		},
		Ops: func(e *Env) []*Op {
			return []*Op{
				opSubmit(a, "", "", nil), opSubmit(b, "", "", nil), opSkip(a, "", "", nil), opClaim("S3", b), opClaim("S1", c),
				opVote("S1", a, vINVALID), opVote("S2", b, vVALID), opVote("S3", b, vABSTAIN),
				opLeave("S1", a), opLeave("S2", b), opJoin("S1", c, valOf("S1", c), 0), opJoin("S3", a, valOf("S3", a), 0), opKick("S1", b), opKick("S3", b),
				opFund("D2", b, kyve(100), kyve(40)), opFund("D2", c, kyve(1000), kyve(40)), opDefund("D2", a, kyve(1000)), opDefund("D2", b, kyve(500)),
				opDisable(b), opEnable(b), opUpdatePool(a, `{"UploadInterval":70}`),
				blockOp(59), blockOp(60), blockOp(660),
			}
		}}
}

// farBundles: the pool numbered 255 has accepted n bundles.
func farBundles(n uint64, q, th int) *Scenario {
	return &Scenario{Name: fmt.Sprintf("after-%d-bundles", n), Gen: farGen(), Quick: q, Thor: th,
		Note: fmt.Sprintf("pool 255 after %d accepted bundles", n) + " and pool 256 after one: submissions of every size, skips, votes, deadlines and settings while the next bundles are accepted",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = bundleSetup(e, ctx, bcfg{first: 255, pools: 2, stakers: []string{"S1", "S2", "S3"}, stake: map[string]uint64{"S1": 5 * K, "S2": 2 * K, "S3": K},
				member: map[string][]uint64{"S1": {255}, "S2": {255, 256}, "S3": {256}}, maxPoints: 1000, maxPower: "1", leave: 60})
			e.do(ctx, opClaim("S1", 255))
			e.do(ctx, opClaim("S2", 256))
			ctx = e.block(ctx, 60)
			one := func(m *bundlestypes.MsgSubmitBundleProposal) {
				m.BundleSize, m.ToKey = 1, m.FromKey
			}
			for i := uint64(0); e.pool(ctx, 255).TotalBundles < n; i++ {
				if i > 4*n {
					panic(setupErr{"bundles which every voter calls valid are not accepted"})
				}
				if lab(e.prop(ctx, 255).NextUploader) == "S1" {
					e.do(ctx, opSubmit(255, "", "", one))
				} else {
					e.do(ctx, opSubmit(255, "", "", one))
					e.do(ctx, opVote("S1", 255, vVALID))
				}
				ctx = e.block(ctx, 60)
			}
			return ctx
		},
		Ops: func(e *Env) []*Op {
			return []*Op{
				opSubmit(255, "", "", nil),
				opSubmit(255, "", "no summary", func(m *bundlestypes.MsgSubmitBundleProposal) { m.BundleSummary, m.DataHash, m.DataSize = "", "", 0 }),
				opSubmit(255, "", "one item", func(m *bundlestypes.MsgSubmitBundleProposal) { m.BundleSize, m.ToKey = 1, m.FromKey }),
				opSubmit(256, "", "", nil), opSkip(255, "", "", nil), opVote("S1", 255, vVALID), opVote("S2", 255, vVALID), blockOp(60), blockOp(660),
				opUpdatePool(255, `{"StorageProviderId":2,"CompressionId":2}`),
			}
		}}
}

// poolsAsked are the pool numbers which queries are asked about: every pool, the first
// unused number and, unless the chain starts with many unused ones,
// all numbers below.
func poolsAsked(s *Snap) []uint64 {
	l := append(append([]uint64{}, poolIdsOf(s)...), s.PoolG.PoolCount)
	if s.PoolG.PoolCount < 20 {
		for p := uint64(0); p < s.PoolG.PoolCount; p++ {
			l = append(l, p)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	out := l[:0]
	for i, p := range l {
		if i == 0 || p != l[i-1] {
			out = append(out, p)
		}
	}
	return out
}
