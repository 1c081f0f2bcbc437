package main

import (
	"fmt"
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
)

const (
	vVALID   = bundlestypes.VOTE_TYPE_VALID
	vINVALID = bundlestypes.VOTE_TYPE_INVALID
	vABSTAIN = bundlestypes.VOTE_TYPE_ABSTAIN
)

func voteName(v bundlestypes.VoteType) string {
	switch v {
	case vVALID:
		return "valid"
	case vINVALID:
		return "invalid"
	case vABSTAIN:
		return "abstain"
	}
	return "unspecified"
}

// valOf is the protocol address label of a validator in a pool
func valOf(s string, p uint64) string { return fmt.Sprintf("V%s%d", s, p) }

func (e *Env) prop(ctx sdk.Context, p uint64) bundlestypes.BundleProposal {
	x, _ := e.App.BundlesKeeper.GetBundleProposal(ctx, p)
	return x
}

func (e *Env) pool(ctx sdk.Context, p uint64) pooltypes.Pool {
	x, _ := e.App.PoolKeeper.GetPool(ctx, p)
	return x
}

func opClaim(s string, p uint64) *Op {
	return msgOp("claim", fmt.Sprintf("claim(%s,pool%d)", s, p), &bundlestypes.MsgClaimUploaderRole{Creator: acc(valOf(s, p)), Staker: acc(s), PoolId: p})
}

// submitMsg is a correct submission by the designated uploader (or by who, if given)
func submitMsg(e *Env, ctx sdk.Context, p uint64, who string) *bundlestypes.MsgSubmitBundleProposal {
	pr, pl := e.prop(ctx, p), e.pool(ctx, p)
	s := pr.NextUploader
	if who != "" {
		s = acc(who)
	}
	l := lab(s)
	from := pl.CurrentIndex + pr.BundleSize
	return &bundlestypes.MsgSubmitBundleProposal{
		Creator: acc(valOf(l, p)), Staker: s, PoolId: p, StorageId: fmt.Sprintf("st-%d-%d-%d", p, pl.TotalBundles, ctx.BlockHeight()),
		DataSize: 1000, DataHash: "hash", FromIndex: from, BundleSize: 7, FromKey: fmt.Sprint(from), ToKey: fmt.Sprint(from + 6),
		BundleSummary: fmt.Sprintf("sum-%d", from),
	}
}

func opSubmit(p uint64, who, variant string, mod func(m *bundlestypes.MsgSubmitBundleProposal)) *Op {
	n := "next"
	if who != "" {
		n = who
	}
	if variant != "" {
		n += "," + variant
	}
	return &Op{Name: fmt.Sprintf("submit(pool%d,%s)", p, n), Kind: "submit", Msg: func(e *Env, ctx sdk.Context) sdk.Msg {
		m := submitMsg(e, ctx, p, who)
		if mod != nil {
			mod(m)
		}
		return m
	}}
}

func opSkip(p uint64, who, variant string, mod func(m *bundlestypes.MsgSkipUploaderRole)) *Op {
	n := "next"
	if who != "" {
		n = who
	}
	if variant != "" {
		n += "," + variant
	}
	return &Op{Name: fmt.Sprintf("skip(pool%d,%s)", p, n), Kind: "skip", Msg: func(e *Env, ctx sdk.Context) sdk.Msg {
		s := submitMsg(e, ctx, p, who)
		m := &bundlestypes.MsgSkipUploaderRole{Creator: s.Creator, Staker: s.Staker, PoolId: p, FromIndex: s.FromIndex}
		if mod != nil {
			mod(m)
		}
		return m
	}}
}

func opVote(s string, p uint64, v bundlestypes.VoteType) *Op {
	return opVoteX(s, p, v, "", nil)
}

func opVoteX(s string, p uint64, v bundlestypes.VoteType, variant string, mod func(m *bundlestypes.MsgVoteBundleProposal)) *Op {
	n := voteName(v)
	if variant != "" {
		n += "," + variant
	}
	return &Op{Name: fmt.Sprintf("vote(%s,pool%d,%s)", s, p, n), Kind: "vote", Msg: func(e *Env, ctx sdk.Context) sdk.Msg {
		m := &bundlestypes.MsgVoteBundleProposal{Creator: acc(valOf(s, p)), Staker: acc(s), PoolId: p, StorageId: e.prop(ctx, p).StorageId, Vote: v}
		if mod != nil {
			mod(m)
		}
		return m
	}}
}

func opPoints(s string, p uint64) *Op {
	return &Op{Name: fmt.Sprintf("point(%s,pool%d)", s, p), Kind: "points", S: acc(s), P: p,
		Fn: func(e *Env, ctx sdk.Context) error {
			e.App.StakersKeeper.IncrementPoints(ctx, p, acc(s))
			return nil
		},
		Enable: func(e *Env, ctx sdk.Context, pre *Snap) bool {
			v, ok := pre.Val[PS{p, acc(s)}]
			return ok && v.Points+1 < pre.BundlesG.Params.MaxPoints
		}}
}

type bcfg struct {
	pools     int
	interval  uint64
	stakers   []string
	stake     map[string]uint64   // own stake
	member    map[string][]uint64 // pools joined (default: all)
	dels      map[string]uint64   // "D@S" style handled by setup
	maxPoints uint64
	maxPower  string
	minDel    uint64
	leave     uint64
	first     uint64 // number of the first pool
}

func bundleGen() GenCfg {
	f := funded(kyve(startBal), "G", "S1", "S2", "S3", "S4", "S5", "D1", "D2")
	for k := range f {
		f[k] = f[k].Add(coin(ADENOM, startBal), coin(BDENOM, startBal), coin(CDENOM, startBal))
	}
	for _, s := range []string{"S1", "S2", "S3", "S4", "S5"} {
		for p := uint64(0); p < 3; p++ {
			f[valOf(s, p)] = nil
		}
	}
	return GenCfg{Funded: f}
}

func bundleSetup(e *Env, ctx sdk.Context, c bcfg) sdk.Context {
	bp := e.App.BundlesKeeper.GetParams(ctx)
	if c.maxPoints > 0 {
		bp.MaxPoints = c.maxPoints
	}
	e.App.BundlesKeeper.SetParams(ctx, bp)
	pp := e.App.PoolKeeper.GetParams(ctx)
	if c.maxPower != "" {
		pp.MaxVotingPowerPerPool = dec(c.maxPower)
	}
	e.App.PoolKeeper.SetParams(ctx, pp)
	sp := e.App.StakersKeeper.GetParams(ctx)
	if c.leave > 0 {
		sp.LeavePoolTime = c.leave
	}
	e.App.StakersKeeper.SetParams(ctx, sp)
	for p := 0; p < c.pools; p++ {
		iv := c.interval
		if iv == 0 {
			iv = 60
		}
		e.createPool(ctx, poolCfg{Name: fmt.Sprintf("Pool%d", p), Interval: iv, MinDel: c.minDel, StorageId: 1})
	}
	for _, s := range c.stakers {
		e.createStaker(ctx, s, c.stake[s])
		ps, ok := c.member[s]
		if !ok {
			for p := 0; p < c.pools; p++ {
				ps = append(ps, c.first+uint64(p))
			}
		}
		for _, p := range ps {
			e.join(ctx, s, p, valOf(s, p), 0)
		}
	}
	for _, d := range sortedKeys(c.dels) {
		var dl, st string
		fmt.Sscanf(d, "%2s@%2s", &dl, &st)
		e.delegate(ctx, dl, st, c.dels[d])
	}
	return ctx
}

func (e *Env) setWhitelist(ctx sdk.Context, l ...funderstypes.WhitelistCoinEntry) {
	p := e.App.FundersKeeper.GetParams(ctx)
	p.CoinWhitelist = nil
	for i := range l {
		p.CoinWhitelist = append(p.CoinWhitelist, &l[i])
	}
	e.App.FundersKeeper.SetParams(ctx, p)
}

func wl(denom string, decimals uint32, minAmt, minPer uint64, weight string) funderstypes.WhitelistCoinEntry {
	return funderstypes.WhitelistCoinEntry{CoinDenom: denom, CoinDecimals: decimals, MinFundingAmount: intU(minAmt), MinFundingAmountPerBundle: intU(minPer), CoinWeight: dec(weight)}
}

func (e *Env) do(ctx sdk.Context, op *Op) {
	if op.Fn != nil {
		if err := op.Fn(e, ctx); err != nil {
			panic(setupErr{err.Error()})
		}
		return
	}
	e.must(ctx, op.Msg(e, ctx))
}

// --- world 1: free run of the round with two pools sharing validators -----------------

func bundleMachine() *Scenario {
	return &Scenario{Name: "bundle-machine", Gen: bundleGen(), Quick: 5, Thor: 7,
		Note: "2 pools, 3 validators (two in both pools), max 2 points: claims, submissions, skips, all votes, leaving, block steps at and around both deadlines",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = bundleSetup(e, ctx, bcfg{pools: 2, stakers: []string{"S1", "S2", "S3"}, stake: map[string]uint64{"S1": 3 * K, "S2": 3 * K, "S3": 2 * K},
				member: map[string][]uint64{"S3": {0}}, dels: map[string]uint64{"D1@S2": K}, maxPoints: 2, maxPower: "0.6", leave: 60})
			e.do(ctx, opClaim("S1", 0))
			return e.block(ctx, 60)
		},
		Ops: func(e *Env) []*Op {
			var l []*Op
			l = append(l, opSubmit(0, "", "", nil), opSkip(0, "", "", nil))
			for _, s := range []string{"S1", "S2", "S3"} {
				for _, v := range []bundlestypes.VoteType{vVALID, vINVALID, vABSTAIN} {
					l = append(l, opVote(s, 0, v))
				}
			}
			l = append(l, opClaim("S2", 0), opClaim("S1", 1), opSubmit(1, "", "", nil), opVote("S2", 1, vINVALID), opLeave("S2", 0), opUndelegate("S3", "S3", 2*K),
				blockOp(59), blockOp(60), blockOp(660))
			return l
		}}
}

// --- world 2: every vote pattern against every way a proposal is evaluated ---------------

func bundleTally(name string, q, th int, stakes []map[string]uint64, uploaders []string, points []string, extra []*Op) *Scenario {
	votes := []bundlestypes.VoteType{0, vVALID, vINVALID, vABSTAIN}
	all := []string{"S1", "S2", "S3", "S4"}
	type ini struct {
		stake int
		up    string
		v     [3]int
		pts   string
	}
	var inits []ini
	for si := range stakes {
		for _, u := range uploaders {
			for a := 0; a < 4; a++ {
				for b := 0; b < 4; b++ {
					for c := 0; c < 4; c++ {
						for _, p := range points {
							inits = append(inits, ini{si, u, [3]int{a, b, c}, p})
						}
					}
				}
			}
		}
	}
	return &Scenario{Name: name, Gen: bundleGen(), Quick: q, Thor: th,
		Note:  "4 validators (one also in a second pool), every vote pattern of the three voters x stake distributions x points before, then every way to evaluate the proposal",
		InitN: len(inits),
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = bundleSetup(e, ctx, bcfg{pools: 2, stakers: all, stake: stakes[0], member: map[string][]uint64{"S1": {0}, "S2": {0, 1}, "S3": {0, 1}, "S4": {0}}, maxPoints: 3, maxPower: "1", leave: 60})
			// a funder and an inflation balance so that acceptance moves money
			e.setWhitelist(ctx, wl(DENOM, 6, 10, 1, "0.06"), wl(ADENOM, 6, 10, 1, "1"))
			e.must(ctx, &funderstypes.MsgCreateFunder{Creator: acc("D2"), Moniker: "f"})
			e.do(ctx, opFund("D2", 0, sdk.NewCoins(coin(DENOM, 14007), coin(ADENOM, 6666)), sdk.NewCoins(coin(DENOM, 700), coin(ADENOM, 333))))
			e.fundAccount(ctx, "G", poolAcc(0), kyve(12345))
			return ctx
		},
		Init: func(e *Env, ctx sdk.Context, i int) (sdk.Context, string) {
			x := inits[i]
			for _, s := range all {
				if d := stakes[x.stake][s]; d > stakes[0][s] {
					e.delegate(ctx, s, s, d-stakes[0][s])
				}
			}
			e.do(ctx, opClaim(x.up, 0))
			ctx = e.block(ctx, 60)
			e.do(ctx, opSubmit(0, "", "", nil))
			n := fmt.Sprintf("stake%d uploader %s votes", x.stake, x.up)
			k := 0
			for _, s := range all {
				if s == x.up {
					continue
				}
				v := votes[x.v[k]]
				k++
				n += fmt.Sprintf(" %s:%s", s, voteName(v))
				if v != 0 {
					e.do(ctx, opVote(s, 0, v))
				}
			}
			for _, s := range all {
				if has([]string{"both", s}, x.pts) || x.pts == "all" {
					e.App.StakersKeeper.IncrementPoints(ctx, 0, acc(s))
					e.App.StakersKeeper.IncrementPoints(ctx, 0, acc(s))
				}
			}
			n += " points:" + x.pts
			ctx = e.block(ctx, 59)
			return ctx, n
		},
		Ops: func(e *Env) []*Op {
			return append([]*Op{opSubmit(0, "", "", nil), opSkip(0, "", "", nil), blockOp(1), blockOp(60), blockOp(661)}, extra...)
		}}
}

func (e *Env) fundAccount(ctx sdk.Context, from, addr string, c sdk.Coins) {
	if err := e.App.BankKeeper.SendCoins(ctx, sdk.MustAccAddressFromBech32(acc(from)), sdk.MustAccAddressFromBech32(addr), c); err != nil {
		panic(err)
	}
}

// --- world 3: who may act when, every pool condition x proposal state x message variant ----

func bundleEligibility() *Scenario {
	conds := []string{"ok", "disabled", "upgrading", "upgrade-later", "upgrade-over", "endkey", "low-stake", "concentrated", "stake-limit", "power-limit"}
	props := []string{"none", "claimed", "claimed-ready", "open", "open-ready", "open-abstain", "open-voted", "open-left", "later-none"}
	return &Scenario{Name: "bundle-eligibility", Gen: bundleGen(), Quick: 1, Thor: 2, InitN: len(conds) * len(props),
		Note: "every pool condition x proposal state x message variant (right and wrong sender, member, pool, index, size, keys, vote)",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			return bundleSetup(e, ctx, bcfg{pools: 2, stakers: []string{"S1", "S2", "S3", "S4"}, stake: map[string]uint64{"S1": 3 * K, "S2": 3 * K, "S3": 2 * K, "S4": 5 * K},
				member: map[string][]uint64{"S1": {0, 1}, "S2": {0, 1}, "S3": {0}, "S4": {1}}, maxPower: "0.5", leave: 10})
		},
		Init: func(e *Env, ctx sdk.Context, i int) (sdk.Context, string) {
			cond, pr := conds[i/len(props)], props[i%len(props)]
			if pr != "none" {
				e.do(ctx, opClaim("S1", 0))
			}
			if pr != "none" && pr != "claimed" {
				ctx = e.block(ctx, 60)
			}
			switch pr {
			case "open", "open-ready", "open-abstain", "open-voted", "open-left":
				e.do(ctx, opSubmit(0, "", "", nil))
			}
			switch pr {
			case "open-ready", "open-voted":
				e.do(ctx, opVote("S2", 0, vVALID))
			case "open-abstain":
				e.do(ctx, opVote("S2", 0, vABSTAIN))
				e.do(ctx, opVote("S3", 0, vINVALID))
			case "open-left":
				e.do(ctx, opVote("S3", 0, vINVALID))
				e.do(ctx, opLeave("S3", 0))
			}
			switch pr {
			case "open-ready":
				ctx = e.block(ctx, 60)
			case "open-left":
				ctx = e.block(ctx, 10)
			case "later-none": // a bundle is finalized, afterwards the role is free again
				e.do(ctx, opSubmit(0, "", "", nil))
				e.do(ctx, opVote("S2", 0, vVALID))
				ctx = e.block(ctx, 60)
				e.do(ctx, opSubmit(0, "", "", nil))
				if e.pool(ctx, 0).TotalBundles != 1 {
					panic("no bundle finalized")
				}
				e.App.BundlesKeeper.SetBundleProposal(ctx, bundlestypes.BundleProposal{PoolId: 0})
			}
			pl := e.pool(ctx, 0)
			now := uint64(ctx.BlockTime().Unix())
			switch cond {
			case "disabled":
				pl.Disabled = true
			case "upgrading":
				pl.UpgradePlan = &pooltypes.UpgradePlan{Version: "2", Binaries: "{}", ScheduledAt: now, Duration: 100}
			case "upgrade-later":
				pl.UpgradePlan = &pooltypes.UpgradePlan{Version: "2", Binaries: "{}", ScheduledAt: now + 1, Duration: 100}
			case "upgrade-over":
				pl.UpgradePlan = &pooltypes.UpgradePlan{Version: "2", Binaries: "{}", ScheduledAt: now - 100, Duration: 100}
			case "endkey":
				pl.EndKey = "k"
				pl.CurrentKey = "k"
			case "low-stake", "stake-limit":
				var t uint64
				for _, s := range e.App.StakersKeeper.GetAllStakerAddressesOfPool(ctx, 0) {
					t += e.App.DelegationKeeper.GetDelegationAmount(ctx, s)
				}
				pl.MinDelegation = t
				if cond == "low-stake" {
					pl.MinDelegation++
				}
			case "concentrated", "power-limit":
				pp := e.App.PoolKeeper.GetParams(ctx)
				// S1 and S2 hold 3K of 8K (or of 6K after S3 left)
				pp.MaxVotingPowerPerPool = dec("0.375")
				if pr == "open-left" {
					pp.MaxVotingPowerPerPool = dec("0.5")
				}
				if cond == "concentrated" {
					pp.MaxVotingPowerPerPool = pp.MaxVotingPowerPerPool.Sub(dec("0.000000001"))
				}
				e.App.PoolKeeper.SetParams(ctx, pp)
			}
			e.App.PoolKeeper.SetPool(ctx, pl)
			return ctx, cond + "/" + pr
		},
		Ops: func(e *Env) []*Op {
			l := []*Op{
				opSubmit(0, "", "", nil), opSkip(0, "", "", nil), opClaim("S2", 0), opClaim("S4", 0), opClaim("S1", 7),
			}
			for _, s := range []string{"S1", "S2", "S3"} {
				for _, v := range []bundlestypes.VoteType{vVALID, vINVALID, vABSTAIN} {
					l = append(l, opVote(s, 0, v))
				}
			}
			l = append(l,
				opVote("S2", 0, 0), opVote("S4", 0, vVALID), opVote("S2", 1, vVALID),
				opVoteX("S2", 0, vVALID, "other protocol address", func(m *bundlestypes.MsgVoteBundleProposal) { m.Creator = acc(valOf("S2", 1)) }),
				opVoteX("S2", 0, vVALID, "own address", func(m *bundlestypes.MsgVoteBundleProposal) { m.Creator = acc("S2") }),
				opVoteX("S2", 0, vVALID, "address of another member", func(m *bundlestypes.MsgVoteBundleProposal) { m.Creator = acc(valOf("S3", 0)) }),
				opVoteX("S2", 0, vVALID, "other storage id", func(m *bundlestypes.MsgVoteBundleProposal) { m.StorageId = "other" }),
				opVoteX("S2", 0, vVALID, "empty storage id", func(m *bundlestypes.MsgVoteBundleProposal) { m.StorageId = "" }),
				opVoteX("S2", 0, 9, "vote 9", nil),
			)
			wrong := func(n string, f func(m *bundlestypes.MsgSubmitBundleProposal)) {
				l = append(l, opSubmit(0, "", n, f))
			}
			wrong("other protocol address", func(m *bundlestypes.MsgSubmitBundleProposal) { m.Creator = acc(valOf("S1", 1)) })
			wrong("own address", func(m *bundlestypes.MsgSubmitBundleProposal) { m.Creator = m.Staker })
			wrong("address of another member", func(m *bundlestypes.MsgSubmitBundleProposal) { m.Creator = acc(valOf("S2", 0)) })
			wrong("index+1", func(m *bundlestypes.MsgSubmitBundleProposal) { m.FromIndex++ })
			wrong("index-1", func(m *bundlestypes.MsgSubmitBundleProposal) { m.FromIndex-- })
			wrong("index of the open bundle", func(m *bundlestypes.MsgSubmitBundleProposal) { m.FromIndex = 0 })
			wrong("size 0", func(m *bundlestypes.MsgSubmitBundleProposal) { m.BundleSize = 0 })
			wrong("size max", func(m *bundlestypes.MsgSubmitBundleProposal) { m.BundleSize = 100 })
			wrong("size max+1", func(m *bundlestypes.MsgSubmitBundleProposal) { m.BundleSize = 101 })
			wrong("no storage id", func(m *bundlestypes.MsgSubmitBundleProposal) { m.StorageId = "" })
			wrong("no from key", func(m *bundlestypes.MsgSubmitBundleProposal) { m.FromKey = "" })
			wrong("no to key", func(m *bundlestypes.MsgSubmitBundleProposal) { m.ToKey = "" })
			wrong("no summary and hash", func(m *bundlestypes.MsgSubmitBundleProposal) { m.BundleSummary, m.DataHash = "", "" })
			wrong("no data", func(m *bundlestypes.MsgSubmitBundleProposal) { m.DataSize = 0 })
			wrong("unknown pool", func(m *bundlestypes.MsgSubmitBundleProposal) { m.PoolId = 7 })
			l = append(l, opSubmit(0, "S2", "not designated", nil), opSubmit(0, "S4", "not a member", nil), opSubmit(1, "S1", "other pool", nil),
				opSkip(0, "S2", "not designated", nil), opSkip(0, "S4", "not a member", nil),
				opSkip(0, "", "own address", func(m *bundlestypes.MsgSkipUploaderRole) { m.Creator = m.Staker }),
				opSkip(0, "", "index+1", func(m *bundlestypes.MsgSkipUploaderRole) { m.FromIndex++ }),
				opSkip(0, "", "unknown pool", func(m *bundlestypes.MsgSkipUploaderRole) { m.PoolId = 7 }),
				&Op{Name: "claim(S2,pool0,own address)", Kind: "claim", Msg: func(*Env, sdk.Context) sdk.Msg {
					return &bundlestypes.MsgClaimUploaderRole{Creator: acc("S2"), Staker: acc("S2"), PoolId: 0}
				}},
				&Op{Name: "claim(S2,pool0,address of pool1)", Kind: "claim", Msg: func(*Env, sdk.Context) sdk.Msg {
					return &bundlestypes.MsgClaimUploaderRole{Creator: acc(valOf("S2", 1)), Staker: acc("S2"), PoolId: 0}
				}},
				&Op{Name: "claim(S2,pool0,address of S3)", Kind: "claim", Msg: func(*Env, sdk.Context) sdk.Msg {
					return &bundlestypes.MsgClaimUploaderRole{Creator: acc(valOf("S3", 0)), Staker: acc("S2"), PoolId: 0}
				}},
				blockOp(1), blockOp(59), blockOp(60),
			)
			return l
		}}
}

// --- world 4: succession of uploaders ------------------------------------------------------


func bundleSuccession() *Scenario {
	return &Scenario{Name: "bundle-succession", Gen: bundleGen(), Quick: 6, Thor: 9,
		Note: "4 validators with stakes 5:3:1:0 in one pool: skips, timeouts, accepted and dropped rounds, joining, leaving, stake changes; every designation compared with weighted round robin",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = bundleSetup(e, ctx, bcfg{pools: 1, stakers: []string{"S1", "S2", "S3"}, stake: map[string]uint64{"S1": 5 * K, "S2": 3 * K, "S3": 1 * K}, maxPoints: 100, maxPower: "1", leave: 1})
			e.createStaker(ctx, "S4", 2*K)
			e.createStaker(ctx, "S5", 0)
			e.join(ctx, "S5", 0, valOf("S5", 0), 0)
			e.do(ctx, opClaim("S1", 0))
			return e.block(ctx, 60)
		},
		Ops: func(e *Env) []*Op {
			return []*Op{
				opSkip(0, "", "", nil), opSubmit(0, "", "", nil), opVote("S1", 0, vVALID), opVote("S2", 0, vVALID), opVote("S3", 0, vINVALID),
				blockOp(60), blockOp(660), opJoin("S4", 0, valOf("S4", 0), 0), opLeave("S1", 0), opDelegate("D1", "S5", K), opClaim("S5", 0),
			}
		}}
}

// equal stakes: every designation is a tie
func bundleTies(q, th int) *Scenario {
	return &Scenario{Name: "bundle-ties", Gen: bundleGen(), Quick: q, Thor: th,
		Note: "five validators with equal stake in one pool, so that several have the same progress at every designation: skips, timeouts, accepted rounds, votes of several kinds",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			st := map[string]uint64{}
			for _, s := range []string{"S1", "S2", "S3", "S4", "S5"} {
				st[s] = K
			}
			ctx = bundleSetup(e, ctx, bcfg{pools: 1, stakers: sortedKeys(st), stake: st, maxPoints: 2, maxPower: "1", leave: 60})
			e.do(ctx, opClaim("S1", 0))
			return e.block(ctx, 60)
		},
		Ops: func(e *Env) []*Op {
			l := []*Op{opSkip(0, "", "", nil), opSubmit(0, "", "", nil), blockOp(60), blockOp(660), opLeave("S2", 0), opSlash("S3", delegationtypes.SLASH_TYPE_UPLOAD)}
			for _, s := range []string{"S1", "S2", "S3", "S4"} {
				l = append(l, opVote(s, 0, vVALID))
			}
			return append(l, opVote("S5", 0, vINVALID))
		}}
}

// bundleSpread: one validator holds almost all stake while the others collect progress
// against it, then the stake moves, so that the progress kept is far out of proportion.
func bundleSpread(q, th int) *Scenario {
	before, stages := []int{0, 1, 3, 8}, []string{"joined", "joined and ranked", "drained", "joined, ranked and drained", "joined, ranked, drained and left", "slashed"}
	turn := func(e *Env, ctx sdk.Context, n int) sdk.Context {
		for i := 0; i < n; i++ {
			ctx = e.block(ctx, 660)
		}
		return ctx
	}
	return &Scenario{Name: "bundle-spread", Gen: bundleGen(), Quick: q, Thor: th, InitN: len(before) * len(stages),
		Note: "stakes 1:1:2 next to one of 100, up to eight designations, a newcomer, then the large stake leaves, is slashed or comes back: designations by claim, submission, skip and timeout with progress far out of proportion to the stakes",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = bundleSetup(e, ctx, bcfg{pools: 1, stakers: []string{"S1", "S2", "S3", "S4", "S5"}, stake: map[string]uint64{"S1": 100 * K, "S2": K, "S3": K, "S4": 2 * K, "S5": 3 * K},
				member: map[string][]uint64{"S4": {}, "S5": {}}, maxPoints: 1000, maxPower: "1", leave: 1})
			dp := e.App.DelegationKeeper.GetParams(ctx)
			dp.UnbondingDelegationTime, dp.UploadSlash = 1, dec("0.99")
			e.App.DelegationKeeper.SetParams(ctx, dp)
			e.do(ctx, opClaim("S1", 0))
			return e.block(ctx, 60)
		},
		Init: func(e *Env, ctx sdk.Context, i int) (sdk.Context, string) {
			b, s := before[i/len(stages)], stages[i%len(stages)]
			ctx = turn(e, ctx, b)
			if strings.Contains(s, "joined") {
				e.join(ctx, "S4", 0, valOf("S4", 0), 0)
			}
			if strings.Contains(s, "ranked") {
				ctx = turn(e, ctx, 1)
			}
			if strings.Contains(s, "drained") {
				e.do(ctx, opUndelegate("S1", "S1", 99*K))
				ctx = e.block(ctx, 2)
			}
			if strings.Contains(s, "left") {
				e.do(ctx, opLeave("S3", 0))
				ctx = e.block(ctx, 2)
			}
			if s == "slashed" {
				e.do(ctx, opSlash("S1", delegationtypes.SLASH_TYPE_UPLOAD))
			}
			return ctx, fmt.Sprintf("%d designations, %s", b, s)
		},
		Ops: func(e *Env) []*Op {
			return []*Op{
				blockOp(660), opSubmit(0, "", "", nil), opSkip(0, "", "", nil), opVote("S1", 0, vVALID), opVote("S2", 0, vVALID), blockOp(60),
				opJoin("S5", 0, valOf("S5", 0), 0), opLeave("S2", 0), opUndelegate("S1", "S1", 99*K+K/2), opDelegate("D1", "S3", 50*K), opKick("S1", 0),
			}
		}}
}

// --- settings and stakes that change while a round is under way --------------------------------

func bundleSettings(q, th int) *Scenario {
	points := []int{0, 1, 2}
	rounds := []string{"claimed", "due", "open", "voted", "voted and due", "abstained and due"}
	return &Scenario{Name: "bundle-settings", Gen: bundleGen(), Quick: q, Thor: th, InitN: len(points) * len(rounds),
		Note: "a round in each of its stages with 0-2 points collected, while governance changes the limits of points, time, stake and voting power, the pool settings and slashes, and stake moves",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = bundleSetup(e, ctx, bcfg{pools: 1, stakers: []string{"S1", "S2", "S3"}, stake: map[string]uint64{"S1": 3 * K, "S2": 3 * K, "S3": 2 * K}, maxPoints: 3, maxPower: "0.5", leave: 60})
			e.setWhitelist(ctx, wl(DENOM, 6, 1, 1, "1"))
			e.must(ctx, &funderstypes.MsgCreateFunder{Creator: acc("D2"), Moniker: "f"})
			e.do(ctx, opFund("D2", 0, sdk.NewCoins(coin(DENOM, 90_000)), sdk.NewCoins(coin(DENOM, 1_000))))
			e.createStaker(ctx, "S4", 2*K)
			return ctx
		},
		Init: func(e *Env, ctx sdk.Context, i int) (sdk.Context, string) {
			n, r := points[i/len(rounds)], rounds[i%len(rounds)]
			e.do(ctx, opClaim("S1", 0))
			if r != "claimed" {
				ctx = e.block(ctx, 60)
			}
			switch r {
			case "open", "voted", "voted and due", "abstained and due":
				e.do(ctx, opSubmit(0, "", "", nil))
			}
			switch r {
			case "voted", "voted and due":
				e.do(ctx, opVote("S2", 0, vVALID))
			case "abstained and due":
				e.do(ctx, opVote("S2", 0, vABSTAIN))
			}
			if r == "voted and due" || r == "abstained and due" {
				ctx = e.block(ctx, 60)
			}
			for j := 0; j < n; j++ {
				e.do(ctx, opPoints("S3", 0))
				e.do(ctx, opPoints(lab(e.prop(ctx, 0).NextUploader), 0))
			}
			return ctx, fmt.Sprintf("%s, %d points", r, n)
		},
		Ops: func(e *Env) []*Op {
			return []*Op{
				opSubmit(0, "", "", nil), opSkip(0, "", "", nil), opVote("S2", 0, vINVALID), opVote("S3", 0, vVALID), blockOp(1), blockOp(61), blockOp(600),
				opParams("bundles", "max_points=1", `{"max_points":1}`), opParams("bundles", "max_points=4", `{"max_points":4}`),
				opParams("bundles", "timeout=60", `{"upload_timeout":60}`), opParams("bundles", "timeout=900", `{"upload_timeout":900}`),
				opParams("pool", "power=0.3", `{"max_voting_power_per_pool":"0.3"}`), opParams("delegation", "slashes", `{"vote_slash":"1","upload_slash":"0","timeout_slash":"0.5"}`),
				opUpdatePool(0, `{"UploadInterval":1,"MinDelegation":9000000000}`), opUpdatePool(0, `{"UploadInterval":500,"MaxBundleSize":3}`),
				opDelegate("D1", "S3", 3*K), opUndelegate("S2", "S2", K), opJoin("S4", 0, valOf("S4", 0), 0), opLeave("S2", 0), opJoin("S2", 0, valOf("S2", 1), 0), opDisable(0), opEnable(0),
			}
		}}
}

// --- neighbours: work due in one pool next to pools which cannot work ------------------------

func bundleNeighbours() *Scenario {
	works := []string{"none", "missed", "no quorum", "accepted", "rejected", "fresh"}
	conds := append([]string{"running", "disabled", "upgrading", "upgrade starts", "upgrade ends", "end key", "low stake", "concentrated", "no members", "no uploader"}, works[1:]...)
	n := len(works) * len(conds) * len(works)
	return &Scenario{Name: "neighbours", Gen: bundleGen(), Quick: 2, Thor: 3, InitN: n,
		Note: "three pools of different runtimes due in the same block: the outer ones with every kind of bundle work due (missed upload, no quorum, accepted, rejected), the middle one in every condition in which a pool may be",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = bundleSetup(e, ctx, bcfg{pools: 3, stakers: []string{"S1", "S2", "S3"}, stake: map[string]uint64{"S1": 3 * K, "S2": 3 * K, "S3": 2 * K}, maxPoints: 3, maxPower: "0.5", leave: 60})
			return e.run(ctx, opUpdatePool(0, `{"Runtime":"@kyve/a"}`), opUpdatePool(1, `{"Runtime":"@kyve/b"}`), opUpdatePool(2, `{"Runtime":"@kyve/c"}`))
		},
		Init: func(e *Env, ctx sdk.Context, i int) (sdk.Context, string) {
			x := digits(i, []int{len(works), len(conds), len(works)})
			work := []string{works[x[0]], conds[x[1]], works[x[2]]}
			for p, w := range work {
				if w != "none" && w != "no uploader" {
					e.do(ctx, opClaim([]string{"S1", "S2", "S3"}[p], uint64(p)))
				}
			}
			ctx = e.block(ctx, 60)
			for p, w := range work {
				p := uint64(p)
				switch w {
				case "no quorum", "accepted", "rejected", "fresh":
					e.do(ctx, opSubmit(p, "", "", nil))
				}
				for _, s := range []string{"S1", "S2", "S3"} {
					if lab(e.prop(ctx, p).Uploader) == s {
						continue
					}
					switch w {
					case "accepted":
						e.do(ctx, opVote(s, p, vVALID))
					case "rejected":
						e.do(ctx, opVote(s, p, vINVALID))
					}
				}
			}
			if work[0] != "fresh" && work[1] != "fresh" && work[2] != "fresh" {
				ctx = e.block(ctx, 59)
			}
			pl := e.pool(ctx, 1)
			now := uint64(ctx.BlockTime().Unix())
			plan := func(at, dur uint64) {
				pl.UpgradePlan = &pooltypes.UpgradePlan{Version: "2", Binaries: "{}", ScheduledAt: at, Duration: dur}
			}
			switch work[1] {
			case "disabled":
				pl.Disabled = true
			case "upgrading":
				plan(now, 100_000)
			case "upgrade starts":
				plan(now+1, 100_000)
			case "upgrade ends":
				plan(now, 602)
			case "end key":
				pl.EndKey, pl.CurrentKey = "k", "k"
			case "low stake":
				pl.MinDelegation = 100 * K
			case "concentrated":
				e.do(ctx, opLeave("S3", 1))
			case "no members":
				for _, s := range []string{"S1", "S2", "S3"} {
					e.App.StakersKeeper.LeavePool(ctx, acc(s), 1)
				}
			}
			e.App.PoolKeeper.SetPool(ctx, pl)
			return ctx, strings.Join(work, "/")
		},
		Ops: func(e *Env) []*Op { return []*Op{blockOp(1), blockOp(2), blockOp(602), blockOp(5000)} }}
}

// --- world 5: long chains --------------------------------------------------------------------

func bundleChain() *Scenario {
	return &Scenario{Name: "bundle-chain", Gen: bundleGen(), Quick: 6, Thor: 8,
		Note: "2 pools, one validator decides alone, so every submission finalizes the previous bundle: all sequences of plain, summary-less, one-item and maximal bundles, skips, timeouts, settings changes between submission and decision, disabling, while the other pool advances",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = bundleSetup(e, ctx, bcfg{pools: 2, stakers: []string{"S1", "S2", "S3"}, stake: map[string]uint64{"S1": 5 * K, "S2": 2 * K, "S3": K},
				member: map[string][]uint64{"S1": {0}, "S2": {0, 1}, "S3": {1}}, maxPoints: 100, maxPower: "1", leave: 60})
			bp := e.App.BundlesKeeper.GetParams(ctx)
			bp.StorageCosts = []bundlestypes.StorageCost{{StorageProviderId: 1, Cost: dec("0")}, {StorageProviderId: 2, Cost: dec("0.1")}}
			e.App.BundlesKeeper.SetParams(ctx, bp)
			e.do(ctx, opClaim("S1", 0))
			e.do(ctx, opClaim("S2", 1))
			return e.block(ctx, 60)
		},
		Ops: func(e *Env) []*Op {
			return []*Op{
				opSubmit(0, "", "", nil),
				opSubmit(0, "", "no summary", func(m *bundlestypes.MsgSubmitBundleProposal) { m.BundleSummary, m.DataHash, m.DataSize = "", "", 0 }),
				opSubmit(0, "", "one item, same key", func(m *bundlestypes.MsgSubmitBundleProposal) { m.BundleSize, m.FromKey, m.ToKey = 1, "0", "0" }),
				opSubmit(0, "", "maximal", func(m *bundlestypes.MsgSubmitBundleProposal) { m.BundleSize = 100; m.BundleSummary = "sum-max" }),
				opSubmit(1, "", "", nil),
				opSkip(0, "", "", nil), opSkip(1, "", "", nil), opVote("S1", 0, vVALID), opVote("S2", 0, vINVALID), blockOp(60), blockOp(660),
				opUpdatePool(0, `{"StorageProviderId":2,"CompressionId":2}`), opUpdatePool(0, `{"MaxBundleSize":5,"UploadInterval":60}`),
				opDisable(0), opEnable(0),
			}
		}}
}

// --- world 6: rewards -----------------------------------------------------------------------

func bundleRewards() *Scenario {
	type ini struct {
		coins  int // bit mask of funded denoms: ukyve, acoin, bcoin
		infl   uint64
		fee    string
		comm   string
		cost   string
		size   uint64
		noStk  bool
		weight string
		white  bool
	}
	var inits []ini
	for coins := 0; coins < 8; coins++ {
		for _, infl := range []uint64{0, 7, 1_234_567} {
			for _, fee := range []string{"0", "0.01", "1"} {
				for _, cost := range []struct {
					c string
					s uint64
				}{{"0", 1000}, {"0.000000004", 1000}, {"0.000000004", 987_654_321}, {"0.4", 1_000_000}} {
					for _, comm := range []string{"0", "0.1", "1"} {
						inits = append(inits, ini{coins: coins, infl: infl, fee: fee, comm: comm, cost: cost.c, size: cost.s, weight: "0.06", white: true})
					}
				}
			}
		}
	}
	for coins := 1; coins < 8; coins++ {
		for _, w := range []string{"0", "1.7"} {
			inits = append(inits, ini{coins: coins, infl: 1_234_567, fee: "0.01", comm: "0.1", cost: "0.0004", size: 1000, weight: w, white: true})
		}
		inits = append(inits, ini{coins: coins, infl: 999, fee: "0.013", comm: "0.37", cost: "0.0004", size: 1000, weight: "0.06", noStk: true, white: true})
		inits = append(inits, ini{coins: coins, infl: 999, fee: "0.013", comm: "0.37", cost: "0.0004", size: 1000, weight: "0.06"})
	}
	return &Scenario{Name: "bundle-rewards", Gen: bundleGen(), Quick: 2, Thor: 3, InitN: len(inits),
		Note: "every combination of funded coins, inflation balance, network fee, commission, storage cost and data size, coin weights, an uploader without stake; evaluated by submission, skip and timeout, once and again after funds ran out",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = bundleSetup(e, ctx, bcfg{pools: 2, stakers: []string{"S1", "S2", "S3"}, stake: map[string]uint64{"S1": 2 * K, "S2": 3 * K, "S3": 3 * K}, maxPoints: 100, maxPower: "1",
				dels: map[string]uint64{"D1@S1": K}, leave: 1})
			e.must(ctx, &funderstypes.MsgCreateFunder{Creator: acc("D2"), Moniker: "f"})
			e.must(ctx, &funderstypes.MsgCreateFunder{Creator: acc("G"), Moniker: "g"})
			return ctx
		},
		Init: func(e *Env, ctx sdk.Context, i int) (sdk.Context, string) {
			x := inits[i]
			e.setWhitelist(ctx, wl(DENOM, 6, 1, 1, x.weight), wl(ADENOM, 9, 1, 1, "3"), wl(BDENOM, 2, 1, 1, "0.001"))
			bp := e.App.BundlesKeeper.GetParams(ctx)
			bp.NetworkFee = dec(x.fee)
			bp.StorageCosts = []bundlestypes.StorageCost{{StorageProviderId: 2, Cost: dec("9")}, {StorageProviderId: 1, Cost: dec(x.cost)}}
			e.App.BundlesKeeper.SetParams(ctx, bp)
			s, _ := e.App.StakersKeeper.GetStaker(ctx, acc("S1"))
			e.App.StakersKeeper.UpdateStakerCommission(ctx, s.Address, dec(x.comm))
			a1, p1 := sdk.NewCoins(), sdk.NewCoins()
			a2, p2 := sdk.NewCoins(), sdk.NewCoins()
			for b, d := range []string{DENOM, ADENOM, BDENOM} {
				if x.coins&(1<<b) != 0 {
					a1, p1 = a1.Add(coin(d, 30_003)), p1.Add(coin(d, 20_001))
					if b != 1 {
						a2, p2 = a2.Add(coin(d, 700_000)), p2.Add(coin(d, 50_000+uint64(b)))
					}
				}
			}
			// amounts are chosen against the funding multiple of the module parameters
			fp := e.App.FundersKeeper.GetParams(ctx)
			fp.MinFundingMultiple = 1
			e.App.FundersKeeper.SetParams(ctx, fp)
			if !a1.IsZero() {
				e.do(ctx, opFund("D2", 0, a1, p1))
			}
			if !a2.IsZero() {
				e.do(ctx, opFund("G", 0, a2, p2))
			}
			e.do(ctx, opFund("G", 1, coinsOf(1000, ADENOM), coinsOf(10, ADENOM)))
			if x.infl > 0 {
				e.fundAccount(ctx, "G", poolAcc(0), kyve(x.infl))
			}
			e.fundAccount(ctx, "G", poolAcc(1), kyve(5555))
			e.do(ctx, opClaim("S1", 0))
			ctx = e.block(ctx, 60)
			e.do(ctx, opSubmit(0, "", "", func(m *bundlestypes.MsgSubmitBundleProposal) { m.DataSize = x.size }))
			e.do(ctx, opVote("S2", 0, vVALID))
			e.do(ctx, opVote("S3", 0, vVALID))
			if x.noStk {
				dp := e.App.DelegationKeeper.GetParams(ctx)
				dp.UnbondingDelegationTime = 1
				e.App.DelegationKeeper.SetParams(ctx, dp)
				e.do(ctx, opUndelegate("S1", "S1", 2*K))
				e.do(ctx, opUndelegate("D1", "S1", K))
			}
			if !x.white {
				e.setWhitelist(ctx, wl(DENOM, 6, 1, 1, x.weight), wl(BDENOM, 2, 1, 1, "0.001"))
			}
			ctx = e.block(ctx, 60)
			return ctx, fmt.Sprintf("%+v", x)
		},
		Ops: func(e *Env) []*Op {
			return []*Op{opSubmit(0, "", "", nil), opSkip(0, "", "", nil), blockOp(600), blockOp(1), opVote("S2", 0, vVALID),
				opUpdatePool(0, `{"StorageProviderId":2,"CompressionId":2}`), opParams("bundles", "fee=0.25", `{"network_fee":"0.25"}`), opParams("pool", "payout=0.5", `{"pool_inflation_payout_rate":"0.5"}`)}
		}}
}

func buildBundles() {
	grid := func(q, th int) *Scenario {
		return bundleTally("bundle-tally", q, th, []map[string]uint64{
			{"S1": K, "S2": K, "S3": K, "S4": K},
			{"S1": 4 * K, "S2": 2 * K, "S3": K, "S4": K},
			{"S1": 5 * K, "S2": 3 * K, "S3": K, "S4": K},
		}, []string{"S1", "S2"}, []string{"", "all"}, []*Op{opVote("S4", 0, vVALID), opVote("S4", 0, vINVALID), opLeave("S3", 0), opClaim("S4", 0)})
	}
	register(&Property{ID: "B01", Scenarios: []*Scenario{bundleChain(), farBundles(9, 4, 6), farBundles(255, 4, 6), bundleMachine(), grid(3, 4), bundleSuccession()}, Rules: []Rule{ruleChain}, States: []StateRule{stateChain}})
	register(&Property{ID: "B02", Scenarios: []*Scenario{grid(3, 4), bundleSettings(3, 4), farPools(3, 4), manyPools(2, 4), bundleMachine()}, Rules: []Rule{ruleDecision}})
	register(&Property{ID: "B03", Scenarios: []*Scenario{bundleEligibility(), bundleMachine(), farPools(2, 4), manyPools(2, 4), bundleSettings(2, 4), grid(2, 3)}, Rules: []Rule{ruleParticipants}, States: []StateRule{stateVoters}})
	register(&Property{ID: "B04", Scenarios: []*Scenario{bundleSuccession(), bundleTies(5, 7), bundleSpread(3, 5), farPools(3, 4), manyPools(2, 4), grid(2, 3), bundleSettings(2, 4), bundleMachine()}, Extra: []*Extra{bundleFairness()}, Rules: []Rule{ruleNextUploader}})
	register(&Property{ID: "B05", Scenarios: []*Scenario{bundleNeighbours(), grid(3, 4), bundleSettings(3, 4), farPools(3, 4), manyPools(2, 4), bundleMachine()}, Rules: []Rule{rulePoints}})
	register(&Property{ID: "B06", Scenarios: []*Scenario{bundleRewards(), bundleSettings(2, 3), farPools(3, 4), grid(2, 3)}, Rules: []Rule{ruleBundleRewards}})
}

var _ = stakerstypes.ModuleName
