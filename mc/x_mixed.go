package main

// A world in which all modules meet, shared by the properties which concern the
// whole chain (halts, export and import, restarts, queries).

import (
	sdk "github.com/cosmos/cosmos-sdk/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"

	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

const day = int64(24 * 3600)

func opParams(mod, name, payload string) *Op {
	return msgOp("params", mod+"-params("+name+")", paramsMsg(mod, govAddr(), payload))
}

func opGovVote(l string, k int) *Op {
	return &Op{Name: "govvote(" + l + "," + voteKinds[k].name + ")", Kind: "govvote", Msg: func(e *Env, ctx sdk.Context) sdk.Msg {
		return govv1.NewMsgVoteWeighted(sdk.MustAccAddressFromBech32(acc(l)), 1, govv1.WeightedVoteOptions(voteKinds[k].o), "")
	}}
}

func (e *Env) run(ctx sdk.Context, ops ...*Op) sdk.Context {
	for _, o := range ops {
		if o.Block {
			ctx = e.block(ctx, o.Dt)
		} else {
			e.do(ctx, o)
		}
	}
	return ctx
}

// try executes operations which may be refused
func (e *Env) try(ctx sdk.Context, ops ...*Op) sdk.Context {
	for _, o := range ops {
		ctx, _ = e.apply(ctx, o)
	}
	return ctx
}

func mixedSetup(e *Env, ctx sdk.Context) sdk.Context { return mixedOpening(e, ctx, false) }

// mixedOpening with native: only the native coin is in use, as before the v1.5 upgrade
func mixedOpening(e *Env, ctx sdk.Context, native bool) sdk.Context {
	F := teamtypes.FOUNDATION_ADDRESS
	ctx = bundleSetup(e, ctx, bcfg{pools: 3, stakers: []string{"S1", "S2", "S3"}, stake: map[string]uint64{"S1": 4 * K, "S2": 3 * K, "S3": 2 * K},
		member: map[string][]uint64{"S1": {0, 1}, "S2": {0, 1}, "S3": {0, 2}}, dels: map[string]uint64{"D1@S1": K + 7, "D2@S2": 3, "D1@S3": 5, "S2@S1": 11}, maxPoints: 2, maxPower: "0.7"})
	e.setWhitelist(ctx, wl(DENOM, 6, 1, 1, "1"), wl(ADENOM, 6, 1, 1, "2"), wl(BDENOM, 18, 1, 1, "0.5"))
	more := []*Op{opFund("D1", 0, kyve(10_000).Add(coin(ADENOM, 5000)), kyve(1000).Add(coin(ADENOM, 500))), opFund("D2", 0, kyve(4000), kyve(1900)), opFund("D2", 1, sdk.NewCoins(coin(BDENOM, 90)), sdk.NewCoins(coin(BDENOM, 7)))}
	weights := []*Op{opUpdatePool(0, `{"InflationShareWeight":"1.5"}`), opUpdatePool(1, `{"InflationShareWeight":"0.7"}`)}
	if native {
		more = []*Op{opFund("D1", 0, kyve(10_000), kyve(1000)), opFund("D2", 0, kyve(4000), kyve(1900)), opFund("D2", 1, kyve(90), kyve(7))}
		weights = []*Op{opUpdatePool(0, `{"Runtime":"@kyvejs/tendermint"}`), opUpdatePool(1, `{"Runtime":"@kyvejs/tendermint-bsync"}`)}
	}
	ops := append([]*Op{
		opParams("delegation", "60s", `{"unbonding_delegation_time":60,"redelegation_cooldown":100,"redelegation_max_amount":2}`),
		opParams("stakers", "60s", `{"leave_pool_time":60,"commission_change_time":60}`),
		opParams("bundles", "120s", `{"upload_timeout":120}`),
		opParams("funders", "multiple", `{"min_funding_multiple":2}`),
		opParams("global", "burn", `{"burn_ratio":"0.3","gas_refunds":[{"type":"/a","fraction":"0.3"}],"gas_adjustments":[{"type":"/b","amount":5}]}`),
	}, weights...)
	ops = append(append(ops, opCreateStaker("S5", 0), opCreateFunder("D1"), opCreateFunder("D2")), more...)
	return e.run(ctx, append(ops,
		opCreateTeam(F, refTeam/3, refTGE-2*year),
		&Op{Name: "propose", Fn: func(e *Env, ctx sdk.Context) error { e.propose(ctx, "G"); return nil }},
		opClaim("S1", 0), blockOp(60), opSubmit(0, "", "", nil), opVote("S2", 0, vVALID), blockOp(5))...)
}

type mixedInit struct {
	name string
	f    func(e *Env, ctx sdk.Context) sdk.Context
}

func mixedInits() []mixedInit {
	ops := func(l ...*Op) func(e *Env, ctx sdk.Context) sdk.Context {
		return func(e *Env, ctx sdk.Context) sdk.Context {
			// who uploads next may depend on rules which other properties pin down
			for _, o := range l {
				if o.Kind == "claim" || o.Kind == "submit" || o.Kind == "vote" {
					ctx = e.try(ctx, o)
				} else {
					ctx = e.run(ctx, o)
				}
			}
			return ctx
		}
	}
	return []mixedInit{
		{"open bundle", ops()},
		{"everything due", ops(
			opLeave("S1", 1), opLeave("S3", 0), opCommission("S1", "0.25"), opCommission("S2", "1"), opUndelegate("D1", "S1", 100), opUndelegate("D2", "S2", 3), opUndelegate("S3", "S3", K), opUndelegate("S2", "S1", 4), opRedelegate("D1", "S1", "S2", 50),
			opClaim("S2", 1), opSchedule("@kyve/test", "2.0", `{"x":"y"}`, inSec(60), 100, "+60"), opGovVote("S1", 1), opGovVote("D1", 2), opVote("S3", 0, vVALID))},
		{"no stake left", ops(
			opVote("S3", 0, vABSTAIN), opUndelegate("S1", "S1", 4*K), opUndelegate("D1", "S1", K+7), opUndelegate("S2", "S1", 11), opUndelegate("S2", "S2", 3*K), opUndelegate("D2", "S2", 3), opUndelegate("S3", "S3", 2*K), opUndelegate("D1", "S3", 5), opGovVote("S1", 1), opGovVote("S2", 2))},
		{"harsh parameters", ops(
			opParams("delegation", "harsh", `{"unbonding_delegation_time":0,"redelegation_cooldown":0,"redelegation_max_amount":0,"vote_slash":"1","upload_slash":"1","timeout_slash":"1"}`),
			opParams("stakers", "0s", `{"leave_pool_time":0,"commission_change_time":0}`), opParams("bundles", "harsh", `{"upload_timeout":1,"max_points":1,"network_fee":"1","storage_costs":[{"storage_provider_id":1,"cost":"1000000000000"}]}`),
			opParams("pool", "harsh", `{"protocol_inflation_share":"1","pool_inflation_payout_rate":"1","max_voting_power_per_pool":"1"}`), opParams("global", "burn all", `{"burn_ratio":"1","min_gas_price":"1000"}`),
			opUpdatePool(2, `{"InflationShareWeight":"1000000000000000000"}`), opUpdatePool(1, `{"InflationShareWeight":"0.000000000000000001"}`))},
		{"lenient parameters", ops(
			opParams("delegation", "zero", `{"vote_slash":"0","upload_slash":"0","timeout_slash":"0"}`), opParams("bundles", "lenient", `{"network_fee":"0","storage_costs":[]}`),
			opParams("pool", "zero", `{"protocol_inflation_share":"0","pool_inflation_payout_rate":"0","max_voting_power_per_pool":"0"}`), opParams("global", "zero", `{"burn_ratio":"0"}`))},
		{"after a finalized bundle", ops(
			opVote("S3", 0, vINVALID), blockOp(60), &Op{Name: "submit by the designated uploader", Fn: func(e *Env, ctx sdk.Context) error {
				e.try(ctx, opSubmit(0, "", "", nil))
				return nil
			}}, opClaim("S1", 1), blockOp(60), opSubmit(1, "", "", nil), opLeave("S2", 1), opVote("S2", 1, vINVALID), opDisable(2))},
	}
}

func mixedOps(e *Env) []*Op {
	F := teamtypes.FOUNDATION_ADDRESS
	return []*Op{
		blockOp(5), blockOp(61), blockOp(181), blockOp(6 * day),
		opSubmit(0, "", "", nil), opSkip(0, "", "", nil), opVote("S2", 0, vINVALID), opVote("S3", 0, vVALID), opClaim("S3", 2), opClaim("S2", 1), opSubmit(1, "", "", nil), opSubmit(2, "", "", nil), opVote("S2", 1, vVALID),
		opUndelegateAll("S1", "S1", 0), opUndelegateAll("D1", "S1", 0), opUndelegateAll("S2", "S2", 0), opDelegate("D2", "S1", 11), opRedelegate("D1", "S1", "S2", 9), opWithdraw("D1", "S1"),
		opLeave("S1", 0), opLeave("S2", 0), opJoin("S3", 1, valOf("S3", 1), 0), opCommission("S2", "0.9"), opClaimCommission("S1", kyve(1)),
		opFund("D1", 1, kyve(500), kyve(250)), opDefund("D1", 0, kyve(10_000)), opDefund("D2", 0, kyve(1)),
		opDisable(0), opEnable(0), opDisable(1), opUpdatePool(0, `{"InflationShareWeight":"0"}`), opUpdatePool(1, `{"MinDelegation":99000000000}`),
		opSchedule("@kyve/test", "3.0", `{"x":"z"}`, inSec(5), 70, "+5"), opCancel("@kyve/test"),
		opSlash("S2", delegationtypes.SLASH_TYPE_UPLOAD), opParams("delegation", "slash all", `{"upload_slash":"1","timeout_slash":"1"}`), opParams("bundles", "points", `{"max_points":1}`),
		opClaimUnlocked(F, 0, 2, acc("D1")), opClawback(F, 0, "now"), opClaimAuthority(F, 2, acc("D1")),
		opGovVote("S1", 1), opGovVote("D1", 2), opGovVote("S2", 4),
	}
}

func mixedWorld(name string, q, th int) *Scenario {
	in := mixedInits()
	return &Scenario{Name: name, Gen: inflationGen(), Quick: q, Thor: th, Setup: mixedSetup, Ops: mixedOps, InitN: len(in),
		Note: "three pools, three validators, delegators, funders, team, inflation and a governance proposal in six situations (open bundle, all queues due, no stake, harsh and lenient parameters, finalized bundles); operations of all modules and block steps",
		Init: func(e *Env, ctx sdk.Context, i int) (sdk.Context, string) {
			return in[i].f(e, ctx), in[i].name
		}}
}
