package main

import (
	"fmt"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
)

func dec(s string) math.LegacyDec { return math.LegacyMustNewDecFromStr(s) }

// msgOp wraps a constant message.
func msgOp(kind, name string, m sdk.Msg) *Op {
	return &Op{Name: name, Kind: kind, Msg: func(*Env, sdk.Context) sdk.Msg { return m }}
}

func blockOp(dt int64) *Op {
	return &Op{Name: fmt.Sprintf("block(+%ds)", dt), Kind: "block", Block: true, Dt: dt}
}

func opDelegate(d, s string, amt uint64) *Op {
	return msgOp("delegate", fmt.Sprintf("delegate(%s->%s,%d)", d, s, amt), &delegationtypes.MsgDelegate{Creator: acc(d), Staker: acc(s), Amount: amt})
}

func opUndelegate(d, s string, amt uint64) *Op {
	return msgOp("undelegate", fmt.Sprintf("undelegate(%s<-%s,%d)", d, s, amt), &delegationtypes.MsgUndelegate{Creator: acc(d), Staker: acc(s), Amount: amt})
}

// opUndelegateAll requests the whole current stake plus extra
func opUndelegateAll(d, s string, extra uint64) *Op {
	return &Op{Name: fmt.Sprintf("undelegate(%s<-%s,all+%d)", d, s, extra), Kind: "undelegate", Msg: func(e *Env, ctx sdk.Context) sdk.Msg {
		a := e.App.DelegationKeeper.GetDelegationAmountOfDelegator(ctx, acc(s), acc(d))
		return &delegationtypes.MsgUndelegate{Creator: acc(d), Staker: acc(s), Amount: a + extra}
	}}
}

func opRedelegate(d, from, to string, amt uint64) *Op {
	return msgOp("redelegate", fmt.Sprintf("redelegate(%s:%s->%s,%d)", d, from, to, amt), &delegationtypes.MsgRedelegate{Creator: acc(d), FromStaker: acc(from), ToStaker: acc(to), Amount: amt})
}

func opRedelegateAll(d, from, to string) *Op {
	return &Op{Name: fmt.Sprintf("redelegate(%s:%s->%s,all)", d, from, to), Kind: "redelegate", Msg: func(e *Env, ctx sdk.Context) sdk.Msg {
		a := e.App.DelegationKeeper.GetDelegationAmountOfDelegator(ctx, acc(from), acc(d))
		return &delegationtypes.MsgRedelegate{Creator: acc(d), FromStaker: acc(from), ToStaker: acc(to), Amount: a}
	}}
}

func opWithdraw(d, s string) *Op {
	return msgOp("withdraw", fmt.Sprintf("withdraw(%s@%s)", d, s), &delegationtypes.MsgWithdrawRewards{Creator: acc(d), Staker: acc(s)})
}

// opPayout pays a reward to a validator's delegators from the "pool" module account
// (the way the bundles module does).  Enabled only while there is stake.
func opPayout(s string, c sdk.Coins) *Op {
	return &Op{Name: fmt.Sprintf("payout(%s,%s)", s, c), Kind: "payout", S: acc(s), C: c,
		Fn: func(e *Env, ctx sdk.Context) error {
			return e.App.DelegationKeeper.PayoutRewards(ctx, acc(s), c, pooltypes.ModuleName)
		},
		Enable: func(e *Env, ctx sdk.Context, pre *Snap) bool {
			return pre.DelTotal[acc(s)] > 0 && len(pre.Delegators(acc(s))) > 0 && pre.Mod(pooltypes.ModuleName).IsAllGTE(c)
		}}
}

func opSlash(s string, t delegationtypes.SlashType) *Op {
	return &Op{Name: fmt.Sprintf("slash(%s,%s)", s, strings.TrimPrefix(t.String(), "SLASH_TYPE_")), Kind: "slash", S: acc(s), N: uint64(t),
		Fn: func(e *Env, ctx sdk.Context) error {
			e.App.DelegationKeeper.SlashDelegators(ctx, 0, acc(s), t)
			return nil
		}}
}

func opCreateStaker(s string, amt uint64) *Op {
	return msgOp("createstaker", fmt.Sprintf("createstaker(%s,%d)", s, amt), &stakerstypes.MsgCreateStaker{Creator: acc(s), Amount: amt})
}

func opJoin(s string, p uint64, val string, amt uint64) *Op {
	return msgOp("join", fmt.Sprintf("join(%s,pool%d,%s,%d)", s, p, val, amt), &stakerstypes.MsgJoinPool{Creator: acc(s), PoolId: p, Valaddress: acc(val), Amount: amt})
}

func opLeave(s string, p uint64) *Op {
	return msgOp("leave", fmt.Sprintf("leave(%s,pool%d)", s, p), &stakerstypes.MsgLeavePool{Creator: acc(s), PoolId: p})
}

func opCommission(s string, c string) *Op {
	return msgOp("commission", fmt.Sprintf("commission(%s,%s)", s, c), &stakerstypes.MsgUpdateCommission{Creator: acc(s), Commission: dec(c)})
}

func opClaimCommission(s string, c sdk.Coins) *Op {
	return msgOp("claimcommission", fmt.Sprintf("claimcommission(%s,%s)", s, c), &stakerstypes.MsgClaimCommissionRewards{Creator: acc(s), Amounts: c})
}

func opFund(f string, p uint64, amts, per sdk.Coins) *Op {
	return msgOp("fund", fmt.Sprintf("fund(%s,pool%d,%s,per %s)", f, p, amts, per), &funderstypes.MsgFundPool{Creator: acc(f), PoolId: p, Amounts: amts, AmountsPerBundle: per})
}

func opDefund(f string, p uint64, amts sdk.Coins) *Op {
	return msgOp("defund", fmt.Sprintf("defund(%s,pool%d,%s)", f, p, amts), &funderstypes.MsgDefundPool{Creator: acc(f), PoolId: p, Amounts: amts})
}

func opCreateFunder(f string) *Op {
	return msgOp("createfunder", fmt.Sprintf("createfunder(%s)", f), &funderstypes.MsgCreateFunder{Creator: acc(f), Moniker: f})
}

func opGov(kind, name string, m sdk.Msg) *Op { return msgOp(kind, name, m) }

func opDisable(p uint64) *Op {
	return msgOp("disable", fmt.Sprintf("disable(pool%d)", p), &pooltypes.MsgDisablePool{Authority: govAddr(), Id: p})
}

func opEnable(p uint64) *Op {
	return msgOp("enable", fmt.Sprintf("enable(pool%d)", p), &pooltypes.MsgEnablePool{Authority: govAddr(), Id: p})
}

func opDelegationParams(name, payload string) *Op {
	return msgOp("params", "delegation-params("+name+")", &delegationtypes.MsgUpdateParams{Authority: govAddr(), Payload: payload})
}

var _ = bundlestypes.ModuleName

// --- setup helpers -----------------------------------------------------------------

type poolCfg struct {
	Name           string
	Interval       uint64
	Weight         string
	MinDel         uint64
	MaxBundle      uint64
	StorageId      uint32
	EndKey         string
	Runtime        string
	StartKey       string
	CompressionId  uint32
}

func (c poolCfg) msg() *pooltypes.MsgCreatePool {
	if c.Weight == "" {
		c.Weight = "1"
	}
	if c.MaxBundle == 0 {
		c.MaxBundle = 100
	}
	if c.Runtime == "" {
		c.Runtime = "@kyve/test"
	}
	if c.StartKey == "" {
		c.StartKey = "0"
	}
	if c.Interval == 0 {
		c.Interval = 60
	}
	return &pooltypes.MsgCreatePool{
		Authority: govAddr(), Name: c.Name, Runtime: c.Runtime, Logo: "ar://logo", Config: "ar://config", StartKey: c.StartKey,
		UploadInterval: c.Interval, InflationShareWeight: dec(c.Weight), MinDelegation: c.MinDel, MaxBundleSize: c.MaxBundle,
		Version: "1.0.0", Binaries: "{}", StorageProviderId: c.StorageId, CompressionId: c.CompressionId, EndKey: c.EndKey,
	}
}

func (e *Env) createPool(ctx sdk.Context, c poolCfg) { e.must(ctx, c.msg()) }

func (e *Env) createStaker(ctx sdk.Context, s string, amt uint64) {
	e.must(ctx, &stakerstypes.MsgCreateStaker{Creator: acc(s), Amount: amt, Commission: dec("0.1")})
}

func (e *Env) join(ctx sdk.Context, s string, p uint64, val string, amt uint64) {
	e.must(ctx, &stakerstypes.MsgJoinPool{Creator: acc(s), PoolId: p, Valaddress: acc(val), Amount: amt})
}

func (e *Env) delegate(ctx sdk.Context, d, s string, amt uint64) {
	e.must(ctx, &delegationtypes.MsgDelegate{Creator: acc(d), Staker: acc(s), Amount: amt})
}

// fundModule gives a module account coins taken from a funded account.
func (e *Env) fundModule(ctx sdk.Context, from, module string, c sdk.Coins) {
	if err := e.App.BankKeeper.SendCoinsFromAccountToModule(ctx, sdk.MustAccAddressFromBech32(acc(from)), module, c); err != nil {
		panic(err)
	}
}

func funded(c sdk.Coins, labels ...string) map[string]sdk.Coins {
	m := map[string]sdk.Coins{}
	for _, l := range labels {
		m[l] = c
	}
	return m
}

func coinsOf(k uint64, denoms ...string) sdk.Coins {
	c := sdk.NewCoins()
	for _, d := range denoms {
		c = c.Add(coin(d, k))
	}
	return c
}

func cat(l ...[]*Op) (r []*Op) {
	for _, x := range l {
		r = append(r, x...)
	}
	return
}

func intU(a uint64) math.Int { return math.NewIntFromUint64(a) }
