package main

// X05: protocol accounts take, create and destroy coins only by the protocol's rules.

import (
	"fmt"

	sdk "github.com/cosmos/cosmos-sdk/types"
	vestingtypes "github.com/cosmos/cosmos-sdk/x/auth/vesting/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

// the accounts which take coins only through their own modules
var closedAccounts = []string{"fee_collector", "distribution", "mint", "bonded_tokens_pool", "not_bonded_tokens_pool", "transfer",
	"bundles", "delegation", "pool", "stakers", "team", "funders"}

// the only ones which may create or destroy coins
var minters = map[string]bool{"mint": true, "transfer": true}
var burners = map[string]bool{"fee_collector": true, "bonded_tokens_pool": true, "not_bonded_tokens_pool": true, "gov": true, "transfer": true}

func closed(addr string) bool {
	for _, n := range closedAccounts {
		if modAddr(n) == addr {
			return true
		}
	}
	return false
}

// moneyless requests never touch a module account.
func moneyless(m sdk.Msg) bool {
	switch m.(type) {
	case *stakerstypes.MsgJoinPool, *stakerstypes.MsgLeavePool, *stakerstypes.MsgUpdateCommission, *stakerstypes.MsgUpdateMetadata, *stakerstypes.MsgUpdateParams,
		*funderstypes.MsgCreateFunder, *funderstypes.MsgUpdateFunder, *funderstypes.MsgUpdateParams,
		*delegationtypes.MsgUndelegate, *delegationtypes.MsgUpdateParams,
		*pooltypes.MsgCreatePool, *pooltypes.MsgUpdatePool, *pooltypes.MsgEnablePool, *pooltypes.MsgScheduleRuntimeUpgrade, *pooltypes.MsgCancelRuntimeUpgrade, *pooltypes.MsgUpdateParams,
		*bundlestypes.MsgClaimUploaderRole, *bundlestypes.MsgVoteBundleProposal, *bundlestypes.MsgUpdateParams,
		*teamtypes.MsgClawback, *teamtypes.MsgCreateTeamVestingAccount, *globaltypes.MsgUpdateParams,
		*govv1.MsgVoteWeighted, *govv1.MsgVote, *banktypes.MsgSend, *banktypes.MsgMultiSend, *distrtypes.MsgSetWithdrawAddress:
		return true
	}
	return false
}

// payees of a request, as far as its sender chooses them
func payees(m sdk.Msg) []string {
	switch m := m.(type) {
	case *stakerstypes.MsgJoinPool:
		return []string{m.Valaddress}
	case *teamtypes.MsgClaimUnlocked:
		return []string{m.Recipient}
	case *teamtypes.MsgClaimAccountRewards:
		return []string{m.Recipient}
	case *teamtypes.MsgClaimAuthorityRewards:
		return []string{m.Recipient}
	case *banktypes.MsgSend:
		return []string{m.ToAddress}
	case *banktypes.MsgMultiSend:
		l := []string{}
		for _, o := range m.Outputs {
			l = append(l, o.Address)
		}
		return l
	case *vestingtypes.MsgCreateVestingAccount:
		return []string{m.ToAddress}
	case *vestingtypes.MsgCreatePermanentLockedAccount:
		return []string{m.ToAddress}
	case *vestingtypes.MsgCreatePeriodicVestingAccount:
		return []string{m.ToAddress}
	case *distrtypes.MsgCommunityPoolSpend:
		return []string{m.Recipient}
	case *distrtypes.MsgSetWithdrawAddress:
		return []string{m.WithdrawAddress}
	case *authz.MsgExec:
		l := []string{}
		ms, _ := m.GetMessages()
		for _, x := range ms {
			l = append(l, payees(x)...)
		}
		return l
	}
	return nil
}

// rulePayments (X05)
func rulePayments(e *Env, st *Step, fail Fail) {
	if st.Phase != "op" || st.Msg == nil || st.Post == nil {
		return
	}
	if st.OK() {
		for _, a := range payees(st.Msg) {
			if closed(a) {
				fail("paid-in", "%s pays directly into the protocol account %s", where(st), lab(a))
			}
		}
		if !st.Post.Supply.Equal(st.Pre.Supply) {
			fail("supply", "%s changes the supply from %s to %s", where(st), st.Pre.Supply, st.Post.Supply)
		}
	}
	if !st.OK() || moneyless(st.Msg) {
		for _, n := range closedAccounts {
			if a := modAddr(n); !st.Pre.Bal[a].Equal(st.Post.Bal[a]) {
				fail("moved", "%s changes the protocol account %s from %s to %s", where(st), n, st.Pre.Bal[a], st.Post.Bal[a])
			}
		}
	}
}

type payRoute struct {
	name string
	msg  func(e *Env, ctx sdk.Context, to string, amt uint64) sdk.Msg
	// ok tells whether a payment to an ordinary, a fresh and the treasury account goes through
	fresh bool // only to accounts which do not exist
	zero  bool // an amount of zero is accepted
}

func payRoutes() []payRoute {
	F, B := teamtypes.FOUNDATION_ADDRESS, teamtypes.BCP_ADDRESS
	send := func(e *Env, ctx sdk.Context, to string, amt uint64) sdk.Msg {
		return &banktypes.MsgSend{FromAddress: acc("D1"), ToAddress: to, Amount: kyve(amt)}
	}
	exec := func(m sdk.Msg, who string) sdk.Msg {
		x := authz.NewMsgExec(sdk.MustAccAddressFromBech32(who), []sdk.Msg{m})
		return &x
	}
	return []payRoute{
		{name: "send", msg: send},
		{name: "send-alpha", msg: func(e *Env, ctx sdk.Context, to string, amt uint64) sdk.Msg {
			return &banktypes.MsgSend{FromAddress: acc("D1"), ToAddress: to, Amount: sdk.NewCoins(coin(ADENOM, amt))}
		}},
		{name: "multisend", msg: func(e *Env, ctx sdk.Context, to string, amt uint64) sdk.Msg {
			return &banktypes.MsgMultiSend{Inputs: []banktypes.Input{{Address: acc("D1"), Coins: kyve(amt + 3)}}, Outputs: []banktypes.Output{{Address: acc("S3"), Coins: kyve(3)}, {Address: to, Coins: kyve(amt)}}}
		}},
		{name: "exec(send)", msg: func(e *Env, ctx sdk.Context, to string, amt uint64) sdk.Msg { return exec(send(e, ctx, to, amt), acc("D1")) }},
		{name: "join", zero: true, msg: func(e *Env, ctx sdk.Context, to string, amt uint64) sdk.Msg {
			return &stakerstypes.MsgJoinPool{Creator: acc("S1"), PoolId: 0, Valaddress: to, Amount: amt}
		}},
		{name: "exec(join)", zero: true, msg: func(e *Env, ctx sdk.Context, to string, amt uint64) sdk.Msg {
			return exec(&stakerstypes.MsgJoinPool{Creator: acc("S1"), PoolId: 0, Valaddress: to, Amount: amt}, acc("S1"))
		}},
		{name: "claim-unlocked", zero: true, msg: func(e *Env, ctx sdk.Context, to string, amt uint64) sdk.Msg {
			return &teamtypes.MsgClaimUnlocked{Authority: F, Id: 0, Amount: amt, Recipient: to}
		}},
		{name: "claim-account-rewards", zero: true, msg: func(e *Env, ctx sdk.Context, to string, amt uint64) sdk.Msg {
			return &teamtypes.MsgClaimAccountRewards{Authority: B, Id: 0, Amount: amt, Recipient: to}
		}},
		{name: "claim-authority-rewards", zero: true, msg: func(e *Env, ctx sdk.Context, to string, amt uint64) sdk.Msg {
			return &teamtypes.MsgClaimAuthorityRewards{Authority: F, Amount: amt, Recipient: to}
		}},
		{name: "vesting", fresh: true, msg: func(e *Env, ctx sdk.Context, to string, amt uint64) sdk.Msg {
			return &vestingtypes.MsgCreateVestingAccount{FromAddress: acc("D1"), ToAddress: to, Amount: kyve(amt), EndTime: ctx.BlockTime().Unix() + 1000}
		}},
		{name: "locked", fresh: true, msg: func(e *Env, ctx sdk.Context, to string, amt uint64) sdk.Msg {
			return &vestingtypes.MsgCreatePermanentLockedAccount{FromAddress: acc("D1"), ToAddress: to, Amount: kyve(amt)}
		}},
		{name: "community-spend", msg: func(e *Env, ctx sdk.Context, to string, amt uint64) sdk.Msg {
			return &distrtypes.MsgCommunityPoolSpend{Authority: govAddr(), Recipient: to, Amount: kyve(amt)}
		}},
		{name: "withdraw-address", zero: true, msg: func(e *Env, ctx sdk.Context, to string, amt uint64) sdk.Msg {
			return &distrtypes.MsgSetWithdrawAddress{DelegatorAddress: acc("D1"), WithdrawAddress: to}
		}},
	}
}

func custodyBase() *Scenario {
	return &Scenario{Name: "payments", Gen: inflationGen(), Quick: 1, Thor: 1, Ops: func(*Env) []*Op { return nil },
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			e.createPool(ctx, poolCfg{Name: "p0"})
			e.createStaker(ctx, "S1", 3*K)
			e.createStaker(ctx, "S2", 2*K)
			e.join(ctx, "S2", 0, "VB", 0)
			e.do(ctx, opCreateTeam(teamtypes.FOUNDATION_ADDRESS, refTeam/2, refTGE-3*year))
			e.must(ctx, &distrtypes.MsgFundCommunityPool{Depositor: acc("G"), Amount: kyve(1_000_000)})
			ctx = e.block(ctx, 5)
			ctx = e.block(ctx, int64(year/2))
			return e.block(ctx, int64(year/2))
		}}
}

func paymentGrid(p *Property) *Extra {
	sc := custodyBase()
	routes := payRoutes()
	type rcv struct {
		name, addr    string
		closed, fresh bool
	}
	rs := []rcv{}
	for _, n := range closedAccounts {
		rs = append(rs, rcv{n, modAddr(n), true, false})
	}
	rs = append(rs, rcv{"gov", modAddr("gov"), false, false}, rcv{"D2", acc("D2"), false, false}, rcv{"fresh", acc("Q7"), false, true}, rcv{"S2", acc("S2"), false, false})
	amts := []uint64{0, 1, 7, 1000}
	n := len(routes) * len(rs) * len(amts)
	return &Extra{Name: "payments", Note: "every way to name a recipient (transfers, multi-sends, nested requests, protocol addresses, team claims, vesting accounts, treasury spends, withdraw addresses) x every protocol account and four others x amounts",
		N: func(string) int { return n },
		Run: func(tier string, i int, fail Fail) (int, int) {
			r, to, amt := routes[i%len(routes)], rs[i/len(routes)%len(rs)], amts[i/len(routes)/len(rs)]
			e, ctx := extraEnv(sc)
			pre := e.Snapshot(ctx)
			m := r.msg(e, ctx, to.addr, amt)
			op := &Op{Name: fmt.Sprintf("%s(%s,%d)", r.name, to.name, amt), Kind: "payment", Msg: func(*Env, sdk.Context) sdk.Msg { return m }}
			_, steps := e.observe(ctx, op, pre)
			for _, v := range judge(p, e, steps) {
				fail(v.Rule, "%s", v.Msg)
			}
			st := steps[0]
			switch {
			case to.closed && st.OK():
				fail("paid-in", "%s is accepted", where(st))
			case !to.closed && !st.OK() && (amt > 0 || r.zero) && (!r.fresh || to.fresh):
				fail("refused", "%s is refused: %v", where(st), st.Err)
			case !to.closed && st.OK() && r.name != "withdraw-address":
				d := DENOM
				if r.name == "send-alpha" {
					d = ADENOM
				}
				if g := st.Post.B(to.addr, d); g != pre.B(to.addr, d)+amt {
					fail("received", "%s: the recipient holds %d instead of %d", where(st), g, pre.B(to.addr, d)+amt)
				}
			}
			return 1, 1
		}}
}

// supplyGrid: which protocol accounts may create or destroy coins.
func supplyGrid() *Extra {
	sc := custodyBase()
	all := append(append([]string{}, closedAccounts...), "gov")
	return &Extra{Name: "creating-coins", Note: "an attempt to create and to destroy coins in the name of every protocol account and in every coin",
		N: func(string) int { return len(all) * 2 },
		Run: func(tier string, i int, fail Fail) (int, int) {
			n := all[i/2]
			for _, d := range []string{DENOM, ADENOM, "kyve"} {
				e, ctx := extraEnv(sc)
				c := sdk.NewCoins(coin(d, 5))
				may := minters[n]
				do := func() error { return e.App.BankKeeper.MintCoins(ctx, n, c) }
				if i%2 == 1 {
					may = burners[n]
					do = func() error {
						if err := e.App.BankKeeper.MintCoins(ctx, "mint", c); err != nil {
							return nil // reported by the other half
						}
						if err := e.App.BankKeeper.SendCoinsFromModuleToModule(ctx, "mint", n, c); err != nil {
							return err
						}
						return e.App.BankKeeper.BurnCoins(ctx, n, c)
					}
				}
				err, p := guard(do)
				if ok := err == nil && p == ""; ok != may {
					fail("permission", "account %s: creating (0) or destroying (1) coins %d %s: allowed is %v, expected %v (%v %s)", n, i%2, d, ok, may, err, p)
				}
			}
			return 3, 3
		}}
}

func custodyWorld(q, th int) *Scenario {
	w := membershipWorld(q, th)
	ops := w.Ops
	w.Name = "protocol-addresses"
	w.Note = "the membership world with protocol addresses of validators which are protocol accounts"
	w.Ops = func(e *Env) []*Op {
		l := ops(e)[:8]
		for _, n := range []string{"delegation", "stakers", "funders", "bonded_tokens_pool", "gov"} {
			l = append(l, joinModule("S2", 0, n, 5), joinModule("S2", 1, n, 0))
		}
		return append(l, opLeave("S1", 0), opKick("S1", 0), opDelegate("D1", "S2", 7), opSlash("S1", delegationtypes.SLASH_TYPE_VOTE), blockOp(10))
	}
	return w
}

func joinModule(s string, p uint64, mod string, amt uint64) *Op {
	return msgOp("join", fmt.Sprintf("join(%s,pool%d,account of %s,%d)", s, p, mod, amt), &stakerstypes.MsgJoinPool{Creator: acc(s), PoolId: p, Valaddress: modAddr(mod), Amount: amt})
}

func buildCustody() {
	p := &Property{ID: "X05", Scenarios: []*Scenario{custodyWorld(6, 7), mixedWorld("mixed", 3, 4), farPools(3, 4), manyPools(2, 4), teamWorld("team-claims", 4, 5, 0), fundersFlow(7, 8)}, Rules: []Rule{rulePayments}}
	p.Extra = []*Extra{paymentGrid(p), supplyGrid()}
	register(p)
}
