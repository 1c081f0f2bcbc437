package main

// M01: the v1.5 upgrade.
//
// For every reached state that the previous version could have held (only the
// native coin is funded and earned) the raw records are rewritten in the encoding
// of the previous version, the registered upgrade handler is executed by the
// upgrade keeper, and the outcome is compared with the state itself.

import (
	"bytes"
	"fmt"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	upgradetypes "cosmossdk.io/x/upgrade/types"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	"github.com/cosmos/gogoproto/proto"

	oldbundles "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/bundles"
	olddelegation "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/delegation"
	oldfunders "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/funders"
	oldpool "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/pool"
	oldstakers "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/stakers"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
)

// the name under which governance schedules the upgrade
const upgradeName = "v1.5.0"

// weight of every pool in the previous version
const oldWeight = 1_000_000

func (e *Env) kv(ctx sdk.Context, name string) storetypes.KVStore {
	for _, k := range e.App.GetStoreKeys() {
		if k.Name() == name {
			return ctx.KVStore(k)
		}
	}
	panic("no store " + name)
}

type rec interface {
	proto.Message
	Marshal() ([]byte, error)
	Unmarshal([]byte) error
}

func enc(m rec) []byte {
	bz, err := m.Marshal()
	if err != nil {
		panic(err)
	}
	return bz
}

// rewrite replaces the value of every record below a prefix
func rewrite(st storetypes.KVStore, prefix []byte, f func(old []byte) []byte) {
	var ks, vs [][]byte
	it := storetypes.KVStorePrefixIterator(st, prefix)
	for ; it.Valid(); it.Next() {
		ks = append(ks, append([]byte{}, it.Key()...))
		vs = append(vs, append([]byte{}, it.Value()...))
	}
	it.Close()
	for i := range ks {
		st.Set(ks[i], f(vs[i]))
	}
}

type notOld struct{ what string }

func nativeOnly(c sdk.Coins) uint64 {
	for _, x := range c {
		if x.Denom != DENOM {
			panic(notOld{x.Denom})
		}
	}
	return c.AmountOf(DENOM).Uint64()
}

func dec14(b []byte, m rec) {
	if err := m.Unmarshal(b); err != nil {
		panic(err)
	}
}

// downgrade rewrites the state in the encoding of the previous version; it tells
// whether the previous version can represent it.
func (e *Env) downgrade(ctx sdk.Context) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(notOld); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	fs := e.kv(ctx, funderstypes.StoreKey)
	for _, p := range [][]byte{funderstypes.FundingKeyPrefixByFunder, funderstypes.FundingKeyPrefixByPool} {
		rewrite(fs, p, func(b []byte) []byte {
			var n funderstypes.Funding
			dec14(b, &n)
			return enc(&oldfunders.Funding{FunderAddress: n.FunderAddress, PoolId: n.PoolId, Amount: nativeOnly(n.Amounts), AmountPerBundle: nativeOnly(n.AmountsPerBundle), TotalFunded: nativeOnly(n.TotalFunded)})
		})
	}
	rewrite(fs, funderstypes.ParamsKey, func(b []byte) []byte {
		var n funderstypes.Params
		dec14(b, &n)
		o := oldfunders.Params{MinFundingMultiple: n.MinFundingMultiple}
		for _, w := range n.CoinWhitelist {
			if w.CoinDenom == DENOM {
				o.MinFundingAmount, o.MinFundingAmountPerBundle = w.MinFundingAmount.Uint64(), w.MinFundingAmountPerBundle.Uint64()
			}
		}
		return enc(&o)
	})
	ds := e.kv(ctx, delegationtypes.StoreKey)
	rewrite(ds, delegationtypes.DelegationEntriesKeyPrefix, func(b []byte) []byte {
		var n delegationtypes.DelegationEntry
		dec14(b, &n)
		for _, c := range n.Value {
			if c.Denom != DENOM {
				panic(notOld{c.Denom})
			}
		}
		return enc(&olddelegation.DelegationEntry{Staker: n.Staker, KIndex: n.KIndex, Value: n.Value.AmountOf(DENOM)})
	})
	rewrite(ds, delegationtypes.DelegationDataKeyPrefix, func(b []byte) []byte {
		var n delegationtypes.DelegationData
		dec14(b, &n)
		return enc(&olddelegation.DelegationData{Staker: n.Staker, CurrentRewards: nativeOnly(n.CurrentRewards), TotalDelegation: n.TotalDelegation, LatestIndexK: n.LatestIndexK,
			DelegatorCount: n.DelegatorCount, LatestIndexWasUndelegation: n.LatestIndexWasUndelegation})
	})
	rewrite(e.kv(ctx, stakerstypes.StoreKey), stakerstypes.StakerKeyPrefix, func(b []byte) []byte {
		var n stakerstypes.Staker
		dec14(b, &n)
		return enc(&oldstakers.Staker{Address: n.Address, Commission: n.Commission, Moniker: n.Moniker, Website: n.Website, Identity: n.Identity, SecurityContact: n.SecurityContact, Details: n.Details,
			CommissionRewards: nativeOnly(n.CommissionRewards)})
	})
	rewrite(e.kv(ctx, bundlestypes.StoreKey), []byte(bundlestypes.ParamsPrefix), func(b []byte) []byte {
		var n bundlestypes.Params
		dec14(b, &n)
		o := oldbundles.Params{UploadTimeout: n.UploadTimeout, NetworkFee: n.NetworkFee, MaxPoints: n.MaxPoints, StorageCost: math.LegacyZeroDec()}
		if len(n.StorageCosts) > 0 {
			o.StorageCost = n.StorageCosts[0].Cost
		}
		return enc(&o)
	})
	ps := e.kv(ctx, pooltypes.StoreKey)
	rewrite(ps, pooltypes.ParamsKey, func(b []byte) []byte {
		var n pooltypes.Params
		dec14(b, &n)
		return enc(&oldpool.Params{ProtocolInflationShare: n.ProtocolInflationShare, PoolInflationPayoutRate: n.PoolInflationPayoutRate})
	})
	rewrite(ps, pooltypes.PoolKey, func(b []byte) []byte {
		var n pooltypes.Pool
		dec14(b, &n)
		o := oldpool.Pool{Id: n.Id, Name: n.Name, Runtime: n.Runtime, Logo: n.Logo, Config: n.Config, StartKey: n.StartKey, CurrentKey: n.CurrentKey, CurrentSummary: n.CurrentSummary, CurrentIndex: n.CurrentIndex,
			TotalBundles: n.TotalBundles, UploadInterval: n.UploadInterval, InflationShareWeight: oldWeight, MinDelegation: n.MinDelegation, MaxBundleSize: n.MaxBundleSize, Disabled: n.Disabled,
			CurrentStorageProviderId: n.CurrentStorageProviderId, CurrentCompressionId: n.CurrentCompressionId, EndKey: n.EndKey}
		if p := n.Protocol; p != nil {
			o.Protocol = &oldpool.Protocol{Version: p.Version, Binaries: p.Binaries, LastUpgrade: p.LastUpgrade}
		}
		if p := n.UpgradePlan; p != nil {
			o.UpgradePlan = &oldpool.UpgradePlan{Version: p.Version, Binaries: p.Binaries, ScheduledAt: p.ScheduledAt, Duration: p.Duration}
		}
		return enc(&o)
	})
	rewrite(e.kv(ctx, govtypes.StoreKey), govtypes.ProposalsKeyPrefix.Bytes(), func(b []byte) []byte {
		var n govv1.Proposal
		dec14(b, &n)
		for i, a := range n.Messages {
			if a.TypeUrl != sdk.MsgTypeURL(&pooltypes.MsgCreatePool{}) {
				continue
			}
			var m pooltypes.MsgCreatePool
			dec14(a.Value, &m)
			if m.EndKey != "" || !m.InflationShareWeight.IsInteger() {
				panic(notOld{"pool proposal"})
			}
			o := oldpool.MsgCreatePool{Authority: m.Authority, Name: m.Name, Runtime: m.Runtime, Logo: m.Logo, Config: m.Config, StartKey: m.StartKey, UploadInterval: m.UploadInterval,
				InflationShareWeight: m.InflationShareWeight.TruncateInt().Uint64(), MinDelegation: m.MinDelegation, MaxBundleSize: m.MaxBundleSize, Version: m.Version, Binaries: m.Binaries,
				StorageProviderId: m.StorageProviderId, CompressionId: m.CompressionId}
			n.Messages[i] = &codectypes.Any{TypeUrl: a.TypeUrl, Value: enc(&o)}
		}
		return enc(&n)
	})
	return true
}

// upgrade executes the registered upgrade as the upgrade keeper does at its height
func (e *Env) upgrade(ctx sdk.Context) (error, string) {
	return guard(func() error {
		return e.App.UpgradeKeeper.ApplyUpgrade(ctx, upgradetypes.Plan{Name: upgradeName, Height: ctx.BlockHeight()})
	})
}

func (e *Env) balances(ctx sdk.Context) (m map[string]sdk.Coins, supply sdk.Coins) {
	m = map[string]sdk.Coins{}
	e.App.BankKeeper.IterateAllBalances(ctx, func(a sdk.AccAddress, c sdk.Coin) bool {
		m[a.String()] = m[a.String()].Add(c)
		return false
	})
	e.App.BankKeeper.IterateTotalSupply(ctx, func(c sdk.Coin) bool { supply = supply.Add(c); return false })
	return
}

// upgradeParams judges the parameters after the upgrade
func upgradeParams(e *Env, a, b sdk.Context, fail Fail) {
	fo, fn := e.App.FundersKeeper.GetParams(a), e.App.FundersKeeper.GetParams(b)
	var native, of *funderstypes.WhitelistCoinEntry
	for _, w := range fo.CoinWhitelist {
		if w.CoinDenom == DENOM {
			of = w
		}
	}
	for _, w := range fn.CoinWhitelist {
		if w.CoinDenom == DENOM {
			native = w
		}
	}
	if native == nil || !native.CoinWeight.IsPositive() {
		fail("params", "the native coin cannot be funded after the upgrade")
	} else if !native.MinFundingAmount.Equal(of.MinFundingAmount) || !native.MinFundingAmountPerBundle.Equal(of.MinFundingAmountPerBundle) {
		fail("params", "minimum funding amounts %s/%s become %s/%s", of.MinFundingAmount, of.MinFundingAmountPerBundle, native.MinFundingAmount, native.MinFundingAmountPerBundle)
	}
	if fn.MinFundingMultiple != fo.MinFundingMultiple {
		fail("params", "minimum funding multiple %d becomes %d", fo.MinFundingMultiple, fn.MinFundingMultiple)
	}
	bo, bn := e.App.BundlesKeeper.GetParams(a), e.App.BundlesKeeper.GetParams(b)
	if bo.UploadTimeout != bn.UploadTimeout || bo.MaxPoints != bn.MaxPoints || !bo.NetworkFee.Equal(bn.NetworkFee) {
		fail("params", "bundle parameters %v become %v", bo, bn)
	}
	po, pn := e.App.PoolKeeper.GetParams(a), e.App.PoolKeeper.GetParams(b)
	if !po.ProtocolInflationShare.Equal(pn.ProtocolInflationShare) || !po.PoolInflationPayoutRate.Equal(pn.PoolInflationPayoutRate) {
		fail("params", "pool parameters %v become %v", po, pn)
	}
	for _, v := range []error{fn.Validate(), bn.Validate(), pn.Validate()} {
		if v != nil {
			fail("params", "invalid parameters after the upgrade: %v", v)
		}
	}
}

var tendermint = map[string]bool{"@kyvejs/tendermint": true, "@kyvejs/tendermint-bsync": true, "@kyvejs/tendermint-ssync": true}

// expected turns a state into what the upgrade has to make of it; the values the
// upgrade chooses freely (judged above) are taken over from the upgraded state.
func (e *Env) expected(x, up sdk.Context, fail Fail) {
	e.App.FundersKeeper.SetParams(x, e.App.FundersKeeper.GetParams(up))
	e.App.BundlesKeeper.SetParams(x, e.App.BundlesKeeper.GetParams(up))
	e.App.PoolKeeper.SetParams(x, e.App.PoolKeeper.GetParams(up))
	if g, err := e.App.GovKeeper.Params.Get(up); err == nil {
		_ = e.App.GovKeeper.Params.Set(x, g)
	}
	for _, p := range e.App.PoolKeeper.GetAllPools(x) {
		p.InflationShareWeight = math.LegacyOneDec()
		q, ok := e.App.PoolKeeper.GetPool(up, p.Id)
		if tendermint[p.Runtime] && (p.UpgradePlan == nil || p.UpgradePlan.ScheduledAt == 0) && ok {
			if q.UpgradePlan == nil || q.UpgradePlan.ScheduledAt != uint64(up.BlockTime().Unix()) || q.UpgradePlan.Duration != 600 || q.UpgradePlan.Version != "1.2.0" || q.UpgradePlan.Binaries == "" {
				fail("runtime", "pool %d with runtime %s has no runtime upgrade scheduled: %v", p.Id, p.Runtime, q.UpgradePlan)
			} else {
				p.UpgradePlan = q.UpgradePlan
			}
		}
		e.App.PoolKeeper.SetPool(x, p)
	}
	gov := e.kv(x, govtypes.StoreKey)
	ug := e.kv(up, govtypes.StoreKey)
	var ks [][]byte
	it := storetypes.KVStorePrefixIterator(gov, govtypes.ProposalsKeyPrefix.Bytes())
	for ; it.Valid(); it.Next() {
		ks = append(ks, append([]byte{}, it.Key()...))
	}
	it.Close()
	for _, k := range ks {
		var a, b govv1.Proposal
		dec14(gov.Get(k), &a)
		if v := ug.Get(k); v == nil || b.Unmarshal(v) != nil {
			fail("proposal", "governance proposal %d cannot be read after the upgrade", a.Id)
			continue
		}
		a.Title, a.Summary, a.Proposer = b.Title, b.Summary, b.Proposer // completed for the known ones
		gov.Set(k, enc(&a))
	}
}

func (e *Env) outstanding(ctx sdk.Context, s *Snap) map[SD]sdk.Coins {
	m := map[SD]sdk.Coins{}
	for k := range s.Del {
		m[k] = e.App.DelegationKeeper.GetOutstandingRewards(ctx, k.S, k.D)
	}
	return m
}

func stateUpgrade(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
	a, ok := e.completed(ctx, fail)
	if !ok {
		return
	}
	a = nextCtx(a, 5)
	up, _ := a.CacheContext()
	up = quiet(up)
	if !e.downgrade(up) {
		return
	}
	pre := e.Snapshot(a)
	bal, sup := e.balances(a)
	owed := e.outstanding(a, pre)
	if err, p := e.upgrade(up); err != nil || p != "" {
		fail("upgrade-fails", "the upgrade fails: %v %s", err, p)
		return
	}
	if b, s2 := e.balances(up); !s2.Equal(sup) {
		fail("supply", "the supply changes from %s to %s", sup, s2)
	} else {
		for _, k := range sortedKeys(bal) {
			if !b[k].Equal(bal[k]) {
				fail("balance", "the balance of %s changes from %s to %s", lab(k), bal[k], b[k])
			}
		}
	}
	upgradeParams(e, a, up, fail)
	var post *Snap
	if _, p := guard(func() error { post = e.Snapshot(up); return nil }); p != "" {
		fail("unreadable", "the state cannot be read after the upgrade: %s", p)
		return
	}
	for k, f := range pre.Fund {
		g, ok := post.Fund[k]
		if !ok || !g.Amounts.Equal(f.Amounts) || !g.AmountsPerBundle.Equal(f.AmountsPerBundle) || !g.TotalFunded.Equal(f.TotalFunded) {
			fail("funding", "funding of %s in pool %d: %v becomes %v", lab(k.F), k.P, f, g)
		}
	}
	for k, v := range pre.Stakers {
		if w, ok := post.Stakers[k]; !ok || !w.CommissionRewards.Equal(v.CommissionRewards) || !w.Commission.Equal(v.Commission) {
			fail("commission", "validator %s: %v becomes %v", lab(k), v, w)
		}
	}
	for k, v := range owed {
		var w sdk.Coins
		if _, p := guard(func() error { w = e.App.DelegationKeeper.GetOutstandingRewards(up, k.S, k.D); return nil }); p != "" {
			fail("reward", "rewards of %s at %s cannot be computed after the upgrade: %s", lab(k.D), lab(k.S), p)
		} else if !w.Equal(v) {
			fail("reward", "outstanding rewards of %s at %s: %s becomes %s", lab(k.D), lab(k.S), v, w)
		}
		if post.Del[k].Amt != pre.Del[k].Amt {
			fail("delegation", "delegation of %s at %s: %d becomes %d", lab(k.D), lab(k.S), pre.Del[k].Amt, post.Del[k].Amt)
		}
	}
	// everything else
	x, _ := a.CacheContext()
	x = quiet(x)
	e.expected(x, up, fail)
	want, got := e.dump(x), e.dump(up)
	for _, st := range sortedKeys(want) {
		if st == upgradetypes.StoreKey {
			continue
		}
		w, g := want[st], got[st]
		if !sameKV(w, g) {
			fail("state", "the contents of store %s change: %s", st, diffKV(w, g))
		}
	}
	e.afterUpgrade(up, post, owed, fail)
}

func sameKV(a, b kv) bool { return diffKV(a, b) == "" }

func diffKV(a, b kv) string {
	m := map[string][]byte{}
	for i := range a.Keys {
		m[string(a.Keys[i])] = a.Vals[i]
	}
	for i := range b.Keys {
		v, ok := m[string(b.Keys[i])]
		if !ok {
			return fmt.Sprintf("record %x = %x added", b.Keys[i], b.Vals[i])
		}
		if !bytes.Equal(v, b.Vals[i]) {
			return fmt.Sprintf("record %x: %x instead of %x", b.Keys[i], b.Vals[i], v)
		}
		delete(m, string(b.Keys[i]))
	}
	for _, k := range sortedKeys(m) {
		return fmt.Sprintf("record %x lost", []byte(k))
	}
	return ""
}

// afterUpgrade: the chain goes on and everybody receives what he owned.
func (e *Env) afterUpgrade(up sdk.Context, s *Snap, owed map[SD]sdk.Coins, fail Fail) {
	paid := func(who string, want sdk.Coins, what string, m sdk.Msg) {
		c, _ := up.CacheContext()
		b := e.App.BankKeeper.GetAllBalances(c, sdk.MustAccAddressFromBech32(who))
		if err := e.execMsg(c, m); err != nil {
			fail("locked", "after the upgrade %s cannot %s: %v", lab(who), what, err)
		} else if n := e.App.BankKeeper.GetAllBalances(c, sdk.MustAccAddressFromBech32(who)); !n.Equal(b.Add(want...)) {
			fail("locked", "after the upgrade %s by %s pays %s instead of %s", what, lab(who), n.Sub(b...), want)
		}
	}
	for k, f := range s.Fund {
		if !f.Amounts.IsZero() {
			paid(k.F, f.Amounts, fmt.Sprintf("defund pool %d", k.P), &funderstypes.MsgDefundPool{Creator: k.F, PoolId: k.P, Amounts: f.Amounts})
		}
	}
	for k, v := range s.Stakers {
		if !v.CommissionRewards.IsZero() {
			paid(k, v.CommissionRewards, "claim the commission", &stakerstypes.MsgClaimCommissionRewards{Creator: k, Amounts: v.CommissionRewards})
		}
	}
	for k, v := range owed {
		if s.Del[k].Amt > 0 || !v.IsZero() {
			paid(k.D, v, "withdraw rewards at "+lab(k.S), &delegationtypes.MsgWithdrawRewards{Creator: k.D, Staker: k.S})
		}
	}
	c, _ := up.CacheContext()
	for i, dt := range []int64{5, 61, 700, 6 * day} {
		if err, p := e.beginBlock(c); err != nil || p != "" {
			fail("block-fails", "the begin of block %d after the upgrade fails: %v %s", i, err, p)
			return
		}
		if err, p := e.endBlock(c); err != nil || p != "" {
			fail("block-fails", "the end of block %d after the upgrade fails: %v %s", i, err, p)
			return
		}
		c = quiet(nextCtx(c, dt))
	}
	if _, err := e.App.UpgradeKeeper.GetUpgradePlan(c); err == nil {
		fail("emergency-halt", "the blocks after the upgrade schedule an emergency halt")
	}
}

func upgradeSetup(e *Env, ctx sdk.Context) sdk.Context {
	ctx = mixedOpening(e, ctx, true)
	m := poolCfg{Name: "proposed", Interval: 60, StorageId: 1, Weight: "1000000", Runtime: "@kyve/other"}.msg()
	n := poolCfg{Name: "proposed too", Interval: 7, StorageId: 2, Weight: "5", Runtime: "@kyve/other", MinDel: 12, StartKey: "4", CompressionId: 1}.msg()
	e.propose(ctx, "G", m)
	e.propose(ctx, "G", &pooltypes.MsgDisablePool{Authority: govAddr(), Id: 0}, n)
	return ctx
}

func upgradeWorld(q, th int) *Scenario {
	in := mixedInits()
	return &Scenario{Name: "upgrade", Gen: inflationGen(), Quick: q, Thor: th, Setup: upgradeSetup, InitN: len(in),
		Ops: func(e *Env) []*Op {
			return append(mixedOps(e), opSchedule("@kyvejs/tendermint-bsync", "3.0", `{"x":"z"}`, inSec(5), 70, "+5"), opCreateStaker("S4", 0), opDefund("D1", 0, kyve(9_000)))
		},
		Note: "native coin only; three pools (two with tendermint runtimes), three validators, delegators, funders, team, inflation, proposals which create pools; six situations x operations of all modules",
		Init: func(e *Env, ctx sdk.Context, i int) (sdk.Context, string) {
			return in[i].f(e, ctx), in[i].name
		}}
}

// upgradeRecords: every combination of amounts in the records of the previous version
func upgradeRecords() *Extra {
	amts := []uint64{0, 1, 9, 1_000_000_007, 1<<53 + 1, 1_000_000_000_000_000_000, 1<<63 - 1}
	decs := []string{"0", "0.000000000000000001", "0.333333333333333333", "1", "123456.700000000000000001", "1000000000000000.666666666666666667", "9223372036854775807"}
	dims := []int{len(amts), len(amts), len(amts), len(decs)}
	sc := &Scenario{Name: "upgrade-records", Gen: inflationGen(), Setup: upgradeSetup, Ops: func(*Env) []*Op { return nil }}
	return &Extra{Name: "records", Note: "funding amount x amount per bundle x total funded (also as current and commission rewards) x entry value, each in {0, 1, ..., 2^63-1}",
		N: func(string) int { return dims[0] * dims[1] * dims[2] * dims[3] },
		Run: func(tier string, i int, fail Fail) (int, int) {
			x := digits(i, dims)
			e, ctx := extraEnv(sc)
			c, _ := ctx.CacheContext()
			c = quiet(nextCtx(c, 5))
			if !e.downgrade(c) {
				fail("upgrade-fails", "the opening cannot be expressed in the previous version")
				return 1, 0
			}
			fs := e.kv(c, funderstypes.StoreKey)
			A, P, T, V := amts[x[0]], amts[x[1]], amts[x[2]], dec(decs[x[3]])
			for _, p := range [][]byte{funderstypes.FundingKeyPrefixByFunder, funderstypes.FundingKeyPrefixByPool} {
				rewrite(fs, p, func(b []byte) []byte {
					var o oldfunders.Funding
					dec14(b, &o)
					o.Amount, o.AmountPerBundle, o.TotalFunded = A, P, T
					return enc(&o)
				})
			}
			rewrite(fs, funderstypes.ParamsKey, func([]byte) []byte {
				return enc(&oldfunders.Params{MinFundingAmount: A, MinFundingAmountPerBundle: P, MinFundingMultiple: T})
			})
			ds := e.kv(c, delegationtypes.StoreKey)
			rewrite(ds, delegationtypes.DelegationEntriesKeyPrefix, func(b []byte) []byte {
				var o olddelegation.DelegationEntry
				dec14(b, &o)
				o.Value = V
				return enc(&o)
			})
			rewrite(ds, delegationtypes.DelegationDataKeyPrefix, func(b []byte) []byte {
				var o olddelegation.DelegationData
				dec14(b, &o)
				o.CurrentRewards = A
				return enc(&o)
			})
			rewrite(e.kv(c, stakerstypes.StoreKey), stakerstypes.StakerKeyPrefix, func(b []byte) []byte {
				var o oldstakers.Staker
				dec14(b, &o)
				o.CommissionRewards = P
				return enc(&o)
			})
			what := fmt.Sprintf("amount %d, per bundle %d, total %d, entry %s", A, P, T, V)
			if err, p := e.upgrade(c); err != nil || p != "" {
				fail("upgrade-fails", "%s: the upgrade fails: %v %s", what, err, p)
				return 1, 1
			}
			is := func(got sdk.Coins, n uint64) bool {
				return got.Equal(sdk.NewCoins(coin(DENOM, n))) && got.Validate() == nil
			}
			for _, f := range e.App.FundersKeeper.GetAllFundings(c) {
				if !is(f.Amounts, A) || !is(f.AmountsPerBundle, P) || !is(f.TotalFunded, T) {
					fail("funding", "%s: funding becomes %v", what, f)
				}
			}
			ps := e.App.FundersKeeper.GetParams(c)
			for _, w := range ps.CoinWhitelist {
				if w.CoinDenom == DENOM && (!w.MinFundingAmount.Equal(intU(A)) || !w.MinFundingAmountPerBundle.Equal(intU(P)) || ps.MinFundingMultiple != T) {
					fail("params", "%s: the funding parameters become %v", what, ps)
				}
			}
			for _, d := range e.App.DelegationKeeper.GetAllDelegationEntries(c) {
				if !d.Value.Equal(sdk.NewDecCoins(sdk.NewDecCoinFromDec(DENOM, V))) {
					fail("reward", "%s: entry becomes %v", what, d)
				}
			}
			for _, d := range e.App.DelegationKeeper.GetAllDelegationData(c) {
				if !is(d.CurrentRewards, A) {
					fail("reward", "%s: delegation data becomes %v", what, d)
				}
			}
			for _, st := range e.App.StakersKeeper.GetAllStakers(c) {
				if !is(st.CommissionRewards, P) {
					fail("commission", "%s: validator becomes %v", what, st)
				}
			}
			return 1, 1
		}}
}

func buildUpgrade() {
	register(&Property{ID: "M01", Scenarios: []*Scenario{upgradeWorld(2, 3)}, States: []StateRule{stateUpgrade}, Extra: []*Extra{upgradeRecords()}})
}
