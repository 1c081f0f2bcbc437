package main

// Typed observation of the complete protocol state.  All values come from the
// exported state accessors and the module genesis exports of the code under test.

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"sort"

	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"github.com/KYVENetwork/chain/x/bundles"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	"github.com/KYVENetwork/chain/x/delegation"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	"github.com/KYVENetwork/chain/x/funders"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	"github.com/KYVENetwork/chain/x/pool"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	"github.com/KYVENetwork/chain/x/stakers"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	"github.com/KYVENetwork/chain/x/team"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

type PS struct { // pool, staker
	P uint64
	S string
}
type SD struct { // staker, delegator
	S, D string
}
type PF struct { // pool, funder
	P uint64
	F string
}

type Del struct {
	Amt uint64
	Rew sdk.Coins
}

type Snap struct {
	Height int64
	Time   int64

	Bal    map[string]sdk.Coins // every account with a balance
	Supply sdk.Coins
	CP     sdk.DecCoins // community pool

	PoolG    *pooltypes.GenesisState
	StakersG *stakerstypes.GenesisState
	DelG     *delegationtypes.GenesisState
	BundlesG *bundlestypes.GenesisState
	FundersG *funderstypes.GenesisState
	TeamG    *teamtypes.GenesisState
	Global   globaltypes.Params

	Pools    map[uint64]pooltypes.Pool
	Stakers  map[string]stakerstypes.Staker
	Val      map[PS]stakerstypes.Valaccount
	Del      map[SD]Del
	DelTotal map[string]uint64
	Redel    map[string][]uint64
	Prop     map[uint64]bundlestypes.BundleProposal
	Fin      map[uint64][]bundlestypes.FinalizedBundle
	Fund     map[PF]funderstypes.Funding
	FState   map[uint64][]string

	HaltPlan bool // an upgrade plan is scheduled (never by a scenario)
}

// Features switches expensive parts of a snapshot off.
type Features struct {
	NoRewards bool
}

func (s *Snap) B(addr, denom string) uint64 {
	c, ok := s.Bal[addr]
	if !ok {
		return 0
	}
	return c.AmountOf(denom).Uint64()
}

func (s *Snap) Mod(name string) sdk.Coins { return s.Bal[modAddr(name)] }

func (e *Env) Snapshot(ctx sdk.Context) *Snap {
	a := e.App
	ctx = quiet(ctx)
	s := &Snap{Height: ctx.BlockHeight(), Time: ctx.BlockTime().Unix()}
	s.Bal = map[string]sdk.Coins{}
	a.BankKeeper.IterateAllBalances(ctx, func(ad sdk.AccAddress, c sdk.Coin) bool {
		k := ad.String()
		s.Bal[k] = s.Bal[k].Add(c)
		return false
	})
	a.BankKeeper.IterateTotalSupply(ctx, func(c sdk.Coin) bool {
		s.Supply = s.Supply.Add(c)
		return false
	})
	fp, err := a.DistributionKeeper.FeePool.Get(ctx)
	if err != nil {
		panic(err)
	}
	s.CP = fp.CommunityPool

	s.PoolG = pool.ExportGenesis(ctx, a.PoolKeeper)
	s.StakersG = stakers.ExportGenesis(ctx, a.StakersKeeper)
	s.DelG = delegation.ExportGenesis(ctx, a.DelegationKeeper)
	s.BundlesG = bundles.ExportGenesis(ctx, a.BundlesKeeper)
	s.FundersG = funders.ExportGenesis(ctx, a.FundersKeeper)
	s.TeamG = team.ExportGenesis(ctx, a.TeamKeeper)
	s.Global = a.GlobalKeeper.GetParams(ctx)

	s.Pools = map[uint64]pooltypes.Pool{}
	for _, p := range s.PoolG.PoolList {
		s.Pools[p.Id] = p
	}
	s.Stakers = map[string]stakerstypes.Staker{}
	s.DelTotal = map[string]uint64{}
	for _, x := range s.StakersG.StakerList {
		s.Stakers[x.Address] = x
		s.DelTotal[x.Address] = a.DelegationKeeper.GetDelegationAmount(ctx, x.Address)
	}
	s.Val = map[PS]stakerstypes.Valaccount{}
	for _, v := range s.StakersG.ValaccountList {
		s.Val[PS{v.PoolId, v.Staker}] = v
	}
	s.Del = map[SD]Del{}
	for _, d := range s.DelG.DelegatorList {
		x := Del{Amt: a.DelegationKeeper.GetDelegationAmountOfDelegator(ctx, d.Staker, d.Delegator)}
		if !e.Feat.NoRewards {
			x.Rew = a.DelegationKeeper.GetOutstandingRewards(ctx, d.Staker, d.Delegator)
		}
		s.Del[SD{d.Staker, d.Delegator}] = x
	}
	s.Redel = map[string][]uint64{}
	for _, r := range s.DelG.RedelegationCooldownList {
		s.Redel[r.Address] = append(s.Redel[r.Address], r.CreationDate)
	}
	s.Prop = map[uint64]bundlestypes.BundleProposal{}
	for _, p := range s.BundlesG.BundleProposalList {
		s.Prop[p.PoolId] = p
	}
	s.Fin = map[uint64][]bundlestypes.FinalizedBundle{}
	for _, f := range s.BundlesG.FinalizedBundleList {
		s.Fin[f.PoolId] = append(s.Fin[f.PoolId], f)
	}
	for _, l := range s.Fin {
		sort.SliceStable(l, func(i, j int) bool { return l[i].Id < l[j].Id })
	}
	s.Fund = map[PF]funderstypes.Funding{}
	for _, f := range s.FundersG.FundingList {
		s.Fund[PF{f.PoolId, f.FunderAddress}] = f
	}
	s.FState = map[uint64][]string{}
	for _, f := range s.FundersG.FundingStateList {
		s.FState[f.PoolId] = f.ActiveFunderAddresses
	}
	if _, err := a.UpgradeKeeper.GetUpgradePlan(ctx); err == nil {
		s.HaltPlan = true
	}
	return s
}

// quiet drops event collection so that observation has no side effects on it.
func quiet(ctx sdk.Context) sdk.Context {
	return ctx.WithEventManager(sdk.NewEventManager())
}

// Members of a pool, sorted by address.
func (s *Snap) Members(p uint64) (l []string) {
	for k := range s.Val {
		if k.P == p {
			l = append(l, k.S)
		}
	}
	sort.Strings(l)
	return
}

func (s *Snap) PoolsOf(st string) (l []uint64) {
	for k := range s.Val {
		if k.S == st {
			l = append(l, k.P)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return
}

// stake a validator contributes to a pool (its total delegation)
func (s *Snap) PoolStake(p uint64) (total, highest uint64) {
	for _, m := range s.Members(p) {
		d := s.DelTotal[m]
		total += d
		if d > highest {
			highest = d
		}
	}
	return
}

func (s *Snap) Delegators(st string) (l []string) {
	for k := range s.Del {
		if k.S == st {
			l = append(l, k.D)
		}
	}
	sort.Strings(l)
	return
}

func (s *Snap) Whitelist(denom string) *funderstypes.WhitelistCoinEntry {
	for _, w := range s.FundersG.Params.CoinWhitelist {
		if w.CoinDenom == denom {
			return w
		}
	}
	return nil
}

// --- state fingerprint --------------------------------------------------------

type Hash [16]byte

// Stores whose contents cannot influence protocol behaviour under the explored
// operations are not part of the fingerprint.
var skipStores = map[string]bool{
	"ibc": true, "transfer": true, "capability": true, "memory:capability": true,
	"group": true, "evidence": true, "icahost": true, "icacontroller": true, "feeibc": true,
	"crisis": true, "consensus": true, "slashing": true, "nft": true, "circuit": true,
	"params": true, "transient_params": true, "authz": true,
}

func (e *Env) fingerprint(ctx sdk.Context) Hash {
	h := sha256.New()
	var buf [8]byte
	wr := func(b []byte) {
		binary.BigEndian.PutUint64(buf[:], uint64(len(b)))
		h.Write(buf[:])
		h.Write(b)
	}
	binary.BigEndian.PutUint64(buf[:], uint64(ctx.BlockTime().Unix()))
	h.Write(buf[:])
	binary.BigEndian.PutUint64(buf[:], uint64(ctx.BlockHeight()))
	h.Write(buf[:])
	for _, k := range e.storeKeys() {
		h.Write([]byte(k.Name()))
		it := ctx.KVStore(k).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			wr(it.Key())
			wr(it.Value())
		}
		it.Close()
	}
	var r Hash
	copy(r[:], h.Sum(nil))
	return r
}

var cachedKeys []storetypes.StoreKey
var cachedFor *Env

func (e *Env) storeKeys() []storetypes.StoreKey {
	if cachedFor == e {
		return cachedKeys
	}
	var l []storetypes.StoreKey
	for _, k := range e.App.GetStoreKeys() {
		if skipStores[k.Name()] {
			continue
		}
		if _, ok := k.(*storetypes.TransientStoreKey); ok {
			continue
		}
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	cachedKeys, cachedFor = l, e
	return l
}

// --- misc ----------------------------------------------------------------------

func sortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var _ = banktypes.ModuleName
var _ = fmt.Sprint
