package main

// X06: the protocol's announcements.  Explorers, indexers and node operators see
// the protocol only through the events of each transaction and block; what is
// announced has to be exactly what happened.
//
// The expected announcements of a step are derived from the operation, the
// reference specifications and the difference between the observed states.

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"

	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/gogoproto/proto"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

// announced parses the protocol's events.
func announced(l []abci.Event) (out []proto.Message, err error) {
	for _, ev := range l {
		if !strings.HasPrefix(ev.Type, "kyve.") {
			continue
		}
		var at []abci.EventAttribute
		for _, a := range ev.Attributes {
			if a.Key != "mode" && a.Key != "msg_index" {
				at = append(at, a)
			}
		}
		ev.Attributes = at
		m, err := sdk.ParseTypedEvent(ev)
		if err != nil {
			return nil, fmt.Errorf("%s cannot be read: %w", ev.Type, err)
		}
		out = append(out, m)
	}
	return out, nil
}

// canonical form of an event; "" for announcements of nothing, which are optional.
func (x *xev) canon(m proto.Message) string {
	cp := reflect.New(reflect.TypeOf(m).Elem()) // only top level fields are changed below
	cp.Elem().Set(reflect.ValueOf(m).Elem())
	c := cp.Interface().(proto.Message)
	coins := func(s string) string {
		if s == "" {
			return ""
		}
		l, err := sdk.ParseCoinsNormalized(s)
		if err != nil {
			return "unreadable " + s
		}
		return l.String()
	}
	switch c := c.(type) {
	case *delegationtypes.EventWithdrawRewards:
		if c.Amounts = coins(c.Amounts); c.Amounts == "" || x.noRewards {
			return ""
		}
	case *delegationtypes.EventUndelegate:
		if c.Amount == 0 {
			return ""
		}
	case *delegationtypes.EventSlash:
		if c.Amount <= 8 {
			return "" // a few units may be rounding
		}
		c.Amount = 0 // the sum per validator is compared
	case *bundlestypes.EventBundleFinalized:
		for _, f := range []*string{&c.FundersPayout, &c.RewardTreasury, &c.RewardUploader, &c.RewardDelegation, &c.RewardTotal, &c.RewardUploaderStorageCost, &c.RewardUploaderCommission} {
			*f = coins(*f)
		}
		if c.Status != bundlestypes.BUNDLE_STATUS_VALID && c.NextUploader == x.st.Post.Prop[c.PoolId].NextUploader {
			c.NextUploader = "" // may be left out when no bundle follows
		}
	case *funderstypes.EventFundPool:
		c.Amounts, c.AmountsPerBundle = coins(c.Amounts), coins(c.AmountsPerBundle)
	case *funderstypes.EventDefundPool:
		c.Amounts = coins(c.Amounts)
	case *stakerstypes.EventClaimCommissionRewards:
		c.Amounts = coins(c.Amounts)
	}
	bz, err := codec.ProtoMarshalJSON(c, nil)
	if err != nil {
		return fmt.Sprintf("%T unreadable: %v", c, err)
	}
	return strings.TrimPrefix(fmt.Sprintf("%T %s", c, bz), "*")
}

type xev struct {
	st        *Step
	noRewards bool
	want      []proto.Message
	slashed   map[string]uint64 // stake each validator lost, exact
}

func (x *xev) add(m proto.Message) { x.want = append(x.want, m) }

// moved memberships and requests, the same for every kind of step
func (x *xev) membership() {
	st := x.st
	join, _ := st.Msg.(*stakerstypes.MsgJoinPool)
	for _, k := range psKeys(st.Pre.Val, st.Post.Val) {
		_, a := st.Pre.Val[k]
		_, b := st.Post.Val[k]
		switch {
		case a && !b:
			x.add(&stakerstypes.EventLeavePool{PoolId: k.P, Staker: k.S})
		case !a && b:
			ev := &stakerstypes.EventJoinPool{PoolId: k.P, Staker: k.S, Valaddress: st.Post.Val[k].Valaddress}
			if join != nil {
				ev.Amount = join.Amount
			}
			x.add(ev)
		}
	}
}

func (x *xev) bundles(b *bsim) {
	st := x.st
	for _, p := range b.points {
		x.add(&bundlestypes.EventPointIncreased{PoolId: p.P, Staker: p.S, CurrentPoints: p.N})
	}
	for _, s := range b.slashes {
		if s.Cut > 0 {
			x.add(&delegationtypes.EventSlash{PoolId: s.P, Staker: s.S, SlashType: s.T, Amount: s.Cut})
		}
	}
	for _, s := range sortedKeys(st.Pre.DelTotal) {
		if d := st.Pre.DelTotal[s] - st.Post.DelTotal[s]; d > 0 {
			x.slashed[s] = d
		}
	}
	for _, id := range b.poolIds() {
		r, ok := b.outcome[id]
		if !ok || (r == "open" && st.Phase == "op") {
			continue
		}
		d := b.dists[id]
		ev := &bundlestypes.EventBundleFinalized{PoolId: id, Id: st.Pre.Pools[id].TotalBundles, Uploader: st.Pre.Prop[id].Uploader, FinalizedAt: uint64(st.Pre.Time),
			Valid: d.Valid, Invalid: d.Invalid, Abstain: d.Abstain, Total: d.Total}
		switch r {
		case "valid":
			ev.Status = bundlestypes.BUNDLE_STATUS_VALID
			ev.NextUploader = st.Post.Prop[id].NextUploader
			fp := sdk.NewCoins()
			had, left := false, false
			for k, f := range st.Pre.Fund {
				if k.P == id {
					fp = fp.Add(sdk.NewCoins(f.Amounts...).Sub(st.Post.Fund[k].Amounts...)...)
				}
			}
			had, left = len(st.Pre.FState[id]) > 0, len(st.Post.FState[id]) > 0
			if had && !left {
				x.add(&funderstypes.EventPoolOutOfFunds{PoolId: id})
			}
			ev.FundersPayout = fp.String()
			ev.InflationPayout = st.Pre.B(poolAcc(id), DENOM) - st.Post.B(poolAcc(id), DENOM)
			for _, p := range b.pays {
				if p.P == id {
					ev.RewardTotal = p.Total.String()
					ev.RewardTreasury, ev.RewardDelegation = p.Treasury.String(), p.Deleg.String()
					ev.RewardUploaderStorageCost, ev.RewardUploaderCommission = p.Storage.String(), p.Comm.String()
					ev.RewardUploader = p.Storage.Add(p.Comm...).String()
				}
			}
		case "invalid":
			ev.Status = bundlestypes.BUNDLE_STATUS_INVALID
		case "open":
			ev.Status = bundlestypes.BUNDLE_STATUS_NO_QUORUM
		case "disabled":
			ev.Status = bundlestypes.BUNDLE_STATUS_DISABLED
		}
		x.add(ev)
	}
}

func (x *xev) withdraw(pre *Snap, k SD) {
	x.add(&delegationtypes.EventWithdrawRewards{Address: k.D, Staker: k.S, Amounts: pre.Del[k].Rew.String()})
}

func paramEvent(mod string, st *Step, payload string) proto.Message {
	a, b := st.Pre, st.Post
	switch mod {
	case "bundles":
		return &bundlestypes.EventUpdateParams{OldParams: a.BundlesG.Params, NewParams: b.BundlesG.Params, Payload: payload}
	case "delegation":
		return &delegationtypes.EventUpdateParams{OldParams: a.DelG.Params, NewParams: b.DelG.Params, Payload: payload}
	case "funders":
		return &funderstypes.EventUpdateParams{OldParams: a.FundersG.Params, NewParams: b.FundersG.Params, Payload: payload}
	case "pool":
		return &pooltypes.EventUpdateParams{OldParams: a.PoolG.Params, NewParams: b.PoolG.Params, Payload: payload}
	case "stakers":
		return &stakerstypes.EventUpdateParams{OldParams: a.StakersG.Params, NewParams: b.StakersG.Params, Payload: payload}
	case "global":
		return &globaltypes.EventUpdateParams{OldParams: a.Global, NewParams: b.Global, Payload: payload}
	}
	panic(mod)
}

// expect derives what a successful step has to announce; false = the step is not judged.
func (x *xev) expect() bool {
	st := x.st
	pre, post := st.Pre, st.Post
	x.slashed = map[string]uint64{}
	x.membership()
	switch st.Phase {
	case "end":
		b, _ := simBundles(st)
		x.bundles(b)
		return true
	case "begin":
		cur := map[SD]uint64{}
		for k, d := range pre.Del {
			cur[k] = d.Amt
		}
		seen := map[SD]bool{}
		for _, u := range dueUnbondings(pre, post.Time) {
			k := SD{u.Staker, u.Delegator}
			a := u.Amount
			if cur[k] < a {
				a = cur[k]
			}
			cur[k] -= a
			if !seen[k] {
				x.withdraw(pre, k)
			}
			seen[k] = true
			x.add(&delegationtypes.EventUndelegate{Address: u.Delegator, Staker: u.Staker, Amount: a})
		}
		for _, c := range commReqs(pre) {
			if c.T+int64(pre.StakersG.Params.CommissionChangeTime) <= post.Time {
				x.add(&stakerstypes.EventUpdateCommission{Staker: c.S, Commission: dec(c.C)})
			}
		}
		return true
	}
	now := uint64(pre.Time)
	if st.Msg == nil {
		switch st.Op.Kind {
		case "slash":
			x.add(&delegationtypes.EventSlash{PoolId: st.Op.P, Staker: st.Op.S, SlashType: delegationtypes.SlashType(st.Op.N), Amount: pre.DelTotal[st.Op.S] - post.DelTotal[st.Op.S]})
			x.slashed[st.Op.S] = pre.DelTotal[st.Op.S] - post.DelTotal[st.Op.S]
		case "charge":
			if len(pre.FState[st.Op.P]) > 0 && len(post.FState[st.Op.P]) == 0 {
				x.add(&funderstypes.EventPoolOutOfFunds{PoolId: st.Op.P})
			}
		}
		return true
	}
	reset := func(p uint64, s string) {
		if pre.Val[PS{p, s}].Points > 0 {
			x.add(&bundlestypes.EventPointsReset{PoolId: p, Staker: s})
		}
	}
	if mod, _, payload := paramsTarget(st.Msg); mod != "" {
		x.add(paramEvent(mod, st, payload))
		return true
	}
	switch m := st.Msg.(type) {
	// delegation
	case *delegationtypes.MsgDelegate:
		x.withdraw(pre, SD{m.Staker, m.Creator})
		x.add(&delegationtypes.EventDelegate{Address: m.Creator, Staker: m.Staker, Amount: m.Amount})
	case *delegationtypes.MsgUndelegate:
		x.add(&delegationtypes.EventStartUndelegation{Address: m.Creator, Staker: m.Staker, Amount: m.Amount, EstimatedUndelegationDate: now + pre.DelG.Params.UnbondingDelegationTime})
	case *delegationtypes.MsgRedelegate:
		x.withdraw(pre, SD{m.FromStaker, m.Creator})
		if m.FromStaker != m.ToStaker {
			x.withdraw(pre, SD{m.ToStaker, m.Creator})
		}
		x.add(&delegationtypes.EventRedelegate{Address: m.Creator, FromStaker: m.FromStaker, ToStaker: m.ToStaker, Amount: m.Amount})
	case *delegationtypes.MsgWithdrawRewards:
		x.withdraw(pre, SD{m.Staker, m.Creator})
	// stakers
	case *stakerstypes.MsgCreateStaker:
		c := m.Commission
		if c.IsNil() {
			c = dec("0.1")
		}
		x.withdraw(pre, SD{m.Creator, m.Creator})
		x.add(&delegationtypes.EventDelegate{Address: m.Creator, Staker: m.Creator, Amount: m.Amount})
		x.add(&stakerstypes.EventCreateStaker{Staker: m.Creator, Amount: m.Amount, Commission: c})
	case *stakerstypes.MsgUpdateMetadata:
		x.add(&stakerstypes.EventUpdateMetadata{Staker: m.Creator, Moniker: m.Moniker, Website: m.Website, Identity: m.Identity, SecurityContact: m.SecurityContact, Details: m.Details})
	case *stakerstypes.MsgClaimCommissionRewards:
		x.add(&stakerstypes.EventClaimCommissionRewards{Staker: m.Creator, Amounts: m.Amounts.String()})
	case *stakerstypes.MsgJoinPool, *stakerstypes.MsgLeavePool, *stakerstypes.MsgUpdateCommission:
	// funders
	case *funderstypes.MsgCreateFunder:
		x.add(&funderstypes.EventCreateFunder{Address: m.Creator, Moniker: m.Moniker, Identity: m.Identity, Website: m.Website, Contact: m.Contact, Description: m.Description})
	case *funderstypes.MsgUpdateFunder:
		x.add(&funderstypes.EventUpdateFunder{Address: m.Creator, Moniker: m.Moniker, Identity: m.Identity, Website: m.Website, Contact: m.Contact, Description: m.Description})
	case *funderstypes.MsgFundPool:
		x.add(&funderstypes.EventFundPool{PoolId: m.PoolId, Address: m.Creator, Amounts: m.Amounts.String(), AmountsPerBundle: m.AmountsPerBundle.String()})
		// whoever had to give way gets its coins back
		for _, k := range pfKeys(pre.Fund, post.Fund) {
			if k.P == m.PoolId && k.F != m.Creator {
				if d := sdk.NewCoins(pre.Fund[k].Amounts...).Sub(post.Fund[k].Amounts...); !d.IsZero() {
					x.add(&funderstypes.EventDefundPool{PoolId: k.P, Address: k.F, Amounts: d.String()})
				}
			}
		}
	case *funderstypes.MsgDefundPool:
		k := PF{m.PoolId, m.Creator}
		x.add(&funderstypes.EventDefundPool{PoolId: m.PoolId, Address: m.Creator, Amounts: sdk.NewCoins(pre.Fund[k].Amounts...).Sub(post.Fund[k].Amounts...).String()})
	// bundles
	case *bundlestypes.MsgSubmitBundleProposal, *bundlestypes.MsgSkipUploaderRole, *bundlestypes.MsgVoteBundleProposal, *bundlestypes.MsgClaimUploaderRole:
		b, _ := simBundles(st)
		if b.refuse != "" {
			return false // judged by B03
		}
		x.bundles(b)
		switch m := m.(type) {
		case *bundlestypes.MsgSubmitBundleProposal:
			reset(m.PoolId, m.Staker)
			if b.outcome[m.PoolId] != "invalid" {
				p, pl := post.Prop[m.PoolId], post.Pools[m.PoolId]
				x.add(&bundlestypes.EventBundleProposed{PoolId: m.PoolId, Id: pl.TotalBundles, StorageId: p.StorageId, Uploader: p.Uploader, DataSize: p.DataSize, FromIndex: pl.CurrentIndex, BundleSize: p.BundleSize,
					FromKey: p.FromKey, ToKey: p.ToKey, BundleSummary: p.BundleSummary, DataHash: p.DataHash, ProposedAt: now, StorageProviderId: p.StorageProviderId, CompressionId: p.CompressionId})
				x.add(&bundlestypes.EventBundleVote{PoolId: m.PoolId, Staker: m.Staker, StorageId: m.StorageId, Vote: bundlestypes.VOTE_TYPE_VALID})
			}
		case *bundlestypes.MsgSkipUploaderRole:
			reset(m.PoolId, m.Staker)
			x.add(&bundlestypes.EventSkippedUploaderRole{PoolId: m.PoolId, Id: post.Pools[m.PoolId].TotalBundles, PreviousUploader: m.Staker, NewUploader: post.Prop[m.PoolId].NextUploader})
		case *bundlestypes.MsgVoteBundleProposal:
			reset(m.PoolId, m.Staker)
			x.add(&bundlestypes.EventBundleVote{PoolId: m.PoolId, Staker: m.Staker, StorageId: m.StorageId, Vote: m.Vote})
		case *bundlestypes.MsgClaimUploaderRole:
			x.add(&bundlestypes.EventClaimedUploaderRole{PoolId: m.PoolId, Id: post.Pools[m.PoolId].TotalBundles, NewUploader: m.Staker})
		}
	// pools
	case *pooltypes.MsgCreatePool:
		var p pooltypes.Pool
		for id, x := range post.Pools {
			if _, ok := pre.Pools[id]; !ok {
				p = x
			}
		}
		x.add(&pooltypes.EventCreatePool{Id: p.Id, Name: p.Name, Runtime: p.Runtime, Logo: p.Logo, Config: p.Config, StartKey: p.StartKey, EndKey: p.EndKey, UploadInterval: p.UploadInterval,
			InflationShareWeight: p.InflationShareWeight, MinDelegation: p.MinDelegation, MaxBundleSize: p.MaxBundleSize, Version: p.Protocol.Version, Binaries: p.Protocol.Binaries,
			StorageProviderId: p.CurrentStorageProviderId, CompressionId: p.CurrentCompressionId})
	case *pooltypes.MsgUpdatePool:
		p := post.Pools[m.Id]
		x.add(&pooltypes.EventPoolUpdated{Id: p.Id, RawUpdateString: m.Payload, Name: p.Name, Runtime: p.Runtime, Logo: p.Logo, Config: p.Config, UploadInterval: p.UploadInterval,
			InflationShareWeight: p.InflationShareWeight, MinDelegation: p.MinDelegation, MaxBundleSize: p.MaxBundleSize, StorageProviderId: p.CurrentStorageProviderId, CompressionId: p.CurrentCompressionId})
	case *pooltypes.MsgDisablePool:
		x.add(&pooltypes.EventPoolDisabled{Id: m.Id})
	case *pooltypes.MsgEnablePool:
		x.add(&pooltypes.EventPoolEnabled{Id: m.Id})
	case *pooltypes.MsgScheduleRuntimeUpgrade:
		at := m.ScheduledAt
		if at < now {
			at = now
		}
		x.add(&pooltypes.EventRuntimeUpgradeScheduled{Runtime: m.Runtime, Version: m.Version, ScheduledAt: at, Duration: m.Duration, Binaries: m.Binaries, AffectedPools: planned(pre, post)})
	case *pooltypes.MsgCancelRuntimeUpgrade:
		x.add(&pooltypes.EventRuntimeUpgradeCancelled{Runtime: m.Runtime, AffectedPools: planned(post, pre)})
	// team
	case *teamtypes.MsgCreateTeamVestingAccount:
		x.add(&teamtypes.EventCreateTeamVestingAccount{Authority: m.Authority, Id: uint64(len(teamAccounts(post)) - 1), TotalAllocation: m.TotalAllocation, Commencement: m.Commencement})
	case *teamtypes.MsgClawback:
		a := teamAccounts(post)[m.Id]
		x.add(&teamtypes.EventClawback{Authority: m.Authority, Id: m.Id, Clawback: a.Clawback, Amount: a.TotalAllocation - refMax(a)})
	case *teamtypes.MsgClaimUnlocked:
		x.add(&teamtypes.EventClaimedUnlocked{Authority: m.Authority, Id: m.Id, Amount: teamAccounts(post)[m.Id].UnlockedClaimed - teamAccounts(pre)[m.Id].UnlockedClaimed, Recipient: m.Recipient})
	case *teamtypes.MsgClaimAccountRewards:
		x.add(&teamtypes.EventClaimInflationRewards{Authority: m.Authority, Id: m.Id, Amount: teamAccounts(post)[m.Id].RewardsClaimed - teamAccounts(pre)[m.Id].RewardsClaimed, Recipient: m.Recipient})
	case *teamtypes.MsgClaimAuthorityRewards:
		x.add(&teamtypes.EventClaimAuthorityRewards{Authority: m.Authority, Amount: post.TeamG.Authority.RewardsClaimed - pre.TeamG.Authority.RewardsClaimed, Recipient: m.Recipient})
	}
	return true
}

// planned lists the pools with an upgrade plan in b but not in a.
func planned(a, b *Snap) (l []uint64) {
	for id, p := range b.Pools {
		if p.UpgradePlan.ScheduledAt != 0 && a.Pools[id].UpgradePlan.ScheduledAt == 0 {
			l = append(l, id)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return
}

// ruleEvents (X06)
func ruleEvents(e *Env, st *Step, fail Fail) {
	if st.Post == nil {
		return
	}
	got, err := announced(st.Events)
	if err != nil {
		fail("event-unreadable", "%s: %v", where(st), err)
		return
	}
	if !st.OK() {
		if len(got) > 0 {
			fail("event-of-nothing", "%s is refused but announces %s", where(st), got[0])
		}
		return
	}
	x := &xev{st: st, noRewards: e.Feat.NoRewards}
	if !x.expect() {
		return
	}
	n := map[string]int{}
	for _, m := range x.want {
		if s := x.canon(m); s != "" {
			n[s]++
		}
	}
	lost := map[string]uint64{}
	for _, m := range got {
		if s, ok := m.(*delegationtypes.EventSlash); ok {
			lost[s.Staker] += s.Amount
		}
		if st.Phase == "end" && adminEvent(m) {
			continue // decided by governance
		}
		if s := x.canon(m); s != "" {
			n[s]--
		}
	}
	for _, s := range sortedKeys(n) {
		switch {
		case n[s] > 0:
			fail("event-missing", "%s does not announce %s; announced: %s", where(st), unlab(s), unlab(fmt.Sprint(got)))
		case n[s] < 0:
			fail("event-wrong", "%s announces %s", where(st), unlab(s))
		}
	}
	for _, s := range sortedKeys(mergeKeys(lost, x.slashed)) {
		if lost[s] != x.slashed[s] {
			fail("event-slash", "%s announces that %s is slashed by %d but it lost %d", where(st), lab(s), lost[s], x.slashed[s])
		}
	}
}

var addrRe = regexp.MustCompile("kyve1[0-9a-z]{38,58}")

func unlab(s string) string {
	s = addrRe.ReplaceAllStringFunc(s, lab)
	if len(s) > 1500 {
		s = s[:1500] + "…"
	}
	return s
}

// adminEvent: announcements of governance decisions
func adminEvent(m proto.Message) bool {
	n := reflect.TypeOf(m).Elem().Name()
	return strings.HasPrefix(n, "EventUpdateParams") || strings.HasPrefix(n, "EventPoolEnabled") || strings.HasPrefix(n, "EventPoolDisabled") || strings.HasPrefix(n, "EventPoolUpdated") ||
		strings.HasPrefix(n, "EventCreatePool") || strings.HasPrefix(n, "EventRuntimeUpgrade")
}

func buildEvents() {
	p := &Property{ID: "X06", Rules: []Rule{ruleEvents}}
	cut := func(s *Scenario, q, th int) *Scenario {
		s.Quick, s.Thor = q, th
		return s
	}
	gen, rew, sl, unb, _ := delegationScenarios()
	_ = gen
	p.Scenarios = []*Scenario{
		cut(bundleRewards(), 1, 2), cut(bundleMachine(), 4, 5), cut(bundleSuccession(), 4, 6), cut(bundleEligibility(), 1, 1), cut(bundleChain(), 4, 5), bundleSettings(1, 2),
		bundleTally("bundle-tally", 2, 3, []map[string]uint64{{"S1": 5 * K, "S2": 3 * K, "S3": K, "S4": K}}, []string{"S1"}, []string{"", "all"}, nil),
		cut(rew[0], 4, 6), cut(sl[0], 4, 6), cut(unb[0], 4, 6),
		cut(bundleNeighbours(), 1, 2), farPools(2, 3), fundersFlow(5, 7), fundersExhaustion(2, 4), cut(fundersSlots(), 4, 7), membershipWorld(4, 6), cut(memberSlots(), 4, 6), delaysWorld(4, 6), claimsWorld(4, 6), profileWorld(3, 4),
		poolLife(3, 5), teamWorld("team-claims", 4, 5, 0), teamWorld("team-allocation", 4, 5, 1), mixedWorld("mixed", 2, 3)}
	p.Extra = []*Extra{authorityGrid(p), paramsGrid(p)}
	register(p)
}
