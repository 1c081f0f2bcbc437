package main

// Reference specification of the bundles protocol: what a message or a block end
// must do to proposals, members, points, stake, chain of bundles, funding and
// rewards.  Written from the published rules, evaluated on an observed pre-state.

import (
	"fmt"
	"sort"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
)

type slashEv struct {
	S string
	P uint64
	T delegationtypes.SlashType
	Cut uint64
}

type pointEv struct {
	P uint64
	S string
	N uint64
}

type payEv struct {
	P        uint64
	Uploader string
	Total    sdk.Coins
	Treasury sdk.Coins
	Storage  sdk.Coins
	Comm     sdk.Coins
	Deleg    sdk.Coins
}

// choice records that a next uploader was designated by the protocol
type choice struct {
	P        uint64
	Eligible []string // members with stake that may be designated
	Want     string
	Why      string
}

type bsim struct {
	st      *Step
	pre     *Snap
	now     uint64
	height  uint64
	members map[uint64]map[string]uint64 // pool -> staker -> points
	stake   map[string]uint64
	del     map[SD]uint64
	prop    map[uint64]bundlestypes.BundleProposal
	hasProp map[uint64]bool
	rr      map[uint64]map[string]int64
	pools   map[uint64]pooltypes.Pool
	fin     map[uint64][]bundlestypes.FinalizedBundle
	fund    map[PF]funderstypes.Funding
	active  map[uint64][]string
	bal     map[string]sdk.Coins // module accounts concerned, absolute
	poolBal map[uint64]uint64    // inflation balances
	comm    map[string]sdk.Coins // commission rewards
	slashes []slashEv
	points  []pointEv
	dists   map[uint64]dist
	removed []PS
	pays    []payEv
	choices []choice
	outcome map[uint64]string
	refuse  string // reason why the operation must be refused ("" = must succeed)
	evaluated map[uint64]bool
}

func poolAcc(id uint64) string {
	p := pooltypes.Pool{Id: id}
	return p.GetPoolAccount().String()
}

func newBsim(st *Step) *bsim {
	pre := st.Pre
	b := &bsim{st: st, pre: pre, now: uint64(pre.Time), height: uint64(pre.Height),
		members: map[uint64]map[string]uint64{}, stake: map[string]uint64{}, del: map[SD]uint64{},
		prop: map[uint64]bundlestypes.BundleProposal{}, hasProp: map[uint64]bool{}, rr: map[uint64]map[string]int64{},
		pools: map[uint64]pooltypes.Pool{}, fin: map[uint64][]bundlestypes.FinalizedBundle{}, fund: map[PF]funderstypes.Funding{},
		active: map[uint64][]string{}, poolBal: map[uint64]uint64{}, comm: map[string]sdk.Coins{}, outcome: map[uint64]string{}, evaluated: map[uint64]bool{}, dists: map[uint64]dist{}}
	for k, v := range pre.Val {
		if b.members[k.P] == nil {
			b.members[k.P] = map[string]uint64{}
		}
		b.members[k.P][k.S] = v.Points
	}
	for s, t := range pre.DelTotal {
		b.stake[s] = t
	}
	for k, d := range pre.Del {
		b.del[k] = d.Amt
	}
	for p, x := range pre.Prop {
		x.VotersValid = append([]string{}, x.VotersValid...)
		x.VotersInvalid = append([]string{}, x.VotersInvalid...)
		x.VotersAbstain = append([]string{}, x.VotersAbstain...)
		b.prop[p] = x
		b.hasProp[p] = true
	}
	for _, r := range pre.BundlesG.RoundRobinProgressList {
		m := map[string]int64{}
		for _, x := range r.ProgressList {
			m[x.Address] = x.Progress
		}
		b.rr[r.PoolId] = m
	}
	for id, p := range pre.Pools {
		b.pools[id] = p
		if b.members[id] == nil {
			b.members[id] = map[string]uint64{}
		}
		b.poolBal[id] = pre.B(poolAcc(id), DENOM)
		b.fin[id] = append([]bundlestypes.FinalizedBundle{}, pre.Fin[id]...)
		b.active[id] = append([]string{}, pre.FState[id]...)
	}
	for k, f := range pre.Fund {
		b.fund[k] = f
	}
	for s, x := range pre.Stakers {
		b.comm[s] = x.CommissionRewards
	}
	b.bal = map[string]sdk.Coins{}
	for _, m := range []string{pooltypes.ModuleName, funderstypes.ModuleName, stakerstypes.ModuleName, delegationtypes.ModuleName, distrtypes.ModuleName} {
		b.bal[modAddr(m)] = pre.Mod(m)
	}
	for id := range pre.Pools {
		b.bal[poolAcc(id)] = pre.Bal[poolAcc(id)]
	}
	return b
}

func (b *bsim) poolIds() (l []uint64) {
	for id := range b.pools {
		l = append(l, id)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return
}

func (b *bsim) memberList(p uint64) []string { return sortedKeys(b.members[p]) }

// canRun is the published condition for a pool to produce bundles; "" = may run.
func (b *bsim) canRun(id uint64) string {
	p, ok := b.pools[id]
	if !ok {
		return "pool does not exist"
	}
	if p.UpgradePlan.ScheduledAt > 0 && b.now >= p.UpgradePlan.ScheduledAt {
		return "upgrading"
	}
	if p.Disabled {
		return "disabled"
	}
	if p.EndKey != "" && p.CurrentKey == p.EndKey {
		return "end key reached"
	}
	var total, high uint64
	for _, m := range b.memberList(id) {
		total += b.stake[m]
		if b.stake[m] > high {
			high = b.stake[m]
		}
	}
	if total < p.MinDelegation {
		return "min delegation"
	}
	lim := b.pre.PoolG.Params.MaxVotingPowerPerPool.MulInt(math.NewIntFromUint64(total)).TruncateInt()
	if math.NewIntFromUint64(high).GT(lim) {
		return "voting power"
	}
	return ""
}

func (b *bsim) slash(p uint64, s string, t delegationtypes.SlashType) {
	b.slashes = append(b.slashes, slashEv{s, p, t, 0})
	f := slashFraction(b.pre, t)
	any := false
	for k, a := range b.del {
		if k.S == s {
			any = true
			b.del[k] = math.LegacyNewDecFromInt(math.NewIntFromUint64(a)).Mul(math.LegacyOneDec().Sub(f)).TruncateInt().Uint64()
		}
	}
	if any {
		cut := math.LegacyNewDecFromInt(math.NewIntFromUint64(b.stake[s])).Mul(f).TruncateInt().Uint64()
		b.stake[s] -= cut
		b.slashes[len(b.slashes)-1].Cut = cut
		b.move(delegationtypes.ModuleName, distrtypes.ModuleName, kyve(cut))
	}
}

func (b *bsim) move(from, to string, c sdk.Coins) {
	if c.IsZero() {
		return
	}
	f, t := modAddr(from), modAddr(to)
	var neg bool
	b.bal[f], neg = b.bal[f].SafeSub(c...)
	if neg {
		panic(fmt.Sprintf("reference: %s cannot pay %s", from, c))
	}
	b.bal[t] = b.bal[t].Add(c...)
}

func (b *bsim) remove(p uint64, s string) {
	if _, ok := b.members[p][s]; ok {
		delete(b.members[p], s)
		b.removed = append(b.removed, PS{p, s})
	}
}

func (b *bsim) addPoint(p uint64, s string) {
	b.members[p][s]++
	b.points = append(b.points, pointEv{p, s, b.members[p][s]})
	if b.members[p][s] >= b.pre.BundlesG.Params.MaxPoints {
		b.slash(p, s, delegationtypes.SLASH_TYPE_TIMEOUT)
		b.remove(p, s)
	}
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func without(l []string, x string) (r []string) {
	for _, y := range l {
		if y != x {
			r = append(r, y)
		}
	}
	return
}

func (b *bsim) nonVoters(p uint64) {
	b.evaluated[p] = true
	pr := b.prop[p]
	for _, m := range b.memberList(p) {
		if !has(pr.VotersValid, m) && !has(pr.VotersInvalid, m) && !has(pr.VotersAbstain, m) {
			b.addPoint(p, m)
		}
	}
}

type dist struct{ Valid, Invalid, Abstain, Total uint64 }

func (d dist) status() string {
	switch {
	case d.Total == 0:
		return "open"
	case d.Valid*2 > d.Total:
		return "valid"
	case d.Invalid*2 >= d.Total:
		return "invalid"
	}
	return "open"
}

func (b *bsim) dist(p uint64) (d dist) {
	pr := b.prop[p]
	for _, m := range b.memberList(p) {
		w := b.stake[m]
		d.Total += w
		switch {
		case has(pr.VotersValid, m):
			d.Valid += w
		case has(pr.VotersInvalid, m):
			d.Invalid += w
		case has(pr.VotersAbstain, m):
			d.Abstain += w
		}
	}
	return
}

// weighted round robin as documented: every eligible participant gains its stake,
// the one with the highest progress is designated and pays the eligible total.
func (b *bsim) choose(p uint64, excluded map[string]bool, why string) string {
	var set []string
	total := int64(0)
	for _, m := range b.memberList(p) {
		if b.stake[m] > 0 {
			set = append(set, m)
			total += int64(b.stake[m])
		}
	}
	prog := map[string]int64{}
	for _, m := range set {
		if x, ok := b.rr[p][m]; ok {
			prog[m] = x
		} else {
			prog[m] = dec("-1.125").MulInt64(total).TruncateInt64()
		}
	}
	ch := choice{P: p, Why: why}
	if len(set) == 0 {
		b.rr[p] = prog
		b.choices = append(b.choices, ch)
		return ""
	}
	// keep the spread within twice the total stake and centre around zero
	lo, hi := prog[set[0]], prog[set[0]]
	sum := int64(0)
	for _, m := range set {
		if prog[m] < lo {
			lo = prog[m]
		}
		if prog[m] > hi {
			hi = prog[m]
		}
		sum += prog[m]
	}
	if hi-lo > 2*total {
		sum = 0
		for _, m := range set {
			prog[m] = math.LegacyNewDec(prog[m]).MulInt64(2 * total).QuoInt64(hi - lo).TruncateInt64()
			sum += prog[m]
		}
	}
	avg := sum / int64(len(set))
	for _, m := range set {
		prog[m] -= avg
	}
	var el []string
	for _, m := range set {
		if !excluded[m] {
			el = append(el, m)
		}
	}
	if len(el) == 0 {
		el = set
	}
	elTotal := int64(0)
	best := ""
	for _, m := range el {
		prog[m] += int64(b.stake[m])
		elTotal += int64(b.stake[m])
	}
	for _, m := range el {
		if best == "" || prog[m] > prog[best] {
			best = m
		}
	}
	prog[best] -= elTotal
	b.rr[p] = prog
	ch.Eligible, ch.Want = el, best
	b.choices = append(b.choices, ch)
	return best
}

func (b *bsim) chooseFrom(p uint64, incl []string, why string) string {
	ex := map[string]bool{}
	for _, m := range b.memberList(p) {
		if !has(incl, m) {
			ex[m] = true
		}
	}
	return b.choose(p, ex, why)
}

func mulTrunc(c sdk.Coins, f math.LegacyDec) sdk.Coins {
	r := sdk.NewCoins()
	for _, x := range c {
		a := math.LegacyNewDecFromInt(x.Amount).Mul(f).TruncateInt()
		if a.IsPositive() {
			r = r.Add(sdk.NewCoin(x.Denom, a))
		}
	}
	return r
}

// charge takes the agreed amounts from the funders and the inflation share.
func (b *bsim) charge(p uint64) sdk.Coins {
	tot := sdk.NewCoins()
	for _, f := range append([]string{}, b.active[p]...) {
		k := PF{p, f}
		x := b.fund[k]
		c := sdk.NewCoins()
		for _, per := range x.AmountsPerBundle {
			if b.pre.Whitelist(per.Denom) == nil {
				continue
			}
			a := math.MinInt(per.Amount, x.Amounts.AmountOf(per.Denom))
			if a.IsPositive() {
				c = c.Add(sdk.NewCoin(per.Denom, a))
			}
		}
		x.Amounts = x.Amounts.Sub(c...)
		x.TotalFunded = x.TotalFunded.Add(c...)
		b.fund[k] = x
		if x.Amounts.IsZero() {
			b.active[p] = without(b.active[p], f)
		}
		tot = tot.Add(c...)
	}
	b.move(funderstypes.ModuleName, pooltypes.ModuleName, tot)
	inf := math.LegacyNewDecFromInt(math.NewIntFromUint64(b.poolBal[p])).Mul(b.pre.PoolG.Params.PoolInflationPayoutRate).TruncateInt().Uint64()
	if inf > 0 {
		b.poolBal[p] -= inf
		b.bal[poolAcc(p)] = b.bal[poolAcc(p)].Sub(coin(DENOM, inf))
		b.bal[modAddr(pooltypes.ModuleName)] = b.bal[modAddr(pooltypes.ModuleName)].Add(coin(DENOM, inf))
		tot = tot.Add(coin(DENOM, inf))
	}
	return tot
}

func (b *bsim) payout(p uint64, tot sdk.Coins) {
	pr := b.prop[p]
	ev := payEv{P: p, Uploader: pr.Uploader, Total: tot}
	if _, ok := b.pre.Stakers[pr.Uploader]; ok && !tot.IsZero() {
		bp := b.pre.BundlesG.Params
		ev.Treasury = mulTrunc(tot, bp.NetworkFee)
		rest := tot.Sub(ev.Treasury...)
		if !rest.IsZero() {
			cost := math.LegacyZeroDec()
			for _, c := range bp.StorageCosts {
				if c.StorageProviderId == pr.StorageProviderId {
					cost = c.Cost
					break
				}
			}
			perCoin := cost.MulInt64(int64(pr.DataSize)).QuoInt64(int64(len(rest)))
			ev.Storage = sdk.NewCoins()
			for _, c := range rest {
				w := b.pre.Whitelist(c.Denom)
				if w == nil || w.CoinWeight.IsZero() {
					continue
				}
				unit := math.LegacyOneDec()
				for i := uint32(0); i < w.CoinDecimals; i++ {
					unit = unit.MulInt64(10)
				}
				a := perCoin.Mul(unit).Quo(w.CoinWeight).TruncateInt()
				a = math.MinInt(a, c.Amount)
				if a.IsPositive() {
					ev.Storage = ev.Storage.Add(sdk.NewCoin(c.Denom, a))
				}
			}
			rest = rest.Sub(ev.Storage...)
			ev.Comm = mulTrunc(rest, b.pre.Stakers[pr.Uploader].Commission)
			rest = rest.Sub(ev.Comm...)
			if b.stake[pr.Uploader] > 0 {
				ev.Deleg = rest
			} else {
				ev.Comm = ev.Comm.Add(rest...)
			}
		}
		b.move(pooltypes.ModuleName, distrtypes.ModuleName, ev.Treasury)
		b.move(pooltypes.ModuleName, stakerstypes.ModuleName, ev.Storage.Add(ev.Comm...))
		b.comm[pr.Uploader] = b.comm[pr.Uploader].Add(ev.Storage...).Add(ev.Comm...)
		b.move(pooltypes.ModuleName, delegationtypes.ModuleName, ev.Deleg)
	}
	b.pays = append(b.pays, ev)
}

// tally evaluates the open proposal of a pool.
func (b *bsim) tally(p uint64) (string, dist) {
	b.nonVoters(p)
	d := b.dist(p)
	b.dists[p] = d
	r := d.status()
	pr := b.prop[p]
	switch r {
	case "valid":
		b.payout(p, b.charge(p))
		for _, v := range pr.VotersInvalid {
			b.slash(p, v, delegationtypes.SLASH_TYPE_VOTE)
			b.remove(p, v)
		}
	case "invalid":
		for _, v := range pr.VotersValid {
			if v == pr.Uploader {
				b.slash(p, v, delegationtypes.SLASH_TYPE_UPLOAD)
			} else {
				b.slash(p, v, delegationtypes.SLASH_TYPE_VOTE)
			}
			b.remove(p, v)
		}
	}
	b.outcome[p] = r
	return r, d
}

func (b *bsim) finalize(p uint64, d dist) {
	pl := b.pools[p]
	pr := b.prop[p]
	b.fin[p] = append(b.fin[p], bundlestypes.FinalizedBundle{
		PoolId: p, Id: pl.TotalBundles, StorageId: pr.StorageId, Uploader: pr.Uploader, FromIndex: pl.CurrentIndex,
		ToIndex: pl.CurrentIndex + pr.BundleSize, ToKey: pr.ToKey, BundleSummary: pr.BundleSummary, DataHash: pr.DataHash,
		FinalizedAt: &bundlestypes.FinalizedAt{Height: b.height, Timestamp: b.now}, FromKey: pr.FromKey,
		StorageProviderId: pr.StorageProviderId, CompressionId: pr.CompressionId,
		StakeSecurity: &bundlestypes.StakeSecurity{ValidVotePower: d.Valid, TotalVotePower: d.Total},
	})
	pl.CurrentIndex += pr.BundleSize
	pl.CurrentKey = pr.ToKey
	pl.CurrentSummary = pr.BundleSummary
	pl.TotalBundles++
	b.pools[p] = pl
}

func (b *bsim) drop(p uint64, next string) {
	b.prop[p] = bundlestypes.BundleProposal{PoolId: p, NextUploader: next, UpdatedAt: b.now}
	b.hasProp[p] = true
}

func (b *bsim) authorised(p uint64, s, val string) string {
	v, ok := b.pre.Val[PS{p, s}]
	if !ok || v.Valaddress != val {
		return "not the protocol address of a member"
	}
	return ""
}

func (b *bsim) canPropose(p uint64, s, val string, from uint64) string {
	if r := b.canRun(p); r != "" {
		return r
	}
	if r := b.authorised(p, s, val); r != "" {
		return r
	}
	pr := b.prop[p]
	if pr.NextUploader != s {
		return "not designated"
	}
	if b.now < pr.UpdatedAt+b.pools[p].UploadInterval {
		return "upload interval"
	}
	if b.pools[p].CurrentIndex+pr.BundleSize != from {
		return "from index"
	}
	return ""
}

func (b *bsim) canVote(p uint64, s, val, storageId string) string {
	if r := b.canRun(p); r != "" {
		return r
	}
	if r := b.authorised(p, s, val); r != "" {
		return r
	}
	pr := b.prop[p]
	if pr.StorageId == "" || pr.StorageId != storageId {
		return "no such proposal"
	}
	if has(pr.VotersValid, s) || has(pr.VotersInvalid, s) {
		return "already voted"
	}
	return ""
}

func (b *bsim) register(m *bundlestypes.MsgSubmitBundleProposal, next string) {
	pl := b.pools[m.PoolId]
	b.prop[m.PoolId] = bundlestypes.BundleProposal{PoolId: m.PoolId, StorageId: m.StorageId, Uploader: m.Staker, NextUploader: next,
		DataSize: m.DataSize, BundleSize: m.BundleSize, UpdatedAt: b.now, VotersValid: []string{m.Staker}, FromKey: m.FromKey, ToKey: m.ToKey,
		BundleSummary: m.BundleSummary, DataHash: m.DataHash, StorageProviderId: pl.CurrentStorageProviderId, CompressionId: pl.CurrentCompressionId}
	b.hasProp[m.PoolId] = true
}

// simulate runs the specification of the step.  ok=false: not a step this
// specification describes.
func simBundles(st *Step) (b *bsim, ok bool) {
	b = newBsim(st)
	switch st.Phase {
	case "end":
		b.timeouts()
		return b, true
	case "begin":
		if st.Post != nil {
			b.now = uint64(st.Post.Time)
		} else {
			b.now += uint64(st.Dt)
		}
		b.leaves()
		return b, true
	}
	switch m := st.Msg.(type) {
	case *bundlestypes.MsgSubmitBundleProposal:
		p := m.PoolId
		if b.refuse = b.canPropose(p, m.Staker, m.Creator, m.FromIndex); b.refuse != "" {
			return b, true
		}
		pr := b.prop[p]
		switch {
		case m.StorageId == "":
			b.refuse = "empty storage id"
		case m.BundleSize == 0 || m.BundleSize > b.pools[p].MaxBundleSize:
			b.refuse = "bundle size"
		case m.FromKey == "" || m.ToKey == "":
			b.refuse = "key"
		}
		if b.refuse != "" {
			return b, true
		}
		b.members[p][m.Staker] = 0
		if pr.StorageId == "" {
			b.register(m, b.choose(p, nil, "submit"))
			return b, true
		}
		r, d := b.tally(p)
		switch r {
		case "valid":
			n := b.chooseFrom(p, pr.VotersValid, "accepted")
			b.finalize(p, d)
			b.register(m, n)
		case "invalid":
			b.drop(p, pr.NextUploader)
		default:
			b.refuse = "no quorum"
		}
		return b, true
	case *bundlestypes.MsgSkipUploaderRole:
		p := m.PoolId
		if b.refuse = b.canPropose(p, m.Staker, m.Creator, m.FromIndex); b.refuse != "" {
			return b, true
		}
		pr := b.prop[p]
		b.members[p][m.Staker] = 0
		r, d := "open", dist{}
		if pr.StorageId != "" {
			r, d = b.tally(p)
		}
		n := b.choose(p, map[string]bool{m.Staker: true}, "skip")
		switch r {
		case "valid":
			b.finalize(p, d)
			b.drop(p, n)
		case "invalid":
			b.drop(p, n)
		default:
			pr.NextUploader = n
			pr.UpdatedAt = b.now
			b.prop[p] = pr
		}
		return b, true
	case *bundlestypes.MsgVoteBundleProposal:
		p := m.PoolId
		if b.refuse = b.canVote(p, m.Staker, m.Creator, m.StorageId); b.refuse != "" {
			return b, true
		}
		pr := b.prop[p]
		if has(pr.VotersAbstain, m.Staker) && m.Vote == bundlestypes.VOTE_TYPE_ABSTAIN {
			b.refuse = "already abstained"
			return b, true
		}
		pr.VotersAbstain = without(pr.VotersAbstain, m.Staker)
		switch m.Vote {
		case bundlestypes.VOTE_TYPE_VALID:
			pr.VotersValid = append(pr.VotersValid, m.Staker)
		case bundlestypes.VOTE_TYPE_INVALID:
			pr.VotersInvalid = append(pr.VotersInvalid, m.Staker)
		case bundlestypes.VOTE_TYPE_ABSTAIN:
			pr.VotersAbstain = append(pr.VotersAbstain, m.Staker)
		default:
			b.refuse = "unknown vote"
			return b, true
		}
		b.prop[p] = pr
		b.members[p][m.Staker] = 0
		return b, true
	case *bundlestypes.MsgClaimUploaderRole:
		p := m.PoolId
		if b.refuse = b.canRun(p); b.refuse != "" {
			return b, true
		}
		if b.refuse = b.authorised(p, m.Staker, m.Creator); b.refuse != "" {
			return b, true
		}
		pr := b.prop[p]
		if pr.NextUploader != "" {
			b.refuse = "already claimed"
			return b, true
		}
		pr.PoolId = p
		pr.NextUploader = m.Staker
		pr.UpdatedAt = b.now
		b.prop[p] = pr
		b.hasProp[p] = true
		return b, true
	}
	return b, false
}

// timeouts is the end of a block.
func (b *bsim) timeouts() {
	// pool upgrades are applied before the bundles of the block end are handled;
	// they never touch what is judged here (version and plan are judged by P01),
	// but a plan that ends in this block lets the pool run again
	for _, id := range b.poolIds() {
		p := b.pools[id]
		if p.UpgradePlan.ScheduledAt > 0 && b.now >= p.UpgradePlan.ScheduledAt && b.now-p.UpgradePlan.ScheduledAt >= p.UpgradePlan.Duration {
			p.UpgradePlan = &pooltypes.UpgradePlan{}
			b.pools[id] = p
		}
	}
	timeout := b.pre.BundlesG.Params.UploadTimeout
	for _, id := range b.poolIds() {
		pr := b.prop[id]
		if r := b.canRun(id); r != "" {
			if r == "disabled" && pr.StorageId != "" {
				b.outcome[id] = "disabled"
				b.drop(id, "")
			} else if pr.NextUploader != "" {
				pr.NextUploader = ""
				b.prop[id] = pr
			}
			continue
		}
		interval := b.pools[id].UploadInterval
		if b.now < pr.UpdatedAt+interval {
			continue
		}
		if d := b.dist(id); pr.StorageId != "" && d.status() == "open" {
			b.dists[id] = d
			b.nonVoters(id)
			b.outcome[id] = "open"
			b.drop(id, b.choose(id, nil, "no quorum"))
			continue
		}
		if b.now < pr.UpdatedAt+interval+timeout {
			continue
		}
		late := pr.NextUploader
		if pr.StorageId != "" {
			r, d := b.tally(id)
			switch r {
			case "valid":
				n := b.chooseFrom(id, pr.VotersValid, "accepted")
				b.finalize(id, d)
				b.drop(id, n)
			default:
				b.drop(id, b.choose(id, nil, "dropped"))
			}
		} else {
			b.drop(id, b.choose(id, nil, "timeout"))
		}
		if _, ok := b.members[id][late]; ok {
			b.addPoint(id, late)
		}
	}
}

// leaves applies due leave requests (begin of block); judged by S02, needed here
// for the frame of membership and points.
func (b *bsim) leaves() {
	for _, q := range b.pre.StakersG.LeavePoolEntries {
		if uint64(q.CreationDate)+b.pre.StakersG.Params.LeavePoolTime <= b.now {
			delete(b.members[q.PoolId], q.Staker)
		}
	}
	for _, u := range dueUnbondings(b.pre, int64(b.now)) {
		k := SD{u.Staker, u.Delegator}
		a := u.Amount
		if b.del[k] < a {
			a = b.del[k]
		}
		b.del[k] -= a
		if b.stake[u.Staker] >= a {
			b.stake[u.Staker] -= a
		}
	}
}

var _ = authtypes.ModuleName
