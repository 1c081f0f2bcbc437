package main

// Bundles: B01 chain, B02 decision, B03 authorisation, B04 next uploader,
// B05 points and timeouts, B06 rewards.

import (
	"fmt"
	"sort"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
)

var simCache struct {
	st *Step
	b  *bsim
	ok bool
}

// simOf memoises the reference run of the current step (rules share it).
func simOf(st *Step) (*bsim, bool) {
	if simCache.st != st {
		simCache.st = st
		simCache.b, simCache.ok = simBundles(st)
	}
	return simCache.b, simCache.ok
}

func where(st *Step) string { return st.Op.Name + "/" + st.Phase }

func labs(l []string) string {
	var r []string
	for _, x := range l {
		r = append(r, lab(x))
	}
	return "[" + strings.Join(r, ",") + "]"
}

func poolIdsOf(s *Snap) (l []uint64) {
	for id := range s.Pools {
		l = append(l, id)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return
}

// ruleChain: B01 on every step.
func ruleChain(e *Env, st *Step, fail Fail) {
	if st.Post == nil {
		return
	}
	b, ok := simOf(st)
	for _, id := range poolIdsOf(st.Post) {
		want := st.Pre.Fin[id]
		wp, had := st.Pre.Pools[id]
		if ok && st.OK() && b.refuse == "" {
			want = b.fin[id]
			wp = b.pools[id]
		}
		got := st.Post.Fin[id]
		if len(got) != len(want) {
			fail("chain-length", "%s: pool %d has %d finalized bundles, expected %d", where(st), id, len(got), len(want))
			continue
		}
		for i := range want {
			if got[i].String() != want[i].String() {
				fail("chain-content", "%s: pool %d bundle %d is %s, expected %s", where(st), id, i, got[i].String(), want[i].String())
			}
		}
		gp := st.Post.Pools[id]
		if !had && !ok {
			continue
		}
		if gp.CurrentIndex != wp.CurrentIndex || gp.CurrentKey != wp.CurrentKey || gp.CurrentSummary != wp.CurrentSummary || gp.TotalBundles != wp.TotalBundles {
			fail("progress", "%s: pool %d progress is (%d,%q,%q,%d), expected (%d,%q,%q,%d)", where(st), id, gp.CurrentIndex, gp.CurrentKey, gp.CurrentSummary, gp.TotalBundles,
				wp.CurrentIndex, wp.CurrentKey, wp.CurrentSummary, wp.TotalBundles)
		}
	}
}

// stateChain: B01 in every state.
func stateChain(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
	for _, id := range poolIdsOf(s) {
		p := s.Pools[id]
		idx := uint64(0)
		for i, f := range s.Fin[id] {
			if f.Id != uint64(i) || f.FromIndex != idx || f.ToIndex <= f.FromIndex {
				fail("gapless", "pool %d: bundle at position %d has id %d range %d..%d, expected to start at %d", id, i, f.Id, f.FromIndex, f.ToIndex, idx)
			}
			idx = f.ToIndex
			g, found := e.App.BundlesKeeper.GetFinalizedBundle(ctx, id, uint64(i))
			if !found || g.String() != f.String() {
				fail("lookup", "pool %d: bundle %d cannot be looked up", id, i)
			}
		}
		n := uint64(len(s.Fin[id]))
		if p.TotalBundles != n || p.CurrentIndex != idx {
			fail("progress-state", "pool %d records %d bundles up to index %d, its chain has %d up to %d", id, p.TotalBundles, p.CurrentIndex, n, idx)
		}
		if n > 0 {
			l := s.Fin[id][n-1]
			if p.CurrentKey != l.ToKey || p.CurrentSummary != l.BundleSummary {
				fail("progress-state", "pool %d records key %q summary %q, last bundle has %q %q", id, p.CurrentKey, p.CurrentSummary, l.ToKey, l.BundleSummary)
			}
		}
	}
}

func allPools(a, b *Snap) []uint64 {
	m := map[uint64]bool{}
	for id := range a.Pools {
		m[id] = true
	}
	for id := range b.Pools {
		m[id] = true
	}
	var l []uint64
	for id := range m {
		l = append(l, id)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// ruleDecision: B02.
func ruleDecision(e *Env, st *Step, fail Fail) {
	if st.Post == nil {
		return
	}
	b, ok := simOf(st)
	if !ok {
		// no other operation decides, finalizes or drops a proposal
		for _, id := range allPools(st.Pre, st.Post) {
			x, y := st.Pre.Prop[id], st.Post.Prop[id]
			if x.StorageId != y.StorageId || x.Uploader != y.Uploader || len(st.Pre.Fin[id]) != len(st.Post.Fin[id]) {
				fail("foreign-decision", "%s: proposal of pool %d changed from %q to %q", where(st), id, x.StorageId, y.StorageId)
			}
		}
		return
	}
	if st.Phase == "op" {
		sub, isSubmit := st.Msg.(*bundlestypes.MsgSubmitBundleProposal)
		skip, isSkip := st.Msg.(*bundlestypes.MsgSkipUploaderRole)
		if (isSubmit && st.Pre.Prop[sub.PoolId].StorageId != "") || (isSkip && st.Pre.Prop[skip.PoolId].StorageId != "") {
			if b.refuse == "no quorum" && st.OK() {
				fail("accepted-without-quorum", "%s: a proposal without majority did not block the next submission", where(st))
			}
			if b.refuse == "" && !st.OK() {
				fail("decision-refused", "%s: evaluation failed: %v", where(st), st.Err)
			}
		}
	}
	if !st.OK() || b.refuse != "" {
		return
	}
	for _, id := range allPools(st.Pre, st.Post) {
		w, g := b.prop[id], st.Post.Prop[id]
		if w.StorageId != g.StorageId || w.Uploader != g.Uploader || len(b.fin[id]) != len(st.Post.Fin[id]) {
			fail("decision", "%s: pool %d (outcome %q, votes %v): open proposal is %q by %s with %d finalized, expected %q by %s with %d", where(st), id, b.outcome[id], distOf(st.Pre, id),
				g.StorageId, lab(g.Uploader), len(st.Post.Fin[id]), w.StorageId, lab(w.Uploader), len(b.fin[id]))
		}
		wm, gm := b.memberList(id), st.Post.Members(id)
		if strings.Join(wm, ",") != strings.Join(gm, ",") {
			fail("removed-members", "%s: pool %d (outcome %q) has members %s, expected %s", where(st), id, b.outcome[id], labs(gm), labs(wm))
		}
	}
	if st.Phase == "begin" {
		return
	}
	// exactly the wrong voters are slashed, with the right penalty
	for _, s := range sortedKeys(st.Post.DelTotal) {
		w, g := b.stake[s], st.Post.DelTotal[s]
		if absDiff(w, g) > uint64(2+len(st.Pre.Delegators(s))) {
			fail("slashed", "%s: stake of %s was %d, is %d, expected %d (penalties due: %v)", where(st), lab(s), st.Pre.DelTotal[s], g, w, slashNames(b))
		}
	}
	nSlash := map[string]int{}
	for _, x := range b.slashes {
		nSlash[x.S]++
	}
	cnt := func(s *Snap, a string) (n int) {
		for _, x := range s.DelG.DelegationSlashList {
			if x.Staker == a {
				n++
			}
		}
		return
	}
	for _, s := range sortedKeys(st.Post.DelTotal) {
		if len(st.Pre.Delegators(s)) == 0 || st.Pre.DelTotal[s] == 0 {
			continue
		}
		if got := cnt(st.Post, s) - cnt(st.Pre, s); got != nSlash[s] {
			fail("slash-count", "%s: %s was slashed %d times, expected %d (penalties due: %v)", where(st), lab(s), got, nSlash[s], slashNames(b))
		}
	}
}

func distOf(s *Snap, id uint64) string {
	b := newBsim(&Step{Pre: s})
	d := b.dist(id)
	return fmt.Sprintf("valid %d invalid %d abstain %d of %d", d.Valid, d.Invalid, d.Abstain, d.Total)
}

func slashNames(b *bsim) (l []string) {
	for _, x := range b.slashes {
		l = append(l, lab(x.S)+":"+strings.TrimPrefix(x.T.String(), "SLASH_TYPE_"))
	}
	return
}

// ruleParticipants: B03.
func ruleParticipants(e *Env, st *Step, fail Fail) {
	if st.Post == nil || st.Phase != "op" {
		return
	}
	b, ok := simOf(st)
	if !ok {
		for _, id := range allPools(st.Pre, st.Post) {
			x, y := st.Pre.Prop[id], st.Post.Prop[id]
			if x.String() != y.String() {
				fail("foreign-change", "%s: proposal of pool %d changed from %s to %s", where(st), id, x.String(), y.String())
			}
		}
		return
	}
	if b.refuse != "" && st.OK() {
		fail("unauthorised-accepted", "%s: accepted although: %s", where(st), b.refuse)
		return
	}
	if b.refuse == "" && !st.OK() {
		fail("authorised-refused", "%s: refused: %v", where(st), st.Err)
		return
	}
	if !st.OK() {
		return
	}
	for _, id := range allPools(st.Pre, st.Post) {
		w, g := b.prop[id], st.Post.Prop[id]
		// the designated next uploader is judged by B04
		w.NextUploader, g.NextUploader = "", ""
		if w.String() != g.String() {
			fail("proposal-content", "%s: proposal of pool %d is %s, expected %s", where(st), id, g.String(), w.String())
		}
	}
	switch m := st.Msg.(type) {
	case *bundlestypes.MsgClaimUploaderRole:
		if st.Post.Prop[m.PoolId].NextUploader != m.Staker {
			fail("claim", "%s: uploader role went to %s", where(st), lab(st.Post.Prop[m.PoolId].NextUploader))
		}
	}
}

// stateVoters: B03 in every state.
func stateVoters(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
	for id, p := range s.Prop {
		n := map[string]int{}
		for _, l := range [][]string{p.VotersValid, p.VotersInvalid, p.VotersAbstain} {
			for _, v := range l {
				n[v]++
			}
		}
		for _, v := range sortedKeys(n) {
			if n[v] > 1 {
				fail("double-vote", "pool %d: %s is counted %d times", id, lab(v), n[v])
			}
		}
		if p.StorageId != "" && !has(p.VotersValid, p.Uploader) {
			fail("uploader-vote", "pool %d: uploader %s does not count as valid", id, lab(p.Uploader))
		}
		if p.StorageId == "" && len(n) > 0 {
			fail("votes-without-proposal", "pool %d has votes without a proposal", id)
		}
	}
}

// ruleNextUploader: B04.
func ruleNextUploader(e *Env, st *Step, fail Fail) {
	if st.Post == nil || !st.OK() {
		return
	}
	b, ok := simOf(st)
	if ok && b.refuse != "" {
		return
	}
	prog := func(s *Snap, id uint64) map[string]int64 {
		for _, r := range s.BundlesG.RoundRobinProgressList {
			if r.PoolId == id {
				m := map[string]int64{}
				for _, x := range r.ProgressList {
					m[x.Address] = x.Progress
				}
				return m
			}
		}
		return nil
	}
	chosen := map[uint64]*choice{}
	if ok {
		for i := range b.choices {
			chosen[b.choices[i].P] = &b.choices[i]
		}
	}
	for _, id := range allPools(st.Pre, st.Post) {
		g := st.Post.Prop[id].NextUploader
		c := chosen[id]
		if c == nil {
			want := st.Pre.Prop[id].NextUploader
			if ok {
				want = b.prop[id].NextUploader
			}
			if g != want {
				fail("undesignated-change", "%s: next uploader of pool %d is %s, expected %s", where(st), id, lab(g), lab(want))
			}
			if fmt.Sprint(prog(st.Pre, id)) != fmt.Sprint(prog(st.Post, id)) {
				fail("undesignated-progress", "%s: round robin progress of pool %d changed", where(st), id)
			}
			continue
		}
		if len(c.Eligible) == 0 {
			if g != "" {
				fail("not-eligible", "%s: pool %d without eligible members designates %s", where(st), id, lab(g))
			}
			continue
		}
		if !has(c.Eligible, g) {
			fail("not-eligible", "%s: pool %d designates %s (%s), eligible are %s", where(st), id, lab(g), c.Why, labs(c.Eligible))
			continue
		}
		if g != c.Want {
			fail("round-robin", "%s: pool %d designates %s (%s), weighted round robin gives %s", where(st), id, lab(g), c.Why, lab(c.Want))
			continue
		}
		if w, got := fmt.Sprint(b.rr[id]), fmt.Sprint(prog(st.Post, id)); w != got {
			fail("round-robin-progress", "%s: pool %d keeps progress %s, expected %s", where(st), id, labMap(prog(st.Post, id)), labMap(b.rr[id]))
		}
	}
}

func labMap(m map[string]int64) string {
	var l []string
	for _, k := range sortedKeys(m) {
		l = append(l, fmt.Sprintf("%s:%d", lab(k), m[k]))
	}
	return strings.Join(l, " ")
}

// rulePoints: B05.
func rulePoints(e *Env, st *Step, fail Fail) {
	if st.Post == nil || !st.OK() {
		return
	}
	b, ok := simOf(st)
	if ok && b.refuse != "" {
		return
	}
	if !ok {
		if st.Op.Kind == "points" {
			return
		}
		for k, v := range st.Post.Val {
			p, had := st.Pre.Val[k]
			if had && p.Points != v.Points {
				fail("foreign-points", "%s: points of %s in pool %d changed from %d to %d", where(st), lab(k.S), k.P, p.Points, v.Points)
			}
			if !had && v.Points != 0 {
				fail("foreign-points", "%s: %s starts in pool %d with %d points", where(st), lab(k.S), k.P, v.Points)
			}
		}
		return
	}
	for _, id := range allPools(st.Pre, st.Post) {
		for _, m := range sortedKeys(b.members[id]) {
			v, in := st.Post.Val[PS{id, m}]
			if !in {
				fail("removed", "%s: %s is no longer a member of pool %d (expected points %d of %d)", where(st), lab(m), id, b.members[id][m], st.Pre.BundlesG.Params.MaxPoints)
				continue
			}
			if v.Points != b.members[id][m] {
				fail("points", "%s: %s has %d points in pool %d, expected %d", where(st), lab(m), v.Points, id, b.members[id][m])
			}
		}
		for _, m := range st.Post.Members(id) {
			if _, in := b.members[id][m]; !in {
				fail("not-removed", "%s: %s is still a member of pool %d", where(st), lab(m), id)
			}
		}
		if w, g := b.prop[id].UpdatedAt, st.Post.Prop[id].UpdatedAt; w != g {
			fail("deadline", "%s: the upload period of pool %d counts from %d, expected %d", where(st), id, g, w)
		}
	}
	if st.Phase == "begin" {
		return
	}
	for _, s := range sortedKeys(st.Post.DelTotal) {
		w, g := b.stake[s], st.Post.DelTotal[s]
		if absDiff(w, g) > uint64(2+len(st.Pre.Delegators(s))) {
			fail("timeout-penalty", "%s: stake of %s was %d, is %d, expected %d (penalties due: %v)", where(st), lab(s), st.Pre.DelTotal[s], g, w, slashNames(b))
		}
	}
}

// ruleBundleRewards: B06.
func ruleBundleRewards(e *Env, st *Step, fail Fail) {
	if st.Post == nil || !st.OK() || st.Phase == "begin" {
		return
	}
	b, ok := simOf(st)
	if !ok || b.refuse != "" {
		return
	}
	// nobody but the named accounts gains or loses anything
	checkBalances(st, fail, "reward", func(addr, denom string, pre uint64) (uint64, uint64) {
		c, in := b.bal[addr]
		if !in {
			return pre, 0
		}
		tol := uint64(0)
		if len(b.slashes) > 0 && denom == DENOM && (addr == modAddr(delegationtypes.ModuleName) || addr == modAddr(distrtypes.ModuleName)) {
			tol = uint64(4 * len(b.slashes))
		}
		return c.AmountOf(denom).Uint64(), tol
	})
	if !st.Pre.Supply.Equal(st.Post.Supply) {
		fail("supply", "%s: supply changed from %s to %s", where(st), st.Pre.Supply, st.Post.Supply)
	}
	// the treasury share is booked as community pool
	cp := sdk.NewDecCoins()
	treasury := sdk.NewCoins()
	for _, p := range b.pays {
		treasury = treasury.Add(p.Treasury...)
		sum := p.Treasury.Add(p.Storage...).Add(p.Comm...).Add(p.Deleg...)
		if !sum.Equal(p.Total) && !p.Total.IsZero() {
			if _, known := st.Pre.Stakers[p.Uploader]; known {
				panic("reference split is not complete")
			}
		}
	}
	if len(b.slashes) == 0 {
		cp = st.Pre.CP.Add(sdk.NewDecCoinsFromCoins(treasury...)...)
		if !cp.Equal(st.Post.CP) {
			fail("treasury", "%s: community pool is %s, expected %s", where(st), st.Post.CP, cp)
		}
	}
	for _, s := range sortedKeys(st.Post.Stakers) {
		g, w := st.Post.Stakers[s].CommissionRewards, b.comm[s]
		if !sdk.NewCoins(g...).Equal(sdk.NewCoins(w...)) {
			fail("uploader-share", "%s: claimable commission of %s is %s, expected %s", where(st), lab(s), g, w)
		}
	}
	// delegators' share by stake
	for _, k := range allSD(st.Pre, st.Post) {
		gain := sdk.NewCoins()
		tol := uint64(1)
		for _, p := range b.pays {
			if p.Uploader != k.S || p.Deleg.IsZero() {
				continue
			}
			tot := math.NewIntFromUint64(st.Pre.DelTotal[k.S])
			for _, c := range p.Deleg {
				a := c.Amount.Mul(math.NewIntFromUint64(st.Pre.Del[k].Amt)).Quo(tot)
				if a.IsPositive() {
					gain = gain.Add(sdk.NewCoin(c.Denom, a))
				}
			}
			tol = 3
		}
		for _, d := range payoutDenoms(st.Pre.Del[k].Rew, st.Post.Del[k].Rew, gain) {
			w := st.Pre.Del[k].Rew.AmountOf(d).Add(gain.AmountOf(d)).Uint64()
			if g := st.Post.Del[k].Rew.AmountOf(d).Uint64(); absDiff(g, w) > tol {
				fail("delegator-share", "%s: outstanding rewards of %s at %s in %s are %d, expected %d", where(st), lab(k.D), lab(k.S), d, g, w)
			}
		}
	}
	// funders pay exactly what was charged (F02 judges the amounts per funder)
	for k, w := range b.fund {
		g := st.Post.Fund[k]
		if !g.Amounts.Equal(w.Amounts) {
			fail("funder-charge", "%s: remaining funding of %s in pool %d is %s, expected %s", where(st), lab(k.F), k.P, g.Amounts, w.Amounts)
		}
	}
}

var _ = funderstypes.ModuleName
var _ = pooltypes.ModuleName
var _ = stakerstypes.ModuleName
