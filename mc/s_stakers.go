package main

// Validators: S01 membership, S02 delayed leaves and commission changes, S03 commission rewards.

import (
	"fmt"
	"sort"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
)

type leaveReq struct {
	S string
	P uint64
	T int64
}
type commReq struct {
	S string
	C string
	T int64
}

// ssim is the reference result of one step on the validator registry.
type ssim struct {
	stakers map[string]stakerstypes.Staker
	val     map[PS]stakerstypes.Valaccount
	leave   []leaveReq
	comm    []commReq
	in, out map[string]sdk.Coins
	refuse  string
	lowest  []string // any of these is displaced in pool lp
	lp      uint64
}

func leaveReqs(s *Snap) (l []leaveReq) {
	q := append([]stakerstypes.LeavePoolEntry{}, s.StakersG.LeavePoolEntries...)
	sort.SliceStable(q, func(i, j int) bool { return q[i].Index < q[j].Index })
	for _, x := range q {
		l = append(l, leaveReq{x.Staker, x.PoolId, x.CreationDate})
	}
	return
}

func commReqs(s *Snap) (l []commReq) {
	q := append([]stakerstypes.CommissionChangeEntry{}, s.StakersG.CommissionChangeEntries...)
	sort.SliceStable(q, func(i, j int) bool { return q[i].Index < q[j].Index })
	for _, x := range q {
		l = append(l, commReq{x.Staker, x.Commission.String(), x.CreationDate})
	}
	return
}

func (b *ssim) drop(p uint64, s string) {
	delete(b.val, PS{p, s})
	var l []leaveReq
	for _, x := range b.leave {
		if x.P != p || x.S != s {
			l = append(l, x)
		}
	}
	b.leave = l
}

func simStakers(st *Step) *ssim {
	pre := st.Pre
	b := &ssim{stakers: map[string]stakerstypes.Staker{}, val: map[PS]stakerstypes.Valaccount{}, in: map[string]sdk.Coins{}, out: map[string]sdk.Coins{}}
	for k, v := range pre.Stakers {
		b.stakers[k] = v
	}
	for k, v := range pre.Val {
		b.val[k] = v
	}
	b.leave, b.comm = leaveReqs(pre), commReqs(pre)
	now := pre.Time
	switch st.Phase {
	case "end":
		return b
	case "begin":
		now = st.Ctx.BlockTime().Unix()
		p := pre.StakersG.Params
		var keep []commReq
		for _, c := range b.comm {
			if c.T+int64(p.CommissionChangeTime) <= now {
				s := b.stakers[c.S]
				s.Commission = dec(c.C)
				b.stakers[c.S] = s
			} else {
				keep = append(keep, c)
			}
		}
		b.comm = keep
		for _, l := range append([]leaveReq{}, b.leave...) {
			if l.T+int64(p.LeavePoolTime) <= now {
				b.drop(l.P, l.S)
			}
		}
		return b
	}
	switch st.Op.Kind {
	case "kick":
		b.drop(st.Op.P, st.Op.S)
		return b
	case "accrue":
		s := b.stakers[st.Op.S]
		s.CommissionRewards = sdk.NewCoins(s.CommissionRewards...).Add(st.Op.C...)
		b.stakers[st.Op.S] = s
		b.out[modAddr(pooltypes.ModuleName)] = st.Op.C
		b.in[modAddr(stakerstypes.ModuleName)] = st.Op.C
		return b
	}
	switch m := st.Msg.(type) {
	case *stakerstypes.MsgCreateStaker:
		c := m.Commission
		if c.IsNil() {
			c = dec("0.1")
		}
		switch {
		case c.IsNegative() || c.GT(math.LegacyOneDec()):
			b.refuse = "commission outside 0..1"
		case pre.Stakers[m.Creator].Address != "":
			b.refuse = "exists"
		case pre.Bal[m.Creator].AmountOf(DENOM).LT(intU(m.Amount)):
			b.refuse = "insufficient balance"
		default:
			b.stakers[m.Creator] = stakerstypes.Staker{Address: m.Creator, Commission: c}
			b.out[m.Creator] = kyve(m.Amount)
			b.in[modAddr(delegationtypes.ModuleName)] = kyve(m.Amount)
		}
	case *stakerstypes.MsgUpdateMetadata:
		s, ok := b.stakers[m.Creator]
		if !ok {
			b.refuse = "not a validator"
			return b
		}
		s.Moniker, s.Website, s.Identity, s.SecurityContact, s.Details = m.Moniker, m.Website, m.Identity, m.SecurityContact, m.Details
		b.stakers[m.Creator] = s
	case *stakerstypes.MsgJoinPool:
		pl, ok := pre.Pools[m.PoolId]
		mem := pre.Members(m.PoolId)
		switch {
		case !ok:
			b.refuse = "unknown pool"
		case pl.Disabled:
			b.refuse = "pool disabled"
		case pre.Stakers[m.Creator].Address == "":
			b.refuse = "not a validator"
		case m.Creator == m.Valaddress:
			b.refuse = "own address"
		case closed(m.Valaddress):
			b.refuse = "account of the protocol"
		case has(mem, m.Creator):
			b.refuse = "already a member"
		}
		if b.refuse != "" {
			return b
		}
		for k, v := range pre.Val {
			if (k.S == m.Creator || k.P == m.PoolId) && v.Valaddress == m.Valaddress {
				if k.S == m.Creator {
					b.refuse = "protocol address used in another pool"
					return b
				}
				// the owner may be the one displaced below
			}
		}
		if len(mem) >= 50 {
			low := ^uint64(0)
			for _, x := range mem {
				if d := pre.DelTotal[x]; d < low {
					low = d
				}
			}
			if pre.DelTotal[m.Creator] <= low {
				b.refuse = "all slots taken by higher stakes"
				return b
			}
			for _, x := range mem {
				if pre.DelTotal[x] == low {
					b.lowest = append(b.lowest, x)
				}
			}
			b.lp = m.PoolId
		}
		for _, x := range mem {
			if pre.Val[PS{m.PoolId, x}].Valaddress == m.Valaddress {
				if len(b.lowest) > 0 && has(b.lowest, x) {
					b.refuse = "?" // depends on who is displaced
				} else {
					b.refuse = "protocol address of another member"
				}
				return b
			}
		}
		if pre.Bal[m.Creator].AmountOf(DENOM).LT(intU(m.Amount)) {
			b.refuse = "insufficient balance"
			return b
		}
		b.val[PS{m.PoolId, m.Creator}] = stakerstypes.Valaccount{PoolId: m.PoolId, Staker: m.Creator, Valaddress: m.Valaddress}
		b.out[m.Creator], b.in[m.Valaddress] = kyve(m.Amount), kyve(m.Amount)
	case *stakerstypes.MsgLeavePool:
		k := PS{m.PoolId, m.Creator}
		v, ok := pre.Val[k]
		if !ok {
			b.refuse = "not a member"
			return b
		}
		for _, l := range b.leave {
			if l.S == m.Creator && l.P == m.PoolId {
				b.refuse = "already leaving"
				return b
			}
		}
		v.IsLeaving = true
		b.val[k] = v
		b.leave = append(b.leave, leaveReq{m.Creator, m.PoolId, now})
	case *stakerstypes.MsgUpdateCommission:
		switch {
		case m.Commission.IsNil() || m.Commission.IsNegative() || m.Commission.GT(math.LegacyOneDec()):
			b.refuse = "commission outside 0..1"
		case pre.Stakers[m.Creator].Address == "":
			b.refuse = "not a validator"
		default:
			var l []commReq
			for _, c := range b.comm {
				if c.S != m.Creator {
					l = append(l, c)
				}
			}
			b.comm = append(l, commReq{m.Creator, m.Commission.String(), now})
		}
	case *stakerstypes.MsgClaimCommissionRewards:
		s, ok := b.stakers[m.Creator]
		have := sdk.NewCoins(s.CommissionRewards...)
		switch {
		case !ok:
			b.refuse = "not a validator"
		case m.Amounts.Empty() || m.Amounts.Validate() != nil:
			b.refuse = "not a valid list of coins"
		case !have.IsAllGTE(m.Amounts):
			b.refuse = "more than claimable"
		default:
			s.CommissionRewards = have.Sub(m.Amounts...)
			b.stakers[m.Creator] = s
			b.out[modAddr(stakerstypes.ModuleName)], b.in[m.Creator] = m.Amounts, m.Amounts
		}
	case *pooltypes.MsgDisablePool:
		if pl, ok := pre.Pools[m.Id]; ok && !pl.Disabled && m.Authority == govAddr() {
			for _, x := range pre.Members(m.Id) {
				b.drop(m.Id, x)
			}
		}
	}
	return b
}

func (b *ssim) resolve(st *Step) {
	if len(b.lowest) == 0 || st.Post == nil {
		return
	}
	who := b.lowest[0]
	for _, x := range b.lowest {
		if _, ok := st.Post.Val[PS{b.lp, x}]; !ok {
			who = x
			break
		}
	}
	b.drop(b.lp, who)
	b.lowest = nil
}

// refusal judges whether a request was rightly accepted or rejected.
func (b *ssim) refusal(st *Step, fail Fail) bool {
	if b.refuse == "?" {
		return st.Err == nil
	}
	if b.refuse != "" {
		if st.OK() {
			fail("accepted", "%s is accepted but must be refused: %s", where(st), b.refuse)
		}
		return false
	}
	if !st.OK() {
		fail("refused", "%s is refused but must be accepted: %v %s", where(st), st.Err, st.Panic)
		return false
	}
	return true
}

func psKeys(a, b map[PS]stakerstypes.Valaccount) (l []PS) {
	m := map[PS]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].P != l[j].P {
			return l[i].P < l[j].P
		}
		return l[i].S < l[j].S
	})
	return
}

// ruleMembership (S01)
func ruleMembership(e *Env, st *Step, fail Fail) {
	if st.Post == nil {
		return
	}
	if bundleStep(st) {
		b, ok := simOf(st)
		if !ok || b.refuse != "" || !st.OK() {
			return
		}
		for p := range st.Post.Pools {
			w := map[string]bool{}
			for m := range b.members[p] {
				w[m] = true
			}
			for _, m := range st.Post.Members(p) {
				if !w[m] {
					fail("unexpected-member", "%s: %s is a member of pool %d", where(st), lab(m), p)
				}
				delete(w, m)
			}
			for _, m := range sortedKeys(w) {
				fail("lost-membership", "%s: %s lost its membership in pool %d without leaving or a penalty", where(st), lab(m), p)
			}
		}
		return
	}
	b := simStakers(st)
	switch st.Msg.(type) {
	case *stakerstypes.MsgJoinPool, *stakerstypes.MsgCreateStaker:
		if !b.refusal(st, fail) {
			return
		}
	default:
		if !st.OK() || b.refuse != "" {
			return
		}
	}
	if b.refuse == "?" {
		return
	}
	b.resolve(st)
	for _, k := range psKeys(b.val, st.Post.Val) {
		w, ok1 := b.val[k]
		g, ok2 := st.Post.Val[k]
		switch {
		case ok1 && !ok2:
			fail("lost-membership", "%s: %s lost its membership in pool %d", where(st), lab(k.S), k.P)
		case !ok1 && ok2:
			fail("unexpected-member", "%s: %s is a member of pool %d", where(st), lab(k.S), k.P)
		case g.Valaddress != w.Valaddress:
			fail("protocol-address", "%s: protocol address of %s in pool %d is %s, expected %s", where(st), lab(k.S), k.P, lab(g.Valaddress), lab(w.Valaddress))
		}
	}
	if m, ok := st.Msg.(*stakerstypes.MsgJoinPool); ok {
		_ = m
		b.balances(st, fail, "join")
	}
}

// bundleStep: the step is one whose effects the bundles reference describes.
func bundleStep(st *Step) bool {
	if len(st.Pre.Prop) == 0 {
		return false
	}
	switch st.Msg.(type) {
	case *bundlestypes.MsgSubmitBundleProposal, *bundlestypes.MsgVoteBundleProposal, *bundlestypes.MsgClaimUploaderRole, *bundlestypes.MsgSkipUploaderRole:
		return true
	}
	return st.Phase == "end"
}

func (b *ssim) balances(st *Step, fail Fail, rule string) {
	checkBalances(st, fail, rule, func(addr, denom string, pre uint64) (uint64, uint64) {
		return uint64(int64(pre) + b.in[addr].AmountOf(denom).Int64() - b.out[addr].AmountOf(denom).Int64()), 0
	})
}

// stateMembership: all indices agree in every state.
func stateMembership(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
	ctx = quiet(ctx)
	k := e.App.StakersKeeper
	act := map[string]int{}
	for p := range s.Pools {
		m := s.Members(p)
		if len(m) > 50 {
			fail("too-many", "pool %d has %d members", p, len(m))
		}
		if c := k.GetStakerCountOfPool(ctx, p); c != uint64(len(m)) {
			fail("member-count", "pool %d counts %d members but lists %d", p, c, len(m))
		}
		l := append([]string{}, k.GetAllStakerAddressesOfPool(ctx, p)...)
		sort.Strings(l)
		if fmt.Sprint(l) != fmt.Sprint(m) {
			fail("member-list", "pool %d lists members %s, registered are %s", p, labs(l), labs(m))
		}
		seen := map[string]string{}
		for _, x := range m {
			act[x]++
			v := s.Val[PS{p, x}]
			if o, dup := seen[v.Valaddress]; dup {
				fail("shared-address", "%s and %s share the protocol address %s in pool %d", lab(o), lab(x), lab(v.Valaddress), p)
			}
			seen[v.Valaddress] = x
			if v.Valaddress == x {
				fail("own-address", "%s uses its own address in pool %d", lab(x), p)
			}
			if _, ok := s.Stakers[x]; !ok {
				fail("no-validator", "member %s of pool %d is not a validator", lab(x), p)
			}
		}
		if len(m) > 0 && s.Pools[p].Disabled {
			fail("disabled-members", "disabled pool %d has members %s", p, labs(m))
		}
	}
	for st := range s.Stakers {
		var l []uint64
		addr := map[string]uint64{}
		for _, v := range k.GetValaccountsFromStaker(ctx, st) {
			l = append(l, v.PoolId)
			if o, dup := addr[v.Valaddress]; dup {
				fail("reused-address", "%s uses the protocol address %s in pools %d and %d", lab(st), lab(v.Valaddress), o, v.PoolId)
			}
			addr[v.Valaddress] = v.PoolId
		}
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		if fmt.Sprint(l) != fmt.Sprint(s.PoolsOf(st)) {
			fail("pool-list", "%s lists pools %v, is a member of %v", lab(st), l, s.PoolsOf(st))
		}
		if c := k.GetPoolCount(ctx, st); c != uint64(act[st]) {
			fail("pool-count", "%s counts %d pools, is in %d", lab(st), c, act[st])
		}
	}
	got := map[string]bool{}
	for _, x := range k.GetActiveStakers(ctx) {
		got[x] = true
		if act[x] == 0 {
			fail("active", "%s counts as participating but is in no pool", lab(x))
		}
	}
	for x := range act {
		if !got[x] {
			fail("active", "%s is a member of a pool but does not count as participating", lab(x))
		}
	}
}

// ruleDelays (S02)
func ruleDelays(e *Env, st *Step, fail Fail) {
	if st.Post == nil {
		return
	}
	b := simStakers(st)
	if bundleStep(st) {
		x, ok := simOf(st)
		if !ok || x.refuse != "" || !st.OK() {
			return
		}
		// a member removed for its points also loses its pending request to leave
		for k := range st.Pre.Val {
			if _, in := x.members[k.P][k.S]; !in {
				b.drop(k.P, k.S)
			}
		}
	}
	switch st.Msg.(type) {
	case *stakerstypes.MsgLeavePool, *stakerstypes.MsgUpdateCommission:
		if !b.refusal(st, fail) {
			return
		}
	default:
		if !st.OK() || b.refuse != "" {
			return
		}
	}
	b.resolve(st)
	for _, s := range sortedKeys(st.Post.Stakers) {
		w, ok := b.stakers[s]
		if g := st.Post.Stakers[s].Commission; ok && !g.Equal(w.Commission) {
			fail("commission", "%s: commission of %s is %s, expected %s", where(st), lab(s), g, w.Commission)
		}
	}
	for _, k := range psKeys(b.val, st.Post.Val) {
		w, ok1 := b.val[k]
		g, ok2 := st.Post.Val[k]
		if ok1 != ok2 {
			fail("membership", "%s: membership of %s in pool %d is %v, expected %v", where(st), lab(k.S), k.P, ok2, ok1)
		} else if g.IsLeaving != w.IsLeaving {
			fail("leaving-flag", "%s: %s in pool %d leaving=%v, expected %v", where(st), lab(k.S), k.P, g.IsLeaving, w.IsLeaving)
		}
	}
	if g, w := fmt.Sprint(leaveReqs(st.Post)), fmt.Sprint(b.leave); g != w {
		fail("leave-queue", "%s: pending leave requests are %s, expected %s", where(st), labReq(leaveReqs(st.Post)), labReq(b.leave))
	}
	if g, w := fmt.Sprint(commReqs(st.Post)), fmt.Sprint(b.comm); g != w {
		fail("commission-queue", "%s: pending commission changes are %s, expected %s", where(st), g, w)
	}
}

func labReq(l []leaveReq) (r []string) {
	for _, x := range l {
		r = append(r, fmt.Sprintf("%s/pool%d@%d", lab(x.S), x.P, x.T))
	}
	return
}

func stateDelays(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
	seen := map[string]bool{}
	for _, l := range leaveReqs(s) {
		k := fmt.Sprint(l.S, l.P)
		if seen[k] {
			fail("two-leaves", "%s has two pending leave requests for pool %d", lab(l.S), l.P)
		}
		seen[k] = true
		v, ok := s.Val[PS{l.P, l.S}]
		if !ok || !v.IsLeaving {
			fail("stale-leave", "a leave request of %s for pool %d is pending although it is not leaving it", lab(l.S), l.P)
		}
	}
	for k, v := range s.Val {
		if v.IsLeaving && !seen[fmt.Sprint(k.S, k.P)] {
			fail("forgotten-leave", "%s is leaving pool %d but no request is pending", lab(k.S), k.P)
		}
	}
	seen = map[string]bool{}
	for _, c := range commReqs(s) {
		if seen[c.S] {
			fail("two-changes", "%s has two pending commission changes", lab(c.S))
		}
		seen[c.S] = true
	}
	for a, x := range s.Stakers {
		if x.Commission.IsNegative() || x.Commission.GT(math.LegacyOneDec()) {
			fail("commission-range", "commission of %s is %s", lab(a), x.Commission)
		}
	}
}

// ruleClaims (S03)
func ruleClaims(e *Env, st *Step, fail Fail) {
	if st.Post == nil {
		return
	}
	if bundleStep(st) {
		b, ok := simOf(st)
		if !ok || b.refuse != "" || !st.OK() {
			return
		}
		for _, s := range sortedKeys(st.Post.Stakers) {
			if g, w := st.Post.Stakers[s].CommissionRewards, b.comm[s]; !coinsEq(g, w) {
				fail("claimable", "%s: claimable rewards of %s are %s, expected %s", where(st), lab(s), g, w)
			}
		}
		return
	}
	b := simStakers(st)
	_, claim := st.Msg.(*stakerstypes.MsgClaimCommissionRewards)
	if claim || st.Op.Kind == "accrue" {
		if !b.refusal(st, fail) {
			return
		}
		b.balances(st, fail, "claim")
	} else if !st.OK() || b.refuse != "" {
		return
	}
	for _, s := range sortedKeys(st.Post.Stakers) {
		if g, w := st.Post.Stakers[s].CommissionRewards, b.stakers[s].CommissionRewards; !coinsEq(g, w) {
			fail("claimable", "%s: claimable rewards of %s are %s, expected %s", where(st), lab(s), g, w)
		}
	}
}

func stateClaims(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
	sum := sdk.NewCoins()
	for _, x := range s.Stakers {
		sum = sum.Add(x.CommissionRewards...)
	}
	if have := sdk.NewCoins(s.Mod(stakerstypes.ModuleName)...); !have.Equal(sum) {
		fail("custody-sum", "the validator account holds %s but claimable rewards are %s", have, sum)
	}
}

// --- worlds ------------------------------------------------------------------------

func opKick(s string, p uint64) *Op {
	return &Op{Name: fmt.Sprintf("penalty(%s,pool%d)", s, p), Kind: "kick", S: acc(s), P: p, Fn: func(e *Env, ctx sdk.Context) error {
		e.App.StakersKeeper.LeavePool(ctx, acc(s), p)
		return nil
	}}
}

func opAccrue(s string, c sdk.Coins) *Op {
	return &Op{Name: fmt.Sprintf("accrue(%s,%s)", s, c), Kind: "accrue", S: acc(s), C: c, Fn: func(e *Env, ctx sdk.Context) error {
		return e.App.StakersKeeper.IncreaseStakerCommissionRewards(ctx, acc(s), pooltypes.ModuleName, c)
	}, Enable: func(e *Env, ctx sdk.Context, pre *Snap) bool {
		return pre.Mod(pooltypes.ModuleName).IsAllGTE(c)
	}}
}

func opMetadata(s string) *Op {
	return msgOp("metadata", fmt.Sprintf("metadata(%s)", s), &stakerstypes.MsgUpdateMetadata{Creator: acc(s), Moniker: "m-" + s, Website: "w", Identity: "7CD454E228C8F227", SecurityContact: "c", Details: "d"})
}

func opStakersParams(name, payload string) *Op {
	return msgOp("params", "stakers-params("+name+")", &stakerstypes.MsgUpdateParams{Authority: govAddr(), Payload: payload})
}

func stakersGen() GenCfg {
	all := sdk.NewCoins(coin(DENOM, 1000*K), coin(ADENOM, 1000*K), coin(BDENOM, 1000*K))
	return GenCfg{Funded: funded(all, "S1", "S2", "S3", "S4", "G", "D1")}
}

func (e *Env) stakersTimes(ctx sdk.Context, leave, comm uint64) {
	p := e.App.StakersKeeper.GetParams(ctx)
	p.LeavePoolTime, p.CommissionChangeTime = leave, comm
	e.App.StakersKeeper.SetParams(ctx, p)
}

func membershipWorld(q, th int) *Scenario {
	return &Scenario{Name: "membership", Gen: stakersGen(), Quick: q, Thor: th,
		Note: "joins with right, foreign, reused and own protocol addresses, leaves, penalties, slashes, re-joins, disabling and enabling pools",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			e.createPool(ctx, poolCfg{Name: "p0"})
			e.createPool(ctx, poolCfg{Name: "p1"})
			e.createStaker(ctx, "S1", 3*K)
			e.createStaker(ctx, "S2", 2*K)
			e.stakersTimes(ctx, 10, 10)
			e.join(ctx, "S1", 0, "VA", 0)
			e.do(ctx, opLeave("S1", 0))
			return e.block(ctx, 5)
		},
		Ops: func(e *Env) []*Op {
			return []*Op{
				opJoin("S1", 0, "VA", 7), opJoin("S1", 1, "VA", 0), opJoin("S1", 1, "VB", 0), opJoin("S2", 0, "VA", 3), opJoin("S2", 0, "VC", 0), opJoin("S2", 1, "VB", 0),
				opJoin("S2", 0, "S2", 0), joinModule("S2", 0, "delegation", 1), opJoin("S2", 7, "VC", 0), opJoin("S3", 0, "VD", 0), opJoin("S2", 1, "VC", 5000*K),
				opLeave("S1", 0), opLeave("S2", 0), opKick("S1", 0), opKick("S2", 0), opSlash("S1", delegationtypes.SLASH_TYPE_VOTE),
				opDisable(0), opEnable(0), blockOp(5), blockOp(10), opCreateStaker("S3", K), opCreateStaker("S1", K), opCreateStaker("S4", 5000*K), opUndelegate("S2", "S2", 2*K),
			}
		}}
}

func delaysWorld(q, th int) *Scenario {
	return &Scenario{Name: "delays", Gen: stakersGen(), Quick: q, Thor: th,
		Note: "leave and commission requests of two validators, replacements, parameter changes, penalties and re-joins, block times just before, at and after the deadlines",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			e.createPool(ctx, poolCfg{Name: "p0"})
			e.createPool(ctx, poolCfg{Name: "p1"})
			e.createStaker(ctx, "S1", 3*K)
			e.createStaker(ctx, "S2", 2*K)
			e.stakersTimes(ctx, 10, 8)
			e.join(ctx, "S1", 0, "VA", 0)
			e.join(ctx, "S1", 1, "VB", 0)
			e.join(ctx, "S2", 0, "VC", 0)
			return e.block(ctx, 5)
		},
		Ops: func(e *Env) []*Op {
			return []*Op{
				opLeave("S1", 0), opLeave("S1", 1), opLeave("S2", 0), opCommission("S1", "0.25"), opCommission("S1", "0.5"), opCommission("S2", "1"),
				blockOp(1), blockOp(7), blockOp(9), opKick("S1", 0), opJoin("S1", 0, "VA", 0),
				opStakersParams("leave=2", `{"leave_pool_time":2}`), opStakersParams("commission=1", `{"commission_change_time":1}`),
			}
		}}
}

func commissionRange() *Scenario {
	return &Scenario{Name: "commission-range", Gen: stakersGen(), Quick: 4, Thor: 5,
		Note: "commission values at and outside both ends at creation and by update, several requests in one block",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			e.createPool(ctx, poolCfg{Name: "p0"})
			e.createStaker(ctx, "S1", 3*K)
			e.createStaker(ctx, "S2", 3*K)
			e.stakersTimes(ctx, 10, 8)
			return e.block(ctx, 5)
		},
		Ops: func(e *Env) (l []*Op) {
			for _, c := range []string{"-0.000000000000000001", "-1", "0", "0.000000000000000001", "1", "1.000000000000000001", "2"} {
				l = append(l, opCommission("S1", c))
				l = append(l, msgOp("createstaker", "createstaker(S3,"+c+")", &stakerstypes.MsgCreateStaker{Creator: acc("S3"), Amount: K, Commission: dec(c)}))
			}
			l = append(l, opCommission("S2", "0.3"), opCommission("D1", "0.3"), opCreateStaker("S4", K), opLeave("S1", 0), opLeave("D1", 0), opMetadata("S1"), opMetadata("D1"), blockOp(7), blockOp(8), blockOp(1))
			return
		}}
}

func memberSlots() *Scenario {
	gen := stakersGen()
	name := func(i int) string { return fmt.Sprintf("Y%02d", i) }
	for i := 0; i < 48; i++ {
		gen.Funded[name(i)] = kyve(100 * K)
	}
	gen.Funded["S5"], gen.Funded["S6"] = kyve(100*K), kyve(100*K)
	return &Scenario{Name: "member-slots", Gen: gen, Quick: 5, Thor: 6, Feat: Features{NoRewards: true},
		Note: "48 members; joins around the slot limit with stakes below, equal to and above the lowest, foreign addresses, leaves, delegations",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			e.createPool(ctx, poolCfg{Name: "p0"})
			e.createPool(ctx, poolCfg{Name: "p1"})
			for i := 0; i < 48; i++ {
				e.createStaker(ctx, name(i), uint64(5+i%4)*K)
				e.join(ctx, name(i), 0, "V"+name(i), 0)
			}
			e.join(ctx, name(0), 1, "W"+name(0), 0)
			e.createStaker(ctx, "S1", 4*K)
			e.createStaker(ctx, "S2", 4*K)
			e.createStaker(ctx, "S3", 4*K+1)
			e.createStaker(ctx, "S4", 9*K)
			// equal stakes on both sides in the order of addresses
			e.createStaker(ctx, "S5", 4*K)
			e.createStaker(ctx, "S6", 4*K)
			e.stakersTimes(ctx, 10, 10)
			return e.block(ctx, 5)
		},
		Ops: func(e *Env) []*Op {
			return []*Op{
				opJoin("S1", 0, "VS1", 0), opJoin("S2", 0, "VS2", 0), opJoin("S5", 0, "VS5", 0), opJoin("S6", 0, "VS6", 0), opJoin("S3", 0, "VS3", 0), opJoin("S4", 0, "VS4", 0), opJoin("S4", 0, "VY01", 0), opJoin("S4", 0, "VS1", 0),
				opJoin("S1", 1, "VS1b", 0), opLeave("S1", 0), opLeave("Y00", 0), opDelegate("D1", "S2", K+1), opDelegate("D1", "Y04", 1), blockOp(10), opKick("Y01", 0),
			}
		}}
}

func claimsWorld(q, th int) *Scenario {
	return &Scenario{Name: "commission-rewards", Gen: stakersGen(), Quick: q, Thor: th,
		Note: "accrual in several coins and partial, full and excessive claims by two validators and a stranger",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			e.createPool(ctx, poolCfg{Name: "p0"})
			e.createStaker(ctx, "S1", 3*K)
			e.createStaker(ctx, "S2", 2*K)
			e.join(ctx, "S1", 0, "VA", 0)
			e.fundModule(ctx, "G", pooltypes.ModuleName, coins2(DENOM, 1000, ADENOM, 1000, BDENOM, 1000))
			e.do(ctx, opAccrue("S2", coins2(BDENOM, 2)))
			return e.block(ctx, 5)
		},
		Ops: func(e *Env) []*Op {
			return []*Op{
				opAccrue("S1", coins2(DENOM, 10)), opAccrue("S1", coins2(ADENOM, 7, BDENOM, 1)), opAccrue("S2", coins2(DENOM, 5, ADENOM, 5)), opAccrue("S1", nil),
				opClaimCommission("S1", coins2(DENOM, 10)), opClaimCommission("S1", coins2(DENOM, 3)), opClaimCommission("S1", coins2(DENOM, 11)),
				opClaimCommission("S1", coins2(ADENOM, 7, DENOM, 10)), opClaimCommission("S1", coins2(ADENOM, 1, BDENOM, 2)), opClaimCommission("S2", coins2(ADENOM, 5, DENOM, 5, BDENOM, 2)),
				opClaimCommission("S2", coins2(CDENOM, 1)), opClaimCommission("S2", sdk.Coins{}), opClaimCommission("S2", sdk.Coins{{Denom: ADENOM, Amount: math.NewInt(-1)}}),
				opClaimCommission("S2", sdk.Coins{{Denom: DENOM, Amount: math.NewInt(0)}}),
				opClaimCommission("D1", coins2(DENOM, 1)), opMetadata("S1"), opCommission("S1", "0.5"), opKick("S1", 0), opSlash("S1", delegationtypes.SLASH_TYPE_UPLOAD), opWithdraw("S1", "S1"), blockOp(5),
			}
		}}
}

func buildStakers() {
	bm := bundleMachine()
	bm.Quick = bm.Quick - 1
	br := bundleRewards()
	br.Quick, br.Thor = 1, 2
	register(&Property{ID: "S01", Scenarios: []*Scenario{membershipWorld(6, 7), memberSlots(), delaysWorld(5, 7), farPools(3, 4), manyPools(3, 4), bm}, Rules: []Rule{ruleMembership}, States: []StateRule{stateMembership}})
	register(&Property{ID: "S02", Scenarios: []*Scenario{delaysWorld(6, 8), lateQueues(delaysWorld(0, 0), 8, 4, 6), lateQueues(delaysWorld(0, 0), 254, 4, 6), commissionRange(), membershipWorld(5, 6)}, Rules: []Rule{ruleDelays}, States: []StateRule{stateDelays}})
	register(&Property{ID: "S03", Scenarios: []*Scenario{claimsWorld(5, 7), br}, Rules: []Rule{ruleClaims}, States: []StateRule{stateClaims}})
}
