package main

// Delegation: D01 backing, D02 rewards, D03 slashing, D04 unbonding, D05 redelegation.

import (
	"fmt"
	"sort"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"

	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
)

func absDiff(a, b uint64) uint64 {
	if a > b {
		return a - b
	}
	return b - a
}

// touchedDelegations lists the (validator, delegator) pairs an operation concerns.
type delEffect struct {
	exact map[SD]uint64 // expected stake after the operation
	slash map[string]math.LegacyDec
	paid  map[SD]bool // rewards are paid out to the owner
}

func payoutDenoms(c ...sdk.Coins) (l []string) {
	m := map[string]bool{}
	for _, x := range c {
		for _, y := range x {
			m[y.Denom] = true
		}
	}
	return sortedKeys(m)
}

// delegationEffect is the specification of what a step does to delegations.  It
// returns nil when the step is not one the delegation worlds perform.
func delegationEffect(st *Step) *delEffect {
	ef := &delEffect{exact: map[SD]uint64{}, slash: map[string]math.LegacyDec{}, paid: map[SD]bool{}}
	pre := st.Pre
	if !st.OK() {
		return ef
	}
	switch st.Phase {
	case "end":
		return ef
	case "begin":
		// unbondings that are due, in order of request
		for _, u := range dueUnbondings(st.Pre, st.Post.Time) {
			k := SD{u.Staker, u.Delegator}
			cur, ok := ef.exact[k]
			if !ok {
				cur = pre.Del[k].Amt
			}
			pay := u.Amount
			if cur < pay {
				pay = cur
			}
			ef.exact[k] = cur - pay
			ef.paid[k] = true
		}
		return ef
	}
	switch m := st.Msg.(type) {
	case *delegationtypes.MsgDelegate:
		k := SD{m.Staker, m.Creator}
		ef.exact[k] = pre.Del[k].Amt + m.Amount
		ef.paid[k] = true
	case *delegationtypes.MsgUndelegate:
	case *delegationtypes.MsgRedelegate:
		k1, k2 := SD{m.FromStaker, m.Creator}, SD{m.ToStaker, m.Creator}
		if k1 == k2 {
			ef.exact[k1] = pre.Del[k1].Amt
		} else {
			ef.exact[k1] = pre.Del[k1].Amt - m.Amount
			ef.exact[k2] = pre.Del[k2].Amt + m.Amount
		}
		ef.paid[k1], ef.paid[k2] = true, true
	case *delegationtypes.MsgWithdrawRewards:
		ef.paid[SD{m.Staker, m.Creator}] = true
	case *stakerstypes.MsgCreateStaker:
		k := SD{m.Creator, m.Creator}
		ef.exact[k] = pre.Del[k].Amt + m.Amount
		ef.paid[k] = true
	}
	switch st.Op.Kind {
	case "slash":
		if len(pre.Delegators(st.Op.S)) > 0 {
			ef.slash[st.Op.S] = slashFraction(pre, delegationtypes.SlashType(st.Op.N))
		}
	}
	return ef
}

func slashFraction(s *Snap, t delegationtypes.SlashType) math.LegacyDec {
	switch t {
	case delegationtypes.SLASH_TYPE_TIMEOUT:
		return s.DelG.Params.TimeoutSlash
	case delegationtypes.SLASH_TYPE_VOTE:
		return s.DelG.Params.VoteSlash
	case delegationtypes.SLASH_TYPE_UPLOAD:
		return s.DelG.Params.UploadSlash
	}
	return math.LegacyZeroDec()
}

func unbondings(s *Snap) []delegationtypes.UndelegationQueueEntry {
	l := append([]delegationtypes.UndelegationQueueEntry{}, s.DelG.UndelegationQueueEntryList...)
	sort.SliceStable(l, func(i, j int) bool { return l[i].Index < l[j].Index })
	return l
}

func dueUnbondings(s *Snap, now int64) (l []delegationtypes.UndelegationQueueEntry) {
	for _, u := range unbondings(s) {
		if u.CreationTime+s.DelG.Params.UnbondingDelegationTime <= uint64(now) {
			l = append(l, u)
		}
	}
	return
}

func allSD(a, b *Snap) (l []SD) {
	m := map[SD]bool{}
	for k := range a.Del {
		m[k] = true
	}
	for k := range b.Del {
		m[k] = true
	}
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].S != l[j].S {
			return l[i].S < l[j].S
		}
		return l[i].D < l[j].D
	})
	return
}

// ruleStakeMovement: D01 (exact movement and frame) / D03 (slash part).
func ruleStakeFrame(e *Env, st *Step, fail Fail) {
	if !st.OK() || st.Post == nil {
		return
	}
	ef := delegationEffect(st)
	for _, k := range allSD(st.Pre, st.Post) {
		a, b := st.Pre.Del[k].Amt, st.Post.Del[k].Amt
		if _, ok := ef.slash[k.S]; ok {
			continue // judged by D03
		}
		want := a
		why := "unconcerned"
		if x, ok := ef.exact[k]; ok {
			want, why = x, "concerned"
		}
		if b != want {
			fail("stake-"+why, "%s/%s: stake of %s at %s was %d, is %d, expected %d (%s)", st.Op.Name, st.Phase, lab(k.D), lab(k.S), a, b, want, why)
		}
	}
}

// ruleStakeBalances: the liquid side of delegate and create-validator is exact,
// and nobody else's liquid balance moves.
func ruleStakeBalances(e *Env, st *Step, fail Fail) {
	if !st.OK() || st.Post == nil || st.Phase != "op" {
		return
	}
	moved := map[string]uint64{} // liquid -> stake
	out := uint64(0)
	var paid []SD
	switch m := st.Msg.(type) {
	case *delegationtypes.MsgDelegate:
		moved[m.Creator] = m.Amount
		out = m.Amount
		paid = []SD{{m.Staker, m.Creator}}
	case *stakerstypes.MsgCreateStaker:
		moved[m.Creator] = m.Amount
		out = m.Amount
	case *delegationtypes.MsgUndelegate:
	case *delegationtypes.MsgRedelegate:
		paid = []SD{{m.FromStaker, m.Creator}}
		if m.ToStaker != m.FromStaker {
			paid = append(paid, SD{m.ToStaker, m.Creator})
		}
	case *delegationtypes.MsgWithdrawRewards:
		paid = []SD{{m.Staker, m.Creator}}
	default:
		return
	}
	rew := map[string]sdk.Coins{}
	for _, k := range paid {
		rew[k.D] = rew[k.D].Add(st.Pre.Del[k].Rew...)
	}
	checkBalances(st, fail, "liquid", func(addr, denom string, pre uint64) (uint64, uint64) {
		want := pre
		if denom == DENOM {
			want -= moved[addr]
		}
		r := rew[addr].AmountOf(denom).Uint64()
		want += r
		tol := uint64(0)
		if r > 0 || len(rew[addr]) > 0 {
			tol = 1
		}
		if addr == modAddr(delegationtypes.ModuleName) {
			if denom == DENOM {
				want += out
			}
			t := sdk.NewCoins()
			for _, c := range rew {
				t = t.Add(c...)
			}
			want -= t.AmountOf(denom).Uint64()
			tol = uint64(len(rew))
		}
		return want, tol
	})
}

// checkBalances compares every account against an expected value.
func checkBalances(st *Step, fail Fail, rule string, want func(addr, denom string, pre uint64) (uint64, uint64)) {
	addrs := map[string]bool{}
	denoms := map[string]bool{}
	for _, s := range []*Snap{st.Pre, st.Post} {
		for a, c := range s.Bal {
			addrs[a] = true
			for _, x := range c {
				denoms[x.Denom] = true
			}
		}
	}
	for _, a := range sortedKeys(addrs) {
		for _, d := range sortedKeys(denoms) {
			p, q := st.Pre.B(a, d), st.Post.B(a, d)
			w, tol := want(a, d, p)
			if absDiff(q, w) > tol {
				fail(rule+"-balance", "%s/%s: balance of %s in %s was %d, is %d, expected %d", st.Op.Name, st.Phase, lab(a), d, p, q, w)
			}
		}
	}
}

// stateBacking: D01 invariant in every state.
func stateBacking(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
	sum := map[string]uint64{}
	n := map[string]uint64{}
	owed := sdk.NewCoins()
	for k, d := range s.Del {
		sum[k.S] += d.Amt
		n[k.S]++
		if d.Amt > 0 {
			owed = owed.Add(coin(DENOM, d.Amt))
		}
		owed = owed.Add(d.Rew...)
	}
	for st, t := range s.DelTotal {
		// each slash leaves at most one unit per delegator plus one
		slashes := uint64(0)
		for _, x := range s.DelG.DelegationSlashList {
			if x.Staker == st {
				slashes++
			}
		}
		if t < sum[st] || t-sum[st] > n[st]+slashes+1 {
			fail("total-delegation", "total delegation of %s is %d but its delegators hold %d", lab(st), t, sum[st])
		}
	}
	for st, x := range sum {
		if _, ok := s.DelTotal[st]; !ok && x > 0 {
			fail("unknown-validator", "stake %d with unknown validator %s", x, lab(st))
		}
	}
	have := s.Mod(delegationtypes.ModuleName)
	if !have.IsAllGTE(owed) {
		fail("backing", "delegation custody holds %s but owes %s", have, owed)
	}
}

// ruleRewards: D02.
func ruleRewards(e *Env, st *Step, fail Fail) {
	if !st.OK() || st.Post == nil {
		return
	}
	ef := delegationEffect(st)
	for _, k := range allSD(st.Pre, st.Post) {
		a, b := st.Pre.Del[k], st.Post.Del[k]
		if ef.paid[k] {
			if !b.Rew.IsZero() {
				// nothing may be left except a unit of rounding
				for _, c := range b.Rew {
					if c.Amount.Uint64() > 1 {
						fail("reward-not-settled", "%s/%s: %s at %s still has %s outstanding after being paid", st.Op.Name, st.Phase, lab(k.D), lab(k.S), b.Rew)
					}
				}
			}
			continue
		}
		pay := sdk.NewCoins()
		if st.Op.Kind == "payout" && st.Op.S == k.S {
			pay = st.Op.C
		}
		for _, d := range payoutDenoms(a.Rew, b.Rew, pay) {
			x, y := a.Rew.AmountOf(d).Uint64(), b.Rew.AmountOf(d).Uint64()
			p := pay.AmountOf(d)
			want := x
			tol := uint64(1)
			if p.IsPositive() {
				tot := math.NewIntFromUint64(st.Pre.DelTotal[k.S])
				share := p.Mul(math.NewIntFromUint64(a.Amt)).Quo(tot)
				want += share.Uint64()
				tol += 1 + p.Quo(tot).Uint64()
			}
			if absDiff(y, want) > tol {
				fail("reward-accrual", "%s/%s: outstanding rewards of %s at %s in %s were %d, are %d, expected %d", st.Op.Name, st.Phase, lab(k.D), lab(k.S), d, x, y, want)
			}
		}
	}
	// payment into the owner's account: begin-block (unbonding) is judged by D04 for the
	// stake; here the reward part of plain withdrawals and the payout intake
	switch st.Op.Kind {
	case "payout":
		checkBalances(st, fail, "payout", func(addr, denom string, pre uint64) (uint64, uint64) {
			x := st.Op.C.AmountOf(denom).Uint64()
			switch addr {
			case modAddr(pooltypes.ModuleName):
				return pre - x, 0
			case modAddr(delegationtypes.ModuleName):
				return pre + x, 0
			}
			return pre, 0
		})
	case "withdraw", "delegate", "redelegate", "undelegate":
		ruleStakeBalances(e, st, fail)
	}
	if st.Phase == "begin" {
		ruleUnbondBalances(e, st, fail)
	}
	if m, ok := st.Msg.(*delegationtypes.MsgWithdrawRewards); ok && st.Phase == "op" {
		_ = m
	}
}

// ruleWithdrawAllowed: a withdrawal by a delegator must succeed, by others must not.
func ruleWithdrawAllowed(e *Env, st *Step, fail Fail) {
	if st.Phase != "op" {
		return
	}
	if m, ok := st.Msg.(*delegationtypes.MsgWithdrawRewards); ok {
		_, is := st.Pre.Del[SD{m.Staker, m.Creator}]
		if is != st.OK() {
			fail("withdraw-permission", "%s: delegator=%v but result is %v", st.Op.Name, is, st.Err)
		}
	}
}

func ruleSlash(e *Env, st *Step, fail Fail) {
	if st.Op.Kind != "slash" || st.Post == nil {
		return
	}
	if !st.OK() {
		fail("slash-failed", "%s failed: %v %s", st.Op.Name, st.Err, st.Panic)
		return
	}
	f := slashFraction(st.Pre, delegationtypes.SlashType(st.Op.N))
	s := st.Op.S
	keep := math.LegacyOneDec().Sub(f)
	for _, k := range allSD(st.Pre, st.Post) {
		a, b := st.Pre.Del[k].Amt, st.Post.Del[k].Amt
		if k.S != s {
			if a != b {
				fail("slash-other", "%s: stake of %s at %s changed from %d to %d", st.Op.Name, lab(k.D), lab(k.S), a, b)
			}
			continue
		}
		want := keep.MulInt(math.NewIntFromUint64(a)).TruncateInt().Uint64()
		if absDiff(b, want) > 1 {
			fail("slash-fraction", "%s: stake of %s at %s was %d, is %d, expected %d", st.Op.Name, lab(k.D), lab(k.S), a, b, want)
		}
		for _, d := range payoutDenoms(st.Pre.Del[k].Rew, st.Post.Del[k].Rew) {
			if absDiff(st.Pre.Del[k].Rew.AmountOf(d).Uint64(), st.Post.Del[k].Rew.AmountOf(d).Uint64()) > 1 {
				fail("slash-rewards", "%s: rewards of %s changed from %s to %s", st.Op.Name, lab(k.D), st.Pre.Del[k].Rew, st.Post.Del[k].Rew)
			}
		}
	}
	for _, t := range sortedKeys(st.Post.DelTotal) {
		a, b := st.Pre.DelTotal[t], st.Post.DelTotal[t]
		want := a
		if t == s {
			want = a - f.MulInt(math.NewIntFromUint64(a)).TruncateInt().Uint64()
		}
		if absDiff(b, want) > 1 {
			fail("slash-total", "%s: total delegation of %s was %d, is %d, expected %d", st.Op.Name, lab(t), a, b, want)
		}
	}
	taken := st.Pre.DelTotal[s] - st.Post.DelTotal[s]
	checkBalances(st, fail, "slash", func(addr, denom string, pre uint64) (uint64, uint64) {
		if denom == DENOM {
			switch addr {
			case modAddr(delegationtypes.ModuleName):
				return pre - taken, 0
			case modAddr(distrtypes.ModuleName):
				return pre + taken, 0
			}
		}
		return pre, 0
	})
	cp := st.Post.CP.Sub(st.Pre.CP)
	if !cp.AmountOf(DENOM).Equal(math.LegacyNewDecFromInt(math.NewIntFromUint64(taken))) {
		fail("slash-treasury", "%s: treasury received %s, validator lost %d", st.Op.Name, cp, taken)
	}
}

type ubKey struct {
	S, D   string
	A, T   uint64
}

func ubList(l []delegationtypes.UndelegationQueueEntry) (r []ubKey) {
	for _, u := range l {
		r = append(r, ubKey{u.Staker, u.Delegator, u.Amount, u.CreationTime})
	}
	return
}

func ruleUnbondBalances(e *Env, st *Step, fail Fail) {
	cur := map[SD]uint64{}
	add := map[string]sdk.Coins{}
	seen := map[SD]bool{}
	total := sdk.NewCoins()
	for _, u := range dueUnbondings(st.Pre, st.Post.Time) {
		k := SD{u.Staker, u.Delegator}
		c, ok := cur[k]
		if !ok {
			c = st.Pre.Del[k].Amt
		}
		pay := u.Amount
		if c < pay {
			pay = c
		}
		cur[k] = c - pay
		x := sdk.NewCoins()
		if pay > 0 {
			x = x.Add(coin(DENOM, pay))
		}
		if !seen[k] {
			seen[k] = true
			x = x.Add(st.Pre.Del[k].Rew...)
		}
		add[u.Delegator] = add[u.Delegator].Add(x...)
		total = total.Add(x...)
	}
	checkBalances(st, fail, "unbonding", func(addr, denom string, pre uint64) (uint64, uint64) {
		if addr == modAddr(delegationtypes.ModuleName) {
			return pre - total.AmountOf(denom).Uint64(), uint64(2 * len(seen))
		}
		w := pre + add[addr].AmountOf(denom).Uint64()
		tol := uint64(0)
		if len(add[addr]) > 0 {
			tol = 1
			for k := range seen {
				if k.D == addr && !st.Pre.Del[k].Rew.IsZero() {
					tol++
				}
			}
			if tol == 1 {
				tol = 0
			}
		}
		return w, tol
	})
}

// ruleUnbonding: D04.
func ruleUnbonding(e *Env, st *Step, fail Fail) {
	if st.Post == nil {
		return
	}
	pre, post := ubList(unbondings(st.Pre)), ubList(unbondings(st.Post))
	want := pre
	switch st.Phase {
	case "op":
		if m, ok := st.Msg.(*delegationtypes.MsgUndelegate); ok {
			have := st.Pre.Del[SD{m.Staker, m.Creator}].Amt
			allowed := m.Amount <= have
			if allowed != st.OK() {
				fail("undelegate-permission", "%s of %d with stake %d: result %v", st.Op.Name, m.Amount, have, st.Err)
				return
			}
			if st.OK() {
				want = append(append([]ubKey{}, pre...), ubKey{m.Staker, m.Creator, m.Amount, uint64(st.Pre.Time)})
				checkBalances(st, fail, "undelegate-request", func(a, d string, p uint64) (uint64, uint64) { return p, 0 })
				for _, k := range allSD(st.Pre, st.Post) {
					if st.Pre.Del[k].Amt != st.Post.Del[k].Amt {
						fail("undelegate-request-stake", "%s changed the stake of %s at %s from %d to %d", st.Op.Name, lab(k.D), lab(k.S), st.Pre.Del[k].Amt, st.Post.Del[k].Amt)
					}
				}
			}
		}
	case "begin":
		want = nil
		for _, u := range unbondings(st.Pre) {
			if u.CreationTime+st.Pre.DelG.Params.UnbondingDelegationTime > uint64(st.Post.Time) {
				want = append(want, ubKey{u.Staker, u.Delegator, u.Amount, u.CreationTime})
			}
		}
		ruleUnbondBalances(e, st, fail)
		ef := delegationEffect(st)
		for _, k := range allSD(st.Pre, st.Post) {
			w, ok := ef.exact[k]
			if !ok {
				w = st.Pre.Del[k].Amt
			}
			if st.Post.Del[k].Amt != w {
				fail("unbonding-stake", "block at %d: stake of %s at %s was %d, is %d, expected %d", st.Post.Time, lab(k.D), lab(k.S), st.Pre.Del[k].Amt, st.Post.Del[k].Amt, w)
			}
		}
	}
	if fmt.Sprint(want) != fmt.Sprint(post) {
		fail("unbonding-requests", "%s/%s: pending requests are %v, expected %v", st.Op.Name, st.Phase, labUb(post), labUb(want))
	}
}

func labUb(l []ubKey) (r []string) {
	for _, u := range l {
		r = append(r, fmt.Sprintf("{%s@%s %d t%d}", lab(u.D), lab(u.S), u.A, int64(u.T)-T0))
	}
	return
}

func activeSpells(s *Snap, d string, now int64) []uint64 {
	return activeSpellsC(s, d, now, s.DelG.Params.RedelegationCooldown)
}

func activeSpellsC(s *Snap, d string, now int64, cooldown uint64) (l []uint64) {
	for _, t := range s.Redel[d] {
		if now-int64(t) <= int64(cooldown) {
			l = append(l, t)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return
}

// ruleRedelegation: D05.
func ruleRedelegation(e *Env, st *Step, fail Fail) {
	if st.Post == nil {
		return
	}
	m, isRedel := st.Msg.(*delegationtypes.MsgRedelegate)
	now := st.Post.Time
	if isRedel {
		k := SD{m.FromStaker, m.Creator}
		act := activeSpells(st.Pre, m.Creator, now)
		var why string
		_, isDel := st.Pre.Del[k]
		_, toExists := st.Pre.Stakers[m.ToStaker]
		switch {
		case !isDel:
			why = "not a delegator"
		case !toExists:
			why = "destination does not exist"
		case len(st.Pre.PoolsOf(m.ToStaker)) == 0:
			why = "destination not in a pool"
		case m.Amount > st.Pre.Del[k].Amt:
			why = "not enough stake"
		case len(act) >= int(st.Pre.DelG.Params.RedelegationMaxAmount):
			why = "allowance used up"
		case len(act) > 0 && act[len(act)-1] == uint64(now):
			why = "second redelegation in one block"
		}
		if (why == "") != st.OK() {
			fail("redelegate-permission", "%s: expected refusal %q, result %v (recorded %v, cooldown %d, max %d, now %d)", st.Op.Name, why, st.Err, st.Pre.Redel[m.Creator], st.Pre.DelG.Params.RedelegationCooldown, st.Pre.DelG.Params.RedelegationMaxAmount, now)
			return
		}
		if st.OK() {
			ruleStakeFrame(e, st, fail)
			ruleStakeBalances(e, st, fail)
			want := append(append([]uint64{}, act...), uint64(now))
			got := activeSpells(st.Post, m.Creator, now)
			if fmt.Sprint(want) != fmt.Sprint(got) {
				fail("redelegate-record", "%s: recorded redelegations %v, expected %v", st.Op.Name, got, want)
			}
		}
	}
	for _, d := range sortedKeys(mergeKeys(st.Pre.Redel, st.Post.Redel)) {
		if isRedel && st.OK() && d == m.Creator {
			continue
		}
		cd := st.Post.DelG.Params.RedelegationCooldown
		a, b := activeSpellsC(st.Pre, d, now, cd), activeSpellsC(st.Post, d, now, cd)
		if fmt.Sprint(a) != fmt.Sprint(b) {
			fail("redelegate-frame", "%s/%s: allowance record of %s changed from %v to %v", st.Op.Name, st.Phase, lab(d), a, b)
		}
	}
}

func mergeKeys[V any](a, b map[string]V) map[string]V {
	m := map[string]V{}
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		m[k] = v
	}
	return m
}

// --- worlds -------------------------------------------------------------------------

func setDelegationParams(e *Env, ctx sdk.Context, unb, cool, max uint64, vote, upload, timeout string) {
	e.App.DelegationKeeper.SetParams(ctx, delegationtypes.Params{
		UnbondingDelegationTime: unb, RedelegationCooldown: cool, RedelegationMaxAmount: max,
		VoteSlash: dec(vote), UploadSlash: dec(upload), TimeoutSlash: dec(timeout),
	})
}

// delegationBase: pools 0 and 1, validators S0 (in pool 0), S1 (in pool 0), S2 (in no pool)
func delegationBase(e *Env, ctx sdk.Context) sdk.Context {
	setDelegationParams(e, ctx, 100, 100, 2, "0.1", "0.333333333333333333", "0.02")
	e.createPool(ctx, poolCfg{Name: "p0", MinDel: 1})
	e.createPool(ctx, poolCfg{Name: "p1", MinDel: 1})
	e.createStaker(ctx, "S0", 1_000_003)
	e.createStaker(ctx, "S1", 777_777)
	e.createStaker(ctx, "S2", 500_000)
	e.join(ctx, "S0", 0, "V0", 1)
	e.join(ctx, "S1", 0, "V1", 1)
	e.fundModule(ctx, "RICH", pooltypes.ModuleName, coinsOf(1_000_000_000, DENOM, ADENOM))
	return e.block(ctx, 5)
}

func delegationGen() GenCfg {
	return GenCfg{Funded: funded(coinsOf(1_000_000_000_000, DENOM, ADENOM), "S0", "S1", "S2", "S9", "A", "B", "RICH")}
}

const (
	slT = delegationtypes.SLASH_TYPE_TIMEOUT
	slV = delegationtypes.SLASH_TYPE_VOTE
	slU = delegationtypes.SLASH_TYPE_UPLOAD
)

func delegationScenarios() (gen, rewards, slash, unb, redel []*Scenario) {
	base := func(name string, q, t int, ops func(e *Env) []*Op, setup func(e *Env, ctx sdk.Context) sdk.Context) *Scenario {
		if setup == nil {
			setup = delegationBase
		}
		return &Scenario{Name: name, Gen: delegationGen(), Setup: setup, Ops: ops, Quick: q, Thor: t}
	}
	rewA := sdk.NewCoins(coin(DENOM, 100_000), coin(ADENOM, 3_333))
	mixed := func(*Env) []*Op {
		return []*Op{
			opDelegate("A", "S0", 500_001), opDelegate("B", "S0", 3), opDelegate("A", "S1", 250_000), opDelegate("B", "S1", 1<<63),
			opDelegate("A", "S9", 10), opDelegate("A", "S0", 0), opDelegate("S1", "S0", 70_007), opUndelegateAll("S1", "S0", 0),
			opUndelegateAll("A", "S0", 0), opUndelegate("A", "S0", 200_000), opUndelegateAll("B", "S0", 0), opUndelegate("S0", "S0", 1_000_000),
			opRedelegateAll("A", "S0", "S1"), opRedelegate("A", "S1", "S0", 100_000), opRedelegate("A", "S0", "S0", 1),
			opWithdraw("A", "S0"), opWithdraw("S0", "S0"),
			opPayout("S0", rewA), opPayout("S1", kyve(77)),
			opSlash("S0", slV), opSlash("S0", slU), opSlash("S1", slT),
			opCreateStaker("S9", 42),
			blockOp(100), blockOp(60),
		}
	}
	gen = []*Scenario{base("delegation-mixed", 4, 5, mixed, nil)}
	// one validator, long histories of entering, leaving, slashing and payout
	narrow := func(*Env) []*Op {
		return []*Op{
			opDelegate("A", "S0", 500_001), opDelegate("B", "S0", 333_333),
			opUndelegateAll("A", "S0", 0), opUndelegateAll("S0", "S0", 0),
			opPayout("S0", rewA), opSlash("S0", slU), opWithdraw("A", "S0"), blockOp(100),
		}
	}
	gen = append(gen, base("delegation-one-validator", 6, 8, narrow, nil))
	rewards = []*Scenario{base("rewards-one-validator", 6, 8, func(*Env) []*Op {
		return []*Op{
			opDelegate("A", "S0", 500_001), opDelegate("B", "S0", 333_333),
			opUndelegateAll("A", "S0", 0), opUndelegate("S0", "S0", 400_000),
			opPayout("S0", rewA), opSlash("S0", slV), opWithdraw("A", "S0"), opWithdraw("S0", "S0"), blockOp(100),
		}
	}, nil), base("rewards-two-validators", 4, 5, mixed, nil)}
	slash = []*Scenario{base("slash-one-validator", 6, 8, func(*Env) []*Op {
		return []*Op{
			opDelegate("A", "S0", 500_001), opDelegate("B", "S1", 333_333), opUndelegate("A", "S0", 300_000),
			opUndelegateAll("S0", "S0", 0), opPayout("S0", rewA),
			opSlash("S0", slV), opSlash("S0", slU), opSlash("S1", slT), blockOp(100),
		}
	}, nil), base("slash-fractions", 4, 5, func(*Env) []*Op {
		return []*Op{
			opDelegate("A", "S0", 500_001), opDelegate("A", "S1", 7), opDelegate("S1", "S0", 9_999), opRedelegateAll("A", "S0", "S1"), opUndelegateAll("A", "S0", 0),
			opSlash("S0", slV), opSlash("S0", slU), opSlash("S0", slT), opSlash("S1", slV), opSlash("S1", slU), opSlash("S1", slT),
			opDelegationParams("full", `{"vote_slash":"1","upload_slash":"0","timeout_slash":"0.999999999999999999"}`),
			opWithdraw("A", "S0"), opCreateStaker("S9", 42), opDelegate("B", "S9", 1), opSlash("S9", slU), blockOp(100),
		}
	}, nil)}
	unb = []*Scenario{base("unbonding-two-delegators", 5, 7, func(*Env) []*Op {
		return []*Op{
			opUndelegate("A", "S0", 300_000), opUndelegateAll("A", "S0", 0), opUndelegateAll("A", "S0", 1), opUndelegateAll("B", "S0", 0), opUndelegate("B", "S1", 50_000),
			opRedelegateAll("A", "S0", "S1"), opSlash("S0", slU), opPayout("S0", rewA),
			blockOp(1), blockOp(50), blockOp(99), blockOp(100),
		}
	}, func(e *Env, ctx sdk.Context) sdk.Context {
		ctx = delegationBase(e, ctx)
		e.delegate(ctx, "A", "S0", 500_001)
		e.delegate(ctx, "B", "S0", 90_001)
		e.delegate(ctx, "B", "S1", 100_000)
		return ctx
	}), base("unbonding-params", 5, 6, func(*Env) []*Op {
		return []*Op{
			opUndelegate("A", "S0", 300_000), opUndelegateAll("B", "S1", 0), opUndelegateAll("S1", "S0", 0), opUndelegate("A", "S0", 0), opDelegate("A", "S0", 1000),
			opUndelegate("S0", "S0", 1<<63), opUndelegate("A", "S9", 1), opWithdraw("A", "S0"),
			opDelegationParams("unb=20", `{"unbonding_delegation_time":20}`), opDelegationParams("unb=0", `{"unbonding_delegation_time":0}`),
			blockOp(19), blockOp(20), blockOp(80), blockOp(101), blockOp(100000),
		}
	}, func(e *Env, ctx sdk.Context) sdk.Context {
		ctx = delegationBase(e, ctx)
		e.delegate(ctx, "A", "S0", 500_001)
		e.delegate(ctx, "B", "S1", 100_000)
		e.delegate(ctx, "S1", "S0", 40_000)
		return ctx
	})}
	redel = []*Scenario{base("redelegation", 6, 7, func(*Env) []*Op {
		return []*Op{
			opRedelegate("A", "S0", "S1", 100_001), opRedelegate("A", "S1", "S0", 50_000), opRedelegate("B", "S0", "S1", 3), opRedelegate("A", "S0", "S2", 10),
			blockOp(1), blockOp(50), blockOp(99), blockOp(100),
		}
	}, func(e *Env, ctx sdk.Context) sdk.Context {
		ctx = delegationBase(e, ctx)
		e.delegate(ctx, "A", "S0", 500_001)
		e.delegate(ctx, "B", "S0", 90_001)
		return ctx
	}), base("redelegation-params", 4, 5, func(*Env) []*Op {
		return []*Op{
			opRedelegate("A", "S0", "S1", 100_001), opRedelegateAll("A", "S0", "S1"), opRedelegate("A", "S1", "S0", 50_000), opRedelegate("A", "S1", "S1", 1),
			opRedelegate("A", "S0", "S9", 1), opRedelegate("A", "S2", "S0", 1), opRedelegate("A", "S0", "S1", 500_002), opRedelegate("A", "S0", "S1", 0),
			opLeave("S1", 0), opJoin("S2", 1, "V2", 1), opRedelegate("A", "S0", "S2", 7),
			opRedelegate("S0", "S0", "S1", 9), opRedelegate("S1", "S1", "S0", 8),
			opUndelegateAll("A", "S0", 0), opSlash("S0", slU), opPayout("S0", rewA), opDelegate("A", "S2", 5),
			opDelegationParams("max=1", `{"redelegation_max_amount":1}`), opDelegationParams("max=5", `{"redelegation_max_amount":5}`),
			opDelegationParams("cool=0", `{"redelegation_cooldown":0}`), opDelegationParams("cool=40", `{"redelegation_cooldown":40}`),
			blockOp(1), blockOp(40), blockOp(41), blockOp(100), blockOp(101), blockOp(432001),
		}
	}, func(e *Env, ctx sdk.Context) sdk.Context {
		ctx = delegationBase(e, ctx)
		e.delegate(ctx, "A", "S0", 500_001)
		e.delegate(ctx, "B", "S0", 90_001)
		return ctx
	})}
	// every age of the spells already used, for allowances of one to three
	ages := []int64{0, 1, 50, 99, 100, 101, 102, 150, 1000}
	type spells struct {
		max uint64
		at  []int64 // ages, oldest first
	}
	var hist []spells
	for max := uint64(1); max <= 3; max++ {
		for i := len(ages) - 1; i >= 0; i-- {
			hist = append(hist, spells{max, []int64{ages[i]}})
			for j := i - 1; j >= 0 && max > 1; j-- {
				hist = append(hist, spells{max, []int64{ages[i], ages[j]}})
				for k := j - 1; k >= 0 && max > 2; k-- {
					hist = append(hist, spells{max, []int64{ages[i], ages[j], ages[k]}})
				}
			}
		}
	}
	old := base("redelegation-ages", 4, 6, func(*Env) []*Op {
		return []*Op{
			opRedelegate("A", "S0", "S1", 101), opRedelegate("B", "S0", "S1", 3), blockOp(1), blockOp(49),
			opDelegationParams("max=2", `{"redelegation_max_amount":2}`), opDelegationParams("cool=50", `{"redelegation_cooldown":50}`),
		}
	}, func(e *Env, ctx sdk.Context) sdk.Context {
		ctx = delegationBase(e, ctx)
		e.delegate(ctx, "A", "S0", 500_001)
		e.delegate(ctx, "B", "S0", 90_001)
		return ctx
	})
	old.InitN = len(hist)
	old.Note = "one to three earlier redelegations of every combination of ages around the cooldown, allowances of one to three, then redelegations, blocks and parameter changes"
	old.Init = func(e *Env, ctx sdk.Context, i int) (sdk.Context, string) {
		x := hist[i]
		p := e.App.DelegationKeeper.GetParams(ctx)
		long := p
		long.RedelegationMaxAmount, long.RedelegationCooldown = 10, 100_000
		e.App.DelegationKeeper.SetParams(ctx, long)
		for n, a := range x.at {
			e.must(ctx, &delegationtypes.MsgRedelegate{Creator: acc("A"), FromStaker: acc("S0"), ToStaker: acc("S1"), Amount: 10})
			next := int64(0)
			if n+1 < len(x.at) {
				next = x.at[n+1]
			}
			if a > next {
				ctx = e.block(ctx, a-next)
			}
		}
		p.RedelegationMaxAmount = x.max
		e.App.DelegationKeeper.SetParams(ctx, p)
		return ctx, fmt.Sprintf("%+v", x)
	}
	redel = append(redel, old)
	return
}

var assumeCommon = []string{
	"operations are delivered through the application's message router exactly as a block would deliver them; signature checking, mempool and consensus are not part of the explored space",
	"keeper-level payout and slash operations stand for the calls the bundles module makes; the bundle scenarios exercise the real callers",
	"parameters are set small so that boundaries are reached in few steps; the code is the unmodified implementation",
}

func buildDelegation() {
	gen, rew, sl, unb, redel := delegationScenarios()
	gen = append(gen, latePeriods(gen[1], 8, 4, 6), latePeriods(gen[1], 253, 4, 6))
	rew = append(rew, latePeriods(rew[0], 8, 4, 6), latePeriods(rew[0], 253, 4, 6))
	sl = append(sl, latePeriods(sl[0], 8, 4, 6), latePeriods(sl[0], 253, 4, 6))
	unb = append(unb, lateQueues(unb[0], 8, 4, 6), lateQueues(unb[0], 254, 4, 6))
	register(&Property{ID: "D01", Scenarios: gen, Rules: []Rule{ruleStakeFrame, ruleStakeBalances, ruleDelegateAllowed}, States: []StateRule{stateBacking}, Assume: assumeCommon})
	register(&Property{ID: "D02", Scenarios: rew, Rules: []Rule{ruleRewards, ruleWithdrawAllowed}, States: []StateRule{stateBacking}, Assume: assumeCommon})
	register(&Property{ID: "D03", Scenarios: sl, Rules: []Rule{ruleSlash}, States: []StateRule{stateBacking}, Assume: assumeCommon})
	register(&Property{ID: "D04", Scenarios: unb, Rules: []Rule{ruleUnbonding}, States: []StateRule{stateBacking}, Assume: assumeCommon})
	register(&Property{ID: "D05", Scenarios: redel, Rules: []Rule{ruleRedelegation}, States: []StateRule{stateBacking}, Assume: assumeCommon})
}

// ruleDelegateAllowed: delegating succeeds exactly when the validator exists and the funds suffice.
func ruleDelegateAllowed(e *Env, st *Step, fail Fail) {
	if st.Phase != "op" {
		return
	}
	if m, ok := st.Msg.(*delegationtypes.MsgDelegate); ok {
		_, ex := st.Pre.Stakers[m.Staker]
		can := ex && m.Amount <= st.Pre.B(m.Creator, DENOM) && m.Amount < 1<<63
		if can != st.OK() {
			fail("delegate-permission", "%s: expected allowed=%v, result %v", st.Op.Name, can, st.Err)
		}
	}
}
