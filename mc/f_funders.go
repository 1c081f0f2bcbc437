package main

// Funders: F01 custody, F02 charging, F03 slots and minimums.

import (
	"fmt"
	"sort"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
)

// fsim is the reference result of one funders operation.
type fsim struct {
	fund     map[PF]funderstypes.Funding
	active   map[uint64]map[string]bool
	in       map[string]sdk.Coins // paid by an account into custody
	out      map[string]sdk.Coins // paid out of custody
	refuse   string
	displace []string // any one of these may be displaced (refunded)
	dpool    uint64
	charged  sdk.Coins
}

func scoreOf(s *Snap, amounts sdk.Coins) math.Int {
	t := math.ZeroInt()
	for _, c := range amounts {
		w := s.Whitelist(c.Denom)
		if w == nil {
			continue
		}
		unit := math.LegacyOneDec()
		for i := uint32(0); i < w.CoinDecimals; i++ {
			unit = unit.MulInt64(10)
		}
		t = t.Add(w.CoinWeight.MulInt(c.Amount).Quo(unit).TruncateInt())
	}
	return t
}

// fundingOK says why a funding does not meet the module's conditions ("" if it does).
func fundingOK(s *Snap, f funderstypes.Funding) string {
	for _, c := range f.Amounts {
		w := s.Whitelist(c.Denom)
		per := f.AmountsPerBundle.AmountOf(c.Denom)
		switch {
		case !per.IsPositive():
			return "no amount per bundle for " + c.Denom
		case w == nil:
			return c.Denom + " is not whitelisted"
		case c.Amount.LT(w.MinFundingAmount):
			return c.Denom + " below the minimum amount"
		case per.LT(w.MinFundingAmountPerBundle):
			return c.Denom + " below the minimum per bundle"
		case c.Amount.LT(per.Mul(math.NewIntFromUint64(s.FundersG.Params.MinFundingMultiple))):
			return c.Denom + " below the funding multiple"
		}
	}
	return ""
}

func cleanPer(f funderstypes.Funding) funderstypes.Funding {
	l := sdk.NewCoins()
	for _, c := range f.AmountsPerBundle {
		if f.Amounts.AmountOf(c.Denom).IsPositive() {
			l = l.Add(c)
		}
	}
	f.AmountsPerBundle = l
	return f
}

func simFunders(st *Step) *fsim {
	pre := st.Pre
	b := &fsim{fund: map[PF]funderstypes.Funding{}, active: map[uint64]map[string]bool{}, in: map[string]sdk.Coins{}, out: map[string]sdk.Coins{}}
	for k, v := range pre.Fund {
		b.fund[k] = v
	}
	for p, l := range pre.FState {
		b.active[p] = map[string]bool{}
		for _, a := range l {
			b.active[p][a] = true
		}
	}
	if st.Phase != "op" {
		return b
	}
	if st.Op.Kind == "charge" {
		p := st.Op.P
		for _, f := range sortedKeys(b.active[p]) {
			x := b.fund[PF{p, f}]
			c := sdk.NewCoins()
			for _, w := range pre.FundersG.Params.CoinWhitelist {
				a := math.MinInt(x.Amounts.AmountOf(w.CoinDenom), x.AmountsPerBundle.AmountOf(w.CoinDenom))
				if a.IsPositive() && c.AmountOf(w.CoinDenom).IsZero() {
					c = c.Add(sdk.NewCoin(w.CoinDenom, a))
				}
			}
			x.Amounts = x.Amounts.Sub(c...)
			x.TotalFunded = x.TotalFunded.Add(c...)
			x = cleanPer(x)
			b.fund[PF{p, f}] = x
			if x.Amounts.IsZero() {
				delete(b.active[p], f)
			}
			b.charged = b.charged.Add(c...)
		}
		b.out[modAddr(pooltypes.ModuleName)] = b.charged
		return b
	}
	switch m := st.Msg.(type) {
	case *funderstypes.MsgFundPool:
		k := PF{m.PoolId, m.Creator}
		if !knownFunder(pre, m.Creator) {
			b.refuse = "not a funder"
			return b
		}
		if _, ok := pre.Pools[m.PoolId]; !ok {
			b.refuse = "unknown pool"
			return b
		}
		if m.Amounts.Validate() != nil || m.AmountsPerBundle.Validate() != nil {
			b.refuse = "not a valid list of coins"
			return b
		}
		if m.Amounts.Empty() && m.AmountsPerBundle.Empty() {
			b.refuse = "nothing stated"
			return b
		}
		x, ok := pre.Fund[k]
		if !ok {
			x = funderstypes.Funding{FunderAddress: m.Creator, PoolId: m.PoolId, TotalFunded: sdk.NewCoins()}
		}
		x.Amounts = sdk.NewCoins(x.Amounts...).Add(m.Amounts...)
		per := m.AmountsPerBundle
		for _, c := range x.AmountsPerBundle {
			if per.AmountOf(c.Denom).IsZero() {
				per = per.Add(c)
			}
		}
		x.AmountsPerBundle = per
		x = cleanPer(x)
		if x.Amounts.IsZero() {
			b.refuse = "nothing to fund with"
			return b
		}
		if b.refuse = fundingOK(pre, x); b.refuse != "" {
			return b
		}
		if !b.active[m.PoolId][m.Creator] && len(b.active[m.PoolId]) >= funderstypes.MaxFunders {
			low := math.Int{}
			for f := range b.active[m.PoolId] {
				if s := scoreOf(pre, pre.Fund[PF{m.PoolId, f}].Amounts); low.IsNil() || s.LT(low) {
					low = s
				}
			}
			if scoreOf(pre, x.Amounts).LT(low) {
				b.refuse = "all slots are taken by higher fundings"
				return b
			}
			for _, f := range sortedKeys(b.active[m.PoolId]) {
				if scoreOf(pre, pre.Fund[PF{m.PoolId, f}].Amounts).Equal(low) {
					b.displace = append(b.displace, f)
				}
			}
			b.dpool = m.PoolId
		}
		bal := pre.Bal[m.Creator]
		if !sdk.NewCoins(bal...).IsAllGTE(m.Amounts) {
			b.refuse = "insufficient balance"
			return b
		}
		b.fund[k] = x
		if b.active[m.PoolId] == nil {
			b.active[m.PoolId] = map[string]bool{}
		}
		b.active[m.PoolId][m.Creator] = true
		b.in[m.Creator] = m.Amounts
	case *funderstypes.MsgDefundPool:
		k := PF{m.PoolId, m.Creator}
		x, ok := pre.Fund[k]
		if !ok {
			b.refuse = "no such funding"
			return b
		}
		if m.Amounts.Validate() != nil {
			b.refuse = "not a valid list of coins"
			return b
		}
		amt := sdk.NewCoins()
		for _, c := range m.Amounts {
			a := math.MinInt(c.Amount, x.Amounts.AmountOf(c.Denom))
			if a.IsPositive() {
				amt = amt.Add(sdk.NewCoin(c.Denom, a))
			}
		}
		if amt.IsZero() {
			b.refuse = "nothing to defund"
			return b
		}
		x.Amounts = x.Amounts.Sub(amt...)
		x = cleanPer(x)
		if b.refuse = fundingOK(pre, x); b.refuse != "" {
			return b
		}
		b.fund[k] = x
		if x.Amounts.IsZero() {
			delete(b.active[m.PoolId], m.Creator)
		}
		b.out[m.Creator] = amt
	}
	return b
}

func knownFunder(s *Snap, a string) bool {
	for _, f := range s.FundersG.FunderList {
		if f.Address == a {
			return true
		}
	}
	return false
}

// displaced resolves which of the permitted funders was displaced.
func (b *fsim) resolve(st *Step) {
	if len(b.displace) == 0 || st.Post == nil {
		return
	}
	who := b.displace[0]
	for _, f := range b.displace {
		if st.Post.Fund[PF{b.dpool, f}].Amounts.IsZero() {
			who = f
			break
		}
	}
	k := PF{b.dpool, who}
	x := b.fund[k]
	b.out[who] = b.out[who].Add(x.Amounts...)
	x.Amounts, x.AmountsPerBundle = sdk.NewCoins(), sdk.NewCoins()
	b.fund[k] = x
	delete(b.active[b.dpool], who)
	b.displace = nil
}

func pfKeys(a, b map[PF]funderstypes.Funding) (l []PF) {
	m := map[PF]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].P != l[j].P {
			return l[i].P < l[j].P
		}
		return l[i].F < l[j].F
	})
	return
}

func coinsEq(a, b sdk.Coins) bool { return sdk.NewCoins(a...).Equal(sdk.NewCoins(b...)) }


// ruleCustody (F01): exact movement, frame.
func ruleCustody(e *Env, st *Step, fail Fail) {
	if st.Post == nil || !st.OK() {
		return
	}
	b := simFunders(st)
	if b.refuse != "" {
		return // F03
	}
	b.resolve(st)
	for _, k := range pfKeys(b.fund, st.Post.Fund) {
		if g, w := st.Post.Fund[k].Amounts, b.fund[k].Amounts; !coinsEq(g, w) {
			fail("remaining", "%s: remaining funding of %s in pool %d is %s, expected %s (was %s)", where(st), lab(k.F), k.P, g, w, st.Pre.Fund[k].Amounts)
		}
	}
	if st.Phase != "op" {
		return
	}
	cust := modAddr(funderstypes.ModuleName)
	checkBalances(st, fail, "custody", func(addr, denom string, pre uint64) (uint64, uint64) {
		w := int64(pre)
		if addr == cust {
			for _, c := range b.in {
				w += c.AmountOf(denom).Int64()
			}
			for _, c := range b.out {
				w -= c.AmountOf(denom).Int64()
			}
			return uint64(w), 0
		}
		return uint64(w - b.in[addr].AmountOf(denom).Int64() + b.out[addr].AmountOf(denom).Int64()), 0
	})
}

func stateCustody(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
	sum := sdk.NewCoins()
	for _, f := range s.Fund {
		sum = sum.Add(f.Amounts...)
	}
	if have := sdk.NewCoins(s.Mod(funderstypes.ModuleName)...); !have.Equal(sum) {
		fail("custody-sum", "the funders account holds %s but remaining fundings are %s", have, sum)
	}
}

// ruleCharge (F02)
func ruleCharge(e *Env, st *Step, fail Fail) {
	if st.Post == nil {
		return
	}
	if st.Op.Kind == "charge" && !st.OK() {
		fail("charge-fails", "%s: charging fails: %v %s", where(st), st.Err, st.Panic)
		return
	}
	if !st.OK() {
		return
	}
	if bundleStep(st) {
		ruleBundleCharge(st, fail)
		return
	}
	b := simFunders(st)
	if b.refuse != "" {
		return
	}
	b.resolve(st)
	for _, k := range pfKeys(b.fund, st.Post.Fund) {
		g, w := st.Post.Fund[k], b.fund[k]
		if !coinsEq(g.Amounts, w.Amounts) || !coinsEq(g.TotalFunded, w.TotalFunded) {
			fail("charged", "%s: %s in pool %d has %s left and %s charged in total, expected %s and %s", where(st), lab(k.F), k.P, g.Amounts, g.TotalFunded, w.Amounts, w.TotalFunded)
		}
		if !coinsEq(g.AmountsPerBundle, w.AmountsPerBundle) {
			fail("per-bundle", "%s: agreed amounts per bundle of %s in pool %d are %s, expected %s", where(st), lab(k.F), k.P, g.AmountsPerBundle, w.AmountsPerBundle)
		}
	}
	if st.Op.Kind == "charge" {
		got := sdk.NewCoins(st.Post.Mod(pooltypes.ModuleName)...)
		want := sdk.NewCoins(st.Pre.Mod(pooltypes.ModuleName)...).Add(b.charged...)
		if !got.Equal(want) {
			fail("received", "%s: the pool module holds %s, expected %s", where(st), got, want)
		}
	}
}

// ruleBundleCharge: the charge as part of a real bundle acceptance.
func ruleBundleCharge(st *Step, fail Fail) {
	b, ok := simOf(st)
	if !ok || b.refuse != "" {
		return
	}
	for _, k := range pfKeys(b.fund, st.Post.Fund) {
		g, w := st.Post.Fund[k], b.fund[k]
		if !coinsEq(g.Amounts, w.Amounts) || !coinsEq(g.TotalFunded, w.TotalFunded) {
			fail("charged", "%s: %s in pool %d has %s left and %s charged in total, expected %s and %s", where(st), lab(k.F), k.P, g.Amounts, g.TotalFunded, w.Amounts, w.TotalFunded)
		}
	}
	for p := range st.Post.Pools {
		g := append([]string{}, st.Post.FState[p]...)
		w := append([]string{}, b.active[p]...)
		sort.Strings(g)
		sort.Strings(w)
		if fmt.Sprint(g) != fmt.Sprint(w) {
			fail("active-set", "%s: active funders of pool %d are %s, expected %s", where(st), p, labs(g), labs(w))
		}
	}
}

func stateActive(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
	for p := range s.Pools {
		seen := map[string]bool{}
		for _, f := range s.FState[p] {
			if seen[f] {
				fail("active-twice", "pool %d lists %s twice as active", p, lab(f))
			}
			seen[f] = true
			if s.Fund[PF{p, f}].Amounts.IsZero() {
				fail("active-empty", "pool %d lists %s as active but nothing remains", p, lab(f))
			}
		}
		for k, f := range s.Fund {
			if k.P == p && !f.Amounts.IsZero() && !seen[k.F] {
				fail("active-missing", "%s has %s left in pool %d but is not active", lab(k.F), f.Amounts, p)
			}
		}
	}
}

// ruleSlots (F03)
func ruleSlots(e *Env, st *Step, fail Fail) {
	if st.Post == nil || st.Phase != "op" || st.Panic != "" {
		return
	}
	switch st.Msg.(type) {
	case *funderstypes.MsgFundPool, *funderstypes.MsgDefundPool:
	default:
		return
	}
	b := simFunders(st)
	if b.refuse != "" {
		if st.Err == nil {
			fail("accepted", "%s is accepted but must be refused: %s", where(st), b.refuse)
		}
		return
	}
	if st.Err != nil {
		fail("refused", "%s is refused (%v) but must be accepted", where(st), st.Err)
		return
	}
	d := b.displace
	b.resolve(st)
	for p := range st.Post.Pools {
		got := map[string]bool{}
		for _, a := range st.Post.FState[p] {
			got[a] = true
		}
		for f := range b.active[p] {
			if !got[f] {
				fail("displaced", "%s: %s lost its slot in pool %d (may be displaced: %s)", where(st), lab(f), p, labs(d))
			}
		}
		for f := range got {
			if !b.active[p][f] {
				fail("not-displaced", "%s: %s holds a slot in pool %d but should not", where(st), lab(f), p)
			}
		}
	}
	for _, k := range pfKeys(b.fund, st.Post.Fund) {
		g, w := st.Post.Fund[k], b.fund[k]
		if !coinsEq(g.Amounts, w.Amounts) || !coinsEq(g.AmountsPerBundle, w.AmountsPerBundle) {
			fail("terms", "%s: funding of %s in pool %d is %s per %s, expected %s per %s", where(st), lab(k.F), k.P, g.Amounts, g.AmountsPerBundle, w.Amounts, w.AmountsPerBundle)
		}
	}
}

func stateSlots(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
	for p, l := range s.FState {
		if len(l) > funderstypes.MaxFunders || len(l) > 50 {
			fail("too-many", "pool %d has %d active funders", p, len(l))
		}
	}
}

// --- operations ---------------------------------------------------------------------

func opCharge(p uint64) *Op {
	return &Op{Name: fmt.Sprintf("charge(pool%d)", p), Kind: "charge", P: p, Fn: func(e *Env, ctx sdk.Context) error {
		_, err := e.App.FundersKeeper.ChargeFundersOfPool(ctx, p, pooltypes.ModuleName)
		return err
	}}
}

func opWhitelist(name string, l ...funderstypes.WhitelistCoinEntry) *Op {
	return &Op{Name: "whitelist(" + name + ")", Kind: "whitelist", Fn: func(e *Env, ctx sdk.Context) error {
		e.setWhitelist(ctx, l...)
		return nil
	}}
}

func coins2(k ...any) sdk.Coins {
	c := sdk.NewCoins()
	for i := 0; i < len(k); i += 2 {
		c = c.Add(coin(k[i].(string), uint64(k[i+1].(int))))
	}
	return c
}

func fundersGen() GenCfg {
	all := sdk.NewCoins(coin(DENOM, 1000*K), coin(ADENOM, 1000*K), coin(BDENOM, 1000*K), coin(CDENOM, 1000*K))
	m := funded(all, "F1", "F2", "F3", "F4", "G")
	m["F5"] = coins2(ADENOM, 150)
	return GenCfg{Funded: m}
}

func (e *Env) fundersBase(ctx sdk.Context, funders ...string) sdk.Context {
	e.createPool(ctx, poolCfg{Name: "p0"})
	e.createPool(ctx, poolCfg{Name: "p1"})
	for _, f := range funders {
		e.do(ctx, opCreateFunder(f))
	}
	// decimals 0 so that small amounts have different scores
	e.setWhitelist(ctx, wl(DENOM, 6, 10, 1, "1"), wl(ADENOM, 1, 100, 10, "1"), wl(BDENOM, 0, 50, 5, "2"))
	fp := e.App.FundersKeeper.GetParams(ctx)
	fp.MinFundingMultiple = 5
	e.App.FundersKeeper.SetParams(ctx, fp)
	return ctx
}

func fundersFlow(q, th int) *Scenario {
	return &Scenario{Name: "funders-flow", Gen: fundersGen(), Quick: q, Thor: th,
		Note: "two funders, two pools, three coins: deposits, top-ups, changed terms, partial and full defunding, charges to exhaustion, coins leaving the whitelist",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			return e.fundersBase(ctx, "F1", "F2")
		},
		Ops: func(e *Env) []*Op {
			return []*Op{
				opFund("F1", 0, coins2(ADENOM, 100), coins2(ADENOM, 20)),
				opFund("F1", 0, coins2(ADENOM, 35, BDENOM, 61), coins2(ADENOM, 13, BDENOM, 12)),
				opFund("F1", 1, coins2(BDENOM, 50), coins2(BDENOM, 10)),
				opFund("F2", 0, coins2(ADENOM, 101, BDENOM, 77, DENOM, 33), coins2(ADENOM, 19, BDENOM, 15, DENOM, 5)),
				opFund("F1", 0, nil, coins2(ADENOM, 17, BDENOM, 9)),
				opDefund("F1", 0, coins2(ADENOM, 35)),
				opDefund("F1", 0, coins2(ADENOM, 1000, BDENOM, 1000)),
				opDefund("F2", 0, coins2(BDENOM, 100, DENOM, 1)),
				opDefund("F1", 1, coins2(ADENOM, 7, BDENOM, 50)),
				opCharge(0), opCharge(1),
				opWhitelist("without bcoin", wl(DENOM, 6, 10, 1, "1"), wl(ADENOM, 1, 100, 10, "1")),
				blockOp(5),
			}
		}}
}

// every deposit around every minimum against every existing funding
func fundersMinimums() *Scenario {
	type amt struct{ a, b, c int }
	amts := []amt{{0, 0, 0}, {99, 0, 0}, {100, 0, 0}, {101, 0, 0}, {0, 49, 0}, {0, 50, 0}, {100, 50, 0}, {99, 50, 0}, {100, 49, 0}, {1, 1, 0}, {0, 0, 100}, {100, 0, 100}, {500, 500, 0}}
	pers := []amt{{0, 0, 0}, {9, 0, 0}, {10, 0, 0}, {20, 0, 0}, {21, 0, 0}, {0, 4, 0}, {0, 5, 0}, {0, 10, 0}, {0, 11, 0}, {20, 10, 0}, {20, 11, 0}, {21, 10, 0}, {0, 0, 10}, {20, 0, 10}, {100, 100, 0}, {101, 100, 0}}
	cs := func(x amt) sdk.Coins {
		return coins2(ADENOM, x.a, BDENOM, x.b, CDENOM, x.c)
	}
	inits := []string{"none", "a", "ab", "charged", "exhausted", "dewhitelisted", "multiple0", "multiple1"}
	return &Scenario{Name: "funders-minimums", Gen: fundersGen(), Quick: 2, Thor: 3, InitN: len(inits),
		Note: "every deposit and withdrawal around each coin's minimum amount, minimum per bundle and funding multiple, against every kind of existing funding",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = e.fundersBase(ctx, "F1", "F2", "F5")
			e.do(ctx, opFund("F2", 0, coins2(ADENOM, 100), coins2(ADENOM, 20)))
			return ctx
		},
		Init: func(e *Env, ctx sdk.Context, i int) (sdk.Context, string) {
			fp := e.App.FundersKeeper.GetParams(ctx)
			switch inits[i] {
			case "a":
				e.do(ctx, opFund("F1", 0, coins2(ADENOM, 100), coins2(ADENOM, 20)))
			case "ab":
				e.do(ctx, opFund("F1", 0, coins2(ADENOM, 120, BDENOM, 60), coins2(ADENOM, 20, BDENOM, 10)))
			case "charged":
				e.do(ctx, opFund("F1", 0, coins2(ADENOM, 100, BDENOM, 50), coins2(ADENOM, 20, BDENOM, 10)))
				e.do(ctx, opCharge(0))
			case "exhausted":
				e.do(ctx, opFund("F1", 0, coins2(ADENOM, 100), coins2(ADENOM, 20)))
				for j := 0; j < 5; j++ {
					e.do(ctx, opCharge(0))
				}
			case "dewhitelisted":
				e.do(ctx, opFund("F1", 0, coins2(ADENOM, 120, BDENOM, 60), coins2(ADENOM, 20, BDENOM, 10)))
				e.setWhitelist(ctx, wl(DENOM, 6, 10, 1, "1"), wl(ADENOM, 1, 100, 10, "1"))
			case "multiple0":
				fp.MinFundingMultiple = 0
				e.App.FundersKeeper.SetParams(ctx, fp)
			case "multiple1":
				fp.MinFundingMultiple = 1
				e.App.FundersKeeper.SetParams(ctx, fp)
			}
			return ctx, inits[i]
		},
		Ops: func(e *Env) []*Op {
			var l []*Op
			for _, a := range amts {
				for _, p := range pers {
					l = append(l, opFund("F1", 0, cs(a), cs(p)))
				}
				if a != (amt{}) {
					l = append(l, opDefund("F1", 0, cs(a)))
				}
			}
			for _, a := range []amt{{1, 0, 0}, {20, 0, 0}, {21, 0, 0}, {120, 0, 0}, {0, 10, 0}, {0, 11, 0}, {0, 60, 0}, {20, 60, 0}, {120, 60, 0}, {120, 60, 7}} {
				l = append(l, opDefund("F1", 0, cs(a)))
			}
			l = append(l, opFund("F1", 9, coins2(ADENOM, 100), coins2(ADENOM, 20)), opFund("F3", 0, coins2(ADENOM, 100), coins2(ADENOM, 20)),
				opDefund("F3", 0, coins2(ADENOM, 100)), opDefund("F1", 1, coins2(ADENOM, 100)), opDefund("F1", 9, coins2(ADENOM, 100)),
				opFund("F5", 0, coins2(ADENOM, 150), coins2(ADENOM, 20)), opFund("F5", 0, coins2(ADENOM, 151), coins2(ADENOM, 20)),
				opFund("F1", 0, sdk.Coins{{Denom: ADENOM, Amount: math.NewInt(-100)}}, coins2(ADENOM, 20)),
				opDefund("F1", 0, sdk.Coins{{Denom: ADENOM, Amount: math.NewInt(-1)}}),
				opCreateFunder("F1"), opCharge(0))
			return l
		}}
}

// who runs out when: every combination of three funders lasting for 0-3 bundles in one or two coins
func fundersExhaustion(q, th int) *Scenario {
	type fund struct {
		n    string
		a, p sdk.Coins
	}
	kinds := []fund{{"nothing", nil, nil},
		{"a for 1", coins2(ADENOM, 10), coins2(ADENOM, 10)}, {"a for 2", coins2(ADENOM, 20), coins2(ADENOM, 10)}, {"a for 2 and a bit", coins2(ADENOM, 25), coins2(ADENOM, 10)},
		{"b for 1", coins2(BDENOM, 7), coins2(BDENOM, 7)}, {"a for 1 b for 3", coins2(ADENOM, 10, BDENOM, 21), coins2(ADENOM, 10, BDENOM, 7)}, {"a for 3 b for 1", coins2(ADENOM, 30, BDENOM, 7), coins2(ADENOM, 10, BDENOM, 7)}}
	n := len(kinds)
	return &Scenario{Name: "funders-exhaustion", Gen: fundersGen(), Quick: q, Thor: th, InitN: n * n * n,
		Note: "three funders whose coins last for 0-3 bundles in one or two coins, in every combination, charged until nothing is left, topped up and withdrawn in between",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = e.fundersBase(ctx, "F1", "F2", "F3")
			e.setWhitelist(ctx, wl(DENOM, 6, 1, 1, "1"), wl(ADENOM, 1, 1, 1, "1"), wl(BDENOM, 0, 1, 1, "2"))
			fp := e.App.FundersKeeper.GetParams(ctx)
			fp.MinFundingMultiple = 1
			e.App.FundersKeeper.SetParams(ctx, fp)
			return ctx
		},
		Init: func(e *Env, ctx sdk.Context, i int) (sdk.Context, string) {
			name := ""
			for f, k := range digits(i, []int{n, n, n}) {
				if x := kinds[k]; x.a != nil {
					e.do(ctx, opFund(fmt.Sprintf("F%d", f+1), 0, x.a, x.p))
				}
				name += fmt.Sprintf("F%d %s ", f+1, kinds[k].n)
			}
			return ctx, name
		},
		Ops: func(e *Env) []*Op {
			return []*Op{opCharge(0), opFund("F2", 0, coins2(BDENOM, 7), coins2(BDENOM, 7)), opDefund("F1", 0, coins2(ADENOM, 10))}
		}}
}

// slots around the limit
func fundersSlots() *Scenario {
	filler := func(i int) string { return fmt.Sprintf("X%02d", i) }
	gen := fundersGen()
	for i := 0; i < 47; i++ {
		gen.Funded[filler(i)] = coins2(ADENOM, 10000, DENOM, 10000)
	}
	return &Scenario{Name: "funders-slots", Gen: gen, Quick: 5, Thor: 7, Feat: Features{NoRewards: true},
		Note: "48 occupied slots; three more funders and the lowest fillers fund, top up, change terms, defund and get charged around the limit with scores below, equal to and above the lowest",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = e.fundersBase(ctx, "F1", "F2", "F3", "F4")
			for i := 0; i < 47; i++ {
				f := filler(i)
				e.do(ctx, opCreateFunder(f))
				a := 300 + 10*(i%5)
				// the native coin adds next to nothing to the score
				e.do(ctx, opFund(f, 0, coins2(ADENOM, a, DENOM, 100), coins2(ADENOM, 10, DENOM, 7)))
			}
			e.do(ctx, opFund("F1", 0, coins2(ADENOM, 200, DENOM, 50), coins2(ADENOM, 20, DENOM, 5)))
			return ctx
		},
		Ops: func(e *Env) []*Op {
			return []*Op{
				opFund("F1", 0, coins2(ADENOM, 10), nil),
				opFund("F2", 0, coins2(ADENOM, 100), coins2(ADENOM, 20)),
				opFund("F2", 0, coins2(ADENOM, 100, BDENOM, 50), coins2(ADENOM, 20, BDENOM, 10)),
				opFund("F3", 0, coins2(ADENOM, 199), coins2(ADENOM, 20)),
				opFund("F4", 0, coins2(ADENOM, 200), coins2(ADENOM, 40)),
				opFund("F4", 0, nil, coins2(ADENOM, 12)),
				opFund(filler(3), 0, coins2(ADENOM, 15), nil),
				opFund("F3", 1, coins2(ADENOM, 100), coins2(ADENOM, 20)),
				opDefund("F1", 0, coins2(ADENOM, 5000)),
				opDefund(filler(4), 0, coins2(ADENOM, 5000)),
				opCharge(0),
			}
		}}
}

// the value of fundings under every kind of coin weight and decimals
func fundersScores() *Scenario {
	filler := func(i int) string { return fmt.Sprintf("X%02d", i) }
	gen := fundersGen()
	for i := 0; i < 47; i++ {
		gen.Funded[filler(i)] = sdk.NewCoins(coin(ADENOM, 10*K), coin(BDENOM, 10*K))
	}
	type val struct {
		d uint32
		w string
	}
	vals := []val{{0, "0"}, {0, "1"}, {1, "0.7"}, {3, "1"}, {3, "0.06"}, {3, "100"}, {3, "33.333333"}, {6, "2000"}, {18, "1000000000000000000"}}
	var inits [][2]val
	for _, a := range vals {
		for _, b := range vals {
			inits = append(inits, [2]val{a, b})
		}
	}
	return &Scenario{Name: "funders-scores", Gen: gen, Quick: 2, Thor: 3, InitN: len(inits), Feat: Features{NoRewards: true},
		Note: "all 50 slots taken by fundings of different composition; every pair of decimals and weights of two coins; an outsider competes with amounts around the lowest and holders top up",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = e.fundersBase(ctx, "F1", "F2", "F3", "F4")
			for i := 0; i < 47; i++ {
				e.do(ctx, opCreateFunder(filler(i)))
				e.do(ctx, opFund(filler(i), 0, coins2(ADENOM, 40_000+i, BDENOM, 40_000-i), coins2(ADENOM, 10, BDENOM, 10)))
			}
			e.do(ctx, opFund("F1", 0, coins2(ADENOM, 1_999), coins2(ADENOM, 10)))
			e.do(ctx, opFund("F2", 0, coins2(BDENOM, 1_500), coins2(BDENOM, 10)))
			e.do(ctx, opFund("F3", 0, coins2(ADENOM, 500, BDENOM, 700), coins2(ADENOM, 10, BDENOM, 10)))
			return ctx
		},
		Init: func(e *Env, ctx sdk.Context, i int) (sdk.Context, string) {
			x := inits[i]
			e.setWhitelist(ctx, wl(DENOM, 6, 10, 1, "1"), wl(ADENOM, x[0].d, 1, 1, x[0].w), wl(BDENOM, x[1].d, 1, 1, x[1].w))
			return ctx, fmt.Sprintf("%+v", x)
		},
		Ops: func(e *Env) []*Op {
			var l []*Op
			for _, c := range []sdk.Coins{coins2(ADENOM, 1_998), coins2(ADENOM, 2_000), coins2(BDENOM, 1_499), coins2(BDENOM, 1_501), coins2(ADENOM, 999), coins2(ADENOM, 501, BDENOM, 701),
				coins2(ADENOM, 700, BDENOM, 500), coins2(ADENOM, 1_050), coins2(BDENOM, 950), coins2(ADENOM, 100_000, BDENOM, 1)} {
				per := sdk.NewCoins()
				for _, k := range c {
					per = per.Add(coin(k.Denom, 1))
				}
				l = append(l, opFund("F4", 0, c, per))
			}
			return append(l, opFund("F3", 0, coins2(ADENOM, 500), nil), opDefund("F1", 0, coins2(ADENOM, 1_500)), opCharge(0))
		}}
}

func buildFunders() {
	br := bundleRewards()
	br.Quick, br.Thor = 1, 2
	register(&Property{ID: "F01", Scenarios: []*Scenario{fundersFlow(7, 9), fundersSlots(), fundersMinimums()}, Rules: []Rule{ruleCustody}, States: []StateRule{stateCustody}})
	register(&Property{ID: "F02", Scenarios: []*Scenario{fundersFlow(7, 9), fundersExhaustion(4, 6), farPools(3, 4), manyPools(3, 4), fundersMinimums(), br}, Rules: []Rule{ruleCharge}, States: []StateRule{stateActive}})
	register(&Property{ID: "F03", Scenarios: []*Scenario{fundersMinimums(), fundersScores(), fundersSlots(), fundersFlow(6, 8)}, Rules: []Rule{ruleSlots}, States: []StateRule{stateSlots}})
}
