package main

// S04: registration and public profiles of validators and funders.

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
)

func validProfile(m *stakerstypes.MsgUpdateMetadata) string {
	for _, x := range []string{m.Moniker, m.Website, m.SecurityContact, m.Details} {
		if len(x) > 255 {
			return "a field of more than 255 bytes"
		}
	}
	if m.Identity != "" {
		if bz, err := hex.DecodeString(m.Identity); err != nil || len(bz) != 8 {
			return "an identity which is not a 64-bit hex string"
		}
	}
	return ""
}

func stakerRecs(l []stakerstypes.Staker) map[string]stakerstypes.Staker {
	m := map[string]stakerstypes.Staker{}
	for _, x := range l {
		m[x.Address] = x
	}
	return m
}

func funderRecs(l []funderstypes.Funder) map[string]funderstypes.Funder {
	m := map[string]funderstypes.Funder{}
	for _, x := range l {
		m[x.Address] = x
	}
	return m
}

func profileOf(x stakerstypes.Staker) string {
	return fmt.Sprintf("%q", []string{x.Address, x.Moniker, x.Website, x.Identity, x.SecurityContact, x.Details})
}

func funderOf(x funderstypes.Funder) string {
	return fmt.Sprintf("%q", []string{x.Address, x.Moniker, x.Identity, x.Website, x.Contact, x.Description})
}

// ruleProfiles (S04)
func ruleProfiles(e *Env, st *Step, fail Fail) {
	if st.Post == nil {
		return
	}
	if len(st.Post.StakersG.StakerList) != len(st.Post.Stakers) || len(st.Post.FundersG.FunderList) != len(funderRecs(st.Post.FundersG.FunderList)) {
		fail("twice", "%s: an account is registered twice", where(st))
	}
	wantS, wantF := stakerRecs(st.Pre.StakersG.StakerList), funderRecs(st.Pre.FundersG.FunderList)
	if st.Phase == "op" && st.Msg != nil {
		refuse, mine, moved := "", true, uint64(0)
		switch m := st.Msg.(type) {
		case *stakerstypes.MsgCreateStaker:
			c := m.Commission
			if c.IsNil() {
				c = dec("0.1")
			}
			switch {
			case c.IsNegative() || c.GT(math.LegacyOneDec()):
				refuse = "its commission is outside 0..1"
			case wantS[m.Creator].Address != "":
				refuse = "it is already a validator"
			case st.Pre.Bal[m.Creator].AmountOf(DENOM).LT(intU(m.Amount)):
				refuse = "its balance is too small"
			}
			wantS[m.Creator] = stakerstypes.Staker{Address: m.Creator, Commission: c}
			moved = m.Amount
			if refuse == "" && st.OK() {
				if x := st.Post.Stakers[m.Creator]; x.Commission.IsNil() || !x.Commission.Equal(c) || len(x.CommissionRewards) > 0 {
					fail("fresh", "%s: the new validator starts with commission %s and rewards %s", where(st), x.Commission, x.CommissionRewards)
				}
				if g := st.Post.DelTotal[m.Creator]; g != st.Pre.DelTotal[m.Creator]+m.Amount {
					fail("fresh", "%s: the new validator has a stake of %d", where(st), g)
				}
				if g := st.Post.Del[SD{m.Creator, m.Creator}].Amt; g != m.Amount {
					fail("fresh", "%s: the new validator's own stake is %d", where(st), g)
				}
			}
		case *stakerstypes.MsgUpdateMetadata:
			x, ok := wantS[m.Creator]
			if refuse = validProfile(m); refuse == "" && !ok {
				refuse = "it is not a validator"
			}
			x.Moniker, x.Website, x.Identity, x.SecurityContact, x.Details = m.Moniker, m.Website, m.Identity, m.SecurityContact, m.Details
			wantS[m.Creator] = x
		case *funderstypes.MsgCreateFunder:
			if m.Moniker == "" {
				refuse = "the moniker is empty"
			} else if wantF[m.Creator].Address != "" {
				refuse = "it is already a funder"
			}
			wantF[m.Creator] = funderstypes.Funder{Address: m.Creator, Moniker: m.Moniker, Identity: m.Identity, Website: m.Website, Contact: m.Contact, Description: m.Description}
		case *funderstypes.MsgUpdateFunder:
			if m.Moniker == "" {
				refuse = "the moniker is empty"
			} else if wantF[m.Creator].Address == "" {
				refuse = "it is not a funder"
			}
			wantF[m.Creator] = funderstypes.Funder{Address: m.Creator, Moniker: m.Moniker, Identity: m.Identity, Website: m.Website, Contact: m.Contact, Description: m.Description}
		default:
			mine = false
		}
		if mine && refuse != "" {
			if st.OK() {
				fail("accepted", "%s is accepted although %s", where(st), refuse)
			}
			return
		}
		if mine && !st.OK() {
			fail("refused", "%s is refused: %v %s", where(st), st.Err, st.Panic)
			return
		}
		if mine {
			profileFrame(st, moved, fail)
		}
	}
	gotS, gotF := stakerRecs(st.Post.StakersG.StakerList), funderRecs(st.Post.FundersG.FunderList)
	keys := map[string]bool{}
	for _, m := range []map[string]stakerstypes.Staker{wantS, gotS} {
		for k := range m {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		if g, w := profileOf(gotS[k]), profileOf(wantS[k]); g != w {
			fail("validator", "%s: the profile of validator %s is %s, expected %s", where(st), lab(k), short(g), short(w))
		}
	}
	keys = map[string]bool{}
	for _, m := range []map[string]funderstypes.Funder{wantF, gotF} {
		for k := range m {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		if g, w := funderOf(gotF[k]), funderOf(wantF[k]); g != w {
			fail("funder", "%s: the profile of funder %s is %s, expected %s", where(st), lab(k), short(g), short(w))
		}
	}
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

// profileFrame: a registration or a profile update changes nothing else.
func profileFrame(st *Step, moved uint64, fail Fail) {
	view := func(s *Snap) string {
		c := *s
		sk, fu := *c.StakersG, *c.FundersG
		var l []stakerstypes.Staker
		who := ""
		if m, ok := st.Msg.(*stakerstypes.MsgCreateStaker); ok {
			who = m.Creator
		}
		for _, x := range sk.StakerList {
			if x.Address == who {
				continue
			}
			x.Moniker, x.Website, x.Identity, x.SecurityContact, x.Details = "", "", "", "", ""
			l = append(l, x)
		}
		sk.StakerList, fu.FunderList = l, nil
		c.StakersG, c.FundersG = &sk, &fu
		if who != "" {
			// the initial stake moves, and only the newcomer's entries appear
			de := *c.DelG
			b, _ := json.Marshal(de)
			de = delegationtypes.GenesisState{}
			_ = json.Unmarshal(b, &de)
			de.DelegatorList, de.DelegationDataList, de.DelegationEntryList = nil, nil, nil
			for _, x := range c.DelG.DelegatorList {
				if x.Staker != who {
					de.DelegatorList = append(de.DelegatorList, x)
				}
			}
			for _, x := range c.DelG.DelegationDataList {
				if x.Staker != who {
					de.DelegationDataList = append(de.DelegationDataList, x)
				}
			}
			for _, x := range c.DelG.DelegationEntryList {
				if x.Staker != who {
					de.DelegationEntryList = append(de.DelegationEntryList, x)
				}
			}
			c.DelG = &de
			bal := map[string]sdk.Coins{}
			for k, v := range s.Bal {
				bal[k] = v
			}
			if s == st.Pre {
				bal[who] = bal[who].Sub(kyve(moved)...)
				bal[modAddr(delegationtypes.ModuleName)] = bal[modAddr(delegationtypes.ModuleName)].Add(kyve(moved)...)
			}
			for k, v := range bal {
				if v.IsZero() {
					delete(bal, k)
				}
			}
			c.Bal = bal
		}
		return restOf(&c)
	}
	if x, y := view(st.Pre), view(st.Post); x != y {
		fail("side-effect", "%s changes more than the registration or profile: %s", where(st), firstDiff(x, y))
	}
}

// --- worlds ------------------------------------------------------------------------

func opProfile(m *stakerstypes.MsgUpdateMetadata, tag string) *Op {
	return msgOp("metadata", "profile("+lab(m.Creator)+","+tag+")", m)
}

func profileBase(e *Env, ctx sdk.Context) sdk.Context {
	e.createPool(ctx, poolCfg{Name: "p0"})
	e.createStaker(ctx, "S1", 3*K)
	e.createStaker(ctx, "S2", 2*K)
	e.stakersTimes(ctx, 10, 10)
	e.join(ctx, "S1", 0, "VA", 0)
	e.fundModule(ctx, "G", "pool", coins2(DENOM, 1000, ADENOM, 1000))
	e.do(ctx, opAccrue("S1", coins2(DENOM, 7, ADENOM, 2)))
	e.do(ctx, opDelegate("D1", "S1", K))
	e.do(ctx, opUndelegate("D1", "S1", K/4))
	e.do(ctx, opMetadata("S1"))
	e.setWhitelist(ctx, wl(DENOM, 6, 1, 1, "1"))
	e.must(ctx, &funderstypes.MsgCreateFunder{Creator: acc("D1"), Moniker: "fm", Identity: "fi", Website: "fw", Contact: "fc", Description: "fd"})
	e.do(ctx, opFund("D1", 0, kyve(1000), kyve(10)))
	e.do(ctx, opCommission("S1", "0.3"))
	return e.block(ctx, 5)
}

func profileWorld(q, th int) *Scenario {
	return &Scenario{Name: "profiles", Gen: stakersGen(), Quick: q, Thor: th,
		Note: "registrations and profile updates of two validators, a funder and strangers between commission changes, leaves, penalties, slashes, claims, fundings and blocks",
		Setup: profileBase,
		Ops: func(e *Env) []*Op {
			f := func(who, tag string) *Op {
				return msgOp("updatefunder", "updatefunder("+who+","+tag+")", &funderstypes.MsgUpdateFunder{Creator: acc(who), Moniker: tag, Website: "w2"})
			}
			return []*Op{
				opProfile(&stakerstypes.MsgUpdateMetadata{Creator: acc("S1"), Moniker: "a"}, "a"),
				opProfile(&stakerstypes.MsgUpdateMetadata{Creator: acc("S2"), Website: "b", Identity: "0123456789abcdef"}, "b"),
				opProfile(&stakerstypes.MsgUpdateMetadata{Creator: acc("S1")}, "empty"),
				opProfile(&stakerstypes.MsgUpdateMetadata{Creator: acc("D1"), Moniker: "x"}, "stranger"),
				opCreateStaker("S3", K), opCreateStaker("S1", K), opCreateStaker("D1", 0),
				opCreateFunder("G"), opCreateFunder("D1"), opCreateFunder("S1"), f("D1", "n1"), f("G", "n2"), f("D1", ""),
				opCommission("S1", "0.5"), opLeave("S1", 0), opKick("S1", 0), opSlash("S1", delegationtypes.SLASH_TYPE_UPLOAD), opUndelegate("S2", "S2", 2*K),
				opDefund("D1", 0, kyve(1000)), opClaimCommission("S1", coins2(DENOM, 7, ADENOM, 2)), opDisable(0), blockOp(5), blockOp(10),
			}
		}}
}

func profileMsg(who string, b [5]string) sdk.Msg {
	return &stakerstypes.MsgUpdateMetadata{Creator: acc(who), Moniker: b[0], Website: b[1], Identity: b[2], SecurityContact: b[3], Details: b[4]}
}

func updateFunderMsg(who string, b [5]string) sdk.Msg {
	return &funderstypes.MsgUpdateFunder{Creator: acc(who), Moniker: b[0], Website: b[1], Identity: b[2], Contact: b[3], Description: b[4]}
}

func profileTexts(tier string) []string {
	r := func(s string, n int) string { return strings.Repeat(s, n) }
	return []string{"", "x", r("x", 254), r("x", 255), r("x", 256), r("x", 300), r("é", 127), r("é", 127) + "x", r("é", 128), " ", "\x00", "日本", r("y", 5000)}
}

func profileIdentities() []string {
	l := []string{"", "7CD454E228C8F227", "7cd454e228c8f227", "0000000000000000", "ffffffffffffffff", "7CD454E228C8F22", "7CD454E228C8F2277", "7CD454E228C8F22700", "7CD454E228C8F2", "7CD454E228C8F22G", "0x7CD454E228C8F2", "0x7CD454E228C8F227", " 7CD454E228C8F22", "00", "0", "zz", strings.Repeat("a", 255), strings.Repeat("a", 256), strings.Repeat("ab", 128), "７", "\x00"}
	return l
}

// profileGrid: every field value alone and every pair of fields and values, by a
// validator, a second validator, a funder and a stranger.
func profileGrid(p *Property) *Extra {
	sc := &Scenario{Name: "profile-grid", Gen: stakersGen(), Quick: 1, Thor: 1, Setup: profileBase, Ops: func(*Env) []*Op { return nil }}
	type mk func() []sdk.Msg
	build := func(tier string) (l []mk) {
		tx := profileTexts(tier)
		fields := func(base int, f, g int, v, w string) [5]string {
			b := [5]string{}
			if base == 1 {
				b = [5]string{"mon", "web", "7CD454E228C8F227", "sec", "det"}
			}
			b[f] = v
			if g >= 0 {
				b[g] = w
			}
			return b
		}
		vals := func(f int) []string {
			if f == 2 {
				return profileIdentities()
			}
			return tx
		}
		meta := func(who string, b [5]string) {
			l = append(l, func() []sdk.Msg { return []sdk.Msg{profileMsg(who, b)} })
		}
		funder := func(who string, b [5]string) {
			l = append(l, func() []sdk.Msg { return []sdk.Msg{updateFunderMsg(who, b)} }, func() []sdk.Msg {
				return []sdk.Msg{&funderstypes.MsgCreateFunder{Creator: acc(who), Moniker: b[0], Website: b[1], Identity: b[2], Contact: b[3], Description: b[4]}}
			})
		}
		// from every subset of filled fields to every choice of kept, cleared and changed ones
		full := [2][5]string{{"mon", "web", "7CD454E228C8F227", "sec", "det"}, {"mon2", "web2", "0123456789abcdef", "sec2", "det2"}}
		for from := 0; from < 32; from++ {
			for to := 0; to < 243; to++ {
				var a, b [5]string
				for f, t := 0, to; f < 5; f, t = f+1, t/3 {
					if from>>f&1 == 1 {
						a[f] = full[0][f]
					}
					b[f] = []string{"", full[0][f], full[1][f]}[t%3]
				}
				l = append(l, func() []sdk.Msg { return []sdk.Msg{profileMsg("S1", a), profileMsg("S1", b)} })
				if tier == "thorough" || from == 31 || from == 1 {
					l = append(l, func() []sdk.Msg { return []sdk.Msg{updateFunderMsg("D1", a), updateFunderMsg("D1", b)} })
				}
			}
		}
		for base := 0; base < 2; base++ {
			for f := 0; f < 5; f++ {
				for _, v := range vals(f) {
					for _, who := range []string{"S1", "S2", "D1", "G"} {
						meta(who, fields(base, f, -1, v, ""))
						if who != "S2" {
							funder(who, fields(base, f, -1, v, ""))
						}
					}
					for g := f + 1; g < 5; g++ {
						for _, w := range vals(g) {
							meta("S1", fields(base, f, g, v, w))
							if base == 1 {
								funder("D1", fields(base, f, g, v, w))
								funder("G", fields(base, f, g, v, w))
							}
						}
					}
				}
			}
		}
		for _, who := range []string{"S3", "S1", "G", "D1"} {
			for _, c := range []string{"", "-1", "-0.000000000000000001", "0", "0.000000000000000001", "0.1", "0.123456789012345678", "0.999999999999999999", "1", "1.000000000000000001", "2"} {
				for _, a := range []uint64{0, 1, K, 7, 999 * K, 1000 * K, 1000*K + 1, 1 << 63, ^uint64(0)} {
					c, a, who := c, a, who
					l = append(l, func() []sdk.Msg {
						m := &stakerstypes.MsgCreateStaker{Creator: acc(who), Amount: a}
						if c != "" {
							m.Commission = dec(c)
						}
						return []sdk.Msg{m}
					})
				}
			}
		}
		return l
	}
	cache := map[string][]mk{}
	all := func(tier string) []mk {
		if cache[tier] == nil {
			cache[tier] = build(tier)
		}
		return cache[tier]
	}
	const chunk = 20
	return &Extra{Name: "profile-grid", Note: "every profile field with every value of a grid of lengths, encodings and identities, and all pairs of fields, as sent by validators, a funder and a stranger; every registration with a grid of commissions and amounts; every change from a subset of filled fields to any choice of kept, cleared and changed ones",
		N: func(tier string) int { return (len(all(tier)) + chunk - 1) / chunk },
		Run: func(tier string, i int, fail Fail) (int, int) {
			l, n := all(tier), 0
			for j := i * chunk; j < (i+1)*chunk && j < len(l); j++ {
				seq := l[j]()
				if tier == "thorough" {
					seq = append(append(seq, l[(j*7+3)%len(l)]()...), l[j]()...)
				}
				n += runSingle(sc, p, seq, fmt.Sprintf("profile#%d", j), fail)
			}
			return n, n
		}}
}

func buildProfiles() {
	p := &Property{ID: "S04", Scenarios: []*Scenario{profileWorld(5, 6), mixedWorld("mixed", 2, 3)}, Rules: []Rule{ruleProfiles}}
	p.Extra = []*Extra{profileGrid(p)}
	register(p)
}

