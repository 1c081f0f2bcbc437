package main

// Team vesting (T01, T02) and the split of the block inflation (I01).

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"

	"github.com/KYVENetwork/chain/app"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

const (
	year    = uint64(365 * 24 * 3600)
	refTGE  = uint64(1675247655) // 2023-02-01T10:34:15Z
	refTeam = uint64(165_000_000_000_000_000)
)

// --- reference schedule -----------------------------------------------------------------

func mulDiv(a, b, c uint64) uint64 {
	x := new(big.Int).Mul(new(big.Int).SetUint64(a), new(big.Int).SetUint64(b))
	return x.Quo(x, new(big.Int).SetUint64(c)).Uint64()
}

func refVested(a teamtypes.TeamVestingAccount, t uint64) uint64 {
	end := t
	if a.Clawback > 0 && a.Clawback < end {
		end = a.Clawback
	}
	if end < a.Commencement || end-a.Commencement < year {
		return 0
	}
	if end-a.Commencement >= 3*year {
		return a.TotalAllocation
	}
	return mulDiv(a.TotalAllocation, end-a.Commencement, 3*year)
}

func refMax(a teamtypes.TeamVestingAccount) uint64 { return refVested(a, a.Commencement+3*year) }

func refUnlocked(a teamtypes.TeamVestingAccount, t uint64) uint64 {
	start := a.Commencement
	if refTGE > start {
		start = refTGE
	}
	start += year
	switch {
	case t < start:
		return 0
	case t-start >= 2*year:
		return refMax(a)
	}
	return mulDiv(refVested(a, t), t-start, 2*year)
}

func refClaimable(a teamtypes.TeamVestingAccount, t uint64) uint64 {
	if u := refUnlocked(a, t); u > a.UnlockedClaimed {
		return u - a.UnlockedClaimed
	}
	return 0
}

// --- T01 --------------------------------------------------------------------------------

func vestingGrid() *Extra {
	sc := &Scenario{Name: "vesting", Gen: GenCfg{Funded: funded(kyve(K), "G")}, Ops: func(*Env) []*Op { return nil }}
	comms := []uint64{1, refTGE - 4*year - 1, refTGE - 3*year, refTGE - 2*year + 7, refTGE - year - 1, refTGE - year, refTGE - year + 1, refTGE - 1, refTGE, refTGE + 1, refTGE + 12345678, refTGE + year, uint64(T0), refTGE + 4*year}
	allocs := []uint64{1, 2, 3, 97, 63072000, 31536001, 1000, 94608000, 94607999, 1_000_003, 333_333_333_333, refTeam - 1, refTeam}
	claws := []int64{-1, 0, 1, int64(year) - 1, int64(year), int64(year) + 1, 12345678 + int64(year), int64(2 * year), int64(2*year) + 1, int64(3*year) - 1, int64(3 * year), int64(3*year) + 1, int64(10 * year)}
	claims := []string{"none", "some", "all"}
	n := len(comms) * len(allocs) * len(claws)
	times := func(c, cl uint64, tier string) (l []uint64) {
		ref := c
		if refTGE > ref {
			ref = refTGE
		}
		add := func(x uint64) {
			for d := uint64(0); d < 5; d++ {
				if x+d >= 2 {
					l = append(l, x+d-2)
				}
			}
		}
		add(2)
		for _, b := range []uint64{c, c + year, c + 3*year, ref + year, ref + 3*year, refTGE, refTGE + year, cl} {
			add(b)
		}
		step := year / 24
		if tier == "thorough" {
			step = year / 120
		}
		lo := c
		if refTGE < lo {
			lo = refTGE
		}
		for x := lo; x < ref+5*year; x += step {
			l = append(l, x, x+1)
			if len(l) > 3000 {
				break
			}
		}
		l = append(l, 1<<40, 1<<62)
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		return
	}
	return &Extra{Name: "vesting-schedule", Note: "commencement x allocation x clawback x claimed share x times (both neighbours of every date of the schedule and a regular lattice over the whole schedule)",
		N: func(string) int { return n },
		Run: func(tier string, i int, fail Fail) (int, int) {
			e, ctx := extraEnv(sc)
			a := teamtypes.TeamVestingAccount{Id: 0, Commencement: comms[i%len(comms)], TotalAllocation: allocs[i/len(comms)%len(allocs)]}
			if d := claws[i/len(comms)/len(allocs)]; d >= 0 {
				a.Clawback = a.Commencement + uint64(d)
			}
			qs := 0
			ts := times(a.Commencement, a.Clawback, tier)
			for _, cl := range claims {
				switch cl {
				case "some":
					a.UnlockedClaimed = refMax(a) / 3
				case "all":
					a.UnlockedClaimed = refMax(a)
				}
				e.App.TeamKeeper.SetTeamVestingAccount(ctx, a)
				lastV, lastU := uint64(0), uint64(0)
				for _, t := range ts {
					r, err := e.App.TeamKeeper.TeamVestingStatusByTime(ctx, &teamtypes.QueryTeamVestingStatusByTimeRequest{Id: 0, Time: t})
					qs++
					if err != nil {
						fail("query", "vesting status of %v at %d: %v", a, t, err)
						continue
					}
					s := r.Status
					what := fmt.Sprintf("allocation %d commencement %d clawback %d at %d", a.TotalAllocation, a.Commencement, a.Clawback, t)
					v, u := refVested(a, t), refUnlocked(a, t)
					if s.TotalVestedAmount != v {
						fail("vested", "%s: vested %d instead of %d", what, s.TotalVestedAmount, v)
					}
					if s.TotalUnlockedAmount != u {
						fail("unlocked", "%s: unlocked %d instead of %d", what, s.TotalUnlockedAmount, u)
					}
					if s.TotalUnlockedAmount > s.TotalVestedAmount || s.TotalVestedAmount > a.TotalAllocation {
						fail("bounds", "%s: unlocked %d vested %d", what, s.TotalUnlockedAmount, s.TotalVestedAmount)
					}
					if s.CurrentClaimableAmount != refClaimable(a, t) {
						fail("claimable", "%s claimed %d: claimable %d instead of %d", what, a.UnlockedClaimed, s.CurrentClaimableAmount, refClaimable(a, t))
					}
					if s.LockedVestedAmount != v-u || s.RemainingUnvestedAmount != refMax(a)-v {
						fail("derived", "%s: locked %d remaining %d instead of %d and %d", what, s.LockedVestedAmount, s.RemainingUnvestedAmount, v-u, refMax(a)-v)
					}
					if s.TotalVestedAmount < lastV || s.TotalUnlockedAmount < lastU {
						fail("monotone", "%s: vested %d or unlocked %d went down", what, s.TotalVestedAmount, s.TotalUnlockedAmount)
					}
					lastV, lastU = s.TotalVestedAmount, s.TotalUnlockedAmount
					if r.Plan.MaximumVestingAmount != refMax(a) || r.Plan.ClawbackAmount != a.TotalAllocation-refMax(a) {
						fail("plan", "%s: plan maximum %d clawback amount %d, expected maximum %d", what, r.Plan.MaximumVestingAmount, r.Plan.ClawbackAmount, refMax(a))
					}
				}
			}
			return len(ts) * len(claims), qs
		}}
}

// --- T02 --------------------------------------------------------------------------------

type tsim struct {
	acc    map[uint64]teamtypes.TeamVestingAccount
	auth   teamtypes.Authority
	out    uint64 // paid out of the team account
	to     string
	refuse string
	team   bool
}

func refIssued(m map[uint64]teamtypes.TeamVestingAccount) *big.Int {
	t := new(big.Int)
	for _, a := range m {
		t.Add(t, new(big.Int).SetUint64(refMax(a)))
	}
	return t
}

func teamAccounts(s *Snap) map[uint64]teamtypes.TeamVestingAccount {
	m := map[uint64]teamtypes.TeamVestingAccount{}
	for _, a := range s.TeamG.AccountList {
		m[a.Id] = a
	}
	return m
}

func badRecipient(a string) bool {
	_, err := sdk.AccAddressFromBech32(a)
	return err != nil || closed(a)
}

func simTeam(st *Step) *tsim {
	b := &tsim{acc: teamAccounts(st.Pre), auth: st.Pre.TeamG.Authority}
	if st.Phase != "op" {
		return b
	}
	now := uint64(st.Pre.Time)
	both := func(a string) bool {
		b.team = true
		if a != teamtypes.FOUNDATION_ADDRESS && a != teamtypes.BCP_ADDRESS {
			b.refuse = "not a team authority"
		}
		return b.refuse == ""
	}
	get := func(id uint64) (teamtypes.TeamVestingAccount, bool) {
		a, ok := b.acc[id]
		if !ok {
			b.refuse = "no such account"
		}
		return a, ok
	}
	max := new(big.Int).SetUint64(refTeam)
	switch m := st.Msg.(type) {
	case *teamtypes.MsgCreateTeamVestingAccount:
		if !both(m.Authority) {
			return b
		}
		sum := refIssued(b.acc)
		sum.Add(sum, new(big.Int).SetUint64(m.TotalAllocation))
		switch {
		case m.TotalAllocation == 0 || m.Commencement == 0:
			b.refuse = "nothing to allocate"
		case sum.Cmp(max) > 0:
			b.refuse = "not enough allocation left"
		default:
			id := uint64(len(b.acc))
			b.acc[id] = teamtypes.TeamVestingAccount{Id: id, TotalAllocation: m.TotalAllocation, Commencement: m.Commencement}
		}
	case *teamtypes.MsgClawback:
		if !both(m.Authority) {
			return b
		}
		a, ok := get(m.Id)
		if !ok {
			return b
		}
		if m.Clawback > 0 && (m.Clawback < a.Commencement || m.Clawback < a.LastClaimedTime) {
			b.refuse = "clawback too early"
			return b
		}
		old := a
		a.Clawback = m.Clawback
		b.acc[m.Id] = a
		if refIssued(b.acc).Cmp(max) > 0 && refMax(a) > refMax(old) {
			b.acc[m.Id] = old
			b.refuse = "the allocation has been reissued"
		}
	case *teamtypes.MsgClaimUnlocked:
		if !both(m.Authority) {
			return b
		}
		a, ok := get(m.Id)
		if !ok {
			return b
		}
		if m.Amount > refClaimable(a, now) {
			b.refuse = "more than claimable"
			return b
		}
		if badRecipient(m.Recipient) {
			b.refuse = "invalid recipient"
			return b
		}
		a.UnlockedClaimed += m.Amount
		a.LastClaimedTime = now
		b.acc[m.Id] = a
		b.out, b.to = m.Amount, m.Recipient
	case *teamtypes.MsgClaimAccountRewards:
		if !both(m.Authority) {
			return b
		}
		a, ok := get(m.Id)
		if !ok {
			return b
		}
		if m.Amount > a.TotalRewards-a.RewardsClaimed {
			b.refuse = "more than claimable"
			return b
		}
		if badRecipient(m.Recipient) {
			b.refuse = "invalid recipient"
			return b
		}
		a.RewardsClaimed += m.Amount
		b.acc[m.Id] = a
		b.out, b.to = m.Amount, m.Recipient
	case *teamtypes.MsgClaimAuthorityRewards:
		b.team = true
		switch {
		case m.Authority != teamtypes.FOUNDATION_ADDRESS:
			b.refuse = "not the foundation"
		case m.Amount > b.auth.TotalRewards-b.auth.RewardsClaimed:
			b.refuse = "more than claimable"
		case badRecipient(m.Recipient):
			b.refuse = "invalid recipient"
		default:
			b.auth.RewardsClaimed += m.Amount
			b.out, b.to = m.Amount, m.Recipient
		}
	}
	return b
}

func ruleTeam(e *Env, st *Step, fail Fail) {
	if !st.OK() && st.Phase != "op" {
		return
	}
	b := simTeam(st)
	if b.team {
		if b.refuse != "" && st.OK() {
			fail("accepted", "%s is accepted although: %s", where(st), b.refuse)
			return
		}
		if b.refuse == "" && !st.OK() {
			fail("refused", "%s is refused: %v", where(st), st.Err)
			return
		}
		if b.refuse != "" {
			b.acc, b.auth, b.out = teamAccounts(st.Pre), st.Pre.TeamG.Authority, 0
		}
		for _, a := range sortedKeys(union(st.Pre.Bal, st.Post.Bal)) {
			want := st.Pre.B(a, DENOM)
			if a == modAddr(teamtypes.ModuleName) {
				want -= b.out
			}
			if b.to != "" && a == b.to {
				want += b.out
			}
			if g := st.Post.B(a, DENOM); g != want {
				fail("payment", "%s: %s holds %d instead of %d", where(st), lab(a), g, want)
			}
		}
	}
	got := teamAccounts(st.Post)
	if st.Phase == "begin" { // rewards are judged by ruleTeamRewards
		for id, a := range got {
			if w, ok := b.acc[id]; ok {
				w.TotalRewards = a.TotalRewards
				b.acc[id] = w
			}
		}
		b.auth.TotalRewards = st.Post.TeamG.Authority.TotalRewards
	}
	if len(got) != len(b.acc) || st.Post.TeamG.AccountCount != uint64(len(got)) {
		fail("account-set", "%s: %d team accounts (count %d) instead of %d", where(st), len(got), st.Post.TeamG.AccountCount, len(b.acc))
	}
	for id, w := range b.acc {
		if g := got[id]; g != w {
			fail("account", "%s: team account %d is {%v} instead of {%v}", where(st), id, g.String(), w.String())
		}
	}
	if g := st.Post.TeamG.Authority; g != b.auth {
		fail("authority", "%s: authority rewards are %v instead of %v", where(st), g, b.auth)
	}
}

func ratFloor(x *big.Rat) *big.Int { return new(big.Int).Quo(x.Num(), x.Denom()) }

// near: code value is the rounded down exact value up to one unit
func near(got uint64, exact *big.Rat) bool {
	f := ratFloor(exact)
	g := new(big.Int).SetUint64(got)
	d := new(big.Int).Sub(g, f)
	return d.CmpAbs(big.NewInt(1)) <= 0
}

func rat(a, b uint64) *big.Rat {
	return new(big.Rat).SetFrac(new(big.Int).SetUint64(a), new(big.Int).SetUint64(b))
}

func minted(st *Step) uint64 {
	return st.Post.Supply.AmountOf(DENOM).Uint64() - st.Pre.Supply.AmountOf(DENOM).Uint64()
}

// required is everything the team account still owes.
func required(s *Snap) *big.Int {
	t := new(big.Int).SetUint64(refTeam)
	add := func(a, b uint64) {
		t.Add(t, new(big.Int).SetUint64(a))
		t.Sub(t, new(big.Int).SetUint64(b))
	}
	add(s.TeamG.Authority.TotalRewards, s.TeamG.Authority.RewardsClaimed)
	for _, a := range s.TeamG.AccountList {
		add(a.TotalRewards, a.RewardsClaimed)
		add(0, a.UnlockedClaimed)
	}
	return t
}

// ruleTeamRewards: what the team receives in a block is credited completely, each
// account by its vested and unclaimed share of the team allocation.
func ruleTeamRewards(e *Env, st *Step, fail Fail) {
	if st.Phase != "begin" || !st.OK() {
		return
	}
	pre, post := teamAccounts(st.Pre), teamAccounts(st.Post)
	in := post2(st, modAddr(teamtypes.ModuleName))
	sum := st.Post.TeamG.Authority.TotalRewards - st.Pre.TeamG.Authority.TotalRewards
	for id, a := range post {
		d := a.TotalRewards - pre[id].TotalRewards
		sum += d
		share := rat(refVested(pre[id], uint64(st.Post.Time))-pre[id].UnlockedClaimed, refTeam)
		if !near(d, share.Mul(share, rat(in, 1))) {
			fail("account-rewards", "%s: team account %d is credited %d of %d, its share is %d/%d", where(st), id, d, in, refVested(pre[id], uint64(st.Post.Time))-pre[id].UnlockedClaimed, refTeam)
		}
	}
	if sum != in {
		fail("rewards-sum", "%s: %d are credited to team accounts and authority, %d are received", where(st), sum, in)
	}
}

func post2(st *Step, a string) uint64 { return st.Post.B(a, DENOM) - st.Pre.B(a, DENOM) }

func stateTeam(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
	m := teamAccounts(s)
	if iss := refIssued(m); iss.Cmp(new(big.Int).SetUint64(refTeam)) > 0 {
		fail("over-issued", "%s are issued, the team allocation is %d", iss, refTeam)
	}
	owed := required(s)
	if have := new(big.Int).SetUint64(s.B(modAddr(teamtypes.ModuleName), DENOM)); have.Cmp(owed) < 0 {
		fail("backing", "the team account holds %s, owed are %s", have, owed)
	}
	for _, a := range s.TeamG.AccountList {
		if a.RewardsClaimed > a.TotalRewards {
			fail("claims", "team account %d claimed more rewards than it received", a.Id)
		}
		if a.UnlockedClaimed > refUnlocked(a, uint64(s.Time)) {
			fail("claims", "team account %d claimed %d, only %d are unlocked", a.Id, a.UnlockedClaimed, refUnlocked(a, uint64(s.Time)))
		}
	}
	info, err := e.App.TeamKeeper.TeamInfo(ctx, &teamtypes.QueryTeamInfoRequest{})
	if err != nil {
		fail("info", "team info: %v", err)
		return
	}
	if want := refTeamInfo(s); *info != *want {
		fail("info", "team info %+v, expected %+v", info, want)
	}
}

// refTeamInfo: the complete summary which users read.
func refTeamInfo(s *Snap) *teamtypes.QueryTeamInfoResponse {
	m := teamAccounts(s)
	au := s.TeamG.Authority
	iss := refIssued(m).Uint64()
	w := &teamtypes.QueryTeamInfoResponse{FoundationAuthority: teamtypes.FOUNDATION_ADDRESS, BcpAuthority: teamtypes.BCP_ADDRESS,
		TotalTeamAllocation: refTeam, IssuedTeamAllocation: iss, AvailableTeamAllocation: refTeam - iss,
		TotalAuthorityRewards: au.TotalRewards, ClaimedAuthorityRewards: au.RewardsClaimed, AvailableAuthorityRewards: au.TotalRewards - au.RewardsClaimed,
		RequiredModuleBalance: required(s).Uint64(), TeamModuleBalance: s.B(modAddr(teamtypes.ModuleName), DENOM)}
	for _, a := range m {
		w.TotalAccountRewards += a.TotalRewards
		w.ClaimedAccountRewards += a.RewardsClaimed
		w.AvailableAccountRewards += a.TotalRewards - a.RewardsClaimed
	}
	return w
}

func opTeam(kind, name string, f func(e *Env, ctx sdk.Context) sdk.Msg) *Op {
	return &Op{Name: name, Kind: kind, Msg: f}
}

func opCreateTeam(auth string, alloc, comm uint64) *Op {
	return msgOp("createteam", fmt.Sprintf("createteam(%s,%d,%d)", lab(auth), alloc, comm), &teamtypes.MsgCreateTeamVestingAccount{Authority: auth, TotalAllocation: alloc, Commencement: comm})
}

func (e *Env) teamAcc(ctx sdk.Context, id uint64) teamtypes.TeamVestingAccount {
	a, _ := e.App.TeamKeeper.GetTeamVestingAccount(ctx, id)
	return a
}

// part: 0 nothing, 1 a third, 2 all, 3 one more than everything
func part(x uint64, how int) uint64 {
	switch how {
	case 0:
		return 0
	case 1:
		return x/3 + 1
	case 2:
		return x
	}
	return x + 1
}

var partName = []string{"0", "third", "all", "all+1"}

func opClaimUnlocked(auth string, id uint64, how int, to string) *Op {
	return opTeam("claimunlocked", fmt.Sprintf("claim-unlocked(%s,%d,%s,to %s)", lab(auth), id, partName[how], lab(to)), func(e *Env, ctx sdk.Context) sdk.Msg {
		return &teamtypes.MsgClaimUnlocked{Authority: auth, Id: id, Amount: part(refClaimable(e.teamAcc(ctx, id), uint64(ctx.BlockTime().Unix())), how), Recipient: to}
	})
}

func opClaimTeamRewards(auth string, id uint64, how int, to string) *Op {
	return opTeam("claimteam", fmt.Sprintf("claim-rewards(%s,%d,%s,to %s)", lab(auth), id, partName[how], lab(to)), func(e *Env, ctx sdk.Context) sdk.Msg {
		a := e.teamAcc(ctx, id)
		return &teamtypes.MsgClaimAccountRewards{Authority: auth, Id: id, Amount: part(a.TotalRewards-a.RewardsClaimed, how), Recipient: to}
	})
}

func opClaimAuthority(auth string, how int, to string) *Op {
	return opTeam("claimauthority", fmt.Sprintf("claim-authority(%s,%s,to %s)", lab(auth), partName[how], lab(to)), func(e *Env, ctx sdk.Context) sdk.Msg {
		a := e.App.TeamKeeper.GetAuthority(ctx)
		return &teamtypes.MsgClaimAuthorityRewards{Authority: auth, Amount: part(a.TotalRewards-a.RewardsClaimed, how), Recipient: to}
	})
}

// opClawback sets the clawback: "none", "comm-1", "comm", "cliff", "now", "last-1", "last", "late"
func opClawback(auth string, id uint64, how string) *Op {
	return opTeam("clawback", fmt.Sprintf("clawback(%s,%d,%s)", lab(auth), id, how), func(e *Env, ctx sdk.Context) sdk.Msg {
		a := e.teamAcc(ctx, id)
		c := uint64(0)
		switch how {
		case "comm-1":
			c = a.Commencement - 1
		case "comm":
			c = a.Commencement
		case "cliff":
			c = a.Commencement + year
		case "18m":
			c = a.Commencement + year + year/2
		case "now":
			c = uint64(ctx.BlockTime().Unix())
		case "last-1":
			c = a.LastClaimedTime - 1
		case "last":
			c = a.LastClaimedTime
		case "late":
			c = a.Commencement + 3*year - 1
		}
		return &teamtypes.MsgClawback{Authority: auth, Id: id, Clawback: c}
	})
}

func inflationGen() GenCfg {
	g := bundleGen()
	g.Inflation = true
	g.Funded["G"] = g.Funded["G"].Add(coin(DENOM, 700_000_000_000_000_000))
	g.Modify = func(a *app.App, gs map[string]json.RawMessage) {
		var m minttypes.GenesisState
		a.AppCodec().MustUnmarshalJSON(gs[minttypes.ModuleName], &m)
		m.Params.BlocksPerYear = 6_000_000
		gs[minttypes.ModuleName] = a.AppCodec().MustMarshalJSON(&m)
	}
	return g
}

func teamWorld(name string, q, th int, set int) *Scenario {
	F, B := teamtypes.FOUNDATION_ADDRESS, teamtypes.BCP_ADDRESS
	return &Scenario{Name: name, Gen: inflationGen(), Quick: q, Thor: th, Feat: Features{NoRewards: true},
		Note: "team accounts at different stages, claims of nothing, parts, everything and more by both authorities and strangers, clawbacks at and around every relevant date and taken back, reissued allocations, inflation, time steps of months to years",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			e.do(ctx, opCreateTeam(F, refTeam/2, refTGE-year))
			e.do(ctx, opCreateTeam(B, refTeam/4, refTGE+1000))
			ctx = e.block(ctx, 5)
			return e.block(ctx, int64(year/2))
		},
		Ops: func(e *Env) []*Op {
			if set == 0 {
				return []*Op{
					opClaimUnlocked(F, 0, 0, acc("D1")), opClaimUnlocked(F, 0, 1, acc("D1")), opClaimUnlocked(B, 0, 2, acc("D1")), opClaimUnlocked(B, 0, 3, acc("D1")), opClaimUnlocked(acc("D1"), 0, 1, acc("D1")), opClaimUnlocked(F, 1, 2, acc("D2")),
					opClaimTeamRewards(F, 0, 1, acc("D1")), opClaimTeamRewards(B, 0, 2, acc("D2")), opClaimTeamRewards(B, 0, 3, acc("D2")), opClaimTeamRewards(acc("G"), 0, 1, acc("G")), opClaimTeamRewards(F, 9, 0, acc("G")), opClaimTeamRewards(F, 1, 1, acc("D2")),
					opClaimAuthority(F, 1, acc("D1")), opClaimAuthority(F, 2, acc("D1")), opClaimAuthority(F, 3, acc("D1")), opClaimAuthority(B, 1, acc("D1")), opClaimAuthority(F, 2, "kyve1"), opClaimAuthority(F, 1, modAddr("team")),
					opClawback(F, 0, "18m"), opClawback(F, 0, "last"), blockOp(5), blockOp(int64(year / 3)), blockOp(int64(year)),
				}
			}
			return []*Op{
				opClawback(F, 0, "none"), opClawback(F, 0, "comm-1"), opClawback(F, 0, "comm"), opClawback(F, 0, "cliff"), opClawback(B, 0, "18m"), opClawback(F, 0, "now"), opClawback(F, 0, "last-1"), opClawback(F, 0, "last"), opClawback(F, 0, "late"),
				opClawback(acc("D1"), 0, "cliff"), opClawback(F, 9, "cliff"), opClawback(F, 1, "comm"), opClawback(F, 1, "none"),
				opCreateTeam(F, refTeam/4, refTGE), opCreateTeam(F, refTeam/4+1, uint64(T0)), opCreateTeam(B, refTeam/2, refTGE+5), opCreateTeam(acc("D1"), 1, 1), opCreateTeam(F, 0, 1), opCreateTeam(F, 1, 0),
				opCreateTeam(F, 1<<64-1, refTGE), opCreateTeam(F, 1<<64-1-refTeam/2, refTGE), opCreateTeam(F, 1<<64-1-refTeam*3/4+2, refTGE), opCreateTeam(B, 1<<64-1-refTeam+3, refTGE),
				opClaimUnlocked(F, 0, 2, acc("D1")), blockOp(5), blockOp(int64(year)),
			}
		}}
}

// --- I01 --------------------------------------------------------------------------------

func ruleInflation(e *Env, st *Step, fail Fail) {
	if st.Phase != "begin" || !st.OK() {
		return
	}
	pre, post := st.Pre, st.Post
	mint := minted(st)
	for _, c := range post.Supply {
		if c.Denom != DENOM && !c.Amount.Equal(pre.Supply.AmountOf(c.Denom)) {
			fail("supply", "%s: the supply of %s changes", where(st), c.Denom)
		}
	}
	// team
	team := post2(st, modAddr(teamtypes.ModuleName))
	exact := new(big.Rat).Mul(new(big.Rat).SetFrac(required(pre), pre.Supply.AmountOf(DENOM).BigInt()), rat(mint, 1))
	if !near(team, exact) {
		fail("team-share", "%s: the team receives %d of %d, its share is %s", where(st), team, mint, exact.FloatString(3))
	}
	// pools
	b := newBsim(&Step{Pre: post}) // running conditions at the new block's time
	total := math.LegacyZeroDec()
	active := map[uint64]bool{}
	for id, p := range post.Pools {
		if b.canRun(id) == "" {
			active[id] = true
			total = total.Add(p.InflationShareWeight)
		}
	}
	share := new(big.Rat).Mul(rat(mint-team, 1), decRat(pre.PoolG.Params.ProtocolInflationShare))
	limit := ratFloor(share).Uint64()
	// the team's part of this very block may be counted in its own base
	slack := uint64(2)
	if s := pre.Supply.AmountOf(DENOM); s.IsPositive() {
		x := new(big.Rat).Mul(rat(team, 1), rat(mint, 1))
		x.Quo(x, new(big.Rat).SetInt(s.BigInt()))
		slack += ratFloor(x).Uint64()
	}
	sum := uint64(0)
	for id, p := range post.Pools {
		d := post2(st, poolAcc(id))
		sum += d
		if !active[id] {
			if d != 0 {
				fail("inactive-pool", "%s: pool %d cannot run (%s) but receives %d", where(st), id, b.canRun(id), d)
			}
			continue
		}
		if total.IsZero() {
			if d != 0 {
				fail("pool-share", "%s: no pool has weight but pool %d receives %d", where(st), id, d)
			}
			continue
		}
		w := new(big.Rat).Quo(decRat(p.InflationShareWeight), decRat(total))
		want := ratFloor(new(big.Rat).Mul(w, new(big.Rat).SetInt(ratFloor(share)))).Uint64()
		if d > want+1 || d+slack < want {
			fail("pool-share", "%s: pool %d receives %d, its share of %d is %d", where(st), id, d, limit, want)
		}
	}
	if sum > limit {
		fail("protocol-share", "%s: the pools receive %d, the protocol share is %d", where(st), sum, limit)
	}
	if !total.IsZero() && sum+slack+uint64(len(active)) < limit {
		fail("protocol-share", "%s: the pools receive %d, the protocol share is %d", where(st), sum, limit)
	}
	// the rest belongs to the chain's stakers
	chain := func(s *Snap) uint64 {
		return s.B(modAddr(authtypes.FeeCollectorName), DENOM) + s.B(modAddr(distrtypes.ModuleName), DENOM)
	}
	if chain(post)+team+sum != chain(pre)+mint {
		fail("rest", "%s: %d of %d minted go to the chain's stakers, %d remain after team and pools", where(st), int64(chain(post)-chain(pre)), mint, int64(mint-team-sum))
	}
	_ = globaltypes.ModuleName
}

func decRat(d math.LegacyDec) *big.Rat {
	return new(big.Rat).SetFrac(d.BigInt(), new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil))
}

func inflationGrid() *Scenario {
	weights := []string{"0", "0.000000000000000001", "1", "2", "7.333333333333333333"}
	states := []string{"run", "disabled", "poor"}
	shares := []string{"0", "0.04", "1"}
	type one struct{ w, s string }
	var ones []one
	for _, w := range weights {
		for _, s := range states {
			ones = append(ones, one{w, s})
		}
	}
	type ini struct {
		p  [3]one
		sh string
	}
	var l []ini
	for _, a := range ones {
		for _, b := range ones {
			for _, c := range ones {
				for _, sh := range shares {
					l = append(l, ini{[3]one{a, b, c}, sh})
				}
			}
		}
	}
	return &Scenario{Name: "inflation-split", Gen: inflationGen(), Quick: 1, Thor: 1, InitN: len(l), Feat: Features{NoRewards: true},
		Note: "three pools, each with every weight x condition, every protocol share, several thousand combinations; one block each",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = bundleSetup(e, ctx, bcfg{pools: 3, stakers: []string{"S1"}, stake: map[string]uint64{"S1": 3 * K}, maxPower: "1"})
			e.do(ctx, opCreateTeam(teamtypes.FOUNDATION_ADDRESS, refTeam/2, refTGE-2*year))
			return e.block(ctx, 5)
		},
		Init: func(e *Env, ctx sdk.Context, i int) (sdk.Context, string) {
			x := l[i]
			pp := e.App.PoolKeeper.GetParams(ctx)
			pp.ProtocolInflationShare = dec(x.sh)
			e.App.PoolKeeper.SetParams(ctx, pp)
			for id := range x.p {
				p := e.pool(ctx, uint64(id))
				p.InflationShareWeight = dec(x.p[id].w)
				p.Disabled = x.p[id].s == "disabled"
				if x.p[id].s == "poor" {
					p.MinDelegation = 3*K + 1
				}
				e.App.PoolKeeper.SetPool(ctx, p)
			}
			return ctx, fmt.Sprintf("%v", x)
		},
		Ops: func(e *Env) []*Op { return []*Op{blockOp(5)} }}
}

func inflationWorld(q, th int) *Scenario {
	F := teamtypes.FOUNDATION_ADDRESS
	return &Scenario{Name: "inflation-life", Gen: inflationGen(), Quick: q, Thor: th, Feat: Features{NoRewards: true},
		Note: "two pools with weights starting and stopping, bundles paying out, team claims and clawbacks, parameter changes, block steps",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = bundleSetup(e, ctx, bcfg{pools: 3, stakers: []string{"S1", "S2"}, stake: map[string]uint64{"S1": 3 * K, "S2": 3 * K}, member: map[string][]uint64{"S1": {0, 1}, "S2": {0}}, minDel: K, maxPower: "1"})
			e.do(ctx, opCreateTeam(F, refTeam/2, refTGE-2*year))
			e.do(ctx, opUpdatePool(1, `{"InflationShareWeight":"2"}`))
			e.do(ctx, opClaim("S1", 0))
			ctx = e.block(ctx, 60)
			e.do(ctx, opSubmit(0, "", "", nil))
			e.do(ctx, opVote("S2", 0, vVALID))
			return e.block(ctx, 60)
		},
		Ops: func(e *Env) []*Op {
			return []*Op{
				blockOp(5), blockOp(60), opSubmit(0, "", "", nil), opVote("S2", 0, vVALID), opUndelegate("S1", "S1", 3*K), opDelegate("G", "S1", 1000*K), opDisable(1), opDisable(0), opEnable(1), opJoin("S2", 2, "VX", 0), opUpdatePool(0, `{"InflationShareWeight":"0"}`),
				opUpdatePool(2, `{"InflationShareWeight":"5.5"}`), opClaimAuthority(F, 2, acc("D1")), opClaimUnlocked(F, 0, 2, acc("D1")), opClaimTeamRewards(F, 0, 2, acc("D1")), opSchedule("@kyve/test", "2", "{}", inSec(5), 10, "+5"),
				&Op{Name: "donate(team)", Kind: "donate", Fn: func(e *Env, ctx sdk.Context) error {
					return e.App.BankKeeper.SendCoinsFromAccountToModule(ctx, sdk.MustAccAddressFromBech32(acc("G")), teamtypes.ModuleName, kyve(1_000_000_000_000_000))
				}},
			}
		}}
}

func buildTeam() {
	register(&Property{ID: "T01", Extra: []*Extra{vestingGrid()}})
	register(&Property{ID: "T02", Scenarios: []*Scenario{teamWorld("team-claims", 5, 6, 0), teamWorld("team-allocation", 5, 6, 1)}, Rules: []Rule{ruleTeam, ruleTeamRewards}, States: []StateRule{stateTeam}})
	register(&Property{ID: "I01", Scenarios: []*Scenario{inflationWorld(5, 6), inflationGrid()}, Rules: []Rule{ruleInflation, ruleTeamRewards}})
	_ = pooltypes.ModuleName
}
