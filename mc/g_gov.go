package main

// G02: protocol stake in governance tallies.

import (
	"math/big"
	"strings"
	"time"

	"cosmossdk.io/math"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	sdk "github.com/cosmos/cosmos-sdk/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"

	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
)

func valOper(a string) string {
	return sdk.ValAddress(sdk.MustAccAddressFromBech32(a)).String()
}

func chainVal() string { return sdk.ValAddress(consKey().PubKey().Address()).String() }

func chainOp() string {
	a := sdk.AccAddress(consKey().PubKey().Address()).String()
	labelOf[a] = "chainoperator"
	addrOf["CO"] = a
	return a
}

// opChainValidator makes an account a chain validator.
func (e *Env) chainValidator(ctx sdk.Context, label string, amt uint64) {
	m, err := stakingtypes.NewMsgCreateValidator(valOper(acc(label)), ed25519.GenPrivKeyFromSecret([]byte("cons-"+label)).PubKey(), coin(DENOM, amt),
		stakingtypes.Description{Moniker: label}, stakingtypes.NewCommissionRates(math.LegacyZeroDec(), math.LegacyOneDec(), math.LegacyOneDec()), math.OneInt())
	if err != nil {
		panic(err)
	}
	e.must(ctx, m)
}

func (e *Env) chainDelegate(ctx sdk.Context, d, val string, amt uint64) {
	e.must(ctx, &stakingtypes.MsgDelegate{DelegatorAddress: acc(d), ValidatorAddress: val, Amount: coin(DENOM, amt)})
}

func (e *Env) propose(ctx sdk.Context, who string, msgs ...sdk.Msg) uint64 {
	m, err := govv1.NewMsgSubmitProposal(msgs, kyve(100*K), acc(who), "m", "t", "s", false)
	if err != nil {
		panic(err)
	}
	e.must(ctx, m)
	id, err := e.App.GovKeeper.ProposalID.Peek(ctx)
	if err != nil {
		panic(err)
	}
	return id - 1
}

type wvote []*govv1.WeightedVoteOption

var voteKinds = []struct {
	name string
	o    wvote
}{
	{"none", nil},
	{"yes", wvote{{Option: govv1.OptionYes, Weight: "1"}}},
	{"split", wvote{{Option: govv1.OptionYes, Weight: "0.3"}, {Option: govv1.OptionNo, Weight: "0.7"}}},
	{"abstain", wvote{{Option: govv1.OptionAbstain, Weight: "1"}}},
	{"veto", wvote{{Option: govv1.OptionNoWithVeto, Weight: "1"}}},
}

// stakes as governance sees them
type govView struct {
	total  map[string]*big.Int            // validator key -> tokens
	stake  map[string]map[string]*big.Int // voter -> validator key -> tokens
	bonded *big.Int
}

func (e *Env) govView(ctx sdk.Context, s *Snap) *govView {
	g := &govView{total: map[string]*big.Int{}, stake: map[string]map[string]*big.Int{}, bonded: new(big.Int)}
	add := func(d, k string, a *big.Int) {
		if g.stake[d] == nil {
			g.stake[d] = map[string]*big.Int{}
		}
		g.stake[d][k] = a
	}
	vals, err := e.App.StakingKeeper.GetAllValidators(ctx)
	if err != nil {
		panic(err)
	}
	for _, v := range vals {
		if !v.IsBonded() {
			continue
		}
		g.total[v.OperatorAddress] = v.Tokens.BigInt()
		g.bonded.Add(g.bonded, v.Tokens.BigInt())
		ad, err := sdk.ValAddressFromBech32(v.OperatorAddress)
		if err != nil {
			panic(err)
		}
		ds, err := e.App.StakingKeeper.GetValidatorDelegations(ctx, ad)
		if err != nil {
			panic(err)
		}
		for _, d := range ds {
			// never slashed here: one share is one token
			add(d.DelegatorAddress, v.OperatorAddress, v.TokensFromShares(d.Shares).TruncateInt().BigInt())
		}
	}
	active := map[string]bool{}
	for k := range s.Val {
		active[k.S] = true
	}
	for st := range active {
		g.total[st] = new(big.Int).SetUint64(s.DelTotal[st])
		g.bonded.Add(g.bonded, g.total[st])
	}
	for k, d := range s.Del {
		if active[k.S] {
			add(k.D, k.S, new(big.Int).SetUint64(d.Amt))
		}
	}
	return g
}

// reference tally
func (g *govView) tally(votes map[string]wvote) (res map[govv1.VoteOption]*big.Rat, power *big.Rat) {
	res = map[govv1.VoteOption]*big.Rat{}
	for _, o := range []govv1.VoteOption{govv1.OptionYes, govv1.OptionAbstain, govv1.OptionNo, govv1.OptionNoWithVeto} {
		res[o] = new(big.Rat)
	}
	power = new(big.Rat)
	cast := func(v wvote, a *big.Int) {
		x := new(big.Rat).SetInt(a)
		for _, o := range v {
			w, _ := new(big.Rat).SetString(o.Weight)
			res[o.Option].Add(res[o.Option], w.Mul(w, x))
		}
		power.Add(power, x)
	}
	left := map[string]*big.Int{}
	for k, t := range g.total {
		left[k] = new(big.Int).Set(t)
	}
	for voter, v := range votes {
		for k, a := range g.stake[voter] {
			cast(v, a)
			left[k].Sub(left[k], a)
		}
	}
	for k, a := range left {
		v, ok := votes[k] // protocol validator
		if !ok {
			if ad, err := sdk.ValAddressFromBech32(k); err == nil {
				v, ok = votes[sdk.AccAddress(ad).String()]
			}
		}
		if ok {
			cast(v, a)
		}
	}
	return
}

// judgeTally casts the votes on a branch and compares the tally with the reference.
func (e *Env) judgeTally(ctx sdk.Context, g *govView, id uint64, votes map[string]wvote, what func() string, quorum bool, fail Fail) int {
	base, _ := ctx.CacheContext()
	base = quiet(base)
	for _, v := range sortedKeys(votes) {
		if err := e.execMsg(base, govv1.NewMsgVoteWeighted(sdk.MustAccAddressFromBech32(v), id, govv1.WeightedVoteOptions(votes[v]), "")); err != nil {
			fail("vote", "%s: vote of %s refused: %v", what(), lab(v), err)
			return 1
		}
	}
	p, err := e.App.GovKeeper.Proposals.Get(base, id)
	if err != nil {
		fail("vote", "%s: no proposal: %v", what(), err)
		return 1
	}
	type out struct {
		pass bool
		r    govv1.TallyResult
	}
	run := func(q *math.LegacyDec) (o out, ok bool) {
		c, _ := base.CacheContext()
		if q != nil {
			pp, _ := e.App.GovKeeper.Params.Get(c)
			pp.Quorum, pp.Threshold, pp.VetoThreshold = q.String(), "0.0", "1.0"
			must(e.App.GovKeeper.Params.Set(c, pp))
		}
		err, pan := guard(func() (err error) { o.pass, _, o.r, err = e.App.GovKeeper.Tally(c, p); return })
		if err != nil || pan != "" {
			fail("tally-fails", "%s: the tally fails: %v %s", what(), err, pan)
			return o, false
		}
		return o, true
	}
	o, ok := run(nil)
	if !ok {
		return 1
	}
	res, power := g.tally(votes)
	for _, x := range []struct {
		o govv1.VoteOption
		s string
	}{{govv1.OptionYes, o.r.YesCount}, {govv1.OptionAbstain, o.r.AbstainCount}, {govv1.OptionNo, o.r.NoCount}, {govv1.OptionNoWithVeto, o.r.NoWithVetoCount}} {
		got, ok := new(big.Int).SetString(x.s, 10)
		d := new(big.Int)
		if ok {
			d.Abs(d.Sub(got, ratFloor(res[x.o])))
		}
		if !ok || d.Cmp(big.NewInt(1)) > 0 {
			fail("tally", "%s: %s counts %s instead of %s", what(), x.o, x.s, res[x.o].FloatString(2))
		}
	}
	if !quorum || g.bonded.Sign() == 0 || res[govv1.OptionYes].Sign() == 0 {
		return 1
	}
	// the total behind the quorum, visible through the outcome at both sides of the boundary
	part := new(big.Rat).Quo(power, new(big.Rat).SetInt(g.bonded))
	sc := new(big.Rat).Mul(part, new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)))
	n := ratFloor(sc)
	lo := math.LegacyNewDecFromBigIntWithPrec(new(big.Int).Sub(n, big.NewInt(2)), 18)
	hi := math.LegacyNewDecFromBigIntWithPrec(new(big.Int).Add(n, big.NewInt(3)), 18)
	if !lo.IsNegative() {
		if o, ok := run(&lo); ok && !o.pass {
			fail("quorum", "%s: not enough votes although %s of %s take part", what(), power.FloatString(0), g.bonded)
		}
	}
	if hi.LTE(math.LegacyOneDec()) {
		if o, ok := run(&hi); ok && o.pass {
			fail("quorum", "%s: enough votes although only %s of %s take part", what(), power.FloatString(0), g.bonded)
		}
	}
	return 3
}

func voteNames(votes map[string]wvote) string {
	var l []string
	for _, v := range sortedKeys(votes) {
		for _, k := range voteKinds {
			if len(k.o) > 0 && &k.o[0] == &votes[v][0] {
				l = append(l, lab(v)+":"+k.name)
			}
		}
	}
	return "{" + strings.Join(l, " ") + "}"
}

func govSetup(e *Env, ctx sdk.Context) sdk.Context {
	chainOp()
	ctx = bundleSetup(e, ctx, bcfg{pools: 2, stakers: []string{"S1", "S2", "S3"}, stake: map[string]uint64{"S1": 7 * K, "S2": 5*K + 1, "S3": 3 * K}, member: map[string][]uint64{"S1": {0}, "S2": {0, 1}, "S3": {}},
		dels: map[string]uint64{"D1@S1": 2*K + 3, "D1@S2": K, "D2@S1": 11, "D2@S3": 4 * K}, maxPower: "1"})
	e.chainValidator(ctx, "S2", 6*K)
	e.chainValidator(ctx, "S4", 2*K)
	e.chainDelegate(ctx, "D1", chainVal(), 9*K)
	e.chainDelegate(ctx, "S1", valOper(acc("S2")), 3*K)
	e.propose(ctx, "G")
	return e.block(ctx, 5)
}

var govVoters = []string{"S1", "S2", "S3", "D1", "D2", "CO", "chaindelegator"}

func govWorlds() []*Scenario {
	W := func(name string, f func(e *Env, ctx sdk.Context) sdk.Context) *Scenario {
		return &Scenario{Name: "gov-" + name, Gen: bundleGen(), Ops: func(*Env) []*Op { return nil }, Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			return f(e, govSetup(e, ctx))
		}}
	}
	id := func(e *Env, ctx sdk.Context) sdk.Context { return ctx }
	ops := func(l ...*Op) func(e *Env, ctx sdk.Context) sdk.Context {
		return func(e *Env, ctx sdk.Context) sdk.Context {
			for _, o := range l {
				if o.Block {
					ctx = e.block(ctx, o.Dt)
				} else {
					e.do(ctx, o)
				}
			}
			return ctx
		}
	}
	full := opDelegationParams("slash 1", `{"vote_slash":"1","timeout_slash":"0.333333333333333333"}`)
	return []*Scenario{
		W("base", id),
		W("no-own-stake", ops(opUndelegate("S1", "S1", 7*K), blockOp(5), blockOp(6*24*3600))),
		W("zero-stake", ops(opUndelegate("S1", "S1", 7*K), opUndelegate("D1", "S1", 2*K+3), opUndelegate("D2", "S1", 11), blockOp(5), blockOp(6*24*3600))),
		W("slashed", ops(full, opSlash("S1", delegationtypes.SLASH_TYPE_TIMEOUT), opSlash("S2", delegationtypes.SLASH_TYPE_TIMEOUT), opDelegate("D2", "S2", 17))),
		W("slashed-to-zero", ops(full, opSlash("S1", delegationtypes.SLASH_TYPE_VOTE))),
		W("two-memberships", ops(opJoin("S1", 1, valOf("S1", 1), 0), opJoin("S3", 1, valOf("S3", 1), 0))),
		W("one-left", ops(opJoin("S1", 1, valOf("S1", 1), 0), opLeave("S1", 0), blockOp(5), blockOp(6*24*3600))),
		W("all-disabled", ops(opDisable(0), opDisable(1))),
		W("one-disabled", ops(opDisable(0))),
		W("cross", ops(opDelegate("S1", "S2", 5*K), opDelegate("S2", "S1", 13*K), opDelegate("S3", "S1", 17), opDelegate("S1", "S3", 19))),
		W("unbonding", ops(opUndelegate("D1", "S1", K), opRedelegate("D1", "S1", "S2", K), opUndelegate("D2", "S3", K))),
		W("tiny", ops(opUndelegate("S1", "S1", 7*K-1), opUndelegate("D1", "S1", 2*K+3), opUndelegate("D2", "S1", 11), blockOp(5), blockOp(6*24*3600))),
	}
}

func govGrid() *Extra {
	ws := govWorlds()
	n := func(tier string) int {
		if tier == "thorough" {
			return 5 * 5 * 5 * 5 * 5 * 5 * 5
		}
		return 3 * 3 * 3 * 3 * 3 * 3 * 3
	}
	return &Extra{Name: "tally", Note: "twelve worlds of protocol and chain stakes (inactive, slashed, empty, unbonding and mutually delegating validators, an account validating on both) x all assignments of votes to seven accounts; tallied by the governance module, with the quorum set to both sides of the exact participation",
		N: func(tier string) int { return n(tier) * len(ws) },
		Run: func(tier string, i int, fail Fail) (int, int) {
			sc := ws[i%len(ws)]
			i /= len(ws)
			kinds := 3
			if tier == "thorough" {
				kinds = 5
			}
			e, ctx := extraEnv(sc)
			if e.Wrk == nil {
				e.Wrk = e.govView(ctx, e.Snapshot(ctx))
			}
			votes := map[string]wvote{}
			for _, v := range govVoters {
				if o := voteKinds[i%kinds].o; o != nil {
					votes[addressOf(v)] = o
				}
				i /= kinds
			}
			return 1, e.judgeTally(ctx, e.Wrk.(*govView), 1, votes, func() string { return sc.Name + " " + voteNames(votes) }, true, fail)
		}}
}

func addressOf(l string) string {
	if l == "chaindelegator" {
		for a, x := range labelOf {
			if x == l {
				return a
			}
		}
	}
	return acc(l)
}

// govLife explores stakes and memberships; every reached state is tallied with several vote patterns.
func govLife(q, th int) *Scenario {
	day := int64(24 * 3600)
	return &Scenario{Name: "gov-life", Gen: bundleGen(), Quick: q, Thor: th, Feat: Features{NoRewards: true},
		Note: "joins, leaves, disabling, penalties, delegations, undelegations and redelegations of protocol validators; ten vote patterns tallied in every state",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = govSetup(e, ctx)
			e.do(ctx, opDelegationParams("p", `{"vote_slash":"1","timeout_slash":"0.333333333333333333","unbonding_delegation_time":60}`))
			e.do(ctx, opStakersParams("p", `{"leave_pool_time":60}`))
			return ctx
		},
		Ops: func(e *Env) []*Op {
			return []*Op{
				opJoin("S3", 0, valOf("S3", 0), 0), opJoin("S1", 1, valOf("S1", 1), 0), opLeave("S1", 0), opLeave("S2", 0), opKick("S2", 1), opKick("S1", 0), opDisable(0), opEnable(0),
				opUndelegate("S1", "S1", 7*K), opUndelegateAll("D1", "S1", 0), opUndelegateAll("D2", "S1", 0), opRedelegateAll("D2", "S3", "S2"), opDelegate("S2", "S1", 5), opDelegate("D1", "S3", 8*K),
				opSlash("S1", delegationtypes.SLASH_TYPE_VOTE), opSlash("S2", delegationtypes.SLASH_TYPE_TIMEOUT), blockOp(61), blockOp(day / 24),
			}
		}}
}

func stateTally(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
	g := e.govView(ctx, s)
	y, sp, v := voteKinds[1].o, voteKinds[2].o, voteKinds[4].o
	pats := []map[string]wvote{
		{}, {"S1": y, "S2": sp, "S3": v, "D1": y, "D2": sp}, {"S1": y}, {"S2": y}, {"S3": y}, {"D1": y}, {"D2": y}, {"S1": v, "D1": y}, {"S1": y, "S2": y, "S3": y, "D2": v}, {"S2": sp, "D1": v},
	}
	for _, p := range pats {
		votes := map[string]wvote{}
		for l, o := range p {
			votes[acc(l)] = o
		}
		e.judgeTally(ctx, g, 1, votes, func() string { return voteNames(votes) }, len(p) == 5 || len(p) == 1, fail)
	}
}

// govOutcome lets real blocks end the voting period.
func govOutcome() *Extra {
	ws := govWorlds()
	pats := []map[string]int{{}, {"S1": 1}, {"S2": 1}, {"D1": 1}, {"CO": 1, "S2": 1, "S1": 1, "D1": 1, "S3": 1}, {"S1": 4, "CO": 1, "D1": 1}, {"S1": 2, "S2": 2, "D2": 1}, {"D2": 1, "S3": 2, "S1": 3}}
	return &Extra{Name: "outcome", Note: "the same worlds, the voting period ended by real blocks; the stored result against the reference",
		N: func(string) int { return len(ws) * len(pats) },
		Run: func(tier string, i int, fail Fail) (int, int) {
			sc := ws[i%len(ws)]
			e, ctx := extraEnv(sc)
			votes := map[string]wvote{}
			for l, k := range pats[i/len(ws)] {
				votes[addressOf(l)] = voteKinds[k].o
				e.must(ctx, govv1.NewMsgVoteWeighted(sdk.MustAccAddressFromBech32(addressOf(l)), 1, govv1.WeightedVoteOptions(voteKinds[k].o), ""))
			}
			p, err := e.App.GovKeeper.Proposals.Get(ctx, 1)
			must(err)
			// close to the end, then beyond it
			g := e.govView(ctx, e.Snapshot(ctx))
			steps := 0
			for k := 0; k < 3; k++ {
				if err, pan := e.endBlock(ctx); err != nil || pan != "" {
					fail("end-block", "%s %s: the end of the block fails when a vote is counted: %v %s", sc.Name, voteNames(votes), err, pan)
					return steps, steps
				}
				dt := int64(5)
				if k == 0 {
					dt = int64(p.VotingEndTime.Sub(ctx.BlockTime())/time.Second) + 1
				}
				ctx = nextCtx(ctx, dt)
				steps++
				if err, pan := e.beginBlock(ctx); err != nil || pan != "" {
					fail("begin-block", "%s %s: the next block fails: %v %s", sc.Name, voteNames(votes), err, pan)
					return steps, steps
				}
				if k == 0 {
					g = e.govView(ctx, e.Snapshot(ctx))
				}
			}
			p, err = e.App.GovKeeper.Proposals.Get(ctx, 1)
			if err != nil {
				fail("outcome", "%s: the proposal vanished: %v", sc.Name, err)
				return steps, steps
			}
			res, power := g.tally(votes)
			pp, _ := e.App.GovKeeper.Params.Get(ctx)
			R := func(s string) *big.Rat { x, _ := new(big.Rat).SetString(s); return x }
			pass := false
			nonAbstain := new(big.Rat).Sub(power, res[govv1.OptionAbstain])
			if g.bonded.Sign() > 0 && new(big.Rat).Quo(power, new(big.Rat).SetInt(g.bonded)).Cmp(R(pp.Quorum)) >= 0 && nonAbstain.Sign() > 0 &&
				new(big.Rat).Quo(res[govv1.OptionNoWithVeto], power).Cmp(R(pp.VetoThreshold)) <= 0 && new(big.Rat).Quo(res[govv1.OptionYes], nonAbstain).Cmp(R(pp.Threshold)) > 0 {
				pass = true
			}
			if pass != (p.Status == govv1.StatusPassed) {
				fail("outcome", "%s %s: the proposal ends %s, expected to pass: %v", sc.Name, voteNames(votes), p.Status, pass)
			}
			if y := p.FinalTallyResult.YesCount; y != ratFloor(res[govv1.OptionYes]).String() {
				fail("outcome", "%s %s: yes counts %s instead of %s", sc.Name, voteNames(votes), y, res[govv1.OptionYes].FloatString(2))
			}
			return steps, steps
		}}
}

func buildGov() {
	register(&Property{ID: "G02", Scenarios: []*Scenario{govLife(4, 5)}, States: []StateRule{stateTally}, Extra: []*Extra{govGrid(), govOutcome()}})
}
