package main

// X01 on complete chains: the state of a running chain is exported with the node's
// export command (at its height, or prepared for a fresh start at height zero), another
// process starts a chain from it, and both continue with the same signed transactions.

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/codec"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtx "github.com/cosmos/cosmos-sdk/x/auth/tx"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	slashingtypes "github.com/cosmos/cosmos-sdk/x/slashing/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"

	"github.com/KYVENetwork/chain/app"
)

type exportTask struct {
	Init, A int
	Votes   int   // validators which sign the blocks
	Zero    bool  // prepare for height zero
	Allow   []int // validators which may continue (all, when empty)
	// set for the chain which starts from the export
	Genesis []byte
	Height  int64
	Time    int64
	Blocks  []chainBlock
}

type exportOut struct {
	Genesis []byte
	Height  int64
	Time    int64
	Blocks  []chainBlock // after the export
	Txs     [][][]byte   // their results
	Vals    []string     // the chain's validators at the export or after the import
	Powers  []string     // validators which the export names
	Lines   [][]string   // facts at the export (import) and at the end
}

func nodeKey(i int) *ed25519.PrivKey {
	if i == 0 {
		return consKey()
	}
	return ed25519.GenPrivKeyFromSecret([]byte("verif-validator-2"))
}

// chainStakers are the accounts which stake for the chain itself.
var chainStakers = []string{"CV", "CD"}

func (f *full) blockVotes(dt int64, txs [][]byte, votes int) (out [][]byte) {
	f.h++
	f.t += dt
	var ci abci.CommitInfo
	for i := 0; i < votes; i++ {
		ci.Votes = append(ci.Votes, abci.VoteInfo{Validator: abci.Validator{Address: nodeKey(i).PubKey().Address(), Power: 1}, BlockIdFlag: cmtproto.BlockIDFlagCommit})
	}
	r, err := f.e.App.FinalizeBlock(&abci.RequestFinalizeBlock{Height: f.h, Time: time.Unix(f.t, 0).UTC(), Txs: txs, DecidedLastCommit: ci, ProposerAddress: consKey().PubKey().Address()})
	must(err)
	for _, t := range r.TxResults {
		out = append(out, []byte(fmt.Sprintf("code %d data %x", t.Code, t.Data)))
	}
	_, err = f.e.App.Commit()
	must(err)
	return
}

// validators are the chain's validators with their standing.
func (f *full) validators() (l []string) {
	ctx := f.ctx()
	vs, err := f.e.App.StakingKeeper.GetAllValidators(ctx)
	must(err)
	for _, v := range vs {
		n := 0
		for i := 0; i < 2; i++ {
			if c, err := v.GetConsAddr(); err == nil && string(c) == string(nodeKey(i).PubKey().Address()) {
				n = i
			}
		}
		l = append(l, fmt.Sprintf("validator %d: jailed %v, tokens %s, shares %s, commission %s, minimum %s", n, v.Jailed, v.Tokens, v.DelegatorShares, v.Commission.Rate, v.MinSelfDelegation))
	}
	sort.Strings(l)
	ds, err := f.e.App.StakingKeeper.GetAllDelegations(ctx)
	must(err)
	var x []string
	for _, d := range ds {
		x = append(x, fmt.Sprintf("%s delegates %s", lab(d.DelegatorAddress), d.Shares))
	}
	sort.Strings(x)
	l = append(l, x...)
	var u []string
	must(f.e.App.StakingKeeper.IterateUnbondingDelegations(ctx, func(_ int64, d stakingtypes.UnbondingDelegation) bool {
		for _, e := range d.Entries {
			u = append(u, fmt.Sprintf("%s unbonds %s (%s) until %s", lab(d.DelegatorAddress), e.Balance, e.InitialBalance, e.CompletionTime))
		}
		return false
	}))
	must(f.e.App.StakingKeeper.IterateRedelegations(ctx, func(_ int64, d stakingtypes.Redelegation) bool {
		for _, e := range d.Entries {
			u = append(u, fmt.Sprintf("%s redelegated %s until %s", lab(d.DelegatorAddress), e.InitialBalance, e.CompletionTime))
		}
		return false
	}))
	return append(l, u...)
}

var reHeight = regexp.MustCompile(`"height":"?[0-9]+"?`)

// facts are the observations which an export must keep; the chain's own staking rewards
// are withdrawn by a preparation for height zero, and split differently without signatures.
func (f *full) facts() (out []string) {
	skip := map[string]bool{}
	for _, a := range append([]string{"chaindelegator"}, chainStakers...) {
		skip["balance "+a] = true
	}
	for _, m := range []string{authtypes.FeeCollectorName, distrtypes.ModuleName, stakingtypes.BondedPoolName, stakingtypes.NotBondedPoolName} {
		skip["balance "+lab(modAddr(m))] = true
	}
	for _, l := range f.lines() {
		if p := strings.SplitN(l, " ", 3); len(p) > 1 && skip[p[0]+" "+p[1]] || strings.HasPrefix(l, "community pool ") {
			continue
		}
		out = append(out, reHeight.ReplaceAllString(l, `"height":_`))
	}
	return
}

// runExport executes a task in this (fresh) process.
func runExport(t *exportTask) (out exportOut) {
	chainKeys()
	acc(noUser)
	for _, l := range chainStakers {
		keyAcc(l)
	}
	labelOf[sdk.AccAddress(secp256k1.GenPrivKeyFromSecret([]byte("verif-chain-delegator")).PubKey().Address()).String()] = "chaindelegator"
	sc := mixedWorld("mixed", 0, 0)
	play := func(f *full, blocks []chainBlock) {
		for i, b := range blocks {
			v := t.Votes
			if i == 0 {
				v = 0 // the first block of a chain has no signatures
			}
			out.Txs = append(out.Txs, f.blockVotes(b.Dt, b.Txs, v))
		}
		out.Lines = append(out.Lines, f.facts())
	}
	if t.Genesis != nil {
		a, err := newAppOn(dbm.NewMemDB())
		must(err)
		h := t.Height
		if h == 0 {
			h = 1
		}
		_, err = a.InitChain(&abci.RequestInitChain{ChainId: chainID, ConsensusParams: app.DefaultConsensusParams, AppStateBytes: t.Genesis, Time: time.Unix(t.Time, 0).UTC(), InitialHeight: h})
		if err != nil {
			panic(fmt.Errorf("the import is refused: %w", err))
		}
		f := &full{e: &Env{App: a, Sc: sc}, h: h - 1, t: t.Time}
		f.blockVotes(t.Blocks[0].Dt, t.Blocks[0].Txs, 0)
		out.Vals = f.validators()
		play(f, t.Blocks[1:])
		return
	}
	gen := sc.Gen
	gen.Funded = map[string]sdk.Coins{}
	for k, v := range sc.Gen.Funded {
		gen.Funded[k] = v
	}
	for _, l := range chainStakers {
		gen.Funded[l] = kyve(1000 * K)
	}
	a, ctx := newApp(gen)
	e := &Env{App: a, Sc: sc}
	f := &full{e: e, h: 1, t: T0, tc: authtx.NewTxConfig(codec.NewProtoCodec(a.InterfaceRegistry()), authtx.DefaultSignModes)}
	ctx = sc.Setup(e, nextCtx(ctx, 0))
	// a second validator with commission, a delegator who moves stake around
	must(a.SlashingKeeper.SetValidatorSigningInfo(ctx, sdk.ConsAddress(consKey().PubKey().Address()),
		slashingtypes.NewValidatorSigningInfo(sdk.ConsAddress(consKey().PubKey().Address()), 0, 0, time.Unix(0, 0), false, 0)))
	one, two := sdk.ValAddress(consKey().PubKey().Address()).String(), sdk.ValAddress(sdk.MustAccAddressFromBech32(acc("CV"))).String()
	mv, err := stakingtypes.NewMsgCreateValidator(two, nodeKey(1).PubKey(), coin(DENOM, 5*K), stakingtypes.Description{Moniker: "two"}, stakingtypes.NewCommissionRates(dec("0.1"), dec("0.2"), dec("0.01")), math.OneInt())
	must(err)
	must(e.execMsg(ctx, mv))
	for _, m := range []sdk.Msg{
		stakingtypes.NewMsgDelegate(acc("CD"), one, coin(DENOM, 3*K)), stakingtypes.NewMsgDelegate(acc("CD"), two, coin(DENOM, 3*K)),
		stakingtypes.NewMsgUndelegate(acc("CD"), one, coin(DENOM, K)), stakingtypes.NewMsgBeginRedelegate(acc("CD"), one, two, coin(DENOM, K))} {
		must(e.execMsg(ctx, m))
	}
	ctx, _ = sc.Init(e, ctx, t.Init)
	f.t = ctx.BlockTime().Unix()
	ops := sc.Ops(e)
	f.blockVotes(1, nil, 0)
	f.blockVotes(1, nil, 0)
	var first [][]byte
	op := ops[t.A]
	if op.Msg != nil {
		m := op.Msg(e, f.ctx())
		if tx := f.sign(f.ctx(), m, map[string]uint64{}); tx != nil {
			first = [][]byte{tx}
		} else {
			_ = e.execMsg(f.ctx().WithBlockHeight(f.h), m)
		}
	} else if op.Fn != nil {
		c, write := f.ctx().CacheContext()
		if err, p := guard(func() error { return op.Fn(e, c) }); err == nil && p == "" {
			write()
		}
	}
	f.blockVotes(61, first, t.Votes)
	f.blockVotes(1, nil, t.Votes)
	var allow []string
	for _, i := range t.Allow {
		allow = append(allow, []string{one, two}[i])
	}
	x, err := a.ExportAppStateAndValidators(t.Zero, allow, nil)
	must(err)
	out.Genesis, out.Height, out.Time = x.AppState, x.Height, f.t
	for _, v := range x.Validators {
		n := 0
		if string(v.Address) == string(nodeKey(1).PubKey().Address()) {
			n = 1
		}
		out.Powers = append(out.Powers, fmt.Sprintf("validator %d: power %d", n, v.Power))
	}
	sort.Strings(out.Powers)
	if x.ConsensusParams.Block == nil || x.ConsensusParams.Block.MaxBytes != app.DefaultConsensusParams.Block.MaxBytes {
		panic("the export has no consensus parameters")
	}
	// an export of single modules has exactly these
	if y, err := a.ExportAppStateAndValidators(false, nil, []string{"pool", "funders"}); err != nil {
		panic(err)
	} else {
		var all, some map[string]json.RawMessage
		must(json.Unmarshal(x.AppState, &all))
		must(json.Unmarshal(y.AppState, &some))
		if len(some) != 2 || string(some["pool"]) != string(all["pool"]) || string(some["funders"]) != string(all["funders"]) {
			panic("the export of the pool and funders modules has other contents than the complete export")
		}
	}
	all := func() (l [][]byte) {
		seq := map[string]uint64{}
		for _, o := range ops {
			if o.Block || o.Msg == nil {
				continue
			}
			if tx := f.sign(f.ctx(), o.Msg(e, f.ctx()), seq); tx != nil {
				l = append(l, tx)
			}
		}
		return
	}
	b := chainBlock{Dt: 61}
	out.Blocks = append(out.Blocks, b)
	f.blockVotes(b.Dt, b.Txs, 0)
	out.Vals = f.validators()
	for i, dt := range []int64{61, 61, 6 * day, 5} {
		b := chainBlock{Dt: dt}
		if i == 1 || i == 3 {
			b.Txs = all()
		}
		out.Blocks = append(out.Blocks, b)
		v := t.Votes
		if i == 0 {
			v = 0
		}
		out.Txs = append(out.Txs, f.blockVotes(b.Dt, b.Txs, v))
	}
	out.Lines = append(out.Lines, f.facts())
	return
}

var exportModes = []exportTask{{}, {Zero: true}, {Zero: true, Allow: []int{0}}, {Zero: true, Allow: []int{0, 1}}}

func chainExport() *Extra {
	in := mixedInits()
	nops := len(mixedOps(nil))
	type point struct{ init, op, mode, votes int }
	plan := func(tier string) (l []point) {
		for i := range in {
			for o := 0; o < nops; o++ {
				for m := range exportModes {
					for v := 0; v <= 2; v++ {
						switch {
						case tier == "thorough" && (v+i+o+m)%3 == 0:
						case o == 0 && i == 0:
						case tier != "thorough" && o%4 == (i+m)%4 && (o/4+i+m)%3 == v:
						default:
							continue
						}
						l = append(l, point{i, o, m, v})
					}
				}
			}
		}
		return
	}
	return &Extra{Name: "chain-export", Note: "six situations x every operation as signed transaction in a real block x export at the current height or prepared for height zero (all validators, one of two, both named) x blocks signed by no, one or both validators of the chain; a fresh process starts a chain from the export and both chains continue with the transactions of all participants; protocol state, balances, answers, results and the chain's validators are compared",
		N: func(tier string) int { return len(plan(tier)) },
		Run: func(tier string, i int, fail Fail) (int, int) {
			x := plan(tier)[i]
			mode := exportModes[x.mode]
			what := fmt.Sprintf("%s, then %s; blocks signed by %d validators; export (height zero %v, allowed validators %v)", in[x.init].name, mixedOps(nil)[x.op].Name, x.votes, mode.Zero, mode.Allow)
			base, err := isolated(&subIn{Export: &exportTask{Init: x.init, A: x.op, Votes: x.votes, Zero: mode.Zero, Allow: mode.Allow}})
			if err == nil && base.Err != "" {
				err = fmt.Errorf("%s", base.Err)
			}
			if err != nil {
				fail("export-fails", "%s: %v", what, err)
				return 1, 1
			}
			a := base.Export
			if mode.Zero != (a.Height == 0) {
				fail("export-height", "%s: the export is for height %d", what, a.Height)
			}
			im, err := isolated(&subIn{Export: &exportTask{Votes: min(x.votes, len(a.Powers)), Genesis: a.Genesis, Height: a.Height, Time: a.Time, Blocks: a.Blocks}})
			if err == nil && im.Err != "" {
				err = fmt.Errorf("%s", im.Err)
			}
			if err != nil {
				fail("import-fails", "%s: %v", what, err)
				return 1, 1
			}
			b := im.Export
			out := map[int]bool{}
			if mode.Zero && len(mode.Allow) == 1 {
				out[1] = true
			}
			for v := 0; v < 2; v++ {
				if named := strings.Contains(strings.Join(a.Powers, ";"), fmt.Sprintf("validator %d:", v)); named == out[v] {
					fail("export-validators", "%s: the export names %v", what, a.Powers)
				}
			}
			want := append([]string{}, a.Vals...)
			for i, l := range want {
				if out[1] && strings.HasPrefix(l, "validator 1:") {
					want[i] = strings.Replace(l, "jailed false", "jailed true", 1)
				}
			}
			if strings.Join(want, "\n") != strings.Join(b.Vals, "\n") {
				fail("export-validators", "%s: the chain's validators are\n%s\ninstead of\n%s", what, strings.Join(b.Vals, "\n"), strings.Join(want, "\n"))
			}
			for j := range a.Txs {
				if fmt.Sprint(a.Txs[j]) != fmt.Sprint(b.Txs[j]) {
					for q := range a.Txs[j] {
						if q >= len(b.Txs[j]) || string(a.Txs[j][q]) != string(b.Txs[j][q]) {
							fail("export-result", "%s: transaction %d of block %d after the import gives %s instead of %s", what, q, j+2, b.Txs[j][q], a.Txs[j][q])
							break
						}
					}
				}
			}
			for j := range a.Lines {
				for q, l := range a.Lines[j] {
					if q >= len(b.Lines[j]) || b.Lines[j][q] != l {
						got := "nothing"
						if q < len(b.Lines[j]) {
							got = b.Lines[j][q]
						}
						fail("export-observable", "%s: this no longer holds: %s (now %s)", what, tailFront(l, 900), tailFront(got, 900))
						break
					}
				}
			}
			return 9, 9
		}}
}
