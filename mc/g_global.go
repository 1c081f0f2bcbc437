package main

// G01: fees.  Here complete signed transactions are delivered in complete blocks
// (CheckTx, FinalizeBlock, Commit), so that the application's own chain of ante,
// message and post handlers and of block hooks decides.

import (
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/codec"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	signingtypes "github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	authtx "github.com/cosmos/cosmos-sdk/x/auth/tx"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"

	"github.com/KYVENetwork/chain/app"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
)

const gBal = uint64(1_000_000_000_000)

var gKeys = map[string]*secp256k1.PrivKey{}

// keyAcc makes label an account with a usable signing key.
func keyAcc(label string) string {
	if k, ok := gKeys[label]; ok {
		return sdk.AccAddress(k.PubKey().Address()).String()
	}
	k := secp256k1.GenPrivKeyFromSecret([]byte("verif-key-" + label))
	gKeys[label] = k
	a := sdk.AccAddress(k.PubKey().Address()).String()
	addrOf[label], labelOf[a] = a, label
	return a
}

// full is one application driven through its ABCI interface only.
type full struct {
	e  *Env
	h  int64
	t  int64
	tc client.TxConfig
}

var fulls = map[string]*full{}

func gFunded() map[string]sdk.Coins {
	m := map[string]sdk.Coins{"TRE": sdk.NewCoins(coin(DENOM, 1000*gBal), coin(ADENOM, 1000*gBal), coin(BDENOM, 1000*gBal)), "SINK": kyve(1)}
	for _, l := range []string{"GP", "GQ", "GR"} {
		keyAcc(l)
		m[l] = sdk.NewCoins(coin(DENOM, gBal), coin(ADENOM, gBal), coin(BDENOM, gBal))
	}
	return m
}

func (f *full) ctx() sdk.Context {
	return f.e.App.BaseApp.NewUncachedContext(false, headerAt(f.h, f.t))
}

func newFull() *full {
	setPrefixes()
	gFunded()
	sc := &Scenario{Name: "full", Gen: GenCfg{Funded: gFunded()}, Ops: func(*Env) []*Op { return nil }}
	a, _ := newApp(sc.Gen)
	f := &full{e: &Env{App: a, Sc: sc}, h: 1, t: T0, tc: authtx.NewTxConfig(codec.NewProtoCodec(a.InterfaceRegistry()), authtx.DefaultSignModes)}
	if err := f.e.execMsg(f.ctx(), &funderstypes.MsgCreateFunder{Creator: acc("GP"), Moniker: "m"}); err != nil {
		panic(err)
	}
	f.block(nil)
	return f
}

func theFull() *full {
	if fulls["x"] == nil {
		fulls["x"] = newFull()
	}
	return fulls["x"]
}

func (f *full) block(txs [][]byte) (*abci.ResponseFinalizeBlock, error) {
	f.h++
	f.t += 5
	r, err := f.e.App.FinalizeBlock(&abci.RequestFinalizeBlock{Height: f.h, Time: time.Unix(f.t, 0).UTC(), Txs: txs, ProposerAddress: consKey().PubKey().Address()})
	if err != nil {
		return nil, err
	}
	_, err = f.e.App.Commit()
	return r, err
}

type gTx struct {
	msgs  []string
	fee   sdk.Coins
	gas   uint64
	payer string // "self", "other", "grant"
}

func (t gTx) String() string {
	return fmt.Sprintf("tx{%s fee %s gas %d paid by %s}", strings.Join(t.msgs, "+"), t.fee, t.gas, t.payer)
}

// what each message does to SINK when it succeeds, and whether it succeeds
var gMsg = map[string]struct {
	sink uint64
	ok   bool
	url  string
}{
	"send":    {7, true, "/cosmos.bank.v1beta1.MsgSend"},
	"multi":   {3, true, "/cosmos.bank.v1beta1.MsgMultiSend"},
	"exec":    {5, true, "/cosmos.authz.v1beta1.MsgExec"},
	"funder":  {0, true, "/kyve.funders.v1beta1.MsgUpdateFunder"},
	"toomuch": {0, false, "/cosmos.bank.v1beta1.MsgSend"},
	"vote":    {0, false, "/cosmos.gov.v1.MsgVote"},
	"skip":    {0, false, "/kyve.bundles.v1beta1.MsgSkipUploaderRole"},
}

func (f *full) msg(k string) sdk.Msg {
	p, s := acc("GP"), acc("SINK")
	pa, sa := sdk.MustAccAddressFromBech32(p), sdk.MustAccAddressFromBech32(s)
	switch k {
	case "send":
		return banktypes.NewMsgSend(pa, sa, kyve(7))
	case "toomuch":
		return banktypes.NewMsgSend(pa, sa, kyve(1000*gBal))
	case "multi":
		return banktypes.NewMsgMultiSend(banktypes.Input{Address: p, Coins: kyve(3)}, []banktypes.Output{{Address: s, Coins: kyve(3)}})
	case "exec":
		m := authz.NewMsgExec(pa, []sdk.Msg{banktypes.NewMsgSend(pa, sa, kyve(5))})
		return &m
	case "funder":
		return &funderstypes.MsgUpdateFunder{Creator: p, Moniker: "m"}
	case "vote":
		return govv1.NewMsgVote(pa, 99, govv1.OptionYes, "")
	case "skip":
		return &bundlestypes.MsgSkipUploaderRole{Creator: p, Staker: p, PoolId: 0}
	}
	panic(k)
}

func (f *full) build(t gTx, seqP, seqQ uint64) []byte {
	ctx := f.ctx()
	return f.buildNum(t, seqP, seqQ, func(l string) uint64 {
		return f.e.App.AccountKeeper.GetAccount(ctx, sdk.MustAccAddressFromBech32(acc(l))).GetAccountNumber()
	})
}

func (f *full) buildNum(t gTx, seqP, seqQ uint64, number func(string) uint64) []byte {
	b := f.tc.NewTxBuilder()
	var msgs []sdk.Msg
	for _, k := range t.msgs {
		msgs = append(msgs, f.msg(k))
	}
	if err := b.SetMsgs(msgs...); err != nil {
		panic(err)
	}
	b.SetFeeAmount(t.fee)
	b.SetGasLimit(t.gas)
	type signer struct {
		k   cryptotypes.PrivKey
		seq uint64
		ad  string
	}
	ss := []signer{{gKeys["GP"], seqP, acc("GP")}}
	switch t.payer {
	case "other":
		b.SetFeePayer(sdk.MustAccAddressFromBech32(acc("GQ")))
		ss = append(ss, signer{gKeys["GQ"], seqQ, acc("GQ")})
	case "grant":
		b.SetFeeGranter(sdk.MustAccAddressFromBech32(acc("GR")))
	case "selfgrant":
		b.SetFeeGranter(sdk.MustAccAddressFromBech32(acc("GP")))
	}
	var sigs []signingtypes.SignatureV2
	for _, s := range ss {
		sigs = append(sigs, signingtypes.SignatureV2{PubKey: s.k.PubKey(), Data: &signingtypes.SingleSignatureData{SignMode: signingtypes.SignMode_SIGN_MODE_DIRECT}, Sequence: s.seq})
	}
	if err := b.SetSignatures(sigs...); err != nil {
		panic(err)
	}
	for i, s := range ss {
		num := number(lab(s.ad))
		sd := authsigning.SignerData{Address: s.ad, ChainID: chainID, AccountNumber: num, Sequence: s.seq, PubKey: s.k.PubKey()}
		bz, err := authsigning.GetSignBytesAdapter(context.Background(), f.tc.SignModeHandler(), signingtypes.SignMode_SIGN_MODE_DIRECT, sd, b.GetTx())
		if err != nil {
			panic(err)
		}
		sig, err := s.k.Sign(bz)
		if err != nil {
			panic(err)
		}
		sigs[i].Data = &signingtypes.SingleSignatureData{SignMode: signingtypes.SignMode_SIGN_MODE_DIRECT, Signature: sig}
	}
	if err := b.SetSignatures(sigs...); err != nil {
		panic(err)
	}
	bz, err := f.tc.TxEncoder()(b.GetTx())
	if err != nil {
		panic(err)
	}
	return bz
}

// reset brings all actors into a canonical state: fixed balances, sequence 7, no
// allowance but the given one.
func (f *full) reset(p globaltypes.Params, allow sdk.Coins, granted bool, bals map[string]sdk.Coins) {
	ctx := f.ctx()
	a := f.e.App
	a.GlobalKeeper.SetParams(ctx, p)
	tre := sdk.MustAccAddressFromBech32(acc("TRE"))
	for _, l := range []string{"GP", "GQ", "GR", "SINK"} {
		ad := sdk.MustAccAddressFromBech32(acc(l))
		if c := a.BankKeeper.GetAllBalances(ctx, ad); !c.IsZero() {
			must(a.BankKeeper.SendCoins(ctx, ad, tre, c))
		}
		c, ok := bals[l]
		if !ok {
			c = sdk.NewCoins(coin(DENOM, gBal), coin(ADENOM, gBal), coin(BDENOM, gBal))
		}
		if l == "SINK" {
			c = kyve(1_000_000)
		}
		if !c.IsZero() {
			must(a.BankKeeper.SendCoins(ctx, tre, ad, c))
		}
		ac := a.AccountKeeper.GetAccount(ctx, ad)
		must(ac.SetSequence(7))
		a.AccountKeeper.SetAccount(ctx, ac)
	}
	gr, pa := sdk.MustAccAddressFromBech32(acc("GR")), sdk.MustAccAddressFromBech32(acc("GP"))
	if g, _ := a.FeeGrantKeeper.GetAllowance(ctx, gr, pa); g != nil {
		must(f.e.execMsg(ctx, &feegrant.MsgRevokeAllowance{Granter: acc("GR"), Grantee: acc("GP")}))
	}
	if granted {
		must(a.FeeGrantKeeper.GrantAllowance(ctx, gr, pa, &feegrant.BasicAllowance{SpendLimit: allow}))
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (f *full) bal(l string) sdk.Coins {
	ad := sdk.MustAccAddressFromBech32(acc(l))
	return f.e.App.BankKeeper.GetAllBalances(f.ctx(), ad)
}

func (f *full) collector() sdk.Coins {
	return f.e.App.BankKeeper.GetAllBalances(f.ctx(), authtypes.NewModuleAddress(authtypes.FeeCollectorName))
}

func (f *full) supply() sdk.Coins {
	var c sdk.Coins
	f.e.App.BankKeeper.IterateTotalSupply(f.ctx(), func(x sdk.Coin) bool { c = c.Add(x); return false })
	return c
}

// fraction is the exact fraction of coins, rounded down.
func fraction(c sdk.Coins, fr math.LegacyDec) sdk.Coins {
	out := sdk.NewCoins()
	for _, x := range c {
		a := ratFloor(new(big.Rat).Mul(new(big.Rat).SetInt(x.Amount.BigInt()), decRat(fr)))
		out = out.Add(sdk.NewCoin(x.Denom, math.NewIntFromBigInt(a)))
	}
	return out
}

func requiredFee(p globaltypes.Params, gas uint64) math.Int {
	r := new(big.Rat).Mul(decRat(p.MinGasPrice), rat(gas, 1))
	q := ratFloor(r)
	if new(big.Rat).SetInt(q).Cmp(r) < 0 {
		q.Add(q, big.NewInt(1))
	}
	return math.NewIntFromBigInt(q)
}

// gState is the reference model of one block.
type gState struct {
	bal    map[string]sdk.Coins
	coll   sdk.Coins
	allow  *sdk.Coins // nil: no allowance; empty: unlimited
	seqP   uint64
	seqQ   uint64
	minTwo bool
}

// deliver predicts one transaction; it returns "" or why it is refused, and
// whether its messages succeed.
func (g *gState) deliver(p globaltypes.Params, t gTx, first bool) (ante string, ok bool) {
	if !first {
		if r := requiredFee(p, t.gas); r.IsPositive() && t.fee.AmountOf(DENOM).LT(r) {
			return "the fee is below the minimum", false
		}
	}
	payer := "GP"
	switch t.payer {
	case "other":
		payer = "GQ"
	case "grant":
		payer = "GR"
		if g.allow == nil {
			return "no allowance", false
		}
		if len(*g.allow) > 0 {
			left, neg := g.allow.SafeSub(t.fee...)
			if neg {
				return "allowance too small", false
			}
			if left.IsZero() {
				g.allow = nil
			} else {
				g.allow = &left
			}
		}
	}
	if !g.bal[payer].IsAllGTE(t.fee) {
		return "the payer cannot pay", false
	}
	g.bal[payer] = g.bal[payer].Sub(t.fee...)
	g.coll = g.coll.Add(t.fee...)
	g.seqP++
	if t.payer == "other" {
		g.seqQ++
	}
	sum := uint64(0)
	for _, m := range t.msgs {
		if !gMsg[m].ok {
			return "", false
		}
		sum += gMsg[m].sink
	}
	if g.bal["GP"].AmountOf(DENOM).LT(intU(sum)) {
		return "", false
	}
	if sum > 0 {
		g.bal["GP"] = g.bal["GP"].Sub(kyve(sum)...)
		g.bal["SINK"] = g.bal["SINK"].Add(kyve(sum)...)
	}
	if len(t.msgs) == 1 {
		for _, r := range p.GasRefunds {
			if r.Type == gMsg[t.msgs[0]].url {
				c := fraction(t.fee, r.Fraction)
				g.bal[payer] = g.bal[payer].Add(c...)
				g.coll = g.coll.Sub(c...)
				break
			}
		}
	}
	return "", true
}

type gCase struct {
	p     globaltypes.Params
	txs   []gTx
	allow sdk.Coins
	grant bool
	bals  map[string]sdk.Coins
	check bool // also offer the first transaction to the mempool
}

func (f *full) judge(c gCase, fail Fail) {
	f.reset(c.p, c.allow, c.grant, c.bals)
	what := func() string {
		var l []string
		for _, t := range c.txs {
			l = append(l, t.String())
		}
		return fmt.Sprintf("params{min %s burn %s adj %v refunds %v} allowance %v/%s %s", c.p.MinGasPrice, c.p.BurnRatio, c.p.GasAdjustments, c.p.GasRefunds, c.grant, c.allow, strings.Join(l, " "))
	}
	g := &gState{bal: map[string]sdk.Coins{}, seqP: 7, seqQ: 7}
	if c.grant {
		a := c.allow
		g.allow = &a
	}
	for _, l := range []string{"GP", "GQ", "GR", "SINK", "TRE"} {
		g.bal[l] = f.bal(l)
	}
	sup := f.supply()
	var txs [][]byte
	var want []string
	var wantOK []bool
	for _, t := range c.txs {
		txs = append(txs, f.build(t, g.seqP, g.seqQ))
		r, ok := g.deliver(c.p, t, false)
		want = append(want, r)
		wantOK = append(wantOK, ok)
	}
	if c.check {
		if _, err := f.block(nil); err != nil {
			fail("block", "%s: an empty block fails: %v", what(), err)
			return
		}
		r, err := f.e.App.CheckTx(&abci.RequestCheckTx{Tx: txs[0], Type: abci.CheckTxType_New})
		if err != nil {
			fail("mempool", "%s: %v", what(), err)
		} else if (r.Code == 0) != (want[0] == "") {
			fail("mempool", "%s: the mempool answers code %d (%s), expected: %q", what(), r.Code, r.Log, want[0])
		}
	}
	r, err := f.block(txs)
	if err != nil {
		fail("block", "%s: the block fails: %v", what(), err)
		return
	}
	for i, x := range r.TxResults {
		if want[i] != "" && x.Code == 0 {
			fail("fee-accepted", "%s: transaction %d is accepted although %s", what(), i, want[i])
		}
		if want[i] == "" && wantOK[i] && x.Code != 0 {
			fail("fee-refused", "%s: transaction %d is refused: %s", what(), i, x.Log)
		}
		if want[i] == "" && !wantOK[i] && x.Code == 0 {
			fail("failed-message", "%s: transaction %d succeeds although its message must fail", what(), i)
		}
	}
	burn := fraction(g.coll, c.p.BurnRatio)
	for _, l := range []string{"GP", "GQ", "GR", "SINK", "TRE"} {
		if got := f.bal(l); !got.Equal(g.bal[l]) {
			fail("payer-balance", "%s: %s holds %s instead of %s", what(), l, got, g.bal[l])
		}
	}
	if got, w := f.supply(), sup.Sub(burn...); !got.Equal(w) {
		fail("burned", "%s: the supply is %s instead of %s (collected %s)", what(), got, w, g.coll)
	}
	if got, w := f.collector(), g.coll.Sub(burn...); !got.Equal(w) {
		fail("collected", "%s: the fee collector holds %s instead of %s", what(), got, w)
	}
	ctx := f.ctx()
	al, _ := f.e.App.FeeGrantKeeper.GetAllowance(ctx, sdk.MustAccAddressFromBech32(acc("GR")), sdk.MustAccAddressFromBech32(acc("GP")))
	if (al != nil) != (g.allow != nil) {
		fail("allowance", "%s: the fee allowance exists: %v, expected %v", what(), al != nil, g.allow != nil)
	} else if b, ok := al.(*feegrant.BasicAllowance); ok && !b.SpendLimit.Equal(*g.allow) {
		fail("allowance", "%s: the fee allowance is %s instead of %s", what(), b.SpendLimit, *g.allow)
	}
	for _, x := range []struct {
		l string
		s uint64
	}{{"GP", g.seqP}, {"GQ", g.seqQ}} {
		if s := f.e.App.AccountKeeper.GetAccount(ctx, sdk.MustAccAddressFromBech32(acc(x.l))).GetSequence(); s != x.s {
			fail("sequence", "%s: sequence of %s is %d instead of %d", what(), x.l, s, x.s)
		}
	}
}

func gParams(min, burn string, adj []globaltypes.GasAdjustment, ref []globaltypes.GasRefund) globaltypes.Params {
	return globaltypes.Params{MinGasPrice: math.LegacyMustNewDecFromStr(min), BurnRatio: math.LegacyMustNewDecFromStr(burn), GasAdjustments: adj, GasRefunds: ref}
}

func coins(kv ...any) sdk.Coins {
	c := sdk.NewCoins()
	for i := 0; i < len(kv); i += 2 {
		c = c.Add(coin(kv[i].(string), kv[i+1].(uint64)))
	}
	return c
}

// minimum fee
func feeMinimum() *Extra {
	prices := []string{"0", "0.000000000000000001", "0.000001", "0.019999999999999999", "0.02", "0.333333333333333333", "1", "2.5", "7", "1234.567"}
	gases := []uint64{150_000, 150_001, 199_999, 200_000, 1_000_003}
	kinds := []string{"none", "req-1", "req", "req+1", "half", "foreign", "foreign+req-1", "foreign+req", "small foreign+req", "foreign2+half"}
	msgs := []string{"send", "toomuch", "funder"}
	n := len(prices) * len(gases) * len(kinds) * len(msgs)
	return &Extra{Name: "minimum-fee", Note: "gas price x gas limit x fee around the minimum in the native and other coins x message outcome, offered to the mempool and delivered in a block",
		N: func(string) int { return n },
		Run: func(tier string, i int, fail Fail) (int, int) {
			f := theFull()
			p := gParams(prices[i%len(prices)], "0", nil, nil)
			gas := gases[i/len(prices)%len(gases)]
			k := kinds[i/len(prices)/len(gases)%len(kinds)]
			m := msgs[i/len(prices)/len(gases)/len(kinds)]
			req := requiredFee(p, gas).Uint64()
			dec := func(x uint64) uint64 {
				if x == 0 {
					return 0
				}
				return x - 1
			}
			var fee sdk.Coins
			switch k {
			case "none":
				fee = coins()
			case "req-1":
				fee = coins(DENOM, dec(req))
			case "req":
				fee = coins(DENOM, req)
			case "req+1":
				fee = coins(DENOM, req+1)
			case "half":
				fee = coins(DENOM, req/2)
			case "foreign":
				fee = coins(ADENOM, req*10+1)
			case "foreign+req-1":
				fee = coins(ADENOM, req*10+1, DENOM, dec(req))
			case "foreign+req":
				fee = coins(ADENOM, req*10+1, DENOM, req)
			case "small foreign+req":
				fee = coins(BDENOM, uint64(1), DENOM, req)
			case "foreign2+half":
				fee = coins(ADENOM, req, BDENOM, req, DENOM, req/2)
			}
			f.judge(gCase{p: p, txs: []gTx{{[]string{m}, fee, gas, "self"}}, check: true}, fail)
			return 2, 2
		}}
}

// refunds
func feeRefund() *Extra {
	fr := []string{"0", "0.000000000000000001", "0.1", "0.333333333333333333", "0.5", "0.666666666666666667", "0.999999999999999999", "1"}
	fees := []sdk.Coins{coins(), coins(DENOM, uint64(1)), coins(DENOM, uint64(3)), coins(DENOM, uint64(1_000_001)), coins(ADENOM, uint64(7)), coins(DENOM, uint64(10), ADENOM, uint64(7), BDENOM, uint64(1)), coins(DENOM, uint64(900_000_000_001))}
	payers := []string{"self", "other", "grant:none", "grant:unlimited", "grant:exact", "grant:exact+1", "grant:double", "grant:short", "selfgrant"}
	sets := [][]string{{"send"}, {"toomuch"}, {"multi"}, {"exec"}, {"funder"}, {"send", "send"}, {"send", "multi"}, {"skip"}, {"vote"}}
	burns := []string{"0", "0.4"}
	// refund lists: the given fraction is attached to one or several types
	lists := []func(f math.LegacyDec) []globaltypes.GasRefund{
		func(f math.LegacyDec) []globaltypes.GasRefund { return nil },
		func(f math.LegacyDec) []globaltypes.GasRefund {
			return []globaltypes.GasRefund{{Type: gMsg["send"].url, Fraction: f}, {Type: gMsg["skip"].url, Fraction: f}}
		},
		func(f math.LegacyDec) []globaltypes.GasRefund {
			return []globaltypes.GasRefund{{Type: gMsg["vote"].url, Fraction: math.LegacyOneDec()}, {Type: gMsg["funder"].url, Fraction: f}, {Type: gMsg["exec"].url, Fraction: f}, {Type: gMsg["multi"].url, Fraction: math.LegacyNewDecWithPrec(25, 2)}}
		},
	}
	dims := []int{len(fr), len(fees), len(payers), len(sets), len(burns), len(lists)}
	n := 1
	for _, d := range dims {
		n *= d
	}
	return &Extra{Name: "refund", Note: "refund fraction x fee coins x payer arrangement (own, other signer, granter with allowance none/short/exact/more/unlimited) x messages x listed types x burn ratio",
		N: func(string) int { return n },
		Run: func(tier string, i int, fail Fail) (int, int) {
			x := digits(i, dims)
			f := theFull()
			fee := fees[x[1]]
			c := gCase{p: gParams("0", burns[x[4]], nil, lists[x[5]](math.LegacyMustNewDecFromStr(fr[x[0]])))}
			py := strings.Split(payers[x[2]], ":")
			if len(py) > 1 && py[1] != "none" {
				c.grant = true
				switch py[1] {
				case "exact":
					c.allow = fee
				case "exact+1":
					c.allow = fee.Add(coin(DENOM, 1))
				case "double":
					c.allow = fee.Add(fee...)
				case "short":
					if fee.AmountOf(DENOM).GT(math.OneInt()) {
						c.allow = fee.Sub(coin(DENOM, 1))
					} else {
						c.allow = coins(CDENOM, uint64(5))
					}
				}
			}
			c.txs = []gTx{{sets[x[3]], fee, 400_000, py[0]}}
			f.judge(c, fail)
			return 1, 1
		}}
}

func digits(i int, dims []int) []int {
	x := make([]int, len(dims))
	for k, d := range dims {
		x[k] = i % d
		i /= d
	}
	return x
}

// several transactions per block and burning
func feeBlocks() *Extra {
	p := func(burn string) globaltypes.Params {
		return gParams("0.02", burn, []globaltypes.GasAdjustment{{Type: gMsg["multi"].url, Amount: 1000}}, []globaltypes.GasRefund{{Type: gMsg["send"].url, Fraction: math.LegacyMustNewDecFromStr("0.7")}, {Type: gMsg["skip"].url, Fraction: math.LegacyOneDec()}})
	}
	alpha := []gTx{
		{[]string{"send"}, coins(DENOM, uint64(6000)), 300_000, "self"},
		{[]string{"send"}, coins(DENOM, uint64(5999)), 300_000, "self"},
		{[]string{"send", "send"}, coins(DENOM, uint64(8001), ADENOM, uint64(11)), 400_000, "self"},
		{[]string{"toomuch"}, coins(DENOM, uint64(6001)), 300_000, "self"},
		{[]string{"multi"}, coins(DENOM, uint64(7003)), 300_000, "other"},
		{[]string{"send"}, coins(DENOM, uint64(7777)), 300_000, "grant"},
		{[]string{"exec"}, coins(DENOM, uint64(6003)), 300_000, "self"},
		{[]string{"skip"}, coins(DENOM, uint64(6007), BDENOM, uint64(3)), 300_000, "self"},
		{[]string{"send"}, coins(DENOM, gBal/2), 300_000, "self"},
		{[]string{"funder"}, coins(DENOM, uint64(6000)), 300_000, "other"},
	}
	burns := []string{"0", "0.000000000000000001", "0.000142857142857142", "0.333333333333333333", "0.5", "0.999999999999999999", "1"}
	n2, n3 := len(alpha)*len(alpha), len(alpha)*len(alpha)*len(alpha)
	return &Extra{Name: "blocks", Note: "all ordered pairs and triples of ten transactions in one block x burn ratio; balances, supply and collected fees against the reference",
		N: func(string) int { return (n2 + n3) * len(burns) },
		Run: func(tier string, i int, fail Fail) (int, int) {
			b := i % len(burns)
			i /= len(burns)
			var txs []gTx
			if i < n2 {
				txs = []gTx{alpha[i%len(alpha)], alpha[i/len(alpha)]}
			} else {
				i -= n2
				txs = []gTx{alpha[i%len(alpha)], alpha[i/len(alpha)%len(alpha)], alpha[i/len(alpha)/len(alpha)]}
			}
			theFull().judge(gCase{p: p(burns[b]), txs: txs, grant: true, allow: coins(DENOM, uint64(16_000))}, fail)
			return 1, len(txs)
		}}
}

// surcharges: with and without the listed types the gas differs by exactly the configured amounts.
func feeSurcharge() *Extra {
	sets := [][]string{{"send"}, {"multi"}, {"exec"}, {"funder"}, {"send", "send"}, {"send", "multi"}, {"multi", "send", "exec"}, {"send", "funder", "send"}, {"toomuch"}, {"multi", "toomuch"}, {"vote"}}
	urls := []string{gMsg["send"].url, gMsg["multi"].url, gMsg["exec"].url, gMsg["funder"].url, gMsg["vote"].url}
	amts := []uint64{1, 1000, 77_777}
	n := len(sets) * (1 << len(urls)) * len(amts)
	return &Extra{Name: "surcharge", Note: "message lists x subsets of listed types x amounts: gas used against the same transaction with unlisted types of the same length, then gas limits of exactly that amount and one less",
		N: func(string) int { return n },
		Run: func(tier string, i int, fail Fail) (int, int) {
			x := digits(i, []int{len(sets), 1 << len(urls), len(amts)})
			set := sets[x[0]]
			adj := func(real bool) (l []globaltypes.GasAdjustment) {
				for k, u := range urls {
					if x[1]&(1<<k) == 0 {
						continue
					}
					if !real {
						u = u[:len(u)-1] + "#"
					}
					l = append(l, globaltypes.GasAdjustment{Type: u, Amount: amts[x[2]] + uint64(k)})
				}
				return
			}
			extra := uint64(0)
			okAll := true
			for _, m := range set {
				for k, u := range urls {
					if gMsg[m].url == u && x[1]&(1<<k) != 0 {
						extra += amts[x[2]] + uint64(k)
					}
				}
				okAll = okAll && gMsg[m].ok
			}
			f := theFull()
			run := func(real bool, gas uint64) (*abci.ExecTxResult, bool) {
				f.reset(gParams("0", "0", adj(real), nil), nil, false, nil)
				r, err := f.block([][]byte{f.build(gTx{set, coins(DENOM, uint64(5)), gas, "self"}, 7, 7)})
				if err != nil {
					fail("block", "%v: the block fails: %v", set, err)
					return nil, false
				}
				return r.TxResults[0], true
			}
			a, ok1 := run(false, 2_000_000)
			b, ok2 := run(true, 2_000_000)
			if !ok1 || !ok2 {
				return 2, 2
			}
			if (a.Code == 0) != okAll || (b.Code == 0) != okAll {
				fail("surcharge-result", "%v: codes %d and %d (%s)", set, a.Code, b.Code, b.Log)
			}
			if b.GasUsed-a.GasUsed != int64(extra) {
				fail("surcharge", "%v with listed %v: uses %d gas instead of %d more", set, adj(true), b.GasUsed-a.GasUsed, extra)
			}
			if okAll && b.GasUsed > 16_500 {
				if c, ok := run(true, uint64(b.GasUsed)); ok && c.Code != 0 {
					fail("surcharge-limit", "%v with listed %v: fails with a gas limit of exactly the gas used: %s", set, adj(true), c.Log)
				}
				pre := f.bal("SINK")
				if c, ok := run(true, uint64(b.GasUsed)-1); ok && c.Code == 0 {
					fail("surcharge-limit", "%v with listed %v: succeeds with less gas than it uses", set, adj(true))
				} else if pre.AmountOf(DENOM).LT(math.OneInt()) {
					fail("surcharge-limit", "unreachable")
				}
				if got := f.bal("SINK"); !got.Equal(kyve(1_000_000)) {
					fail("surcharge-limit", "%v: a transaction out of gas has an effect", set)
				}
			}
			return 4, 4
		}}
}

// the first block is free of the minimum, and nothing is burned in it.
func feeGenesis() *Extra {
	type cs struct {
		min, burn string
		fee       sdk.Coins
		m         string
	}
	var l []cs
	for _, m := range []string{"0", "0.02", "100"} {
		for _, b := range []string{"0", "0.5", "1"} {
			for _, fee := range []sdk.Coins{coins(), coins(DENOM, uint64(1)), coins(DENOM, uint64(5000), ADENOM, uint64(3))} {
				for _, k := range []string{"send", "toomuch"} {
					l = append(l, cs{m, b, fee, k})
				}
			}
		}
	}
	return &Extra{Name: "first-block", Note: "transactions in the very first block: no minimum, nothing burned, and the rules apply from the second block on",
		N: func(string) int { return len(l) },
		Run: func(tier string, i int, fail Fail) (int, int) {
			c := l[i]
			setPrefixes()
			gFunded()
			a, err := newAppOn(dbm.NewMemDB())
			must(err)
			p := gParams(c.min, c.burn, nil, []globaltypes.GasRefund{{Type: gMsg["send"].url, Fraction: math.LegacyMustNewDecFromStr("0.25")}})
			cfg := GenCfg{Funded: gFunded(), Modify: globalGenesis(p)}
			gs := genesisState(a, cfg)
			initChainOnly(a, gs, cfg)
			f := &full{e: &Env{App: a}, h: 0, t: T0 - 5, tc: authtx.NewTxConfig(codec.NewProtoCodec(a.InterfaceRegistry()), authtx.DefaultSignModes)}
			// account numbers are those of the genesis file
			t := gTx{[]string{c.m}, c.fee, 300_000, "self"}
			g := &gState{bal: map[string]sdk.Coins{"GP": gFunded()["GP"], "SINK": kyve(1)}}
			_, ok := g.deliver(p, t, true)
			bz := f.buildNum(t, 0, 0, genesisNumber(cfg))
			r, err := f.block([][]byte{bz})
			if err != nil {
				fail("first-block", "%v: the first block fails: %v", c, err)
				return 1, 1
			}
			if (r.TxResults[0].Code == 0) != ok {
				fail("first-block", "%v: code %d (%s), expected success %v", c, r.TxResults[0].Code, r.TxResults[0].Log, ok)
			}
			sup := sdk.NewCoins()
			for _, l := range sortedKeys(cfg.Funded) {
				sup = sup.Add(cfg.Funded[l]...)
			}
			for _, l := range []string{"GP", "SINK"} {
				if got := f.bal(l); !got.Equal(g.bal[l]) {
					fail("first-block", "%v: %s holds %s instead of %s", c, l, got, g.bal[l])
				}
			}
			if got := f.collector(); !got.Equal(g.coll) {
				fail("first-block", "%v: the fee collector holds %s instead of %s", c, got, g.coll)
			}
			if got := f.supply(); !got.AmountOf(ADENOM).Equal(sup.AmountOf(ADENOM)) {
				fail("first-block", "%v: %s of %s are left", c, got, sup)
			}
			// second block: normal rules
			before := f.supply()
			coll := g.coll
			_ = coll
			g.coll = nil
			t2 := gTx{[]string{c.m}, c.fee, 300_000, "self"}
			ante, ok2 := g.deliver(p, t2, false)
			seq := f.e.App.AccountKeeper.GetAccount(f.ctx(), sdk.MustAccAddressFromBech32(acc("GP"))).GetSequence()
			r, err = f.block([][]byte{f.build(t2, seq, 0)})
			if err != nil {
				fail("first-block", "%v: the second block fails: %v", c, err)
				return 1, 1
			}
			if (r.TxResults[0].Code == 0) != (ante == "" && ok2) {
				fail("second-block", "%v: code %d (%s), expected success %v (%s)", c, r.TxResults[0].Code, r.TxResults[0].Log, ok2, ante)
			}
			if got, w := f.supply(), before.Sub(fraction(g.coll, p.BurnRatio)...); !got.Equal(w) {
				fail("second-block", "%v: supply %s instead of %s", c, got, w)
			}
			return 2, 2
		}}
}

func globalGenesis(p globaltypes.Params) func(a *app.App, gs map[string]json.RawMessage) {
	return func(a *app.App, gs map[string]json.RawMessage) {
		gs[globaltypes.ModuleName] = a.AppCodec().MustMarshalJSON(&globaltypes.GenesisState{Params: p})
	}
}

func genesisNumber(cfg GenCfg) func(string) uint64 {
	return func(l string) uint64 {
		for i, k := range sortedKeys(cfg.Funded) {
			if k == l {
				return uint64(i + 1)
			}
		}
		panic(l)
	}
}

func buildGlobal() {
	register(&Property{ID: "G01", Extra: []*Extra{feeMinimum(), feeSurcharge(), feeRefund(), feeBlocks(), feeGenesis()}})
}
