package main

// X02 on complete chains: signed transactions in real ABCI blocks, the process ends
// after a commit and another one opens the database.

import (
	"bytes"
	"fmt"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	signingtypes "github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	authtx "github.com/cosmos/cosmos-sdk/x/auth/tx"
	"github.com/cosmos/gogoproto/proto"
)

type chainTask struct {
	Init, A int
	// set for a node which restarts
	DB     *kv
	Height int64
	Time   int64
	Blocks []chainBlock
}

type chainBlock struct {
	Dt  int64
	Txs [][]byte
}

type chainOut struct {
	Blocks []chainBlock // as executed
	Seen   []chainSeen
	DBs    []kv // database after each block
	Height []int64
	Time   []int64
	Lines  []string // answers to the queries at the end
}

type chainSeen struct {
	AppHash []byte
	Txs     [][]byte
}

var chainLabels = []string{"S1", "S2", "S3", "S4", "S5", "D1", "D2", "G"}

func chainKeys() {
	for _, l := range chainLabels {
		keyAcc(l)
	}
	for _, s := range chainLabels[:5] {
		for p := uint64(0); p < 3; p++ {
			keyAcc(valOf(s, p))
		}
	}
}

func dumpDB(db dbm.DB) (x kv) {
	it, err := db.Iterator(nil, nil)
	must(err)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		x.Keys = append(x.Keys, append([]byte{}, it.Key()...))
		x.Vals = append(x.Vals, append([]byte{}, it.Value()...))
	}
	return
}

func (f *full) blockAt(dt int64, txs [][]byte) chainSeen {
	f.h++
	f.t += dt
	r, err := f.e.App.FinalizeBlock(&abci.RequestFinalizeBlock{Height: f.h, Time: time.Unix(f.t, 0).UTC(), Txs: txs, ProposerAddress: consKey().PubKey().Address()})
	must(err)
	s := chainSeen{AppHash: r.AppHash}
	for _, t := range r.TxResults {
		s.Txs = append(s.Txs, []byte(fmt.Sprintf("code %d gas %d data %x", t.Code, t.GasUsed, t.Data)))
	}
	_, err = f.e.App.Commit()
	must(err)
	return s
}

// sign builds a transaction for a message, nil when its signer has no key here.
func (f *full) sign(ctx sdk.Context, m sdk.Msg, seq map[string]uint64) []byte {
	sg, _, err := f.e.App.AppCodec().GetMsgV1Signers(m)
	if err != nil || len(sg) != 1 {
		return nil
	}
	ad := sdk.AccAddress(sg[0]).String()
	k := gKeys[lab(ad)]
	if k == nil {
		return nil
	}
	ac := f.e.App.AccountKeeper.GetAccount(ctx, sdk.AccAddress(sg[0]))
	if ac == nil {
		return nil
	}
	if _, ok := seq[ad]; !ok {
		seq[ad] = ac.GetSequence()
	}
	b := f.tc.NewTxBuilder()
	must(b.SetMsgs(m))
	b.SetGasLimit(20_000_000)
	sig := signingtypes.SignatureV2{PubKey: k.PubKey(), Data: &signingtypes.SingleSignatureData{SignMode: signingtypes.SignMode_SIGN_MODE_DIRECT}, Sequence: seq[ad]}
	must(b.SetSignatures(sig))
	bz, err := authsigning.GetSignBytesAdapter(ctx, f.tc.SignModeHandler(), signingtypes.SignMode_SIGN_MODE_DIRECT,
		authsigning.SignerData{Address: ad, ChainID: chainID, AccountNumber: ac.GetAccountNumber(), Sequence: seq[ad], PubKey: k.PubKey()}, b.GetTx())
	must(err)
	raw, err := k.Sign(bz)
	must(err)
	sig.Data = &signingtypes.SingleSignatureData{SignMode: signingtypes.SignMode_SIGN_MODE_DIRECT, Signature: raw}
	must(b.SetSignatures(sig))
	out, err := f.tc.TxEncoder()(b.GetTx())
	must(err)
	seq[ad]++
	return out
}

func (f *full) lines() []string {
	ctx := f.ctx()
	s := f.e.Snapshot(ctx)
	return append(f.e.contents(s), f.e.answers(ctx, s)...)
}

// runChain executes a task in this (fresh) process.
func runChain(t *chainTask) (out chainOut) {
	chainKeys()
	acc(noUser)
	sc := mixedWorld("mixed", 0, 0)
	if t.DB != nil {
		db := dbm.NewMemDB()
		for i := range t.DB.Keys {
			must(db.Set(t.DB.Keys[i], append([]byte{}, t.DB.Vals[i]...)))
		}
		a, err := newAppOn(db)
		must(err)
		f := &full{e: &Env{App: a, Sc: sc}, h: t.Height, t: t.Time}
		// a node answers queries, checks transactions and builds proposals before and between blocks
		for _, b := range t.Blocks {
			for _, q := range f.e.Snapshot(f.ctx()).allQueries() {
				bz, err := proto.Marshal(q.req)
				must(err)
				guard(func() error {
					_, err := a.Query(nil, &abci.RequestQuery{Path: q.path, Data: bz})
					return err
				})
			}
			for _, tx := range b.Txs {
				_, _ = a.CheckTx(&abci.RequestCheckTx{Tx: tx})
				_, _, _ = a.Simulate(tx)
			}
			next := time.Unix(f.t+b.Dt, 0).UTC()
			if _, err := a.PrepareProposal(&abci.RequestPrepareProposal{Txs: b.Txs, MaxTxBytes: 1 << 24, Height: f.h + 1, Time: next, ProposerAddress: consKey().PubKey().Address()}); err != nil {
				panic(err)
			}
			if _, err := a.ProcessProposal(&abci.RequestProcessProposal{Txs: b.Txs, Height: f.h + 1, Time: next, ProposerAddress: consKey().PubKey().Address()}); err != nil {
				panic(err)
			}
			out.Seen = append(out.Seen, f.blockAt(b.Dt, b.Txs))
		}
		out.Lines = f.lines()
		return
	}
	gen := sc.Gen
	gen.DB = dbm.NewMemDB()
	a, ctx := newApp(gen)
	e := &Env{App: a, Sc: sc}
	f := &full{e: e, h: 1, t: T0, tc: authtx.NewTxConfig(codec.NewProtoCodec(a.InterfaceRegistry()), authtx.DefaultSignModes)}
	ctx = sc.Setup(e, nextCtx(ctx, 0))
	ctx, _ = sc.Init(e, ctx, t.Init)
	f.t = ctx.BlockTime().Unix()
	ops := sc.Ops(e)
	f.blockAt(1, nil)
	var first [][]byte
	op := ops[t.A]
	// operations of governance and of the engine itself are part of the state before the first block
	if op.Msg != nil {
		m := op.Msg(e, f.ctx())
		if tx := f.sign(f.ctx(), m, map[string]uint64{}); tx != nil {
			first = [][]byte{tx}
		} else {
			_ = e.execMsg(f.ctx().WithBlockHeight(f.h), m)
		}
	} else if op.Fn != nil {
		c, write := f.ctx().CacheContext()
		if err, p := guard(func() error { return op.Fn(e, c) }); err == nil && p == "" {
			write()
		}
	}
	all := func() (l [][]byte) {
		seq := map[string]uint64{}
		for _, o := range ops {
			if o.Block || o.Msg == nil {
				continue
			}
			if tx := f.sign(f.ctx(), o.Msg(e, f.ctx()), seq); tx != nil {
				l = append(l, tx)
			}
		}
		return
	}
	for i, dt := range []int64{61, 61, 6 * day, 5} {
		b := chainBlock{Dt: dt}
		switch i {
		case 0:
			b.Txs = first
		case 1, 3:
			b.Txs = all()
		}
		out.Seen = append(out.Seen, f.blockAt(b.Dt, b.Txs))
		out.Blocks = append(out.Blocks, b)
		out.DBs = append(out.DBs, dumpDB(gen.DB))
		out.Height = append(out.Height, f.h)
		out.Time = append(out.Time, f.t)
	}
	out.Lines = f.lines()
	return
}

// chainRestart enumerates situations, operations and crash points.
func chainRestart() *Extra {
	in := mixedInits()
	nops := len(mixedOps(nil))
	dims := []int{len(in), nops}
	return &Extra{Name: "chain-restart", Note: "six situations x every operation as signed transaction in a real block, followed by blocks with the transactions of all participants; the node restarts from its database after each of the first three blocks and meanwhile answers queries, checks transactions and builds proposals; app hashes, transaction results and answers are compared",
		N: func(string) int { return dims[0] * dims[1] },
		Run: func(tier string, i int, fail Fail) (int, int) {
			x := digits(i, dims)
			what := in[x[0]].name + ", then " + mixedOps(nil)[x[1]].Name
			out, err := isolated(&subIn{Chain: &chainTask{Init: x[0], A: x[1]}})
			if err == nil && out.Err != "" {
				err = fmt.Errorf("%s", out.Err)
			}
			if err != nil {
				fail("chain-fails", "%s: %v", what, err)
				return 1, 1
			}
			base := out.Chain
			n := 0
			points := []int{0, 1, 2}
			if tier != "thorough" {
				points = []int{(x[0] + x[1]) % 2 * 2}
				if x[1] == 0 {
					points = []int{0, 1, 2}
				}
			}
			for _, k := range points {
				n++
				w := fmt.Sprintf("%s; node restarted after block %d", what, k+1)
				o, err := isolated(&subIn{Chain: &chainTask{DB: &base.DBs[k], Height: base.Height[k], Time: base.Time[k], Blocks: base.Blocks[k+1:]}})
				if err == nil && o.Err != "" {
					err = fmt.Errorf("%s", o.Err)
				}
				if err != nil {
					fail("restart-fails", "%s: %v", w, err)
					continue
				}
				for j, b := range o.Chain.Seen {
					want := base.Seen[k+1+j]
					for q := range want.Txs {
						if q >= len(b.Txs) || !bytes.Equal(b.Txs[q], want.Txs[q]) {
							fail("chain-result", "%s: transaction %d of block %d gives %s instead of %s", w, q, k+2+j, b.Txs[q], want.Txs[q])
							break
						}
					}
					if !bytes.Equal(want.AppHash, b.AppHash) {
						fail("chain-apphash", "%s: the state after block %d differs", w, k+2+j)
						break
					}
				}
				if fmt.Sprint(base.Lines) != fmt.Sprint(o.Chain.Lines) {
					for q := range base.Lines {
						if q >= len(o.Chain.Lines) || base.Lines[q] != o.Chain.Lines[q] {
							fail("chain-observable", "%s: at the end this no longer holds: %s", w, tailFront(base.Lines[q], 1200))
							break
						}
					}
				}
			}
			return 4 * (n + 1), 4 + 3*n
		}}
}

