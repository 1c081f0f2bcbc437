package main

// X01 and X02: export/import and restart.  Both need a process in which the
// application starts afresh (indexes held in memory are built once per process),
// so every case runs in a process of its own which reports what it observes.

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/store/cachemulti"
	storetypes "cosmossdk.io/store/types"
	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"
	authtx "github.com/cosmos/cosmos-sdk/x/auth/tx"
	capabilitytypes "github.com/cosmos/ibc-go/modules/capability/types"

	"github.com/KYVENetwork/chain/app"
)

// kv is the persisted content of one store.
type kv struct {
	Keys [][]byte
	Vals [][]byte
}

// subIn is the task of an isolated process.
type subIn struct {
	Prop, Scenario string
	Height, Time   int64 // last completed block
	Dt             int64 // distance of the next block
	Stores         map[string]kv
	Genesis        []byte
	Chain          *chainTask
	Export         *exportTask
	Labels         map[string]string // names of the accounts
}

// subOut is what it observes.
type subOut struct {
	Err    string
	Steps  []subStep
	Chain  *chainOut
	Export *exportOut
}

type subStep struct {
	Name   string
	Err    string
	Gas    uint64
	Stores map[string][]byte // digest of the contents of every persisted store
	Lines  [][]byte          // digests of the observable facts
}

// persisted tells whether a store survives a restart
func persisted(k storetypes.StoreKey) bool {
	_, ok := k.(*storetypes.KVStoreKey)
	return ok
}

func (e *Env) dump(ctx sdk.Context) map[string]kv {
	out := map[string]kv{}
	for _, k := range e.App.GetStoreKeys() {
		if !persisted(k) {
			continue
		}
		var x kv
		it := ctx.MultiStore().GetKVStore(k).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			x.Keys = append(x.Keys, append([]byte{}, it.Key()...))
			x.Vals = append(x.Vals, append([]byte{}, it.Value()...))
		}
		it.Close()
		out[k.Name()] = x
	}
	return out
}

func (e *Env) digests(ctx sdk.Context) map[string][]byte {
	out := map[string][]byte{}
	var buf [8]byte
	for _, k := range e.App.GetStoreKeys() {
		if !persisted(k) {
			continue
		}
		h := sha256.New()
		it := ctx.MultiStore().GetKVStore(k).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			for _, b := range [][]byte{it.Key(), it.Value()} {
				binary.BigEndian.PutUint64(buf[:], uint64(len(b)))
				h.Write(buf[:])
				h.Write(b)
			}
		}
		it.Close()
		out[k.Name()] = h.Sum(nil)[:12]
	}
	return out
}

func lineDigest(s string) []byte {
	h := sha256.Sum256([]byte(s))
	return h[:8]
}

// restored is the multi store of a process which has just opened a database.
func (e *Env) restored(ctx sdk.Context, st map[string]kv) sdk.Context {
	stores := map[storetypes.StoreKey]storetypes.CacheWrapper{}
	keys := map[string]storetypes.StoreKey{}
	all := append([]storetypes.StoreKey{}, e.App.GetStoreKeys()...)
	if k := e.App.GetMemKey(capabilitytypes.MemStoreKey); k != nil {
		all = append(all, k)
	}
	for _, k := range all {
		f := &flatStore{vals: map[string][]byte{}, typ: storetypes.StoreTypeIAVL}
		switch k.(type) {
		case *storetypes.MemoryStoreKey:
			f.typ = storetypes.StoreTypeMemory
		case *storetypes.TransientStoreKey:
			f.typ = storetypes.StoreTypeTransient
		}
		x := st[k.Name()]
		for i := range x.Keys {
			f.keys = append(f.keys, x.Keys[i])
			f.vals[string(x.Keys[i])] = append([]byte{}, x.Vals[i]...) // an empty value is a value
		}
		stores[k] = f
		keys[k.Name()] = k
	}
	ms := cachemulti.NewFromKVStore(&flatStore{vals: map[string][]byte{}}, stores, keys, nil, nil)
	return ctx.WithMultiStore(ms)
}

// record executes the continuations of a completed block and notes everything
// that can be observed.
func (e *Env) record(ctx sdk.Context, ops []*Op, dt int64, stores bool, text bool) (out []subStep, texts [][]string) {
	note := func(name string, err error, gas uint64, c sdk.Context, full bool) {
		s := subStep{Name: name, Gas: gas}
		if err != nil {
			s.Err = err.Error()
		}
		if stores {
			s.Stores = e.digests(c)
		}
		var lines []string
		if full || !stores {
			sn := e.Snapshot(c)
			lines = e.contents(sn)
			if full {
				lines = append(lines, e.answers(c, sn)...)
			}
		}
		for _, l := range lines {
			s.Lines = append(s.Lines, lineDigest(l))
		}
		out = append(out, s)
		if text {
			texts = append(texts, lines)
		}
	}
	c := nextCtx(ctx, dt)
	err, p := e.beginBlock(c)
	if p != "" {
		err = fmt.Errorf("panic %s", p)
	}
	name := fmt.Sprintf("begin of the next block (+%ds)", dt)
	note(name, err, 0, c, true)
	if err != nil {
		return
	}
	for _, op := range ops {
		f, _ := c.CacheContext()
		f = quiet(f)
		if op.Block {
			var err error
			if e2, p := e.endBlock(f); e2 != nil || p != "" {
				err = fmt.Errorf("end %v %s", e2, p)
			} else {
				f = nextCtx(f, op.dt(e, f))
				if e2, p := e.beginBlock(f); e2 != nil || p != "" {
					err = fmt.Errorf("begin %v %s", e2, p)
				}
			}
			note(op.Name, err, 0, f, true)
			continue
		}
		gm := storetypes.NewInfiniteGasMeter()
		f = f.WithGasMeter(gm)
		var err error
		if op.Fn != nil {
			e2, p := guard(func() error { return op.Fn(e, f) })
			if e2 != nil || p != "" {
				err = fmt.Errorf("%v %s", e2, p)
			}
		} else {
			err = e.execMsg(f, op.Msg(e, f))
		}
		note(op.Name, err, gm.GasConsumed(), f.WithGasMeter(storetypes.NewInfiniteGasMeter()), false)
	}
	return
}

// isolated runs a task in a fresh process.
func isolated(in *subIn) (*subOut, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(in); err != nil {
		return nil, err
	}
	c := exec.Command(self, "-sub", "task")
	c.Env = append(os.Environ(), "GOMAXPROCS=1")
	c.Stdin = &buf
	var o, eb bytes.Buffer
	c.Stdout, c.Stderr = &o, &eb
	if err := c.Start(); err != nil {
		return nil, err
	}
	t := time.AfterFunc(180*time.Second, func() { _ = c.Process.Kill() })
	defer t.Stop()
	err = c.Wait()
	var out subOut
	if e2 := gob.NewDecoder(&o).Decode(&out); e2 != nil {
		return nil, fmt.Errorf("isolated process: %v %v: %s", err, e2, tail(eb.String(), 2000))
	}
	return &out, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func subMain(string) {
	var in subIn
	var out subOut
	if err := gob.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				out.Err = fmt.Sprintf("panic: %v", r)
			}
		}()
		out.Err = runSub(&in, &out)
	}()
	if err := gob.NewEncoder(os.Stdout).Encode(&out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func scenarioOf(prop, name string) *Scenario {
	for _, s := range props[prop].Scenarios {
		if s.Name == name {
			return s
		}
	}
	panic("no scenario " + name)
}

func runSub(in *subIn, out *subOut) string {
	if in.Export != nil {
		x := runExport(in.Export)
		out.Export = &x
		return ""
	}
	if in.Chain != nil {
		c := runChain(in.Chain)
		out.Chain = &c
		return ""
	}
	sc := scenarioOf(in.Prop, in.Scenario)
	for l, a := range in.Labels {
		addrOf[l], labelOf[a] = a, l
	}
	a, err := newAppOn(dbm.NewMemDB())
	if err != nil {
		return err.Error()
	}
	e := &Env{App: a, Sc: sc, Feat: sc.Feat}
	var ctx sdk.Context
	if in.Genesis != nil {
		raw := mustRaw(in.Genesis)
		for _, n := range exportedModules {
			if b, ok := a.ModuleManager.Modules[n].(module.HasGenesisBasics); ok {
				if err := b.ValidateGenesis(a.AppCodec(), authtx.NewTxConfig(a.AppCodec(), authtx.DefaultSignModes), raw[n]); err != nil {
					return "the exported genesis of " + n + " is invalid: " + err.Error()
				}
			}
		}
		if _, err := a.InitChain(&abci.RequestInitChain{ChainId: chainID, ConsensusParams: app.DefaultConsensusParams, AppStateBytes: in.Genesis,
			Time: time.Unix(in.Time, 0).UTC(), InitialHeight: in.Height + 1}); err != nil {
			return "the exported genesis is refused: " + err.Error()
		}
		ctx = a.GetContextForFinalizeBlock(nil).WithBlockHeader(headerAt(in.Height, in.Time)).WithBlockHeight(in.Height).WithBlockTime(time.Unix(in.Time, 0).UTC())
		ctx = ctx.WithMultiStore(ctx.MultiStore().CacheMultiStore())
		again, err := exportAll(e, ctx)
		if err != nil {
			return "the imported state cannot be exported: " + err.Error()
		}
		s := subStep{Name: "export of the imported state"}
		for _, l := range genesisLines(again) {
			s.Lines = append(s.Lines, lineDigest(l))
		}
		out.Steps = append(out.Steps, s)
		r := subStep{Name: "the import"}
		for _, l := range e.records(ctx) {
			r.Lines = append(r.Lines, lineDigest(l))
		}
		out.Steps = append(out.Steps, r)
	} else {
		ctx = e.restored(a.BaseApp.NewUncachedContext(false, headerAt(in.Height, in.Time)), in.Stores)
	}
	e.Base = ctx
	ops := sc.Ops(e)
	st, _ := e.record(ctx, ops, in.Dt, in.Genesis == nil, false)
	out.Steps = append(out.Steps, st...)
	return ""
}

func mustRaw(b []byte) map[string]json.RawMessage {
	var m map[string]json.RawMessage
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	return m
}

// exportAll exports every module of the application.
func exportAll(e *Env, ctx sdk.Context) (map[string]json.RawMessage, error) {
	var m map[string]json.RawMessage
	err, p := guard(func() (err error) {
		c, _ := quiet(ctx).CacheContext()
		m, err = e.App.ModuleManager.ExportGenesisForModules(c, e.App.AppCodec(), nil)
		return
	})
	if p != "" {
		return nil, fmt.Errorf("panic: %s", p)
	}
	return m, err
}

// protocol modules and the modules whose state they share
var exportedModules = []string{"bank", "bundles", "delegation", "funders", "global", "pool", "stakers", "team", "gov", "mint"}

// records are the persisted records of the protocol modules, indexes and
// counters included, which the export does not name but the import must rebuild.
func (e *Env) records(ctx sdk.Context) (l []string) {
	for _, k := range e.App.GetStoreKeys() {
		switch k.Name() {
		case "bundles", "delegation", "funders", "global", "pool", "stakers", "team":
		default:
			continue
		}
		if !persisted(k) {
			continue
		}
		it := ctx.MultiStore().GetKVStore(k).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			if v := it.Value(); len(v) > 0 && len(bytes.Trim(v, "\x00")) == 0 {
				continue // a counter at zero is as good as none
			}
			l = append(l, fmt.Sprintf("record of %s %q = %q", k.Name(), it.Key(), it.Value()))
		}
		it.Close()
	}
	return
}

func genesisLines(m map[string]json.RawMessage) (l []string) {
	for _, mod := range exportedModules {
		var g map[string]json.RawMessage
		_ = json.Unmarshal(m[mod], &g)
		for _, k := range sortedKeys(g) {
			var list []json.RawMessage
			if json.Unmarshal(g[k], &list) == nil {
				for _, x := range list {
					l = append(l, mod+"."+k+" "+string(x))
				}
				l = append(l, fmt.Sprintf("%s.%s has %d entries", mod, k, len(list)))
			} else {
				l = append(l, mod+"."+k+" "+string(g[k]))
			}
		}
	}
	return
}

// judgeSteps compares what the two processes observed.
func judgeSteps(what string, a, b []subStep, texts [][]string, gas bool, fail Fail) {
	for i := range a {
		if i >= len(b) {
			fail("missing", "%s: %s was not reached", what, a[i].Name)
			return
		}
		x, y := &a[i], &b[i]
		if x.Err != y.Err {
			fail("result", "%s: %s results in %q instead of %q", what, x.Name, y.Err, x.Err)
			return
		}
		if gas && x.Gas != y.Gas {
			fail("gas", "%s: %s uses %d gas instead of %d", what, x.Name, y.Gas, x.Gas)
			return
		}
		var d []string
		for _, k := range sortedKeys(x.Stores) {
			if !bytes.Equal(x.Stores[k], y.Stores[k]) {
				d = append(d, k)
			}
		}
		if d != nil {
			fail("state", "%s: after %s the content of %s differs", what, x.Name, strings.Join(d, ", "))
			return
		}
		have := map[string]int{}
		for _, l := range y.Lines {
			have[string(l)]++
		}
		lost := ""
		for j, l := range x.Lines {
			if have[string(l)] == 0 {
				lost = "?"
				if i < len(texts) && j < len(texts[i]) {
					lost = texts[i][j]
				}
				break
			}
			have[string(l)]--
		}
		if lost != "" {
			fail("observable", "%s: after %s this no longer holds: %s", what, x.Name, tailFront(lost, 1200))
			return
		}
		if len(x.Lines) != len(y.Lines) {
			fail("observable", "%s: after %s there are %d facts instead of %d", what, x.Name, len(y.Lines), len(x.Lines))
			return
		}
	}
}

func tailFront(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// completed finishes the block of a state
func (e *Env) completed(ctx sdk.Context, fail Fail) (sdk.Context, bool) {
	c, _ := quiet(ctx).CacheContext()
	if err, p := e.endBlock(c); err != nil || p != "" {
		fail("block-fails", "the end of the block fails: %v %s", err, p)
		return c, false
	}
	return c, true
}

// stateRestart: a node which restarts after this block continues identically.
func stateRestart(prop string, dts ...int64) StateRule {
	return func(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
		c, ok := e.completed(ctx, fail)
		if !ok {
			return
		}
		ops := opsOf(e)
		acc(noUser)
		for _, dt := range dts {
			in := &subIn{Prop: prop, Scenario: e.Sc.Name, Height: c.BlockHeight(), Time: c.BlockTime().Unix(), Dt: dt, Stores: e.dump(c), Labels: addrOf}
			f, _ := c.CacheContext()
			want, texts := e.record(f, ops, dt, true, true)
			out, err := isolated(in)
			if err != nil {
				fail("restart-fails", "%v", err)
				return
			}
			if out.Err != "" {
				fail("restart-fails", "the restarted node fails: %s", out.Err)
				return
			}
			judgeSteps("restarted node", want, out.Steps, texts, true, fail)
		}
	}
}

// stateExport: the exported state, imported into a fresh chain, is the same state.
func stateExport(prop string, dts ...int64) StateRule {
	return func(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
		c, ok := e.completed(ctx, fail)
		if !ok {
			return
		}
		ops := opsOf(e)
		acc(noUser)
		g, err := exportAll(e, c)
		if err != nil {
			fail("export-fails", "the state cannot be exported: %v", err)
			return
		}
		bz, err := json.Marshal(g)
		if err != nil {
			fail("export-fails", "the state cannot be exported: %v", err)
			return
		}
		for _, dt := range dts {
			in := &subIn{Prop: prop, Scenario: e.Sc.Name, Height: c.BlockHeight(), Time: c.BlockTime().Unix(), Dt: dt, Genesis: bz, Labels: addrOf}
			f, _ := c.CacheContext()
			first := subStep{Name: "export of the imported state"}
			lines := genesisLines(g)
			for _, l := range lines {
				first.Lines = append(first.Lines, lineDigest(l))
			}
			want, texts := e.record(f, ops, dt, false, true)
			second := subStep{Name: "the import"}
			records := e.records(c)
			for _, l := range records {
				second.Lines = append(second.Lines, lineDigest(l))
			}
			want, texts = append([]subStep{first, second}, want...), append([][]string{lines, records}, texts...)
			out, err := isolated(in)
			if err != nil {
				fail("import-fails", "%v", err)
				return
			}
			if out.Err != "" {
				fail("import-fails", "%s", out.Err)
				return
			}
			judgeSteps("imported chain", want, out.Steps, texts, false, fail)
		}
	}
}

var opsCache = map[*Scenario][]*Op{}

func opsOf(e *Env) []*Op {
	if l, ok := opsCache[e.Sc]; ok {
		return l
	}
	l := e.Sc.Ops(e)
	opsCache[e.Sc] = l
	return l
}

func buildRestart() {
	worlds := func() []*Scenario {
		_, _, sl, unb, redel := delegationScenarios()
		return []*Scenario{mixedWorld("mixed", 1, 2), deep(sl[0], 2, 4), deep(unb[0], 1, 4), deep(redel[0], 2, 4), deep(poolLife(4, 5), 1, 3), deep(membershipWorld(4, 5), 1, 3), deep(delaysWorld(4, 6), 1, 4),
			deep(bundleMachine(), 2, 4), farPools(1, 3), manyPools(1, 3), farBundles(255, 1, 2), deep(fundersFlow(3, 4), 1, 3), deep(teamWorld("team-claims", 3, 4, 0), 1, 3)}
	}
	register(&Property{ID: "X02", Scenarios: append(worlds(), bundleTies(2, 4)), States: []StateRule{stateRestart("X02", 1)}, Extra: []*Extra{chainRestart()}})
	register(&Property{ID: "X01", Scenarios: worlds(), States: []StateRule{stateExport("X01", 1)}, Extra: []*Extra{chainExport()}})
}

var _ = sort.Strings
