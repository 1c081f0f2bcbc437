package main

// Explicit-state exploration of the real application.
//
// A Scenario fixes an initial state (a real application after real messages), a
// finite operation alphabet and a depth.  The engine enumerates every operation
// sequence up to that depth breadth first; states are identified by a
// fingerprint of the complete raw store contents.  Every transition is executed
// by the code under test on a forked store and judged by the property's rules
// against the observed pre and post state.

import (
	"fmt"
	"runtime/debug"
	"strings"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

type Op struct {
	Name string
	Kind string // short machine readable kind used by the rules
	// exactly one of the following describes the operation
	Msg    func(e *Env, ctx sdk.Context) sdk.Msg         // routed through the message router
	Fn     func(e *Env, ctx sdk.Context) error           // keeper level operation
	Block  bool                                          // end the block and begin the next one
	Dt     int64                                         // seconds until the next block
	DtFn   func(e *Env, ctx sdk.Context) int64           // state dependent time step (0 = disabled)
	S      string    // staker (keeper level operations)
	P      uint64    // pool
	N      uint64    // number
	C      sdk.Coins // coins
	Enable func(e *Env, ctx sdk.Context, pre *Snap) bool // nil = always
}

type Step struct {
	Op    *Op
	Phase string // "op", "end", "begin"
	Msg   sdk.Msg
	Pre   *Snap
	Post  *Snap
	Err   error
	Panic string
	Dt    int64
	Ctx   sdk.Context // post state context (read only use)
	PreC  sdk.Context // pre state context (only for phase op; read only use)
	Trace []uint16
	Events []abci.Event // what the step announces
}

func (s *Step) OK() bool { return s.Err == nil && s.Panic == "" }

// execMsg delivers one message atomically, as a transaction would.
func (e *Env) execMsg(ctx sdk.Context, msg sdk.Msg) error {
	_, err := e.execMsgEvents(ctx, msg)
	return err
}

// execMsgEvents also returns what the transaction announces.
func (e *Env) execMsgEvents(ctx sdk.Context, msg sdk.Msg) (evs []abci.Event, err error) {
	h := e.App.MsgServiceRouter().Handler(msg)
	if h == nil {
		return nil, fmt.Errorf("no handler for %T", msg)
	}
	cctx, write := ctx.CacheContext()
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("tx panic: %v", r)
		}
	}()
	res, err := h(cctx, msg)
	if err != nil {
		return nil, err
	}
	write()
	if res != nil {
		evs = res.Events
	}
	return evs, nil
}

func guard(f func() error) (err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			pan = fmt.Sprintf("%v at %s", r, panicSite(st))
		}
	}()
	return f(), ""
}

func panicSite(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/KYVENetwork/chain/x/") || strings.HasPrefix(l, "github.com/KYVENetwork/chain/app.") || strings.HasPrefix(l, "github.com/KYVENetwork/chain/util") {
			if i := strings.LastIndex(l, "("); i > 0 {
				return l[:i]
			}
			return l
		}
	}
	return "?"
}

func (e *Env) endBlock(ctx sdk.Context) (error, string) {
	_, err, pan := e.endBlockEvents(ctx)
	return err, pan
}

func (e *Env) beginBlock(ctx sdk.Context) (error, string) {
	_, err, pan := e.beginBlockEvents(ctx)
	return err, pan
}

func (e *Env) endBlockEvents(ctx sdk.Context) (evs []abci.Event, err error, pan string) {
	err, pan = guard(func() error {
		r, err := e.App.EndBlocker(ctx)
		evs = r.Events
		return err
	})
	return
}

func (e *Env) beginBlockEvents(ctx sdk.Context) (evs []abci.Event, err error, pan string) {
	err, pan = guard(func() error {
		r, err := e.App.BeginBlocker(ctx)
		evs = r.Events
		return err
	})
	return
}

func nextCtx(ctx sdk.Context, dt int64) sdk.Context {
	h := ctx.BlockHeader()
	h.Height++
	h.Time = h.Time.Add(time.Duration(dt) * time.Second)
	return ctx.WithBlockHeader(h).WithBlockHeight(h.Height).WithBlockTime(h.Time).WithEventManager(sdk.NewEventManager())
}

func (op *Op) dt(e *Env, ctx sdk.Context) int64 {
	if op.DtFn != nil {
		return op.DtFn(e, ctx)
	}
	return op.Dt
}

// apply executes an operation without observation (used to re-establish a state).
// It returns the context of the resulting state and whether it can be continued.
func (e *Env) apply(ctx sdk.Context, op *Op) (sdk.Context, bool) {
	if op.Block {
		dt := op.dt(e, ctx)
		if err, p := e.endBlock(quiet(ctx)); err != nil || p != "" {
			return ctx, false
		}
		ctx = nextCtx(ctx, dt)
		if err, p := e.beginBlock(ctx); err != nil || p != "" {
			return ctx, false
		}
		return ctx, true
	}
	if op.Fn != nil {
		cctx, write := ctx.CacheContext()
		err, pan := guard(func() error { return op.Fn(e, cctx) })
		if err == nil && pan == "" {
			write()
		}
		return ctx, true
	}
	_ = e.execMsg(ctx, op.Msg(e, ctx))
	return ctx, true
}

// observe executes an operation and returns the observed steps.
func (e *Env) observe(ctx sdk.Context, op *Op, pre *Snap) (sdk.Context, []*Step) {
	if op.Block {
		dt := op.dt(e, ctx)
		s1 := &Step{Op: op, Phase: "end", Pre: pre, Dt: dt}
		s1.Events, s1.Err, s1.Panic = e.endBlockEvents(quiet(ctx))
		s1.Ctx = ctx
		if !s1.OK() {
			return ctx, []*Step{s1}
		}
		s1.Post = e.Snapshot(ctx)
		ctx2 := nextCtx(ctx, dt)
		s2 := &Step{Op: op, Phase: "begin", Pre: s1.Post, Dt: dt}
		s2.Events, s2.Err, s2.Panic = e.beginBlockEvents(ctx2)
		s2.Ctx = ctx2
		if !s2.OK() {
			return ctx2, []*Step{s1, s2}
		}
		s2.Post = e.Snapshot(ctx2)
		return ctx2, []*Step{s1, s2}
	}
	st := &Step{Op: op, Phase: "op", Pre: pre, Ctx: ctx}
	if op.Fn != nil {
		cctx, write := quiet(ctx).CacheContext()
		st.Err, st.Panic = guard(func() error { return op.Fn(e, cctx) })
		if st.OK() {
			st.Events = cctx.EventManager().ABCIEvents()
			write()
		}
	} else {
		st.Msg = op.Msg(e, ctx)
		st.Events, st.Err = e.execMsgEvents(ctx, st.Msg)
	}
	st.Post = e.Snapshot(ctx)
	return ctx, []*Step{st}
}

// Scenario ------------------------------------------------------------------------

type Scenario struct {
	Name  string
	Gen   GenCfg
	Setup func(e *Env, ctx sdk.Context) sdk.Context // executed once per process
	Ops   func(e *Env) []*Op
	Feat  Features
	Quick int // depth for the quick tier
	Thor  int // depth limit for the thorough tier
	// Init, when set, enumerates several initial states (index 0..InitN-1);
	// the first "operation" of every trace selects one of them.
	InitN int
	Init  func(e *Env, ctx sdk.Context, i int) (sdk.Context, string)
	Note  string
}

func (sc *Scenario) start() (*Env, []*Op) {
	a, ctx := newApp(sc.Gen)
	e := &Env{App: a, Sc: sc, Feat: sc.Feat}
	ctx = nextCtx(ctx, 0)
	if sc.Setup != nil {
		ctx = sc.Setup(e, ctx)
	}
	e.Base = e.flatten(ctx)
	return e, sc.Ops(e)
}

// setupErr reports that the code under test refused a step of a scenario's fixed
// opening, all of which are ordinary operations that have to succeed.
type setupErr struct{ m string }

// must executes a message during setup.
func (e *Env) must(ctx sdk.Context, msg sdk.Msg) {
	if err := e.execMsg(ctx, msg); err != nil {
		panic(setupErr{fmt.Sprintf("an operation every participant may perform here is refused: %T %+v: %v", msg, msg, err)})
	}
}

// block advances the chain during setup.
func (e *Env) block(ctx sdk.Context, dt int64) sdk.Context {
	if err, p := e.endBlock(quiet(ctx)); err != nil || p != "" {
		panic(setupErr{fmt.Sprintf("end of block fails: %v %s", err, p)})
	}
	ctx = nextCtx(ctx, dt)
	if err, p := e.beginBlock(ctx); err != nil || p != "" {
		panic(setupErr{fmt.Sprintf("begin of block fails: %v %s", err, p)})
	}
	return ctx
}

// Rules ---------------------------------------------------------------------------

type Violation struct {
	Rule string // stable name of the violated clause
	Msg  string
}

type Fail func(rule, format string, args ...any)

type Rule func(e *Env, st *Step, fail Fail)

// a StateRule judges one reached state (initial states included)
type StateRule func(e *Env, ctx sdk.Context, s *Snap, fail Fail)

type Property struct {
	ID        string
	Scenarios []*Scenario
	Rules     []Rule
	States    []StateRule
	Technique string
	// Extra is an additional exhaustive enumeration that is not an operation
	// sequence exploration (e.g. a complete input grid).  It reports its own
	// state/transition counts.
	Extra     []*Extra
	Assume    []string
}

var props = map[string]*Property{}

func register(p *Property) { props[p.ID] = p }

func judge(p *Property, e *Env, steps []*Step) (out []Violation) {
	for _, st := range steps {
		for _, r := range p.Rules {
			func() {
				defer func() {
					if x := recover(); x != nil {
						out = append(out, Violation{"oracle-panic", fmt.Sprintf("oracle panicked: %v\n%s", x, debug.Stack())})
					}
				}()
				r(e, st, func(rule, format string, args ...any) {
					out = append(out, Violation{rule, fmt.Sprintf(format, args...)})
				})
			}()
		}
	}
	return
}

func judgeState(p *Property, e *Env, ctx sdk.Context, s *Snap) (out []Violation) {
	for _, r := range p.States {
		r(e, ctx, s, func(rule, format string, args ...any) {
			out = append(out, Violation{rule, fmt.Sprintf(format, args...)})
		})
	}
	return
}
