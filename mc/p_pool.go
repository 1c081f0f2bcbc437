package main

// Pools: P01 running, upgrades, disabling; P02 governance-only administration.

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

func opSchedule(runtime, version, binaries string, at func(now int64) uint64, dur uint64, tag string) *Op {
	return &Op{Name: fmt.Sprintf("schedule(%s,%s,%s,for %d)", runtime, version, tag, dur), Kind: "schedule", Msg: func(e *Env, ctx sdk.Context) sdk.Msg {
		return &pooltypes.MsgScheduleRuntimeUpgrade{Authority: govAddr(), Runtime: runtime, Version: version, Binaries: binaries, ScheduledAt: at(ctx.BlockTime().Unix()), Duration: dur}
	}}
}

func inSec(d int64) func(int64) uint64 { return func(now int64) uint64 { return uint64(now + d) } }

func opCancel(runtime string) *Op {
	return msgOp("cancel", "cancel("+runtime+")", &pooltypes.MsgCancelRuntimeUpgrade{Authority: govAddr(), Runtime: runtime})
}

func opUpdatePool(p uint64, payload string) *Op {
	return msgOp("updatepool", fmt.Sprintf("update(pool%d,%s)", p, payload), &pooltypes.MsgUpdatePool{Authority: govAddr(), Id: p, Payload: payload})
}

// psim is the reference outcome of a step for the pool records.
type psim struct {
	pools  map[uint64]pooltypes.Pool
	refuse string
	admin  bool // the step is an administrative request
	off    *uint64
}

func clonePool(p pooltypes.Pool) pooltypes.Pool {
	if p.Protocol != nil {
		x := *p.Protocol
		p.Protocol = &x
	}
	if p.UpgradePlan != nil {
		x := *p.UpgradePlan
		p.UpgradePlan = &x
	}
	return p
}

func simPools(st *Step) *psim {
	b := &psim{pools: map[uint64]pooltypes.Pool{}}
	for k, v := range st.Pre.Pools {
		b.pools[k] = clonePool(v)
	}
	now := uint64(st.Pre.Time)
	if st.Phase == "end" {
		for id, p := range b.pools {
			if at := p.UpgradePlan.ScheduledAt; at > 0 && now >= at {
				if p.Protocol.Version != p.UpgradePlan.Version || p.Protocol.Binaries != p.UpgradePlan.Binaries {
					p.Protocol = &pooltypes.Protocol{Version: p.UpgradePlan.Version, Binaries: p.UpgradePlan.Binaries, LastUpgrade: at}
				}
				if now-at >= p.UpgradePlan.Duration {
					p.UpgradePlan = &pooltypes.UpgradePlan{}
				}
				b.pools[id] = p
			}
		}
		return b
	}
	if st.Phase != "op" {
		return b
	}
	auth := func(a string) bool {
		b.admin = true
		if a != govAddr() {
			b.refuse = "not the governance account"
		}
		return b.refuse == ""
	}
	get := func(id uint64) (pooltypes.Pool, bool) {
		p, ok := b.pools[id]
		if !ok {
			b.refuse = "no such pool"
		}
		return p, ok
	}
	switch m := st.Msg.(type) {
	case *pooltypes.MsgCreatePool:
		if !auth(m.Authority) {
			return b
		}
		switch {
		case !json.Valid([]byte(m.Binaries)):
			b.refuse = "binaries are not valid json"
		case m.UploadInterval == 0 || m.MaxBundleSize == 0 || m.InflationShareWeight.IsNil() || m.InflationShareWeight.IsNegative():
			b.refuse = "invalid pool settings"
		default:
			id := uint64(len(b.pools))
			b.pools[id] = pooltypes.Pool{
				Id: id, Name: m.Name, Runtime: m.Runtime, Logo: m.Logo, Config: m.Config, StartKey: m.StartKey, EndKey: m.EndKey,
				UploadInterval: m.UploadInterval, InflationShareWeight: m.InflationShareWeight, MinDelegation: m.MinDelegation, MaxBundleSize: m.MaxBundleSize,
				Protocol: &pooltypes.Protocol{Version: m.Version, Binaries: m.Binaries, LastUpgrade: now}, UpgradePlan: &pooltypes.UpgradePlan{},
				CurrentStorageProviderId: m.StorageProviderId, CurrentCompressionId: m.CompressionId,
			}
		}
	case *pooltypes.MsgUpdatePool:
		if !auth(m.Authority) {
			return b
		}
		if p, ok := get(m.Id); ok {
			b.refuse = updateRef(&p, m.Payload)
			if b.refuse == "" {
				b.pools[m.Id] = p
			}
		}
	case *pooltypes.MsgDisablePool:
		if !auth(m.Authority) {
			return b
		}
		if p, ok := get(m.Id); ok {
			if p.Disabled {
				b.refuse = "already disabled"
				return b
			}
			p.Disabled = true
			b.pools[m.Id] = p
			b.off = &p.Id
		}
	case *pooltypes.MsgEnablePool:
		if !auth(m.Authority) {
			return b
		}
		if p, ok := get(m.Id); ok {
			if !p.Disabled {
				b.refuse = "not disabled"
				return b
			}
			p.Disabled = false
			b.pools[m.Id] = p
		}
	case *pooltypes.MsgScheduleRuntimeUpgrade:
		if !auth(m.Authority) {
			return b
		}
		if m.Version == "" || m.Binaries == "" {
			b.refuse = "version or binaries missing"
			return b
		}
		at := m.ScheduledAt
		if at < now {
			at = now
		}
		for id, p := range b.pools {
			if p.Runtime == m.Runtime && p.UpgradePlan.ScheduledAt == 0 {
				p.UpgradePlan = &pooltypes.UpgradePlan{Version: m.Version, Binaries: m.Binaries, ScheduledAt: at, Duration: m.Duration}
				b.pools[id] = p
			}
		}
	case *pooltypes.MsgCancelRuntimeUpgrade:
		if !auth(m.Authority) {
			return b
		}
		for id, p := range b.pools {
			if p.Runtime == m.Runtime {
				p.UpgradePlan = &pooltypes.UpgradePlan{}
				b.pools[id] = p
			}
		}
	}
	return b
}

// updateRef applies a pool update payload; "" or why it is refused.
func updateRef(p *pooltypes.Pool, payload string) string {
	var raw map[string]json.RawMessage
	if err := json.Unmarshal([]byte(payload), &raw); err != nil {
		return "malformed payload"
	}
	bad := ""
	for k, v := range raw {
		str := func(d *string) {
			var x string
			if json.Unmarshal(v, &x) != nil {
				bad = k + " is not text"
				return
			}
			*d = x
		}
		num := func(d *uint64, pos bool) {
			var x uint64
			if json.Unmarshal(v, &x) != nil || (pos && x == 0) {
				bad = k + " is not a valid number"
				return
			}
			*d = x
		}
		num32 := func(d *uint32) {
			var x uint32
			if json.Unmarshal(v, &x) != nil {
				bad = k + " is not a valid number"
				return
			}
			*d = x
		}
		switch strings.ToLower(k) {
		case "name":
			str(&p.Name)
		case "runtime":
			str(&p.Runtime)
		case "logo":
			str(&p.Logo)
		case "config":
			str(&p.Config)
		case "endkey":
			str(&p.EndKey)
		case "uploadinterval":
			num(&p.UploadInterval, true)
		case "maxbundlesize":
			num(&p.MaxBundleSize, true)
		case "mindelegation":
			num(&p.MinDelegation, false)
		case "storageproviderid":
			num32(&p.CurrentStorageProviderId)
		case "compressionid":
			num32(&p.CurrentCompressionId)
		case "inflationshareweight":
			var x string
			if json.Unmarshal(v, &x) != nil {
				bad = k + " is not a decimal"
				continue
			}
			d, err := math.LegacyNewDecFromStr(x)
			if err != nil || d.IsNegative() {
				bad = k + " is not a valid decimal"
				continue
			}
			p.InflationShareWeight = d
		}
	}
	return bad
}

func poolDiff(a, b pooltypes.Pool) string {
	if a.String() == b.String() {
		return ""
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	var l []string
	for i := 0; i < va.NumField(); i++ {
		x, y := fmt.Sprintf("%+v", va.Field(i).Interface()), fmt.Sprintf("%+v", vb.Field(i).Interface())
		if x != y {
			l = append(l, fmt.Sprintf("%s %s instead of %s", va.Type().Field(i).Name, x, y))
		}
	}
	return strings.Join(l, "; ")
}

// bundleFields copies what only the finalization of a bundle may change.
func bundleFields(dst *pooltypes.Pool, src pooltypes.Pool) {
	dst.CurrentIndex, dst.CurrentKey, dst.CurrentSummary, dst.TotalBundles = src.CurrentIndex, src.CurrentKey, src.CurrentSummary, src.TotalBundles
}

// rulePools: pool records follow the reference.
func rulePools(e *Env, st *Step, fail Fail) {
	if !st.OK() && st.Phase != "op" {
		return // X03
	}
	b := simPools(st)
	if b.admin {
		if b.refuse != "" && st.OK() {
			fail("admin-accepted", "%s is accepted although: %s", where(st), b.refuse)
			return
		}
		if b.refuse == "" && !st.OK() {
			fail("admin-refused", "%s is refused: %v", where(st), st.Err)
			return
		}
	}
	if !st.OK() {
		b.pools = st.Pre.Pools
	}
	// both finalize bundles, which B properties cover
	_, isSubmit := st.Msg.(*bundlestypes.MsgSubmitBundleProposal)
	_, isSkip := st.Msg.(*bundlestypes.MsgSkipUploaderRole)
	if len(st.Post.Pools) != len(b.pools) {
		fail("pool-set", "%s: there are %d pools instead of %d", where(st), len(st.Post.Pools), len(b.pools))
	}
	for id, want := range b.pools {
		got, ok := st.Post.Pools[id]
		if !ok {
			fail("pool-set", "%s: pool %d is missing", where(st), id)
			continue
		}
		if (isSubmit || isSkip) && st.OK() {
			bundleFields(&want, got)
		}
		if d := poolDiff(got, want); d != "" {
			fail("pool-record", "%s: pool %d has %s", where(st), id, d)
		}
	}
}

// ruleDisable: members leave, the balance goes to the treasury, nothing else moves.
func ruleDisable(e *Env, st *Step, fail Fail) {
	if st.Phase != "op" || !st.OK() {
		return
	}
	b := simPools(st)
	if !b.admin {
		return
	}
	cp := func(s *Snap) math.LegacyDec { return s.CP.AmountOf(DENOM) }
	pre, post := st.Pre, st.Post
	moved := uint64(0)
	if b.off != nil {
		id := *b.off
		moved = pre.B(poolAcc(id), DENOM)
		if l := post.Members(id); len(l) > 0 {
			fail("disabled-members", "%s: the disabled pool still has members %v", where(st), labs(l))
		}
		if r := post.B(poolAcc(id), DENOM); r != 0 {
			fail("disabled-balance", "%s: %d remain in the account of the disabled pool", where(st), r)
		}
		for _, s := range post.Stakers {
			for _, p := range post.PoolsOf(s.Address) {
				if p == id {
					fail("disabled-members", "%s: %s still lists the disabled pool", where(st), lab(s.Address))
				}
			}
		}
	}
	if d := cp(post).Sub(cp(pre)); !d.Equal(math.LegacyNewDecFromInt(intU(moved))) {
		fail("treasury", "%s: the treasury grows by %s instead of %d", where(st), d, moved)
	}
	if !pre.Supply.Equal(post.Supply) {
		fail("treasury", "%s: the supply changes", where(st))
	}
	for _, a := range sortedKeys(union(pre.Bal, post.Bal)) {
		want := pre.B(a, DENOM)
		if b.off != nil && a == poolAcc(*b.off) {
			want = 0
		}
		if a == modAddr(distrtypes.ModuleName) {
			want += moved
		}
		if g := post.B(a, DENOM); g != want {
			fail("balances", "%s: %s holds %d instead of %d", where(st), lab(a), g, want)
		}
	}
	for k := range pre.Val {
		if b.off != nil && k.P == *b.off {
			continue
		}
		if _, ok := post.Val[k]; !ok {
			fail("members", "%s: %s loses its membership of pool %d", where(st), lab(k.S), k.P)
		}
	}
	for k := range post.Val {
		if _, ok := pre.Val[k]; !ok {
			fail("members", "%s: %s becomes a member of pool %d", where(st), lab(k.S), k.P)
		}
	}
}

func union[V any](a, b map[string]V) map[string]bool {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return m
}

// ruleRuns: bundle messages are impossible while the pool may not run, and possible
// for those whose turn it is while it may.
func ruleRuns(e *Env, st *Step, fail Fail) {
	if st.Phase != "op" {
		return
	}
	var p uint64
	switch m := st.Msg.(type) {
	case *bundlestypes.MsgClaimUploaderRole:
		p = m.PoolId
	case *bundlestypes.MsgSubmitBundleProposal:
		p = m.PoolId
	case *bundlestypes.MsgSkipUploaderRole:
		p = m.PoolId
	case *bundlestypes.MsgVoteBundleProposal:
		p = m.PoolId
	default:
		return
	}
	b, ok := simOf(st)
	if !ok {
		return
	}
	if r := newBsim(&Step{Pre: st.Pre}).canRun(p); r != "" {
		if st.OK() {
			fail("ran", "%s succeeds although the pool may not run: %s", where(st), r)
		}
		return
	}
	if b.refuse == "" && !st.OK() {
		fail("did-not-run", "%s is refused although the pool may run: %v", where(st), st.Err)
	}
}

// stateRuns: the verdict of the code agrees with the published condition.
func stateRuns(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
	b := newBsim(&Step{Pre: s})
	for id := range s.Pools {
		want := b.canRun(id)
		err := e.App.BundlesKeeper.AssertPoolCanRun(quiet(ctx), id)
		if (err == nil) != (want == "") {
			fail("can-run", "pool %d: expected %q, the code says %v", id, want, err)
		}
	}
}

// --- worlds ----------------------------------------------------------------------------

func poolLife(q, th int) *Scenario {
	return &Scenario{Name: "pool-life", Gen: bundleGen(), Quick: q, Thor: th,
		Note: "three pools of two runtimes; upgrades scheduled in the past, now and later, with zero, finite and unlimited duration, cancelled before, during and after; disabling, enabling, updates, claims and votes, block steps around the upgrade times",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = bundleSetup(e, ctx, bcfg{pools: 2, stakers: []string{"S1", "S2"}, stake: map[string]uint64{"S1": 3 * K, "S2": 3 * K}, member: map[string][]uint64{"S1": {0, 1}, "S2": {0}}, minDel: K, maxPower: "1"})
			e.createPool(ctx, poolCfg{Name: "Pool2", Runtime: "@kyve/other", EndKey: "end"})
			e.fundAccount(ctx, "G", poolAcc(0), kyve(12345))
			e.fundAccount(ctx, "G", poolAcc(1), kyve(777))
			e.do(ctx, opClaim("S1", 0))
			ctx = e.block(ctx, 60)
			e.do(ctx, opSubmit(0, "", "", nil))
			return e.block(ctx, 10)
		},
		Ops: func(e *Env) []*Op {
			return []*Op{
				opSchedule("@kyve/test", "2.0.0", "{\"a\":1}", inSec(-50), 30, "past"), opSchedule("@kyve/test", "3.0.0", "{}", inSec(30), 0, "+30"), opSchedule("@kyve/test", "1.0.0", "{}", inSec(30), 1<<64-1, "+30"),
				opSchedule("@kyve/test", "1.0.0", "{\"b\":1}", inSec(29), 31, "+29"), opSchedule("@kyve/other", "2.0.0", "{}", inSec(0), 30, "now"), opSchedule("@kyve/test", "", "{}", inSec(0), 30, "now"), opSchedule("@kyve/test", "2", "", inSec(0), 30, "now"),
				opCancel("@kyve/test"), opCancel("@kyve/other"), opDisable(0), opDisable(1), opEnable(0), opDisable(9), opEnable(9),
				opUpdatePool(0, `{"Runtime":"@kyve/other"}`), opUpdatePool(1, `{"MinDelegation":4000000}`), opUpdatePool(0, `{"EndKey":"key1"}`),
				opClaim("S1", 1), opVote("S2", 0, vVALID), opSubmit(0, "", "", nil), opJoin("S2", 0, "VX", 0), blockOp(1), blockOp(29), blockOp(30),
			}
		}}
}

// canRunGrid enumerates the running conditions of a pool.
func canRunGrid() *Scenario {
	type ini struct {
		s1, s2, min uint64
		power       string
		end, key    string
		dis         bool
		plan        int64 // 0 none, otherwise seconds relative to now +1000
	}
	var l []ini
	for _, s := range [][2]uint64{{0, 0}, {1, 0}, {1, 1}, {5, 5}, {6, 5}, {5, 4}, {10, 0}, {K, K}, {K + 1, K}} {
		for _, min := range []uint64{0, 1, 10, 11, 2 * K, 2*K + 1} {
			for _, pw := range []string{"0", "0.5", "0.55", "1"} {
				l = append(l, ini{s[0], s[1], min, pw, "", "k", false, 0})
			}
		}
	}
	for _, dis := range []bool{false, true} {
		for _, plan := range []int64{0, 1000, 999, 1001, 1, 2000} {
			for _, ek := range [][2]string{{"", ""}, {"", "k"}, {"k", "k"}, {"k", ""}, {"k", "kk"}, {"kk", "k"}} {
				for _, s := range [][2]uint64{{5, 5}, {6, 4}} {
					l = append(l, ini{s[0], s[1], 10, "0.5", ek[0], ek[1], dis, plan})
				}
			}
		}
	}
	return &Scenario{Name: "run-conditions", Gen: bundleGen(), Quick: 2, Thor: 3, InitN: len(l),
		Note: "stakes x minimum x voting power limit, and disabled x upgrade plan x end key, in one pool next to an always running one; then claims, votes and block steps",
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			return bundleSetup(e, ctx, bcfg{pools: 2, stakers: []string{"S1", "S2", "S3"}, stake: map[string]uint64{"S3": 7}, member: map[string][]uint64{"S1": {0}, "S2": {0}, "S3": {1}}, maxPower: "1"})
		},
		Init: func(e *Env, ctx sdk.Context, i int) (sdk.Context, string) {
			x := l[i]
			for s, a := range map[string]uint64{"S1": x.s1, "S2": x.s2} {
				if a > 0 {
					e.delegate(ctx, s, s, a)
				}
			}
			pp := e.App.PoolKeeper.GetParams(ctx)
			pp.MaxVotingPowerPerPool = dec(x.power)
			e.App.PoolKeeper.SetParams(ctx, pp)
			pl := e.pool(ctx, 0)
			pl.MinDelegation, pl.EndKey, pl.CurrentKey, pl.Disabled = x.min, x.end, x.key, x.dis
			if x.plan != 0 {
				pl.UpgradePlan = &pooltypes.UpgradePlan{Version: "9", Binaries: "{}", ScheduledAt: uint64(ctx.BlockTime().Unix() + x.plan - 1000), Duration: 600}
			}
			e.App.PoolKeeper.SetPool(ctx, pl)
			return ctx, fmt.Sprintf("%+v", x)
		},
		Ops: func(e *Env) []*Op {
			return []*Op{opClaim("S1", 0), opClaim("S2", 0), opClaim("S3", 1), opEnable(0), opCancel("@kyve/test"), blockOp(1), blockOp(700)}
		}}
}

// --- P02 -------------------------------------------------------------------------------

// moduleParams returns the params of every module as canonical json objects.
func moduleParams(s *Snap) map[string]map[string]json.RawMessage {
	out := map[string]map[string]json.RawMessage{}
	add := func(n string, v any) {
		bz, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		m := map[string]json.RawMessage{}
		if err := json.Unmarshal(bz, &m); err != nil {
			panic(err)
		}
		out[n] = m
	}
	add("bundles", s.BundlesG.Params)
	add("delegation", s.DelG.Params)
	add("funders", s.FundersG.Params)
	add("pool", s.PoolG.Params)
	add("stakers", s.StakersG.Params)
	add("global", s.Global)
	return out
}

// paramsTarget names the module a parameter change is addressed to.
func paramsTarget(m sdk.Msg) (mod, authority, payload string) {
	switch m := m.(type) {
	case *bundlestypes.MsgUpdateParams:
		return "bundles", m.Authority, m.Payload
	case *delegationtypes.MsgUpdateParams:
		return "delegation", m.Authority, m.Payload
	case *funderstypes.MsgUpdateParams:
		return "funders", m.Authority, m.Payload
	case *pooltypes.MsgUpdateParams:
		return "pool", m.Authority, m.Payload
	case *stakerstypes.MsgUpdateParams:
		return "stakers", m.Authority, m.Payload
	case *globaltypes.MsgUpdateParams:
		return "global", m.Authority, m.Payload
	}
	return
}

// kinds of parameter fields
const (
	fNum = iota // any non negative number
	fPos        // positive number
	fPct        // decimal in [0,1]
	fDec        // non negative decimal
	fList
)

var paramFields = map[string]map[string]int{
	"bundles":    {"upload_timeout": fPos, "storage_costs": fList, "network_fee": fPct, "max_points": fPos},
	"delegation": {"unbonding_delegation_time": fNum, "redelegation_cooldown": fNum, "redelegation_max_amount": fNum, "vote_slash": fPct, "upload_slash": fPct, "timeout_slash": fPct},
	"funders":    {"coin_whitelist": fList, "min_funding_multiple": fNum},
	"pool":       {"protocol_inflation_share": fPct, "pool_inflation_payout_rate": fPct, "max_voting_power_per_pool": fPct},
	"stakers":    {"commission_change_time": fNum, "leave_pool_time": fNum},
	"global":     {"min_gas_price": fDec, "burn_ratio": fPct, "gas_adjustments": fList, "gas_refunds": fList},
}

type pval struct {
	raw string // canonical
	ok  bool
}

func paramVals(mod, field string) []pval {
	switch paramFields[mod][field] {
	case fNum:
		return []pval{{"0", true}, {"7", true}, {"18446744073709551615", true}, {"-1", false}, {"18446744073709551616", false}, {`"a"`, false}, {"1.5", false}}
	case fPos:
		return []pval{{"1", true}, {"18446744073709551615", true}, {"0", false}, {"-1", false}, {`"x"`, false}}
	case fPct:
		return []pval{{`"0.000000000000000000"`, true}, {`"0.000000000000000001"`, true}, {`"0.370000000000000000"`, true}, {`"1.000000000000000000"`, true}, {`"1.000000000000000001"`, false}, {`"-0.000000000000000001"`, false}, {`"-0.500000000000000000"`, false}, {`"x"`, false}}
	case fDec:
		return []pval{{`"0.000000000000000000"`, true}, {`"1.000000000000000001"`, true}, {`"250.000000000000000000"`, true}, {`"-0.000000000000000001"`, false}}
	}
	switch mod + "." + field {
	case "bundles.storage_costs":
		return []pval{{`[{"storage_provider_id":3,"cost":"0.250000000000000000"},{"storage_provider_id":1,"cost":"0.000000000000000000"}]`, true}, {`[{"cost":"0.600000000000000000"}]`, true}, {`[{"storage_provider_id":4}]`, false}, {`[{"storage_provider_id":5,"cost":"-0.100000000000000000"}]`, false}, {`[]`, true}}
	case "funders.coin_whitelist":
		e := func(d string, dc int, min, per, w string) string {
			return fmt.Sprintf(`{"coin_denom":"%s","coin_decimals":%d,"min_funding_amount":"%s","min_funding_amount_per_bundle":"%s","coin_weight":"%s"}`, d, dc, min, per, w)
		}
		kyve := e(DENOM, 6, "11", "2", "0.060000000000000000")
		whole := fmt.Sprintf(`[{"coin_denom":"%s","min_funding_amount":"11","min_funding_amount_per_bundle":"2","coin_weight":"0.060000000000000000"}]`, DENOM) // no decimals
		return []pval{{"[" + kyve + "]", true}, {whole, true}, {fmt.Sprintf(`[{"coin_denom":"%s"}]`, DENOM), false}, {fmt.Sprintf(`[{"coin_denom":"%s","coin_decimals":6,"min_funding_amount":"11","coin_weight":"1.000000000000000000"}]`, DENOM), false}, {"[" + e(ADENOM, 6, "11", "2", "0.010000000000000000") + "," + kyve + "]", true}, {"[" + e(ADENOM, 6, "11", "2", "0.010000000000000000") + "]", false}, {`[]`, false},
			{"[" + kyve + "," + e("", 6, "1", "1", "1.000000000000000000") + "]", false}, {"[" + kyve + "," + e(ADENOM, 6, "-1", "1", "1.000000000000000000") + "]", false},
			{"[" + kyve + "," + e(ADENOM, 6, "1", "-1", "1.000000000000000000") + "]", false}, {"[" + kyve + "," + e(ADENOM, 6, "1", "1", "-1.000000000000000000") + "]", false}}
	case "global.gas_adjustments":
		return []pval{{`[{"type":"/x","amount":5},{"type":"/y","amount":6}]`, true}, {`[{"type":"/w"}]`, true}, {`[{"amount":3}]`, true}, {`[{"type":"/x","amount":-5}]`, false}, {`[]`, true}}
	case "global.gas_refunds":
		return []pval{{`[{"type":"/x","fraction":"0.400000000000000000"},{"type":"/y","fraction":"1.000000000000000000"}]`, true}, {`[{"type":"/w"}]`, false}, {`[{"fraction":"0.900000000000000000"}]`, true}, {`[{"type":"/x","fraction":"1.100000000000000000"}]`, false}, {`[{"type":"/x","fraction":"-0.100000000000000000"}]`, false}, {`[]`, true}}
	}
	panic(mod + "." + field)
}

func paramsMsg(mod, authority, payload string) sdk.Msg {
	switch mod {
	case "bundles":
		return &bundlestypes.MsgUpdateParams{Authority: authority, Payload: payload}
	case "delegation":
		return &delegationtypes.MsgUpdateParams{Authority: authority, Payload: payload}
	case "funders":
		return &funderstypes.MsgUpdateParams{Authority: authority, Payload: payload}
	case "pool":
		return &pooltypes.MsgUpdateParams{Authority: authority, Payload: payload}
	case "stakers":
		return &stakerstypes.MsgUpdateParams{Authority: authority, Payload: payload}
	case "global":
		return &globaltypes.MsgUpdateParams{Authority: authority, Payload: payload}
	}
	panic(mod)
}

// paramsWant computes the expected parameters of one module after a payload; "" or why refused.
func paramsWant(mod string, old map[string]json.RawMessage, payload string) (map[string]json.RawMessage, string) {
	var raw map[string]json.RawMessage
	if err := json.Unmarshal([]byte(payload), &raw); err != nil {
		return nil, "malformed payload"
	}
	out := map[string]json.RawMessage{}
	for k, v := range old {
		out[k] = v
	}
	for k, v := range raw {
		if _, ok := paramFields[mod][k]; !ok {
			continue
		}
		known := false
		for _, x := range paramVals(mod, k) {
			if x.raw == string(v) {
				if !x.ok {
					return nil, k + " invalid"
				}
				known = true
			}
		}
		if !known {
			panic("value outside the enumeration: " + k + " " + string(v))
		}
		out[k] = v
	}
	return out, ""
}

func sameParams(a, b map[string]json.RawMessage) string {
	norm := func(r json.RawMessage) string {
		if s := string(r); s != "null" && s != "0" && s != `""` {
			return s
		}
		return "[]" // zero values may be left out
	}
	keys := map[string]bool{}
	for k := range a {
		keys[k] = true
	}
	for k := range b {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		x, y := a[k], b[k]
		if x == nil {
			x = json.RawMessage("null")
		}
		if y == nil {
			y = json.RawMessage("null")
		}
		if norm(x) != norm(y) {
			return fmt.Sprintf("%s is %s instead of %s", k, x, y)
		}
	}
	return ""
}

// restOf is everything that is not a parameter.
func restOf(s *Snap) string {
	bu, de, fu, po, sk := *s.BundlesG, *s.DelG, *s.FundersG, *s.PoolG, *s.StakersG
	bu.Params, de.Params, fu.Params, po.Params, sk.Params = bundlestypes.Params{}, delegationtypes.Params{}, funderstypes.Params{}, pooltypes.Params{}, stakerstypes.Params{}
	js := func(v any) string { bz, _ := json.Marshal(v); return string(bz) }
	return strings.Join([]string{js(bu), js(de), js(fu), js(po), js(sk), js(s.TeamG), js(s.Bal), js(s.Supply), js(s.CP)}, "\n")
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("…%s… instead of …%s…", cut(b), cut(a))
}

// ruleParams: parameters change only by an authorised request and then as stated.
func ruleParams(e *Env, st *Step, fail Fail) {
	if !st.OK() && st.Phase != "op" {
		return
	}
	pre, post := moduleParams(st.Pre), moduleParams(st.Post)
	mod, auth, payload := "", "", ""
	if st.Phase == "op" {
		mod, auth, payload = paramsTarget(st.Msg)
	}
	for _, m := range sortedKeys(pre) {
		want, refuse := pre[m], ""
		if m == mod {
			if auth != govAddr() {
				refuse = "not the governance account"
			} else if want, refuse = paramsWant(m, pre[m], payload); refuse != "" {
				want = pre[m]
			}
			if refuse != "" && st.OK() {
				fail("params-accepted", "%s is accepted although: %s", where(st), refuse)
				continue
			}
			if refuse == "" && !st.OK() {
				fail("params-refused", "%s is refused: %v", where(st), st.Err)
				continue
			}
		}
		if d := sameParams(post[m], want); d != "" {
			fail("params", "%s: %s parameter %s", where(st), m, d)
		}
	}
}

var gatedTypes = []string{"CreatePool", "UpdatePool", "DisablePool", "EnablePool", "ScheduleRuntimeUpgrade", "CancelRuntimeUpgrade", "UpdateParams"}

// ruleGated: a refused administrative request leaves everything as it was; an accepted
// parameter or pool setting change touches nothing else.
func ruleGated(e *Env, st *Step, fail Fail) {
	if st.Phase != "op" || st.Msg == nil {
		return
	}
	mod, auth, _ := paramsTarget(st.Msg)
	if mod == "" {
		switch m := st.Msg.(type) {
		case *pooltypes.MsgCreatePool:
			auth = m.Authority
		case *pooltypes.MsgUpdatePool:
			auth = m.Authority
		case *pooltypes.MsgDisablePool:
			auth = m.Authority
		case *pooltypes.MsgEnablePool:
			auth = m.Authority
		case *pooltypes.MsgScheduleRuntimeUpgrade:
			auth = m.Authority
		case *pooltypes.MsgCancelRuntimeUpgrade:
			auth = m.Authority
		default:
			return
		}
	}
	if auth != govAddr() && st.OK() {
		fail("unauthorised", "%s succeeds for %q", where(st), lab(auth))
	}
	if !st.OK() {
		if a, b := restOf(st.Pre), restOf(st.Post); a != b {
			fail("refused-effect", "%s is refused but changes the state: %s", where(st), firstDiff(a, b))
		}
		return
	}
	pre, post := *st.Pre, *st.Post
	if mod == "" {
		switch st.Msg.(type) {
		case *pooltypes.MsgUpdatePool, *pooltypes.MsgEnablePool, *pooltypes.MsgScheduleRuntimeUpgrade, *pooltypes.MsgCancelRuntimeUpgrade:
			x, y := *pre.PoolG, *post.PoolG
			x.PoolList, y.PoolList = nil, nil // judged record by record
			pre.PoolG, post.PoolG = &x, &y
		default:
			return
		}
	}
	if a, b := restOf(&pre), restOf(&post); a != b {
		fail("side-effect", "%s changes more than it names: %s", where(st), firstDiff(a, b))
	}
}

// senders that must never be able to administer.
func impostors() []string {
	l := []string{acc("G"), acc("S1"), teamtypes.FOUNDATION_ADDRESS, teamtypes.BCP_ADDRESS, "", "kyve1", strings.ToUpper(govAddr()), "cosmos10d07y265gmmuvt4z0w9aw880jnsr700j6zn9kn"}
	for _, m := range []string{"pool", "bundles", "stakers", "delegation", "funders", "team", "distribution", "mint", "bonded_tokens_pool", "fee_collector", "global", "query"} {
		l = append(l, modAddr(m))
	}
	return append(l, poolAcc(0))
}

// adminBase is a populated chain with parameters that all differ from the defaults.
func adminBase() *Scenario {
	return &Scenario{Name: "administration", Gen: bundleGen(), Quick: 1, Thor: 1,
		Ops: func(*Env) []*Op { return nil },
		Setup: func(e *Env, ctx sdk.Context) sdk.Context {
			ctx = bundleSetup(e, ctx, bcfg{pools: 2, stakers: []string{"S1", "S2"}, stake: map[string]uint64{"S1": 3 * K, "S2": 3 * K}, maxPower: "1"})
			e.createPool(ctx, poolCfg{Name: "Pool2", Runtime: "@kyve/other", EndKey: "end"})
			set := func(mod, payload string) { e.must(ctx, paramsMsg(mod, govAddr(), payload)) }
			set("bundles", `{"upload_timeout":77,"network_fee":"0.03","max_points":9,"storage_costs":[{"storage_provider_id":1,"cost":"0.5"},{"storage_provider_id":2,"cost":"0.7"},{"storage_provider_id":9,"cost":"0.9"}]}`)
			set("delegation", `{"unbonding_delegation_time":11,"redelegation_cooldown":12,"redelegation_max_amount":3,"vote_slash":"0.11","upload_slash":"0.12","timeout_slash":"0.13"}`)
			set("funders", `{"min_funding_multiple":3,"coin_whitelist":[{"coin_denom":"`+ADENOM+`","coin_decimals":6,"min_funding_amount":"10","min_funding_amount_per_bundle":"1","coin_weight":"1.5"},{"coin_denom":"`+DENOM+`","coin_decimals":6,"min_funding_amount":"10","min_funding_amount_per_bundle":"1","coin_weight":"0.5"},{"coin_denom":"`+BDENOM+`","coin_decimals":18,"min_funding_amount":"10","min_funding_amount_per_bundle":"1","coin_weight":"2.5"}]}`)
			set("pool", `{"protocol_inflation_share":"0.07","pool_inflation_payout_rate":"0.06","max_voting_power_per_pool":"0.95"}`)
			set("stakers", `{"commission_change_time":14,"leave_pool_time":15}`)
			set("global", `{"min_gas_price":"1.5","burn_ratio":"0.2","gas_adjustments":[{"type":"/a","amount":1},{"type":"/b","amount":2},{"type":"/c","amount":3}],"gas_refunds":[{"type":"/a","fraction":"0.1"},{"type":"/b","fraction":"0.2"},{"type":"/c","fraction":"0.3"}]}`)
			// no setting of the pools has a value an update writes
			for id := uint64(0); id < 3; id++ {
				pl, _ := e.App.PoolKeeper.GetPool(ctx, id)
				pl.MinDelegation, pl.MaxBundleSize, pl.UploadInterval, pl.CurrentStorageProviderId, pl.CurrentCompressionId = 3, 55, 66, 4, 5
				pl.Logo, pl.Config, pl.InflationShareWeight = "ar://old", "ar://cfg", dec("7.5")
				e.App.PoolKeeper.SetPool(ctx, pl)
			}
			e.do(ctx, opSchedule("@kyve/other", "2", "{}", inSec(500), 10, "+500"))
			e.do(ctx, opDisable(1))
			e.do(ctx, opCreateFunder("D1"))
			e.do(ctx, opFund("D1", 0, kyve(1000), kyve(10)))
			return e.block(ctx, 5)
		}}
}

// runSingle executes one message on a branch of the scenario's state and judges it.
func runSingle(sc *Scenario, p *Property, msgs []sdk.Msg, tag string, fail Fail) int {
	e, ctx := extraEnv(sc)
	pre := e.Snapshot(ctx)
	for _, m := range msgs {
		m := m
		op := &Op{Name: tag, Kind: "single", Msg: func(*Env, sdk.Context) sdk.Msg { return m }}
		var steps []*Step
		ctx, steps = e.observe(ctx, op, pre)
		for _, v := range judge(p, e, steps) {
			fail(v.Rule, "%s", v.Msg)
		}
		pre = steps[0].Post
	}
	return len(msgs)
}

func adminMsgs(authority string) []sdk.Msg {
	l := []sdk.Msg{}
	for _, mod := range sortedKeys(paramFields) {
		for _, f := range sortedKeys(paramFields[mod]) {
			l = append(l, paramsMsg(mod, authority, fmt.Sprintf(`{"%s":%s}`, f, paramVals(mod, f)[0].raw)))
		}
		l = append(l, paramsMsg(mod, authority, "{}"))
	}
	c := poolCfg{Name: "new"}.msg()
	c.Authority = authority
	return append(l, c,
		&pooltypes.MsgUpdatePool{Authority: authority, Id: 0, Payload: `{"Name":"x","UploadInterval":3}`}, &pooltypes.MsgUpdatePool{Authority: authority, Id: 0, Payload: `{}`},
		&pooltypes.MsgDisablePool{Authority: authority, Id: 0}, &pooltypes.MsgEnablePool{Authority: authority, Id: 1},
		&pooltypes.MsgScheduleRuntimeUpgrade{Authority: authority, Runtime: "@kyve/test", Version: "2", Binaries: "{}", ScheduledAt: 1, Duration: 1},
		&pooltypes.MsgScheduleRuntimeUpgrade{Authority: authority, Runtime: "unknown", Version: "2", Binaries: "{}", ScheduledAt: 1, Duration: 1},
		&pooltypes.MsgCancelRuntimeUpgrade{Authority: authority, Runtime: "@kyve/other"})
}

func authorityGrid(p *Property) *Extra {
	sc := adminBase()
	auths := append([]string{}, govAddr())
	auths = append(auths, impostors()...)
	return &Extra{Name: "authority", Note: "every administrative message of every module (valid for governance) x governance and 21 other senders",
		N: func(string) int { return len(auths) * len(adminMsgs("")) },
		Run: func(tier string, i int, fail Fail) (int, int) {
			n := len(adminMsgs(""))
			a := auths[i/n]
			m := adminMsgs(a)[i%n]
			return 1, runSingle(sc, p, []sdk.Msg{m}, fmt.Sprintf("%s by %q", sdk.MsgTypeURL(m), lab(a)), fail)
		}}
}

func paramsGrid(p *Property) *Extra {
	sc := adminBase()
	type c struct{ mod, payload string }
	var l []c
	for _, mod := range sortedKeys(paramFields) {
		fs := sortedKeys(paramFields[mod])
		one := func(f string, v pval) string { return fmt.Sprintf(`"%s":%s`, f, v.raw) }
		for i, f := range fs {
			for _, v := range paramVals(mod, f) {
				l = append(l, c{mod, "{" + one(f, v) + "}"}, c{mod, `{"unknown_field":1,` + one(f, v) + "}"})
				for _, g := range fs[i+1:] {
					for _, w := range paramVals(mod, g) {
						l = append(l, c{mod, "{" + one(f, v) + "," + one(g, w) + "}"}, c{mod, "{" + one(g, w) + "," + one(f, v) + "}"})
					}
				}
			}
		}
		// every non empty subset of the fields with valid values
		for b := 1; b < 1<<len(fs); b++ {
			var s []string
			for i, f := range fs {
				if b&(1<<i) != 0 {
					s = append(s, one(f, paramVals(mod, f)[0]))
				}
			}
			l = append(l, c{mod, "{" + strings.Join(s, ",") + "}"})
		}
		for _, x := range []string{"", "{", "[]", "1", "null", "{}", `{"unknown_field":1}`, "{} x"} {
			l = append(l, c{mod, x})
		}
	}
	return &Extra{Name: "parameter-changes", Note: "per module: every field value, every ordered pair of field values, every field subset, malformed payloads; starting from parameters that all differ from the defaults; each followed by a second change of another field",
		N: func(string) int { return len(l) },
		Run: func(tier string, i int, fail Fail) (int, int) {
			x := l[i]
			fs := sortedKeys(paramFields[x.mod])
			f := fs[i%len(fs)]
			return 2, runSingle(sc, p, []sdk.Msg{paramsMsg(x.mod, govAddr(), x.payload), paramsMsg(x.mod, govAddr(), fmt.Sprintf(`{"%s":%s}`, f, paramVals(x.mod, f)[1].raw))}, x.mod+" params "+x.payload, fail)
		}}
}

func poolUpdateGrid(p *Property) *Extra {
	sc := adminBase()
	good := []string{`"Name":"n"`, `"Runtime":"@kyve/other"`, `"Logo":""`, `"Config":"ar://x"`, `"UploadInterval":1`, `"InflationShareWeight":"0.000000000000000000"`, `"MinDelegation":0`, `"MaxBundleSize":1`, `"StorageProviderId":0`, `"CompressionId":7`, `"EndKey":"z"`}
	other := []string{`"UploadInterval":0`, `"UploadInterval":-1`, `"MaxBundleSize":0`, `"MinDelegation":-1`, `"InflationShareWeight":"-0.000000000000000001"`, `"InflationShareWeight":"-1"`, `"InflationShareWeight":"3.5"`, `"UploadInterval":18446744073709551615`, `"MinDelegation":18446744073709551615`, `"CompressionId":4294967296`, `"StorageProviderId":-1`, `"Name":5`, `"Unknown":5`, `"Name":""`, `"Runtime":""`, `"Config":""`, `"Logo":"ar://logo"`, `"EndKey":""`, `"MinDelegation":5`, `"CompressionId":0`, `"StorageProviderId":1`, `"Id":1`, `"Disabled":true`, `"TotalBundles":4`, `"CurrentIndex":4`}
	var l []string
	for b := 0; b < 1<<len(good); b++ {
		var s []string
		for i, g := range good {
			if b&(1<<i) != 0 {
				s = append(s, g)
			}
		}
		l = append(l, "{"+strings.Join(s, ",")+"}")
	}
	for _, o := range other {
		l = append(l, "{"+o+"}")
		for _, g := range good {
			if strings.Split(o, ":")[0] != strings.Split(g, ":")[0] { // a payload names each setting once
				l = append(l, "{"+o+","+g+"}", "{"+g+","+o+"}")
			}
		}
	}
	l = append(l, "", "{", "[]", "1")
	ids := []uint64{0, 1, 2, 3}
	return &Extra{Name: "pool-updates", Note: "every subset of the pool settings, invalid and foreign settings alone and combined, malformed payloads; running, disabled, upgrading and unknown pool",
		N: func(string) int { return len(l) },
		Run: func(tier string, i int, fail Fail) (int, int) {
			for _, id := range ids {
				runSingle(sc, p, []sdk.Msg{&pooltypes.MsgUpdatePool{Authority: govAddr(), Id: id, Payload: l[i]}}, fmt.Sprintf("update pool %d %s", id, l[i]), fail)
			}
			return len(ids), len(ids)
		}}
}

func poolCreateGrid(p *Property) *Extra {
	sc := adminBase()
	var l []*pooltypes.MsgCreatePool
	for _, iv := range []uint64{0, 1, 60, 1<<64 - 1} {
		for _, mb := range []uint64{0, 1, 1<<64 - 1} {
			for _, w := range []string{"-1", "-0.000000000000000001", "0", "1.5"} {
				for _, bin := range []string{"{}", "", "{", `{"a":"b"}`, "null", "[]"} {
					for _, ek := range []string{"", "99"} {
						m := poolCfg{Name: "nm", Runtime: "rt", EndKey: ek, StartKey: "sk", MinDel: mb, StorageId: 2, CompressionId: 3}.msg()
						m.UploadInterval, m.MaxBundleSize, m.InflationShareWeight, m.Binaries, m.Version = iv, mb, dec(w), bin, "7.7"
						l = append(l, m)
					}
				}
			}
		}
	}
	return &Extra{Name: "pool-creation", Note: "interval x bundle size x weight x binaries x end key, each created twice in a row, then used",
		N: func(string) int { return len(l) },
		Run: func(tier string, i int, fail Fail) (int, int) {
			join := &stakerstypes.MsgJoinPool{Creator: acc("S1"), PoolId: 3, Valaddress: acc(valOf("S3", 0)), Amount: 0}
			fund := &funderstypes.MsgFundPool{Creator: acc("D1"), PoolId: 3, Amounts: kyve(1000), AmountsPerBundle: kyve(10)}
			return 4, runSingle(sc, p, []sdk.Msg{l[i], l[i], join, fund}, fmt.Sprintf("create %+v", l[i]), fail)
		}}
}

// ruleNewPool: a created pool starts empty and is usable.
func ruleNewPool(e *Env, st *Step, fail Fail) {
	if st.Phase != "op" || st.Msg == nil || !st.OK() {
		return
	}
	m, ok := st.Msg.(*pooltypes.MsgCreatePool)
	if !ok || m.Authority != govAddr() {
		return
	}
	id := uint64(len(st.Pre.Pools))
	if l, ok := st.Post.FState[id]; !ok || len(l) > 0 {
		fail("new-pool", "%s: the new pool's funders are %v", where(st), l)
	}
	if len(st.Post.Members(id)) > 0 || len(st.Post.Fin[id]) > 0 {
		fail("new-pool", "%s: the new pool has members or bundles", where(st))
	}
	pre, post := *st.Pre, *st.Post
	a, b := *pre.PoolG, *post.PoolG
	a.PoolList, b.PoolList, a.PoolCount, b.PoolCount = nil, nil, 0, 0
	fa, fb := *pre.FundersG, *post.FundersG
	fa.FundingStateList, fb.FundingStateList = nil, nil
	pre.PoolG, post.PoolG, pre.FundersG, post.FundersG = &a, &b, &fa, &fb
	if x, y := restOf(&pre), restOf(&post); x != y {
		fail("side-effect", "%s changes more than it names: %s", where(st), firstDiff(x, y))
	}
	for p := range st.Pre.FState {
		x, y := append([]string{}, st.Pre.FState[p]...), append([]string{}, st.Post.FState[p]...)
		sort.Strings(x)
		sort.Strings(y)
		if fmt.Sprint(x) != fmt.Sprint(y) {
			fail("side-effect", "%s changes the active funders of pool %d", where(st), p)
		}
	}
}

func buildPools() {
	be := bundleEligibility()
	be.Quick = 2
	register(&Property{ID: "P01", Scenarios: []*Scenario{poolLife(5, 6), canRunGrid(), be}, Rules: []Rule{rulePools, ruleDisable, ruleRuns}, States: []StateRule{stateRuns}})
	p2 := &Property{ID: "P02", Scenarios: []*Scenario{poolLife(4, 5)}, Rules: []Rule{rulePools, ruleParams, ruleGated, ruleNewPool}}
	p2.Extra = []*Extra{authorityGrid(p2), paramsGrid(p2), poolUpdateGrid(p2), poolCreateGrid(p2)}
	register(p2)
}
