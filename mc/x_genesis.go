package main

// X07: what a genesis file is checked for before a chain starts from it.  Every state
// the chain reaches must pass when exported; a file which names a record twice or
// contradicts itself must not.

import (
	"encoding/json"
	"fmt"
	"reflect"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"
	"github.com/cosmos/gogoproto/proto"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

var genesisOf = map[string]func() proto.Message{
	"bundles":    func() proto.Message { return &bundlestypes.GenesisState{} },
	"delegation": func() proto.Message { return &delegationtypes.GenesisState{} },
	"funders":    func() proto.Message { return &funderstypes.GenesisState{} },
	"global":     func() proto.Message { return &globaltypes.GenesisState{} },
	"pool":       func() proto.Message { return &pooltypes.GenesisState{} },
	"stakers":    func() proto.Message { return &stakerstypes.GenesisState{} },
	"team":       func() proto.Message { return &teamtypes.GenesisState{} },
}

// lists whose records have an identity
var genesisLists = map[string][]string{
	"bundles":    {"BundleProposalList", "FinalizedBundleList"},
	"delegation": {"DelegatorList", "DelegationEntryList", "DelegationDataList", "DelegationSlashList", "UndelegationQueueEntryList", "RedelegationCooldownList"},
	"funders":    {"FunderList", "FundingList", "FundingStateList"},
	"pool":       {"PoolList"},
	"stakers":    {"StakerList", "ValaccountList", "CommissionChangeEntries", "LeavePoolEntries"},
	"team":       {"AccountList"},
}

func (e *Env) validateGenesis(mod string, bz json.RawMessage) (err error, p string) {
	return guard(func() error {
		b, ok := e.App.ModuleManager.Modules[mod].(module.HasGenesisBasics)
		if !ok {
			return fmt.Errorf("the module %s does not check its genesis", mod)
		}
		return b.ValidateGenesis(e.App.AppCodec(), nil, bz)
	})
}

type genesisCase struct {
	what string
	f    func(g reflect.Value) // changes the state
}

// contradictions are the changes which make a consistent state inconsistent.
func contradictions(mod string, g reflect.Value) (l []genesisCase) {
	list := func(n string) reflect.Value { return g.FieldByName(n) }
	for _, f := range genesisLists[mod] {
		n := list(f).Len()
		for i := 0; i < n; i++ {
			f, i := f, i
			l = append(l, genesisCase{fmt.Sprintf("%s[%d] is repeated at the end", f, i), func(g reflect.Value) {
				v := g.FieldByName(f)
				v.Set(reflect.Append(v, v.Index(i)))
			}}, genesisCase{fmt.Sprintf("%s[%d] is repeated at the front", f, i), func(g reflect.Value) {
				v := g.FieldByName(f)
				nv := reflect.MakeSlice(v.Type(), 0, n+1)
				nv = reflect.Append(nv, v.Index(i))
				v.Set(reflect.AppendSlice(nv, v))
			}})
		}
	}
	drop := func(f string, i int) genesisCase {
		return genesisCase{fmt.Sprintf("%s[%d] is missing", f, i), func(g reflect.Value) {
			v := g.FieldByName(f)
			v.Set(reflect.AppendSlice(v.Slice3(0, i, i), v.Slice(i+1, v.Len())))
		}}
	}
	set := func(what string, f func(g any)) genesisCase {
		return genesisCase{what, func(v reflect.Value) { f(v.Addr().Interface()) }}
	}
	switch g := g.Addr().Interface().(type) {
	case *bundlestypes.GenesisState:
		last := map[uint64]uint64{}
		for _, b := range g.FinalizedBundleList {
			if b.Id > last[b.PoolId] {
				last[b.PoolId] = b.Id
			}
		}
		for i, b := range g.FinalizedBundleList {
			if b.Id < last[b.PoolId] {
				l = append(l, drop("FinalizedBundleList", i))
			}
		}
	case *delegationtypes.GenesisState:
		slashed := map[string]bool{}
		for _, s := range g.DelegationSlashList {
			slashed[fmt.Sprint(s.Staker, s.KIndex)] = true
		}
		for i, d := range g.DelegationEntryList {
			if slashed[fmt.Sprint(d.Staker, d.KIndex)] {
				l = append(l, drop("DelegationEntryList", i))
			}
		}
		for i, a := range g.DelegatorList {
			for j, b := range g.DelegatorList {
				if i != j && a.Staker == b.Staker {
					i, k := i, b.KIndex
					l = append(l, set(fmt.Sprintf("DelegatorList[%d] points to the entry of DelegatorList[%d]", i, j), func(x any) { x.(*delegationtypes.GenesisState).DelegatorList[i].KIndex = k }))
				}
			}
		}
		for i, u := range g.UndelegationQueueEntryList {
			at := u.Index // starts at one
			l = append(l, set(fmt.Sprintf("UndelegationQueueEntryList[%d] is above the queue", i), func(x any) { x.(*delegationtypes.GenesisState).QueueStateUndelegation.HighIndex = at - 1 }),
				set(fmt.Sprintf("UndelegationQueueEntryList[%d] is below the queue", i), func(x any) {
					q := &x.(*delegationtypes.GenesisState).QueueStateUndelegation
					q.LowIndex = at + 1
				}))
		}
	case *pooltypes.GenesisState:
		for i, p := range g.PoolList {
			id := p.Id
			l = append(l, set(fmt.Sprintf("PoolList[%d] is beyond the number of pools", i), func(x any) { x.(*pooltypes.GenesisState).PoolCount = id }))
		}
	case *stakerstypes.GenesisState:
		for i, v := range g.ValaccountList {
			i, v := i, v
			l = append(l, set(fmt.Sprintf("the leaving mark of ValaccountList[%d] is %v", i, !v.IsLeaving), func(x any) { x.(*stakerstypes.GenesisState).ValaccountList[i].IsLeaving = !v.IsLeaving }))
			if v.IsLeaving {
				l = append(l, drop("ValaccountList", i))
			}
		}
		for i, c := range g.LeavePoolEntries {
			at := c.Index
			l = append(l, drop("LeavePoolEntries", i),
				set(fmt.Sprintf("LeavePoolEntries[%d] is above the queue", i), func(x any) { x.(*stakerstypes.GenesisState).QueueStateLeave.HighIndex = at - 1 }),
				set(fmt.Sprintf("LeavePoolEntries[%d] is below the queue", i), func(x any) { x.(*stakerstypes.GenesisState).QueueStateLeave.LowIndex = at + 1 }))
		}
		for i, c := range g.CommissionChangeEntries {
			at := c.Index
			l = append(l,
				set(fmt.Sprintf("CommissionChangeEntries[%d] is above the queue", i), func(x any) { x.(*stakerstypes.GenesisState).QueueStateCommission.HighIndex = at - 1 }),
				set(fmt.Sprintf("CommissionChangeEntries[%d] is below the queue", i), func(x any) { x.(*stakerstypes.GenesisState).QueueStateCommission.LowIndex = at + 1 }))
		}
	case *teamtypes.GenesisState:
		for i, a := range g.AccountList {
			id := a.Id
			l = append(l, set(fmt.Sprintf("AccountList[%d] is beyond the number of accounts", i), func(x any) { x.(*teamtypes.GenesisState).AccountCount = id }))
		}
		l = append(l, set("the authority claimed more than it received", func(x any) {
			x.(*teamtypes.GenesisState).Authority.RewardsClaimed = x.(*teamtypes.GenesisState).Authority.TotalRewards + 1
		}))
	}
	return
}

// permuted lists every record in the opposite order.
func permuted(mod string, g reflect.Value) {
	for _, f := range genesisLists[mod] {
		v := g.FieldByName(f)
		n := v.Len()
		for i := 0; i < n/2; i++ {
			a, b := reflect.ValueOf(v.Index(i).Interface()), reflect.ValueOf(v.Index(n-1-i).Interface())
			v.Index(i).Set(b)
			v.Index(n - 1 - i).Set(a)
		}
	}
}

func stateGenesis(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
	all, err := exportAll(e, ctx)
	if err != nil {
		fail("export-fails", "the state cannot be exported: %v", err)
		return
	}
	cdc := e.App.AppCodec()
	for _, mod := range sortedKeys(genesisOf) {
		bz := all[mod]
		if err, p := e.validateGenesis(mod, bz); err != nil || p != "" {
			fail("export-refused", "the genesis of %s exported from this state is refused: %v %s", mod, err, p)
			continue
		}
		fresh := func() (proto.Message, reflect.Value) {
			m := genesisOf[mod]()
			must(cdc.UnmarshalJSON(bz, m))
			return m, reflect.ValueOf(m).Elem()
		}
		m, v := fresh()
		permuted(mod, v)
		if err, p := e.validateGenesis(mod, cdc.MustMarshalJSON(m)); err != nil || p != "" {
			fail("order", "the genesis of %s is refused when its lists are in another order: %v %s", mod, err, p)
		}
		_, v = fresh()
		for _, c := range contradictions(mod, v) {
			m, v := fresh()
			c.f(v)
			err, p := e.validateGenesis(mod, cdc.MustMarshalJSON(m))
			switch {
			case p != "":
				fail("genesis-panic", "the check of the genesis of %s panics when %s: %s", mod, c.what, p)
			case err == nil:
				fail("genesis-accepted", "the genesis of %s is accepted although %s", mod, c.what)
			}
		}
	}
}

// genesisParams: all parameter values of all modules in genesis files.
func genesisParams() *Extra {
	type c struct {
		mod, f string
		v      pval
	}
	var l []c
	for _, mod := range sortedKeys(paramFields) {
		for _, f := range sortedKeys(paramFields[mod]) {
			for _, v := range paramVals(mod, f) {
				l = append(l, c{mod, f, v})
			}
		}
	}
	sc := adminBase()
	return &Extra{Name: "genesis-parameters", Note: "every value of every parameter of every module in a genesis file",
		N: func(string) int { return len(l) },
		Run: func(tier string, i int, fail Fail) (int, int) {
			e, _ := extraEnv(sc)
			a := e.App
			x := l[i]
			gs := a.DefaultGenesis()
			var g map[string]json.RawMessage
			var pr map[string]json.RawMessage
			must(json.Unmarshal(gs[x.mod], &g))
			must(json.Unmarshal(g["params"], &pr))
			if err, p := e.validateGenesis(x.mod, gs[x.mod]); err != nil || p != "" {
				fail("default-refused", "the default genesis of %s is refused: %v %s", x.mod, err, p)
			}
			pr[x.f] = json.RawMessage(x.v.raw)
			g["params"], _ = json.Marshal(pr)
			bz, _ := json.Marshal(g)
			err, p := e.validateGenesis(x.mod, bz)
			if p != "" || (err == nil) != x.v.ok {
				fail("genesis-parameters", "genesis of %s with %s = %s: %v %s", x.mod, x.f, x.v.raw, err, p)
			}
			return 1, 1
		}}
}

func buildGenesis() {
	_, _, sl, unb, redel := delegationScenarios()
	register(&Property{ID: "X07", States: []StateRule{stateGenesis}, Extra: []*Extra{genesisParams()},
		Scenarios: []*Scenario{mixedWorld("mixed", 1, 2), deep(sl[0], 3, 4), deep(unb[0], 3, 5), deep(redel[0], 3, 4), deep(poolLife(4, 5), 2, 3), deep(membershipWorld(4, 5), 3, 4), deep(delaysWorld(4, 6), 3, 5),
			deep(bundleMachine(), 3, 4), deep(fundersFlow(3, 4), 3, 4), deep(teamWorld("team-claims", 3, 4, 0), 3, 4)}})
}
