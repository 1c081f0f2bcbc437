package main

// The public queries, addressed by their service paths.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"

	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/gogoproto/proto"

	querytypes "github.com/KYVENetwork/chain/x/query/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

// query sends one request to the query router.
func (e *Env) query(ctx sdk.Context, path string, req, resp proto.Message) (err error) {
	h := e.App.GRPCQueryRouter().Route(path)
	if h == nil {
		return fmt.Errorf("no such query")
	}
	bz, err := proto.Marshal(req)
	if err != nil {
		return err
	}
	c, _ := quiet(ctx).CacheContext()
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("the query panics: %v", r)
		}
	}()
	r, err := h(c, &abci.RequestQuery{Data: bz, Path: path})
	if err != nil {
		return err
	}
	return proto.Unmarshal(r.Value, resp)
}

const (
	qPool  = "/kyve.query.v1beta1.QueryPool/"
	qStak  = "/kyve.query.v1beta1.QueryStakers/"
	qDel   = "/kyve.query.v1beta1.QueryDelegation/"
	qAcc   = "/kyve.query.v1beta1.QueryAccount/"
	qBun   = "/kyve.query.v1beta1.QueryBundles/"
	qFun   = "/kyve.query.v1beta1.QueryFunders/"
	qPar   = "/kyve.query.v1beta1.QueryParams/"
	qTeam  = "/kyve.team.v1beta1.Query/"
	noUser = "nobody"
)

type namedQuery struct {
	name string
	path string
	req  proto.Message
	resp proto.Message
}

// participants of a state: every address which plays a part in the protocol
// (sorted by label so that the order does not depend on the addresses).
func (s *Snap) participants() []string {
	m := map[string]bool{acc(noUser): true}
	for a := range s.Stakers {
		m[a] = true
	}
	for k := range s.Del {
		m[k.D] = true
		m[k.S] = true
	}
	for _, f := range s.FundersG.FunderList {
		m[f.Address] = true
	}
	for _, u := range s.DelG.UndelegationQueueEntryList {
		m[u.Delegator] = true
		m[u.Staker] = true
	}
	for _, r := range s.DelG.RedelegationCooldownList {
		m[r.Address] = true
	}
	var l []string
	for a := range m {
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool { return lab(l[i]) < lab(l[j]) })
	return l
}

// allQueries lists one instance of every query for every participant and pool.
func (s *Snap) allQueries() (l []namedQuery) {
	add := func(name, path string, req, resp proto.Message) { l = append(l, namedQuery{name, path, req, resp}) }
	add("Params", qPar+"Params", &querytypes.QueryParamsRequest{}, &querytypes.QueryParamsResponse{})
	add("Pools", qPool+"Pools", &querytypes.QueryPoolsRequest{}, &querytypes.QueryPoolsResponse{})
	add("Pools(disabled)", qPool+"Pools", &querytypes.QueryPoolsRequest{Disabled: true}, &querytypes.QueryPoolsResponse{})
	for _, st := range []querytypes.StakerStatus{querytypes.STAKER_STATUS_UNSPECIFIED, querytypes.STAKER_STATUS_ACTIVE, querytypes.STAKER_STATUS_INACTIVE} {
		add("Stakers("+st.String()+")", qStak+"Stakers", &querytypes.QueryStakersRequest{Status: st}, &querytypes.QueryStakersResponse{})
	}
	add("StakersByPoolCount", qStak+"StakersByPoolCount", &querytypes.QueryStakersByPoolCountRequest{}, &querytypes.QueryStakersByPoolCountResponse{})
	add("Funders", qFun+"Funders", &querytypes.QueryFundersRequest{}, &querytypes.QueryFundersResponse{})
	people := s.participants()
	for _, p := range poolsAsked(s) {
		n := fmt.Sprintf("(pool%d", p)
		add("Pool"+n+")", qPool+"Pool", &querytypes.QueryPoolRequest{Id: p}, &querytypes.QueryPoolResponse{})
		add("StakersByPool"+n+")", qStak+"StakersByPool", &querytypes.QueryStakersByPoolRequest{PoolId: p}, &querytypes.QueryStakersByPoolResponse{})
		add("CurrentVoteStatus"+n+")", qBun+"CurrentVoteStatus", &querytypes.QueryCurrentVoteStatusRequest{PoolId: p}, &querytypes.QueryCurrentVoteStatusResponse{})
		add("FundingsByPool"+n+")", qFun+"FundingsByPool", &querytypes.QueryFundingsByPoolRequest{PoolId: p}, &querytypes.QueryFundingsByPoolResponse{})
		add("FinalizedBundles"+n+")", qBun+"FinalizedBundlesQuery", &querytypes.QueryFinalizedBundlesRequest{PoolId: p}, &querytypes.QueryFinalizedBundlesResponse{})
		for id := 0; id <= len(s.Fin[p]); id++ {
			add(fmt.Sprintf("FinalizedBundle%s,%d)", n, id), qBun+"FinalizedBundleQuery", &querytypes.QueryFinalizedBundleRequest{PoolId: p, Id: uint64(id)}, &querytypes.QueryFinalizedBundleResponse{})
		}
		for _, i := range s.indexProbes(p) {
			add(fmt.Sprintf("FinalizedBundles%s,index %d)", n, i), qBun+"FinalizedBundlesQuery", &querytypes.QueryFinalizedBundlesRequest{PoolId: p, Index: strconv.FormatUint(i, 10)}, &querytypes.QueryFinalizedBundlesResponse{})
		}
		for _, a := range people {
			if _, ok := s.Stakers[a]; !ok && a != acc(noUser) {
				continue
			}
			v := s.Val[PS{p, a}].Valaddress
			add("CanValidate"+n+","+lab(a)+")", qBun+"CanValidate", &querytypes.QueryCanValidateRequest{PoolId: p, Valaddress: v}, &querytypes.QueryCanValidateResponse{})
			add("CanPropose"+n+","+lab(a)+")", qBun+"CanPropose", &querytypes.QueryCanProposeRequest{PoolId: p, Staker: a, Proposer: v, FromIndex: s.Pools[p].CurrentIndex + s.Prop[p].BundleSize}, &querytypes.QueryCanProposeResponse{})
			add("CanVote"+n+","+lab(a)+")", qBun+"CanVote", &querytypes.QueryCanVoteRequest{PoolId: p, Staker: a, Voter: v, StorageId: s.Prop[p].StorageId}, &querytypes.QueryCanVoteResponse{})
		}
	}
	for _, a := range people {
		n := "(" + lab(a) + ")"
		add("AccountAssets"+n, qAcc+"AccountAssets", &querytypes.QueryAccountAssetsRequest{Address: a}, &querytypes.QueryAccountAssetsResponse{})
		add("AccountDelegationUnbondings"+n, qAcc+"AccountDelegationUnbondings", &querytypes.QueryAccountDelegationUnbondingsRequest{Address: a}, &querytypes.QueryAccountDelegationUnbondingsResponse{})
		add("AccountFundedList"+n, qAcc+"AccountFundedList", &querytypes.QueryAccountFundedListRequest{Address: a}, &querytypes.QueryAccountFundedListResponse{})
		add("AccountRedelegation"+n, qAcc+"AccountRedelegation", &querytypes.QueryAccountRedelegationRequest{Address: a}, &querytypes.QueryAccountRedelegationResponse{})
		add("Staker"+n, qStak+"Staker", &querytypes.QueryStakerRequest{Address: a}, &querytypes.QueryStakerResponse{})
		add("DelegatorsByStaker"+n, qDel+"DelegatorsByStaker", &querytypes.QueryDelegatorsByStakerRequest{Staker: a}, &querytypes.QueryDelegatorsByStakerResponse{})
		add("StakersByDelegator"+n, qDel+"StakersByDelegator", &querytypes.QueryStakersByDelegatorRequest{Delegator: a}, &querytypes.QueryStakersByDelegatorResponse{})
		add("Funder"+n, qFun+"Funder", &querytypes.QueryFunderRequest{Address: a}, &querytypes.QueryFunderResponse{})
		add("FundingsByFunder"+n, qFun+"FundingsByFunder", &querytypes.QueryFundingsByFunderRequest{Address: a}, &querytypes.QueryFundingsByFunderResponse{})
	}
	for k := range s.Stakers {
		for _, d := range people {
			add("Delegator("+lab(d)+"@"+lab(k)+")", qDel+"Delegator", &querytypes.QueryDelegatorRequest{Staker: k, Delegator: d}, &querytypes.QueryDelegatorResponse{})
		}
	}
	add("TeamInfo", qTeam+"TeamInfo", &teamtypes.QueryTeamInfoRequest{}, &teamtypes.QueryTeamInfoResponse{})
	add("TeamVestingAccounts", qTeam+"TeamVestingAccounts", &teamtypes.QueryTeamVestingAccountsRequest{}, &teamtypes.QueryTeamVestingAccountsResponse{})
	for id := uint64(0); id <= uint64(len(s.TeamG.AccountList)); id++ {
		add(fmt.Sprintf("TeamVestingAccount(%d)", id), qTeam+"TeamVestingAccount", &teamtypes.QueryTeamVestingAccountRequest{Id: id}, &teamtypes.QueryTeamVestingAccountResponse{})
		add(fmt.Sprintf("TeamVestingStatus(%d)", id), qTeam+"TeamVestingStatus", &teamtypes.QueryTeamVestingStatusRequest{Id: id}, &teamtypes.QueryTeamVestingStatusResponse{})
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].name < l[j].name })
	return
}

// indexProbes: the borders of every finalized bundle of a pool
func (s *Snap) indexProbes(p uint64) []uint64 {
	m := map[uint64]bool{0: true}
	for _, f := range s.Fin[p] {
		m[f.FromIndex], m[f.ToIndex] = true, true
		if f.ToIndex > 0 {
			m[f.ToIndex-1] = true
		}
	}
	var l []uint64
	for i := range m {
		l = append(l, i)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// answers lists the answer to every query.
func (e *Env) answers(ctx sdk.Context, s *Snap) (l []string) {
	for _, q := range s.allQueries() {
		if err := e.query(ctx, q.path, q.req, q.resp); err != nil {
			l = append(l, "query "+q.name+" -> error "+err.Error())
			continue
		}
		bz, _ := json.Marshal(q.resp)
		l = append(l, "query "+q.name+" -> "+string(bz))
	}
	return
}

// contents lists the protocol state: exported genesis of every module, balances,
// stake and outstanding rewards.
func (e *Env) contents(s *Snap) (l []string) {
	mod := func(name string, g any) {
		bz, err := json.Marshal(g)
		if err != nil {
			l = append(l, name+": "+err.Error())
			return
		}
		var m map[string]json.RawMessage
		_ = json.Unmarshal(bz, &m)
		for _, k := range sortedKeys(m) {
			var list []json.RawMessage
			if err := json.Unmarshal(m[k], &list); err == nil {
				for i, x := range list {
					l = append(l, fmt.Sprintf("%s.%s[%d] %s", name, k, i, x))
				}
				l = append(l, fmt.Sprintf("%s.%s has %d entries", name, k, len(list)))
			} else if string(m[k]) != "null" {
				l = append(l, fmt.Sprintf("%s.%s %s", name, k, m[k]))
			}
		}
	}
	mod("pool", s.PoolG)
	mod("stakers", s.StakersG)
	mod("delegation", s.DelG)
	mod("bundles", s.BundlesG)
	mod("funders", s.FundersG)
	mod("team", s.TeamG)
	mod("global", &s.Global)
	for _, a := range sortedKeys(s.Bal) {
		l = append(l, "balance "+lab(a)+" "+s.Bal[a].String())
	}
	l = append(l, "supply "+s.Supply.String(), "community pool "+s.CP.String(), fmt.Sprint("halt planned ", s.HaltPlan))
	for _, a := range sortedKeys(s.DelTotal) {
		l = append(l, fmt.Sprintf("stake of %s %d", lab(a), s.DelTotal[a]))
	}
	var ds []string
	for k, d := range s.Del {
		ds = append(ds, fmt.Sprintf("delegation of %s at %s: %d, rewards %s", lab(k.D), lab(k.S), d.Amt, d.Rew))
	}
	sort.Strings(ds)
	return append(l, ds...)
}
