package main

// X04: what the public queries answer, against what the state says.
//
// Every answer is computed a second time from the observed state (exported
// genesis and balances) by the reference below; can-propose, can-vote,
// can-validate and outstanding rewards are compared with what the action itself
// does on a fork of the state.  Every list is walked page by page.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	"github.com/cosmos/gogoproto/proto"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	querytypes "github.com/KYVENetwork/chain/x/query/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

type qref struct {
	e    *Env
	ctx  sdk.Context
	s    *Snap
	b    *bsim
	fail Fail
	n    int
}

func js(v any) string {
	bz, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(bz)
}

// same compares two messages by their wire form.
func same(a, b proto.Message) bool {
	x, e1 := proto.Marshal(a)
	y, e2 := proto.Marshal(b)
	return e1 == nil && e2 == nil && bytes.Equal(x, y)
}

func (q *qref) ask(rule, name, path string, req, got, want proto.Message) bool {
	q.n++
	err := q.e.query(q.ctx, path, req, got)
	if want == nil {
		if err == nil || strings.Contains(err.Error(), "panics") {
			q.fail(rule, "%s: answered %s (%v) although there is no such thing", name, js(got), err)
		}
		return false
	}
	if err != nil {
		q.fail(rule, "%s: error %v instead of %s", name, err, js(want))
		return false
	}
	return true
}

func (q *qref) cmp(rule, name string, got, want proto.Message) {
	if !same(got, want) {
		q.fail(rule, "%s: answer %s, but the state says %s", name, js(got), js(want))
	}
}

func (q *qref) status(p pooltypes.Pool) pooltypes.PoolStatus {
	switch q.b.canRun(p.Id) {
	case "upgrading":
		return pooltypes.POOL_STATUS_UPGRADING
	case "disabled":
		return pooltypes.POOL_STATUS_DISABLED
	case "end key reached":
		return pooltypes.POOL_STATUS_END_KEY_REACHED
	case "min delegation":
		return pooltypes.POOL_STATUS_NOT_ENOUGH_DELEGATION
	case "voting power":
		return pooltypes.POOL_STATUS_VOTING_POWER_TOO_HIGH
	}
	if q.funds(p.Id).IsZero() {
		return pooltypes.POOL_STATUS_NO_FUNDS
	}
	return pooltypes.POOL_STATUS_ACTIVE
}

func (q *qref) funds(p uint64) (c sdk.Coins) {
	for k, f := range q.s.Fund {
		if k.P == p {
			c = c.Add(f.Amounts...)
		}
	}
	return
}

func (q *qref) basic(id uint64) *querytypes.BasicPool {
	p := q.s.Pools[id]
	tot, _ := q.s.PoolStake(id)
	return &querytypes.BasicPool{Id: id, Name: p.Name, Runtime: p.Runtime, Logo: p.Logo, InflationShareWeight: p.InflationShareWeight, UploadInterval: p.UploadInterval,
		TotalFunds: q.funds(id), TotalDelegation: tot, Status: q.status(p)}
}

func (q *qref) staker(a string) *querytypes.FullStaker {
	s := q.s
	x := s.Stakers[a]
	m := &querytypes.StakerMetadata{Commission: x.Commission, Moniker: x.Moniker, Website: x.Website, Identity: x.Identity, SecurityContact: x.SecurityContact, Details: x.Details, CommissionRewards: x.CommissionRewards}
	for _, c := range s.StakersG.CommissionChangeEntries {
		if c.Staker == a {
			m.PendingCommissionChange = &querytypes.CommissionChangeEntry{Commission: c.Commission, CreationDate: c.CreationDate}
		}
	}
	f := &querytypes.FullStaker{Address: a, Metadata: m, TotalDelegation: s.DelTotal[a], SelfDelegation: s.Del[SD{a, a}].Amt, DelegatorCount: uint64(len(s.Delegators(a)))}
	for _, u := range s.DelG.UndelegationQueueEntryList {
		if u.Staker == a && u.Delegator == a {
			f.SelfDelegationUnbonding += u.Amount
		}
	}
	for _, p := range s.PoolsOf(a) {
		v := s.Val[PS{p, a}]
		f.Pools = append(f.Pools, &querytypes.PoolMembership{Pool: q.basic(p), Points: v.Points, IsLeaving: v.IsLeaving, Valaddress: v.Valaddress, Balance: s.B(v.Valaddress, DENOM)})
	}
	return f
}

func sortMembership(l []*querytypes.PoolMembership) {
	sort.Slice(l, func(i, j int) bool { return l[i].Pool.Id < l[j].Pool.Id })
}

func (q *qref) cmpStaker(rule, name string, got *querytypes.FullStaker, a string) {
	if got == nil {
		q.fail(rule, "%s: no validator in the answer", name)
		return
	}
	sortMembership(got.Pools)
	w := q.staker(a)
	sortMembership(w.Pools)
	q.cmp(rule, name, got, w)
}

// fundings are compared as sets, ordered by funder and pool
func sortFundings(l []*funderstypes.Funding) {
	sort.Slice(l, func(i, j int) bool {
		if l[i].PoolId != l[j].PoolId {
			return l[i].PoolId < l[j].PoolId
		}
		return l[i].FunderAddress < l[j].FunderAddress
	})
}

func (q *qref) pool(id uint64) querytypes.PoolResponse {
	s := q.s
	p := s.Pools[id]
	r := querytypes.PoolResponse{Id: id, Data: &p, Status: q.status(p), Account: poolAcc(id), AccountBalance: s.B(poolAcc(id), DENOM)}
	pr := s.Prop[id]
	pr.PoolId = id // a pool without a proposal has an empty one
	r.BundleProposal = &pr
	r.Stakers = append([]string{}, s.Members(id)...)
	sort.Strings(r.Stakers)
	r.TotalDelegation, _ = s.PoolStake(id)
	for _, m := range s.Members(id) {
		r.TotalSelfDelegation += s.Del[SD{m, m}].Amt
	}
	for k, f := range s.Fund {
		if k.P == id {
			f := f
			r.Fundings = append(r.Fundings, &f)
		}
	}
	sortFundings(r.Fundings)
	return r
}

func (q *qref) score(amounts sdk.Coins) (n uint64) {
	for _, c := range amounts {
		w := q.s.Whitelist(c.Denom)
		if w == nil {
			continue
		}
		// amount * weight / 10^decimals, weights have 18 decimals
		x := new(big.Int).Mul(c.Amount.BigInt(), w.CoinWeight.BigInt())
		d := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(w.CoinDecimals)+18), nil)
		n += x.Div(x, d).Uint64()
	}
	return
}

func (q *qref) funding(f funderstypes.Funding) querytypes.Funding {
	return querytypes.Funding{FunderAddress: f.FunderAddress, PoolId: f.PoolId, Amounts: f.Amounts, AmountsPerBundle: f.AmountsPerBundle, TotalFunded: f.TotalFunded, Score: q.score(f.Amounts)}
}

func sortQFundings(l []querytypes.Funding) []querytypes.Funding {
	sort.Slice(l, func(i, j int) bool {
		if l[i].PoolId != l[j].PoolId {
			return l[i].PoolId < l[j].PoolId
		}
		return l[i].FunderAddress < l[j].FunderAddress
	})
	return l
}

var fundingStatuses = []querytypes.FundingStatus{querytypes.FUNDING_STATUS_UNSPECIFIED, querytypes.FUNDING_STATUS_ACTIVE, querytypes.FUNDING_STATUS_INACTIVE}

func (q *qref) fundings(keep func(f funderstypes.Funding) bool, st querytypes.FundingStatus) (l []querytypes.Funding) {
	for _, f := range q.s.Fund {
		if keep(f) && (st == querytypes.FUNDING_STATUS_UNSPECIFIED || (st == querytypes.FUNDING_STATUS_ACTIVE) == !f.Amounts.IsZero()) {
			l = append(l, q.funding(f))
		}
	}
	return sortQFundings(l)
}

func (q *qref) funder(a string) *querytypes.Funder {
	var x funderstypes.Funder
	for _, f := range q.s.FundersG.FunderList {
		if f.Address == a {
			x = f
		}
	}
	st := &querytypes.FundingStats{}
	for k, f := range q.s.Fund {
		if k.F != a {
			continue
		}
		if !f.Amounts.IsZero() {
			st.TotalAmountPerBundle = st.TotalAmountPerBundle.Add(f.AmountsPerBundle...)
		}
		st.TotalUsedFunds = st.TotalUsedFunds.Add(f.TotalFunded...)
		st.TotalAllocatedFunds = st.TotalAllocatedFunds.Add(f.Amounts...)
		st.Score += q.score(f.Amounts)
		st.PoolsFunded = append(st.PoolsFunded, k.P)
	}
	sort.Slice(st.PoolsFunded, func(i, j int) bool { return st.PoolsFunded[i] < st.PoolsFunded[j] })
	return &querytypes.Funder{Address: x.Address, Moniker: x.Moniker, Identity: x.Identity, Website: x.Website, Contact: x.Contact, Description: x.Description, Stats: st}
}

func (q *qref) bundle(f bundlestypes.FinalizedBundle) querytypes.FinalizedBundle {
	h := math.NewIntFromUint64(f.FinalizedAt.Height)
	r := querytypes.FinalizedBundle{PoolId: f.PoolId, Id: f.Id, StorageId: f.StorageId, Uploader: f.Uploader, FromIndex: f.FromIndex, ToIndex: f.ToIndex, FromKey: f.FromKey, ToKey: f.ToKey,
		BundleSummary: f.BundleSummary, DataHash: f.DataHash, FinalizedAt: &querytypes.FinalizedAt{Height: &h, Timestamp: strconv.FormatUint(f.FinalizedAt.Timestamp, 10)},
		StorageProviderId: uint64(f.StorageProviderId), CompressionId: uint64(f.CompressionId), StakeSecurity: &querytypes.StakeSecurity{}}
	from := uint64(0)
	for _, v := range q.s.BundlesG.BundleVersionMap.Versions {
		if v.Version == 2 {
			from = v.Height
		}
	}
	if f.FinalizedAt.Height >= from && f.StakeSecurity != nil {
		v, t := math.NewIntFromUint64(f.StakeSecurity.ValidVotePower), math.NewIntFromUint64(f.StakeSecurity.TotalVotePower)
		r.StakeSecurity.ValidVotePower, r.StakeSecurity.TotalVotePower = &v, &t
	}
	return r
}

// the instant is compared, not its notation
func instant(a *querytypes.FinalizedAt) {
	if a == nil {
		return
	}
	if t, err := time.Parse(time.RFC3339, a.Timestamp); err == nil {
		a.Timestamp = strconv.FormatInt(t.Unix(), 10)
	}
}

// pages ---------------------------------------------------------------------------

type lister func(p *query.PageRequest) (items []string, res *query.PageResponse, err error)

// walk compares every way of walking a list with the complete list.
// keyed: the list hands out continuation keys and can be walked backwards.
func (q *qref) walk(name string, list lister, keyed bool, sizes ...uint64) {
	q.n++
	full, res, err := list(nil)
	if err != nil {
		q.fail("pages", "%s: %v", name, err)
		return
	}
	n := len(full)
	seen := map[string]bool{}
	for _, x := range full {
		if seen[x] {
			q.fail("pages", "%s: %s is listed twice", name, x)
		}
		seen[x] = true
	}
	if res != nil && res.Total != uint64(n) {
		q.fail("pages", "%s: total %d of a list with %d entries", name, res.Total, n)
	}
	rev := make([]string, n)
	for i, x := range full {
		rev[n-1-i] = x
	}
	dirs := []bool{false}
	if keyed {
		dirs = append(dirs, true)
	}
	if len(sizes) == 0 {
		sizes = []uint64{1, 2, 3}
		for _, off := range []uint64{1<<63 - 1, 1 << 63, 1<<64 - 1} {
			for _, back := range dirs {
				q.n++
				items, _, err := list(&query.PageRequest{Offset: off, Limit: 2, Reverse: back})
				if len(items) > 0 || err != nil && strings.Contains(err.Error(), "panics") {
					q.fail("pages", "%s: %v (%v) at offset %d of a list with %d entries (backwards: %v)", name, items, err, off, n, back)
				}
			}
		}
	}
	for _, l := range sizes {
		if l > uint64(n+1) {
			continue
		}
		for _, back := range dirs {
			want := full
			dir := "forwards"
			if back {
				want, dir = rev, "backwards"
			}
			var got []string
			bad := false
			// one page beyond the end as well
			for off := uint64(0); off <= uint64(n)+l; off += l {
				q.n++
				items, r, err := list(&query.PageRequest{Offset: off, Limit: l, CountTotal: true, Reverse: back})
				if err != nil {
					q.fail("pages", "%s: page of %d entries at offset %d %s: %v", name, l, off, dir, err)
					bad = true
					break
				}
				if r != nil && r.Total != uint64(n) {
					q.fail("pages", "%s: total %d of a list with %d entries (page of %d at offset %d %s)", name, r.Total, n, l, off, dir)
				}
				if len(items) > int(l) {
					q.fail("pages", "%s: %d entries on a page of %d (offset %d %s)", name, len(items), l, off, dir)
				}
				got = append(got, items...)
			}
			if !bad && strings.Join(got, "\n") != strings.Join(want, "\n") {
				q.fail("pages", "%s: the pages of %d entries by offset %s are %v, the complete list is %v", name, l, dir, got, want)
			}
			if !keyed {
				continue
			}
			got, bad = nil, false
			var key []byte
			for i := 0; i <= n+1; i++ {
				q.n++
				items, r, err := list(&query.PageRequest{Key: key, Limit: l, Reverse: back})
				if err != nil || r == nil {
					q.fail("pages", "%s: page of %d entries with key %x %s: %v", name, l, key, dir, err)
					bad = true
					break
				}
				got = append(got, items...)
				key = r.NextKey
				if len(key) == 0 {
					break
				}
			}
			if !bad && (len(key) != 0 || strings.Join(got, "\n") != strings.Join(want, "\n")) {
				q.fail("pages", "%s: the pages of %d entries by key %s are %v, the complete list is %v", name, l, dir, got, want)
			}
		}
	}
}

// the rule ------------------------------------------------------------------------

func stateQueries(e *Env, ctx sdk.Context, s *Snap, fail Fail) {
	seen := map[string]int{}
	q := &qref{e: e, ctx: ctx, s: s, b: newBsim(&Step{Pre: s}), fail: func(rule, format string, args ...any) {
		if seen[rule]++; seen[rule] <= 3 {
			fail(rule, format, args...)
		}
	}}
	q.params()
	q.pools()
	q.stakers()
	q.delegations()
	q.funders()
	q.bundles()
	q.team()
	q.actions()
}

func (q *qref) params() {
	s := q.s
	var got querytypes.QueryParamsResponse
	gp, err := q.e.App.GovKeeper.Params.Get(q.ctx)
	if err != nil {
		panic(err)
	}
	bp, dp, gl, sp, pp, fp := s.BundlesG.Params, s.DelG.Params, s.Global, s.StakersG.Params, s.PoolG.Params, s.FundersG.Params
	want := &querytypes.QueryParamsResponse{BundlesParams: &bp, DelegationParams: &dp, GlobalParams: &gl, GovParams: &gp, StakersParams: &sp, PoolParams: &pp, FundersParams: &fp}
	if q.ask("params", "Params", qPar+"Params", &querytypes.QueryParamsRequest{}, &got, want) {
		q.cmp("params", "Params", &got, want)
	}
}

func normPool(p *querytypes.PoolResponse) {
	if p.BundleProposal != nil {
		p.BundleProposal.PoolId = p.Id
	}
	sort.Strings(p.Stakers)
	sortFundings(p.Fundings)
}

func (q *qref) pools() {
	s := q.s
	ids := poolIdsOf(s)
	for _, id := range append(append([]uint64{}, ids...), s.PoolG.PoolCount) {
		n := fmt.Sprintf("Pool(%d)", id)
		var got querytypes.QueryPoolResponse
		req := &querytypes.QueryPoolRequest{Id: id}
		if _, ok := s.Pools[id]; !ok {
			q.ask("pool", n, qPool+"Pool", req, &got, nil)
			continue
		}
		want := &querytypes.QueryPoolResponse{Pool: q.pool(id)}
		if q.ask("pool", n, qPool+"Pool", req, &got, want) {
			normPool(&got.Pool)
			q.cmp("pool", n, &got, want)
		}
		var sb querytypes.QueryStakersByPoolResponse
		n = fmt.Sprintf("StakersByPool(%d)", id)
		if q.ask("membership", n, qStak+"StakersByPool", &querytypes.QueryStakersByPoolRequest{PoolId: id}, &sb, &sb) {
			var l []string
			for _, x := range sb.Stakers {
				if x.Valaccount == nil || x.Staker == nil {
					q.fail("membership", "%s: an entry without a validator or a protocol account", n)
					continue
				}
				l = append(l, x.Staker.Address)
				v := s.Val[PS{id, x.Staker.Address}]
				q.cmp("membership", n+" "+lab(x.Staker.Address), x.Valaccount, &v)
				q.cmpStaker("membership", n, x.Staker, x.Staker.Address)
			}
			q.set("membership", n, l, s.Members(id))
		}
	}
	for _, st := range []uint64{s.PoolG.PoolCount, s.PoolG.PoolCount + 7} {
		var got querytypes.QueryStakersByPoolResponse
		q.ask("membership", fmt.Sprintf("StakersByPool(%d)", st), qStak+"StakersByPool", &querytypes.QueryStakersByPoolRequest{PoolId: st}, &got, nil)
	}
	// filters: every value which occurs, in every combination
	searches, runtimes, provs := map[string]bool{"": true}, map[string]bool{"": true, "no such runtime": true}, map[uint32]bool{0: true, 99: true}
	for _, p := range s.Pools {
		if len(p.Name) > 1 {
			searches[strings.ToUpper(p.Name[1:])] = true
		}
		runtimes[p.Runtime] = true
		provs[p.CurrentStorageProviderId] = true
	}
	for se := range searches {
		for ru := range runtimes {
			for pv := range provs {
				for _, dis := range []bool{false, true} {
					var want []string
					for _, id := range ids {
						p := s.Pools[id]
						if strings.Contains(strings.ToLower(p.Name), strings.ToLower(se)) && (ru == "" || ru == p.Runtime) && (pv == 0 || pv == p.CurrentStorageProviderId) && dis == p.Disabled {
							want = append(want, fmt.Sprint(id))
						}
					}
					n := fmt.Sprintf("Pools(search %q runtime %q provider %d disabled %v)", se, ru, pv, dis)
					list := func(pg *query.PageRequest) (l []string, r *query.PageResponse, err error) {
						var got querytypes.QueryPoolsResponse
						err = q.e.query(q.ctx, qPool+"Pools", &querytypes.QueryPoolsRequest{Pagination: pg, Search: se, Runtime: ru, Disabled: dis, StorageProviderId: pv}, &got)
						for i := range got.Pools {
							l = append(l, fmt.Sprint(got.Pools[i].Id))
							if pg == nil && se == "" && ru == "" && pv == 0 {
								if _, ok := s.Pools[got.Pools[i].Id]; ok {
									w := q.pool(got.Pools[i].Id)
									normPool(&got.Pools[i])
									q.cmp("pool", n, &got.Pools[i], &w)
								}
							}
						}
						return l, got.Pagination, err
					}
					got, _, err := list(nil)
					q.n++
					if err != nil {
						q.fail("pool-list", "%s: %v", n, err)
						continue
					}
					q.set("pool-list", n, got, want)
					if se == "" && ru == "" && pv == 0 {
						q.walk(n, list, true)
					} else if len(want) > 1 && (se == "" || ru == "" && pv == 0) {
						q.walk(n, list, true, 1)
					}
				}
			}
		}
	}
}

func labList(l []string) []string {
	var r []string
	for _, x := range l {
		if y := lab(x); y != "" {
			x = y
		}
		r = append(r, x)
	}
	return r
}

// set compares two lists as sets without repetitions.
func (q *qref) set(rule, name string, got, want []string) {
	a, b := append([]string{}, got...), append([]string{}, want...)
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		q.fail(rule, "%s: answer %v, but the state says %v", name, labList(a), labList(b))
	}
}

func (q *qref) stakers() {
	s := q.s
	all := sortedKeys(s.Stakers)
	for _, a := range append(append([]string{}, all...), acc(noUser)) {
		var got querytypes.QueryStakerResponse
		n := "Staker(" + lab(a) + ")"
		req := &querytypes.QueryStakerRequest{Address: a}
		if _, ok := s.Stakers[a]; !ok {
			q.ask("staker", n, qStak+"Staker", req, &got, nil)
			continue
		}
		if q.ask("staker", n, qStak+"Staker", req, &got, &got) {
			q.cmpStaker("staker", n, &got.Staker, a)
		}
	}
	searches := map[string]bool{"": true, "no such": true}
	for i, a := range all {
		if m := s.Stakers[a].Moniker; len(m) > 1 {
			searches[strings.ToUpper(m[1:])] = true
		}
		if i == 0 {
			searches[strings.ToUpper(a[20:])] = true
		}
	}
	for _, st := range []querytypes.StakerStatus{querytypes.STAKER_STATUS_UNSPECIFIED, querytypes.STAKER_STATUS_ACTIVE, querytypes.STAKER_STATUS_INACTIVE} {
		for se := range searches {
			var want []string
			for _, a := range all {
				active := len(s.PoolsOf(a)) > 0
				if st == querytypes.STAKER_STATUS_ACTIVE && !active || st == querytypes.STAKER_STATUS_INACTIVE && active {
					continue
				}
				x := strings.ToLower(se)
				if strings.Contains(a, x) || strings.Contains(strings.ToLower(s.Stakers[a].Moniker), x) {
					want = append(want, a)
				}
			}
			n := fmt.Sprintf("Stakers(%s, search %q)", st, se)
			list := func(pg *query.PageRequest) (l []string, r *query.PageResponse, err error) {
				var got querytypes.QueryStakersResponse
				err = q.e.query(q.ctx, qStak+"Stakers", &querytypes.QueryStakersRequest{Pagination: pg, Status: st, Search: se}, &got)
				for i := range got.Stakers {
					l = append(l, got.Stakers[i].Address)
					if pg == nil && se == "" {
						q.cmpStaker("staker", n, &got.Stakers[i], got.Stakers[i].Address)
					}
				}
				return l, got.Pagination, err
			}
			got, _, err := list(nil)
			q.n++
			if err != nil {
				q.fail("staker-list", "%s: %v", n, err)
				continue
			}
			q.set("staker-list", n, got, want)
			for i := 1; i < len(got); i++ {
				if s.DelTotal[got[i-1]] < s.DelTotal[got[i]] {
					q.fail("staker-order", "%s: %s (%d) is listed before %s (%d)", n, lab(got[i-1]), s.DelTotal[got[i-1]], lab(got[i]), s.DelTotal[got[i]])
				}
			}
			if se == "" {
				q.walk(n, list, st != querytypes.STAKER_STATUS_ACTIVE)
			} else if len(want) > 1 {
				q.walk(n, list, st != querytypes.STAKER_STATUS_ACTIVE, 1)
			}
		}
	}
	list := func(pg *query.PageRequest) (l []string, r *query.PageResponse, err error) {
		var got querytypes.QueryStakersByPoolCountResponse
		err = q.e.query(q.ctx, qStak+"StakersByPoolCount", &querytypes.QueryStakersByPoolCountRequest{Pagination: pg}, &got)
		for i := range got.Stakers {
			l = append(l, got.Stakers[i].Address)
			if pg == nil {
				q.cmpStaker("staker", "StakersByPoolCount", &got.Stakers[i], got.Stakers[i].Address)
			}
		}
		return l, got.Pagination, err
	}
	got, _, err := list(nil)
	q.n++
	if err != nil {
		q.fail("staker-list", "StakersByPoolCount: %v", err)
		return
	}
	var want []string
	for _, a := range all {
		if len(s.PoolsOf(a)) > 0 {
			want = append(want, a)
		}
	}
	q.set("staker-list", "StakersByPoolCount", got, want)
	for i := 1; i < len(got); i++ {
		x, y := got[i-1], got[i]
		if px, py := len(s.PoolsOf(x)), len(s.PoolsOf(y)); px < py || px == py && s.DelTotal[x] < s.DelTotal[y] {
			q.fail("staker-order", "StakersByPoolCount: %s (%d pools, stake %d) is listed before %s (%d pools, stake %d)", lab(x), px, s.DelTotal[x], lab(y), py, s.DelTotal[y])
		}
	}
	q.walk("StakersByPoolCount", list, false)
}

// payable is what withdrawing the rewards of a delegation pays.
func (q *qref) payable(st, d string) (sdk.Coins, error) {
	c, _ := quiet(q.ctx).CacheContext()
	a := sdk.MustAccAddressFromBech32(d)
	before := q.e.App.BankKeeper.GetAllBalances(c, a)
	if err := q.e.execMsg(c, &delegationtypes.MsgWithdrawRewards{Creator: d, Staker: st}); err != nil {
		return nil, err
	}
	return q.e.App.BankKeeper.GetAllBalances(c, a).Sub(before...), nil
}

func (q *qref) delegations() {
	s := q.s
	people := s.participants()
	pay := map[SD]sdk.Coins{}
	for k := range s.Del {
		c, err := q.payable(k.S, k.D)
		if err != nil {
			q.fail("rewards", "withdrawing the rewards of %s at %s: %v", lab(k.D), lab(k.S), err)
			c = s.Del[k].Rew
		}
		pay[k] = c
	}
	one := func(st, d string) *querytypes.StakerDelegatorResponse {
		return &querytypes.StakerDelegatorResponse{Delegator: d, Staker: st, CurrentRewards: pay[SD{st, d}], DelegationAmount: s.Del[SD{st, d}].Amt}
	}
	for _, st := range people {
		for _, d := range people {
			if _, ok := s.Stakers[st]; !ok && st != acc(noUser) {
				continue
			}
			n := "Delegator(" + lab(d) + " at " + lab(st) + ")"
			var got querytypes.QueryDelegatorResponse
			want := &querytypes.QueryDelegatorResponse{Delegator: one(st, d)}
			if q.ask("delegation", n, qDel+"Delegator", &querytypes.QueryDelegatorRequest{Staker: st, Delegator: d}, &got, want) {
				q.cmp("delegation", n, &got, want)
			}
		}
		st := st
		n := "DelegatorsByStaker(" + lab(st) + ")"
		list := func(pg *query.PageRequest) (l []string, r *query.PageResponse, err error) {
			var got querytypes.QueryDelegatorsByStakerResponse
			err = q.e.query(q.ctx, qDel+"DelegatorsByStaker", &querytypes.QueryDelegatorsByStakerRequest{Staker: st, Pagination: pg}, &got)
			for i := range got.Delegators {
				l = append(l, got.Delegators[i].Delegator)
				q.cmp("delegation", n, &got.Delegators[i], one(st, got.Delegators[i].Delegator))
			}
			if err == nil && (got.TotalDelegation != s.DelTotal[st] || got.TotalDelegatorCount != uint64(len(s.Delegators(st)))) {
				q.fail("delegation", "%s: total %d of %d delegators, but the state says %d of %d", n, got.TotalDelegation, got.TotalDelegatorCount, s.DelTotal[st], len(s.Delegators(st)))
			}
			return l, got.Pagination, err
		}
		got, _, _ := list(nil)
		q.set("delegation", n, got, s.Delegators(st))
		q.walk(n, list, true)
	}
	for _, d := range people {
		d := d
		var mine []string
		for k := range s.Del {
			if k.D == d {
				mine = append(mine, k.S)
			}
		}
		n := "StakersByDelegator(" + lab(d) + ")"
		list := func(pg *query.PageRequest) (l []string, r *query.PageResponse, err error) {
			var got querytypes.QueryStakersByDelegatorResponse
			err = q.e.query(q.ctx, qDel+"StakersByDelegator", &querytypes.QueryStakersByDelegatorRequest{Delegator: d, Pagination: pg}, &got)
			for i := range got.Stakers {
				x := got.Stakers[i]
				if x.Staker == nil {
					return nil, nil, fmt.Errorf("an entry without a validator")
				}
				l = append(l, x.Staker.Address)
				if pg == nil {
					q.cmpStaker("delegation", n, x.Staker, x.Staker.Address)
				}
				w := one(x.Staker.Address, d)
				q.cmp("delegation", n, &querytypes.StakerDelegatorResponse{Delegator: d, Staker: x.Staker.Address, CurrentRewards: x.CurrentRewards, DelegationAmount: x.DelegationAmount}, w)
			}
			return l, got.Pagination, err
		}
		got, _, _ := list(nil)
		q.set("delegation", n, got, mine)
		q.walk(n, list, true)

		// assets
		a := &querytypes.QueryAccountAssetsResponse{Balance: s.B(d, DENOM), ProtocolSelfDelegation: s.Del[SD{d, d}].Amt}
		for _, st := range mine {
			a.ProtocolDelegation += s.Del[SD{st, d}].Amt
			a.ProtocolRewards = a.ProtocolRewards.Add(pay[SD{st, d}]...)
		}
		var unb []string
		for _, u := range s.DelG.UndelegationQueueEntryList {
			if u.Delegator != d {
				continue
			}
			unb = append(unb, fmt.Sprintf("%d since %d of %s", u.Amount, u.CreationTime, u.Staker))
			a.ProtocolDelegationUnbonding += u.Amount
			if u.Staker == d {
				a.ProtocolSelfDelegationUnbonding += u.Amount
			}
		}
		var funded []*querytypes.Funded
		for k, f := range s.Fund {
			if k.F == d {
				a.ProtocolFunding = a.ProtocolFunding.Add(f.Amounts...)
				if !f.Amounts.IsZero() {
					funded = append(funded, &querytypes.Funded{Amounts: f.Amounts, Pool: q.basic(k.P)})
				}
			}
		}
		sort.Slice(funded, func(i, j int) bool { return funded[i].Pool.Id < funded[j].Pool.Id })
		n = "AccountAssets(" + lab(d) + ")"
		var ga querytypes.QueryAccountAssetsResponse
		if q.ask("assets", n, qAcc+"AccountAssets", &querytypes.QueryAccountAssetsRequest{Address: d}, &ga, a) {
			q.cmp("assets", n, &ga, a)
		}
		// unbondings: entries may repeat, so each is numbered
		n = "AccountDelegationUnbondings(" + lab(d) + ")"
		ulist := func(pg *query.PageRequest) (l []string, r *query.PageResponse, err error) {
			var got querytypes.QueryAccountDelegationUnbondingsResponse
			err = q.e.query(q.ctx, qAcc+"AccountDelegationUnbondings", &querytypes.QueryAccountDelegationUnbondingsRequest{Address: d, Pagination: pg}, &got)
			for i := range got.Unbondings {
				u := got.Unbondings[i]
				if u.Staker == nil {
					return nil, nil, fmt.Errorf("an entry without a validator")
				}
				if pg == nil {
					q.cmpStaker("unbondings", n, u.Staker, u.Staker.Address)
				}
				l = append(l, fmt.Sprintf("%d since %d of %s", u.Amount, u.CreationTime, u.Staker.Address))
			}
			return l, got.Pagination, err
		}
		got, _, err := ulist(nil)
		if err != nil {
			q.fail("unbondings", "%s: %v", n, err)
		}
		q.set("unbondings", n, got, unb)
		if distinct(unb) {
			q.walk(n, ulist, true)
		}
		// fundings of the account
		n = "AccountFundedList(" + lab(d) + ")"
		var gf querytypes.QueryAccountFundedListResponse
		wf := &querytypes.QueryAccountFundedListResponse{}
		for _, f := range funded {
			wf.Funded = append(wf.Funded, *f)
		}
		if q.ask("funded", n, qAcc+"AccountFundedList", &querytypes.QueryAccountFundedListRequest{Address: d}, &gf, wf) {
			sort.Slice(gf.Funded, func(i, j int) bool { return gf.Funded[i].Pool.Id < gf.Funded[j].Pool.Id })
			q.cmp("funded", n, &gf, wf)
		}
		// redelegations
		n = "AccountRedelegation(" + lab(d) + ")"
		var gr querytypes.QueryAccountRedelegationResponse
		wr := &querytypes.QueryAccountRedelegationResponse{}
		for _, t := range activeSpells(s, d, s.Time) {
			wr.RedelegationCooldownEntries = append(wr.RedelegationCooldownEntries, querytypes.RedelegationEntry{CreationDate: t, FinishDate: t + s.DelG.Params.RedelegationCooldown})
		}
		if used := uint64(len(wr.RedelegationCooldownEntries)); used < s.DelG.Params.RedelegationMaxAmount {
			wr.AvailableSlots = s.DelG.Params.RedelegationMaxAmount - used
		}
		if q.ask("redelegations", n, qAcc+"AccountRedelegation", &querytypes.QueryAccountRedelegationRequest{Address: d}, &gr, wr) {
			sort.Slice(gr.RedelegationCooldownEntries, func(i, j int) bool {
				return gr.RedelegationCooldownEntries[i].CreationDate < gr.RedelegationCooldownEntries[j].CreationDate
			})
			q.cmp("redelegations", n, &gr, wr)
		}
	}
}

func distinct(l []string) bool {
	m := map[string]bool{}
	for _, x := range l {
		if m[x] {
			return false
		}
		m[x] = true
	}
	return true
}

func (q *qref) funders() {
	s := q.s
	exists := map[string]bool{}
	var all []string
	for _, f := range s.FundersG.FunderList {
		exists[f.Address] = true
		all = append(all, f.Address)
	}
	norm := func(f *querytypes.Funder) {
		if f != nil && f.Stats != nil {
			l := f.Stats.PoolsFunded
			sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		}
	}
	searches := map[string]bool{"": true, "no such": true}
	for _, f := range s.FundersG.FunderList {
		if len(f.Moniker) > 1 {
			searches[strings.ToUpper(f.Moniker[1:])] = true
		}
	}
	for se := range searches {
		var want []string
		for _, f := range s.FundersG.FunderList {
			if strings.Contains(strings.ToLower(f.Moniker), strings.ToLower(se)) {
				want = append(want, f.Address)
			}
		}
		n := fmt.Sprintf("Funders(search %q)", se)
		list := func(pg *query.PageRequest) (l []string, r *query.PageResponse, err error) {
			var got querytypes.QueryFundersResponse
			err = q.e.query(q.ctx, qFun+"Funders", &querytypes.QueryFundersRequest{Pagination: pg, Search: se}, &got)
			for i := range got.Funders {
				l = append(l, got.Funders[i].Address)
				norm(&got.Funders[i])
				q.cmp("funder", n, &got.Funders[i], q.funder(got.Funders[i].Address))
			}
			return l, got.Pagination, err
		}
		got, _, err := list(nil)
		if err != nil {
			q.fail("funder", "%s: %v", n, err)
		}
		q.set("funder", n, got, want)
		if se == "" {
			q.walk(n, list, true)
		} else {
			q.walk(n, list, true, 1)
		}
	}
	flist := func(l []querytypes.Funding) *querytypes.QueryFundingsByPoolResponse {
		return &querytypes.QueryFundingsByPoolResponse{Fundings: sortQFundings(l)}
	}
	fname := func(f querytypes.Funding) string { return fmt.Sprintf("%s in pool %d", f.FunderAddress, f.PoolId) }
	for _, st := range fundingStatuses {
		for _, a := range append(append([]string{}, all...), acc(noUser)) {
			a := a
			want := q.fundings(func(f funderstypes.Funding) bool { return f.FunderAddress == a }, st)
			n := fmt.Sprintf("FundingsByFunder(%s, %s)", lab(a), st)
			list := func(pg *query.PageRequest) (l []string, r *query.PageResponse, err error) {
				var got querytypes.QueryFundingsByFunderResponse
				err = q.e.query(q.ctx, qFun+"FundingsByFunder", &querytypes.QueryFundingsByFunderRequest{Pagination: pg, Address: a, Status: st}, &got)
				for _, f := range got.Fundings {
					l = append(l, fname(f))
				}
				if pg == nil {
					q.cmp("fundings", n, flist(got.Fundings), flist(want))
				}
				return l, got.Pagination, err
			}
			q.walk(n, list, true)
			n = fmt.Sprintf("Funder(%s, %s)", lab(a), st)
			var got querytypes.QueryFunderResponse
			req := &querytypes.QueryFunderRequest{Address: a, Status: st}
			if !exists[a] {
				q.ask("funder", n, qFun+"Funder", req, &got, nil)
				continue
			}
			w := &querytypes.QueryFunderResponse{Funder: q.funder(a), Fundings: want}
			if q.ask("funder", n, qFun+"Funder", req, &got, w) {
				norm(got.Funder)
				sortQFundings(got.Fundings)
				q.cmp("funder", n, &got, w)
			}
		}
		for _, p := range poolsAsked(s) {
			p := p
			want := q.fundings(func(f funderstypes.Funding) bool { return f.PoolId == p }, st)
			n := fmt.Sprintf("FundingsByPool(%d, %s)", p, st)
			q.walk(n, func(pg *query.PageRequest) (l []string, r *query.PageResponse, err error) {
				var got querytypes.QueryFundingsByPoolResponse
				err = q.e.query(q.ctx, qFun+"FundingsByPool", &querytypes.QueryFundingsByPoolRequest{Pagination: pg, PoolId: p, Status: st}, &got)
				for _, f := range got.Fundings {
					l = append(l, fname(f))
				}
				if pg == nil {
					q.cmp("fundings", n, flist(got.Fundings), flist(want))
				}
				return l, got.Pagination, err
			}, true)
		}
	}
}

func (q *qref) bundles() {
	s := q.s
	for _, p := range append(poolIdsOf(s), s.PoolG.PoolCount) {
		p := p
		n := fmt.Sprintf("FinalizedBundles(pool %d)", p)
		list := func(pg *query.PageRequest) (l []string, r *query.PageResponse, err error) {
			var got querytypes.QueryFinalizedBundlesResponse
			err = q.e.query(q.ctx, qBun+"FinalizedBundlesQuery", &querytypes.QueryFinalizedBundlesRequest{PoolId: p, Pagination: pg}, &got)
			for i := range got.FinalizedBundles {
				x := &got.FinalizedBundles[i]
				l = append(l, fmt.Sprintf("%d/%d", x.PoolId, x.Id))
				instant(x.FinalizedAt)
				for _, f := range s.Fin[p] {
					if f.Id == x.Id {
						w := q.bundle(f)
						q.cmp("bundle", n, x, &w)
					}
				}
			}
			return l, got.Pagination, err
		}
		got, _, err := list(nil)
		if err != nil {
			q.fail("bundle", "%s: %v", n, err)
		}
		var want []string
		for _, f := range s.Fin[p] {
			want = append(want, fmt.Sprintf("%d/%d", p, f.Id))
		}
		q.set("bundle", n, got, want)
		q.walk(n, list, true)
		for id := uint64(0); id <= uint64(len(s.Fin[p])); id++ {
			n := fmt.Sprintf("FinalizedBundle(pool %d, %d)", p, id)
			var got querytypes.QueryFinalizedBundleResponse
			req := &querytypes.QueryFinalizedBundleRequest{PoolId: p, Id: id}
			var f *bundlestypes.FinalizedBundle
			for i := range s.Fin[p] {
				if s.Fin[p][i].Id == id {
					f = &s.Fin[p][i]
				}
			}
			if f == nil {
				q.ask("bundle", n, qBun+"FinalizedBundleQuery", req, &got, nil)
				continue
			}
			w := q.bundle(*f)
			if q.ask("bundle", n, qBun+"FinalizedBundleQuery", req, &got, &w) {
				instant(got.FinalizedAt)
				q.cmp("bundle", n, &got, &w) // the two messages have the same fields
			}
		}
		for _, i := range append(s.indexProbes(p), 1<<63, 1<<64-1) {
			n := fmt.Sprintf("FinalizedBundles(pool %d, index %d)", p, i)
			var got querytypes.QueryFinalizedBundlesResponse
			want := &querytypes.QueryFinalizedBundlesResponse{}
			for _, f := range s.Fin[p] {
				if f.FromIndex <= i && i < f.ToIndex {
					want.FinalizedBundles = append(want.FinalizedBundles, q.bundle(f))
				}
			}
			if q.ask("bundle-index", n, qBun+"FinalizedBundlesQuery", &querytypes.QueryFinalizedBundlesRequest{PoolId: p, Index: strconv.FormatUint(i, 10)}, &got, want) {
				got.Pagination = nil
				for j := range got.FinalizedBundles {
					instant(got.FinalizedBundles[j].FinalizedAt)
				}
				q.cmp("bundle-index", n, &got, want)
			}
		}
		var vs querytypes.QueryCurrentVoteStatusResponse
		n = fmt.Sprintf("CurrentVoteStatus(pool %d)", p)
		if _, ok := s.Pools[p]; !ok {
			q.ask("votes", n, qBun+"CurrentVoteStatus", &querytypes.QueryCurrentVoteStatusRequest{PoolId: p}, &vs, nil)
			continue
		}
		d := q.b.dist(p)
		w := &querytypes.QueryCurrentVoteStatusResponse{Valid: d.Valid, Invalid: d.Invalid, Abstain: d.Abstain, Total: d.Total}
		if q.ask("votes", n, qBun+"CurrentVoteStatus", &querytypes.QueryCurrentVoteStatusRequest{PoolId: p}, &vs, w) {
			if s.Prop[p].StorageId == "" && vs.Total == 0 {
				w.Total = 0 // nothing is voted on
			}
			q.cmp("votes", n, &vs, w)
		}
	}
}

func (q *qref) team() {
	s := q.s
	var got teamtypes.QueryTeamVestingAccountsResponse
	want := &teamtypes.QueryTeamVestingAccountsResponse{Accounts: s.TeamG.AccountList}
	if q.ask("team", "TeamVestingAccounts", qTeam+"TeamVestingAccounts", &teamtypes.QueryTeamVestingAccountsRequest{}, &got, want) {
		sort.Slice(got.Accounts, func(i, j int) bool { return got.Accounts[i].Id < got.Accounts[j].Id })
		q.cmp("team", "TeamVestingAccounts", &got, want)
	}
	var info teamtypes.QueryTeamInfoResponse
	if w := refTeamInfo(s); q.ask("team", "TeamInfo", qTeam+"TeamInfo", &teamtypes.QueryTeamInfoRequest{}, &info, w) {
		q.cmp("team", "TeamInfo", &info, w)
	}
	ids := []uint64{s.TeamG.AccountCount}
	for _, a := range s.TeamG.AccountList {
		ids = append(ids, a.Id)
	}
	for _, id := range ids {
		var a *teamtypes.TeamVestingAccount
		for i := range s.TeamG.AccountList {
			if s.TeamG.AccountList[i].Id == id {
				a = &s.TeamG.AccountList[i]
			}
		}
		n := fmt.Sprintf("TeamVestingAccount(%d)", id)
		var g teamtypes.QueryTeamVestingAccountResponse
		req := &teamtypes.QueryTeamVestingAccountRequest{Id: id}
		if a == nil {
			q.ask("team", n, qTeam+"TeamVestingAccount", req, &g, nil)
			continue
		}
		w := &teamtypes.QueryTeamVestingAccountResponse{Account: *a}
		if q.ask("team", n, qTeam+"TeamVestingAccount", req, &g, w) {
			q.cmp("team", n, &g, w)
		}
		var now teamtypes.QueryTeamVestingStatusResponse
		var by teamtypes.QueryTeamVestingStatusByTimeResponse
		n = fmt.Sprintf("TeamVestingStatus(%d)", id)
		if q.ask("team", n, qTeam+"TeamVestingStatus", &teamtypes.QueryTeamVestingStatusRequest{Id: id}, &now, &now) &&
			q.ask("team", n, qTeam+"TeamVestingStatusByTime", &teamtypes.QueryTeamVestingStatusByTimeRequest{Id: id, Time: uint64(s.Time)}, &by, &by) {
			if js(now.Status) != js(by.Status) || js(now.Plan) != js(by.Plan) {
				q.fail("team", "%s: %s, but %s for the present time", n, js(now), js(by))
			}
		}
	}
}

// actions compares the permission queries with the actions themselves.
func (q *qref) actions() {
	s := q.s
	tryMsg := func(m sdk.Msg) error {
		c, _ := quiet(q.ctx).CacheContext()
		return q.e.execMsg(c, m)
	}
	judge := func(rule, n string, possible bool, reason, ref string, err error) {
		if possible != (err == nil) {
			q.fail(rule, "%s: possible=%v (%q), but the action itself: %v", n, possible, reason, err)
		} else if possible != (ref == "") {
			q.fail(rule, "%s: possible=%v (%q), expected refusal %q", n, possible, reason, ref)
		} else if !possible && reason == "" {
			q.fail(rule, "%s: refused without a reason", n)
		}
	}
	for _, p := range poolsAsked(s) {
		_, exists := s.Pools[p]
		vals := map[string]bool{acc(noUser): true}
		who := map[string]bool{acc(noUser): true}
		for k, v := range s.Val {
			vals[v.Valaddress] = true
			if k.P == p {
				who[k.S] = true
			}
		}
		for a := range s.Stakers {
			who[a] = true
		}
		for _, v := range sortedKeys(vals) {
			n := fmt.Sprintf("CanValidate(pool %d, %s)", p, lab(v))
			owner := ""
			for k, x := range s.Val {
				if k.P == p && x.Valaddress == v && exists {
					owner = k.S
				}
			}
			var got querytypes.QueryCanValidateResponse
			if q.ask("can-validate", n, qBun+"CanValidate", &querytypes.QueryCanValidateRequest{PoolId: p, Valaddress: v}, &got, &got) {
				if got.Possible != (owner != "") || got.Possible && got.Reason != owner || !got.Possible && got.Reason == "" {
					q.fail("can-validate", "%s: %v %q, but the protocol account belongs to %q", n, got.Possible, got.Reason, lab(owner))
				}
			}
		}
		pr := s.Prop[p]
		pl := s.Pools[p]
		next := pl.CurrentIndex + pr.BundleSize
		for _, a := range sortedKeys(who) {
			own := s.Val[PS{p, a}].Valaddress
			tryVals := map[string]bool{acc(noUser): true, a: true}
			if own != "" {
				tryVals[own] = true
			}
			for v := range tryVals {
				if own != "" && v != own && a != pr.NextUploader && a != pr.Uploader {
					continue // the identity check is exercised for the two designated ones
				}
				for _, from := range []uint64{next, next + 1} {
					n := fmt.Sprintf("CanPropose(pool %d, %s by %s, from %d)", p, lab(a), lab(v), from)
					var got querytypes.QueryCanProposeResponse
					if !q.ask("can-propose", n, qBun+"CanPropose", &querytypes.QueryCanProposeRequest{PoolId: p, Staker: a, Proposer: v, FromIndex: from}, &got, &got) {
						continue
					}
					m := &bundlestypes.MsgSubmitBundleProposal{Creator: v, Staker: a, PoolId: p, StorageId: "probe", DataSize: 1, DataHash: "h", FromIndex: from, BundleSize: 1, FromKey: "1", ToKey: "2", BundleSummary: "s"}
					ref := q.b.canPropose(p, a, v, from)
					err := tryMsg(m)
					if ref == "" && pr.StorageId != "" {
						b := newBsim(&Step{Pre: s})
						b.nonVoters(p)
						if t := b.dist(p).status(); t != "valid" && t != "invalid" {
							err = nil // whether the open bundle can be concluded is told by the vote status
						}
					}
					judge("can-propose", n, got.Possible, got.Reason, ref, err)
				}
				for _, sid := range []string{pr.StorageId, "another"} {
					n := fmt.Sprintf("CanVote(pool %d, %s by %s, %q)", p, lab(a), lab(v), sid)
					var got querytypes.QueryCanVoteResponse
					if !q.ask("can-vote", n, qBun+"CanVote", &querytypes.QueryCanVoteRequest{PoolId: p, Staker: a, Voter: v, StorageId: sid}, &got, &got) {
						continue
					}
					m := &bundlestypes.MsgVoteBundleProposal{Creator: v, Staker: a, PoolId: p, StorageId: sid, Vote: bundlestypes.VOTE_TYPE_INVALID}
					ref := q.b.canVote(p, a, v, sid)
					err := tryMsg(m)
					if sid == "" && err != nil && strings.Contains(err.Error(), "storage") {
						err = fmt.Errorf("no proposal: %v", err)
					}
					judge("can-vote", n, got.Possible, got.Reason, ref, err)
					m.Vote = bundlestypes.VOTE_TYPE_ABSTAIN
					if e2 := tryMsg(m); got.Possible && (got.Reason == "") != (e2 == nil) {
						q.fail("can-vote", "%s: possible with hint %q, but abstaining gives %v", n, got.Reason, e2)
					}
				}
			}
		}
	}
}

var _ = stakerstypes.ModuleName

// worlds --------------------------------------------------------------------------

// catalogue: long lists with ties, names, filters and finished bundles
func catalogue(q, th int) *Scenario {
	meta := func(s, moniker string) *Op {
		return msgOp("meta", "metadata("+s+")", &stakerstypes.MsgUpdateMetadata{Creator: acc(s), Moniker: moniker, Website: "https://" + s, Identity: "0123456789ABCDEF", SecurityContact: "sec@" + s, Details: "details of " + s})
	}
	setup := func(e *Env, ctx sdk.Context) sdk.Context {
		st := []string{"S1", "S2", "S3", "S4", "S5", "S6"}
		ctx = bundleSetup(e, ctx, bcfg{pools: 5, stakers: st, stake: map[string]uint64{"S1": 4 * K, "S2": 4 * K, "S3": 4 * K, "S4": 3 * K, "S5": 3 * K, "S6": K},
			member: map[string][]uint64{"S1": {0, 1, 2}, "S2": {0, 2, 3}, "S3": {0, 1}, "S4": {0, 1}}, dels: map[string]uint64{"D1@S1": K, "D1@S2": K, "D1@S3": 7, "D1@S5": 9, "D2@S1": 5}, maxPoints: 3, maxPower: "0.9"})
		e.setWhitelist(ctx, wl(DENOM, 6, 1, 1, "1.3"), wl(ADENOM, 6, 1, 1, "2.000000000000000001"), wl(BDENOM, 18, 1, 1, "0.5"))
		ctx = e.run(ctx,
			opUpdatePool(0, `{"Name":"Moonbeam Zero"}`), opUpdatePool(1, `{"Name":"Evmos One","StorageProviderId":2}`), opUpdatePool(2, `{"Name":"moonriver","StorageProviderId":2,"CompressionId":1}`), opUpdatePool(3, `{"Name":"Cosmos"}`), opUpdatePool(4, `{"Name":"Moon Four"}`), opDisable(4), opDisable(3),
			opSchedule("@kyve/test", "2.0", `{"x":"y"}`, inSec(400), 100, "+400"),
			meta("S1", "Alpha One"), meta("S2", "alphabet"), meta("S4", "Beta"),
			opParams("delegation", "60s", `{"unbonding_delegation_time":60,"redelegation_cooldown":100,"redelegation_max_amount":3}`),
			opParams("funders", "multiple", `{"min_funding_multiple":2}`),
			opCreateFunder("D1"), opCreateFunder("D2"), opCreateFunder("D3"),
			opFund("D1", 0, kyve(20_000).Add(coin(ADENOM, 5000)), kyve(1000).Add(coin(ADENOM, 500))), opFund("D2", 0, kyve(4000), kyve(1900)), opFund("D2", 1, sdk.NewCoins(coin(BDENOM, 90)), sdk.NewCoins(coin(BDENOM, 7))),
			opFund("D1", 2, kyve(7), kyve(3)), opFund("D2", 2, kyve(1001), kyve(500)),
			opClaim("S1", 0), blockOp(60))
		for i := 0; i < 6; i++ {
			ctx = e.try(ctx, opSubmit(0, "", "", nil), opVote("S1", 0, vVALID), opVote("S2", 0, vVALID), opVote("S3", 0, vVALID), blockOp(60))
		}
		ctx = e.try(ctx, opSubmit(0, "", "", nil), opVote("S3", 0, vABSTAIN), opClaim("S2", 2), opClaim("S3", 1))
		return e.try(ctx, opUndelegate("D1", "S1", 10), opUndelegate("D1", "S2", 11), opUndelegate("D1", "S1", 12), opUndelegate("S1", "S1", 13), opDelegate("S1", "S2", 20), opDelegate("S6", "S1", 21), opUndelegate("S1", "S2", 6), opUndelegate("S6", "S1", 21), opRedelegate("D1", "S3", "S1", 1), opCommission("S2", "0.33"), opLeave("S1", 1), blockOp(5), opRedelegate("D1", "S3", "S2", 1))
	}
	gen := bundleGen()
	for _, x := range []string{"S6", "S7", "S8", "D3"} {
		gen.Funded[x] = kyve(startBal)
		for p := uint64(0); p < 5; p++ {
			gen.Funded[valOf(x, p)] = nil
		}
	}
	for p := uint64(0); p < 5; p++ {
		gen.Funded[valOf("S1", p)] = kyve(p)
	}
	return &Scenario{Name: "catalogue", Gen: gen, Quick: q, Thor: th, Setup: setup,
		Note: "six validators (with equal stakes), five pools with names, runtimes and storage providers, three funders, several finalized bundles, unbondings and redelegations: lists long enough for every page size",
		Ops: func(e *Env) []*Op {
			return []*Op{
				blockOp(61), blockOp(101), blockOp(401), opCreateStaker("S7", 0), opCreateStaker("S8", 5),
				opUndelegateAll("S6", "S6", 0), opUndelegateAll("S1", "S1", 0), opDelegate("D2", "S5", K), opDelegate("D1", "S6", 1),
				opJoin("S5", 1, valOf("S5", 1), 0), opLeave("S2", 3), opSlash("S1", delegationtypes.SLASH_TYPE_UPLOAD),
				opParams("delegation", "one redelegation", `{"redelegation_max_amount":1}`), opParams("delegation", "long cooldown", `{"redelegation_cooldown":1000}`),
				opRedelegate("D1", "S1", "S2", 3), opFund("D3", 0, kyve(800), kyve(400)), opDefund("D2", 0, kyve(4000)), opDefund("D1", 2, kyve(7)),
				opVote("S2", 0, vINVALID), opSubmit(2, "", "", nil), opEnable(3), opDisable(1), opUpdatePool(0, `{"Name":"","MinDelegation":999000000000}`),
			}
		}}
}

func buildQueries() {
	_, _, _, unb, redel := delegationScenarios()
	register(&Property{ID: "X04", Scenarios: []*Scenario{catalogue(2, 3), mixedWorld("mixed", 1, 3), deep(redel[1], 2, 4), deep(unb[0], 2, 4), deep(poolLife(4, 5), 2, 3), deep(membershipWorld(4, 5), 2, 3), deep(delaysWorld(4, 6), 2, 4),
		deep(bundleMachine(), 2, 5), farPools(2, 3), manyPools(1, 3), farBundles(97, 1, 2), deep(fundersFlow(3, 4), 2, 4), deep(teamWorld("team-claims", 3, 4, 0), 2, 4)}, States: []StateRule{stateQueries}})
}
