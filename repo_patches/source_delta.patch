From 523df9e36a4d6433fe91f688fa731d2071ad90c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 01/24] fix: never designate an excluded validator as next
 uploader

NextProposer started its search with the first validator of the set even if
it was excluded, so a validator that skipped or did not vote valid could be
designated again whenever its progress was the highest.
---
 x/bundles/keeper/logic_round_robin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/bundles/keeper/logic_round_robin.go b/x/bundles/keeper/logic_round_robin.go
index 56366f7..924bed1 100644
--- a/x/bundles/keeper/logic_round_robin.go
+++ b/x/bundles/keeper/logic_round_robin.go
@@ -246,10 +246,10 @@ func (vs *RoundRobinValidatorSet) NextProposer(excludedAddresses ...string) stri
 		}
 	}
 
-	currentMaxValidator := vs.Validators[0].Address
+	currentMaxValidator := ""
 	for _, validator := range vs.Validators {
 		if !mapExcludedAddresses[validator.Address] {
-			if vs.Progress[validator.Address] > vs.Progress[currentMaxValidator] {
+			if currentMaxValidator == "" || vs.Progress[validator.Address] > vs.Progress[currentMaxValidator] {
 				currentMaxValidator = validator.Address
 			}
 		}
-- 
2.43.0


From b0f49e614167b2d7edbfac180debcd2fcd568140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 02/24] fix: do not give inactivity points when the uploader
 role is skipped without an open bundle proposal

Skipping evaluated the votes of a bundle which does not exist, so every member
of the pool (the skipping one included) received a point for not voting.
---
 x/bundles/keeper/msg_server_skip_uploader_role.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/x/bundles/keeper/msg_server_skip_uploader_role.go b/x/bundles/keeper/msg_server_skip_uploader_role.go
index bc5d41e..6a4884b 100644
--- a/x/bundles/keeper/msg_server_skip_uploader_role.go
+++ b/x/bundles/keeper/msg_server_skip_uploader_role.go
@@ -20,10 +20,14 @@ func (k msgServer) SkipUploaderRole(goCtx context.Context, msg *types.MsgSkipUpl
 	// reset points of uploader as node has proven to be active
 	k.resetPoints(ctx, msg.PoolId, msg.Staker)
 
-	// Previous round contains a bundle which needs to be validated now
-	result, err := k.tallyBundleProposal(ctx, bundleProposal, msg.PoolId)
-	if err != nil {
-		return nil, err
+	// If there is a bundle from the previous round it needs to be validated now,
+	// else there is nothing to vote on and therefore nothing to evaluate
+	result := types.TallyResult{Status: types.TallyResultNoQuorum}
+	if bundleProposal.StorageId != "" {
+		var err error
+		if result, err = k.tallyBundleProposal(ctx, bundleProposal, msg.PoolId); err != nil {
+			return nil, err
+		}
 	}
 
 	// Get next uploader, except the one who skipped
-- 
2.43.0


From 624addb6014c3963b898f035bb834eafa95fab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 03/24] fix: do not displace the lowest funder when a funder
 with a slot tops up

---
 x/funders/keeper/logic_funders.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/x/funders/keeper/logic_funders.go b/x/funders/keeper/logic_funders.go
index 7b1f245..4da6393 100644
--- a/x/funders/keeper/logic_funders.go
+++ b/x/funders/keeper/logic_funders.go
@@ -199,16 +199,18 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 		return nil
 	}
 
+	for _, activeFunding := range activeFundings {
+		if activeFunding.FunderAddress == newFunding.FunderAddress {
+			// Funder already has a funding slot
+			return nil
+		}
+	}
+
 	lowestFunding, err := k.GetLowestFunding(ctx, activeFundings)
 	if err != nil {
 		return err
 	}
 
-	if lowestFunding.FunderAddress == newFunding.FunderAddress {
-		// Funder already has a funding slot
-		return nil
-	}
-
 	whitelist := k.GetCoinWhitelistMap(ctx)
 
 	// Check if lowest funding is lower than new funding based on amount (amount per bundle is ignored)
-- 
2.43.0


From 104ff561296d589f182b0d27bd40e4a378feb1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 04/24] fix: a funding without any coins does not become active

---
 x/funders/keeper/msg_server_fund_pool.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/funders/keeper/msg_server_fund_pool.go b/x/funders/keeper/msg_server_fund_pool.go
index 7fcf087..5c82f7e 100644
--- a/x/funders/keeper/msg_server_fund_pool.go
+++ b/x/funders/keeper/msg_server_fund_pool.go
@@ -64,6 +64,11 @@ func (k msgServer) FundPool(goCtx context.Context, msg *types.MsgFundPool) (*typ
 		return nil, err
 	}
 
+	// A funding without any coins can not be active
+	if funding.Amounts.IsZero() {
+		return nil, errors.Wrapf(errorsTypes.ErrInvalidRequest, types.ErrFundingIsUsedUp.Error(), msg.PoolId, msg.Creator)
+	}
+
 	// Kicks out lowest funder if all slots are taken and new funder is about to fund more.
 	// Otherwise, an error is thrown
 	// funding and fundingState are not written to the KV-Store. Everything else is handled safely.
-- 
2.43.0


From 8c8d48054f2e4d603ea107be9262acb715326d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 05/24] fix: drop a pending leave request when a validator
 loses its membership

---
 x/stakers/keeper/exported_functions.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/x/stakers/keeper/exported_functions.go b/x/stakers/keeper/exported_functions.go
index c661b45..63a9460 100644
--- a/x/stakers/keeper/exported_functions.go
+++ b/x/stakers/keeper/exported_functions.go
@@ -19,9 +19,20 @@ import (
 // LeavePool removes a staker from a pool and emits the corresponding event.
 // The staker is no longer able to participate in the given pool.
 // All points the staker had in that pool are deleted.
+// A pending leave request of the staker for that pool is dropped.
 func (k Keeper) LeavePool(ctx sdk.Context, staker string, poolId uint64) {
 	k.RemoveValaccountFromPool(ctx, poolId, staker)
 
+	// a pending leave request belongs to the membership which just ended, it
+	// must not be applied to a later one
+	if k.DoesLeavePoolEntryExistByIndex2(ctx, staker, poolId) {
+		for _, entry := range k.GetAllLeavePoolEntries(ctx) {
+			if entry.Staker == staker && entry.PoolId == poolId {
+				k.RemoveLeavePoolEntry(ctx, &entry)
+			}
+		}
+	}
+
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventLeavePool{
 		PoolId: poolId,
 		Staker: staker,
-- 
2.43.0


From dd64fa4ff0b1595ea6c34c5e259b3a468f96cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 06/24] fix: do not let a huge team allocation wrap around the
 allocation limit

---
 x/team/keeper/msg_server_create_team_vesting_account.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/team/keeper/msg_server_create_team_vesting_account.go b/x/team/keeper/msg_server_create_team_vesting_account.go
index f9924a6..a663da4 100644
--- a/x/team/keeper/msg_server_create_team_vesting_account.go
+++ b/x/team/keeper/msg_server_create_team_vesting_account.go
@@ -21,7 +21,8 @@ func (k msgServer) CreateTeamVestingAccount(goCtx context.Context, msg *types.Ms
 	}
 
 	// check if new team vesting account still has allocation left
-	if k.GetIssuedTeamAllocation(ctx)+msg.TotalAllocation > types.TEAM_ALLOCATION {
+	// (compared against the limit first since the sum could exceed the range of uint64)
+	if msg.TotalAllocation > types.TEAM_ALLOCATION || k.GetIssuedTeamAllocation(ctx)+msg.TotalAllocation > types.TEAM_ALLOCATION {
 		return nil, errors.Wrapf(errorsTypes.ErrLogic, types.ErrAvailableFundsTooLow.Error(), types.TEAM_ALLOCATION-k.GetIssuedTeamAllocation(ctx), msg.TotalAllocation)
 	}
 
-- 
2.43.0


From 5e18236bc64b539f25bc52016f00b04d85ab95c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 07/24] fix: do not extend a clawed back team account beyond
 the team allocation

---
 x/team/keeper/msg_server_clawback.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x/team/keeper/msg_server_clawback.go b/x/team/keeper/msg_server_clawback.go
index ddebb46..68e4c49 100644
--- a/x/team/keeper/msg_server_clawback.go
+++ b/x/team/keeper/msg_server_clawback.go
@@ -31,7 +31,16 @@ func (k msgServer) Clawback(goCtx context.Context, msg *types.MsgClawback) (*typ
 		return nil, errors.Wrapf(sdkErrors.ErrLogic, types.ErrInvalidClawbackDate.Error())
 	}
 
+	previousMaxAmount := getVestingMaxAmount(account)
 	account.Clawback = msg.Clawback
+
+	// can not take back a clawback if the allocation which became available has been issued again
+	if maxAmount := getVestingMaxAmount(account); maxAmount > previousMaxAmount {
+		if issued := k.GetIssuedTeamAllocation(ctx); issued-previousMaxAmount+maxAmount > types.TEAM_ALLOCATION {
+			return nil, errors.Wrapf(sdkErrors.ErrLogic, types.ErrAvailableFundsTooLow.Error(), types.TEAM_ALLOCATION-issued, maxAmount-previousMaxAmount)
+		}
+	}
+
 	k.SetTeamVestingAccount(ctx, account)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventClawback{
-- 
2.43.0


From 4841552312e74ff47a68b4703af78d05739da8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 08/24] fix: do not end a pool upgrade early if its end exceeds
 the range of uint64

---
 x/pool/keeper/logic_end_block_handle_pool_upgrades.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/pool/keeper/logic_end_block_handle_pool_upgrades.go b/x/pool/keeper/logic_end_block_handle_pool_upgrades.go
index f6f58ff..f6c942c 100644
--- a/x/pool/keeper/logic_end_block_handle_pool_upgrades.go
+++ b/x/pool/keeper/logic_end_block_handle_pool_upgrades.go
@@ -20,7 +20,8 @@ func (k Keeper) HandlePoolUpgrades(ctx sdk.Context) {
 			}
 
 			// Check if upgrade duration was reached
-			if uint64(ctx.BlockTime().Unix()) >= (pool.UpgradePlan.ScheduledAt + pool.UpgradePlan.Duration) {
+			// (the elapsed time is compared since the sum could exceed the range of uint64)
+			if uint64(ctx.BlockTime().Unix())-pool.UpgradePlan.ScheduledAt >= pool.UpgradePlan.Duration {
 				// reset upgrade plan to default values
 				pool.UpgradePlan = &types.UpgradePlan{}
 			}
-- 
2.43.0


From a8642400a2480b99b64fc585ef9f49fe642a2b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 09/24] fix: do not pay the inflation remainder to pools which
 can not run

The rounding remainder of the protocol inflation was sent once to every
pool which can not run (disabled, upgrading, ...) instead of to active
pools, so inactive pools received inflation and more was sent than was
provisioned. It now stays in the fee collector with the chain's share.
---
 x/bundles/abci.go | 23 +----------------------
 1 file changed, 1 insertion(+), 22 deletions(-)

diff --git a/x/bundles/abci.go b/x/bundles/abci.go
index 0dbf318..91974ba 100644
--- a/x/bundles/abci.go
+++ b/x/bundles/abci.go
@@ -37,9 +37,6 @@ func SplitInflation(ctx sdk.Context, k bundlesKeeper.Keeper, bk util.BankKeeper,
 		return
 	}
 
-	// track actual distributed block provision for protocol
-	distributed := uint64(0)
-
 	// calculate total inflation share weight of pools to get each pool's reward share
 	totalInflationShareWeight := math.LegacyZeroDec()
 
@@ -68,27 +65,9 @@ func SplitInflation(ctx sdk.Context, k bundlesKeeper.Keeper, bk util.BankKeeper,
 			if err := util.TransferFromModuleToAddress(bk, ctx, authTypes.FeeCollectorName, pool.GetPoolAccount().String(), amount); err != nil {
 				util.PanicHalt(uk, ctx, err.Error())
 			}
-
-			// track transferred $KYVE to protocol
-			distributed += amount
-		}
-	}
-
-	// calculate if a remainder is left
-	remainder := uint64(protocolBlockProvision) - distributed
-
-	if remainder > 0 {
-		// find an active pool
-		for _, pool := range pk.GetAllPools(ctx) {
-			if err := k.AssertPoolCanRun(ctx, pool.Id); err != nil {
-				// add remainder to first active pool we find
-				if err := util.TransferFromModuleToAddress(bk, ctx, authTypes.FeeCollectorName, pool.GetPoolAccount().String(), remainder); err != nil {
-					util.PanicHalt(uk, ctx, err.Error())
-				}
-			}
 		}
 	}
 
-	// rest gets transferred to chain
+	// rest, including the rounding remainder, stays in the fee collector for the chain
 	k.Logger().Info("split portion of minted coins to protocol", "amount", protocolBlockProvision)
 }
-- 
2.43.0


From 7af7ff6c27ad81c78b972067486ca425cca7f1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 10/24] fix: do not use the fee allowance a second time for the
 refund

The refund post handler charged the granter's allowance again with the
whole fee. The allowance was reduced twice and a transaction with a
sufficient allowance failed if it was used up by the fee.
---
 x/global/post.go  |  6 +-----
 x/global/utils.go | 18 ++++++------------
 2 files changed, 7 insertions(+), 17 deletions(-)

diff --git a/x/global/post.go b/x/global/post.go
index a4a7073..91535f5 100644
--- a/x/global/post.go
+++ b/x/global/post.go
@@ -70,11 +70,7 @@ func (rfd RefundFeeDecorator) PostHandle(ctx sdk.Context, tx sdk.Tx, simulate bo
 	}
 
 	// Send the refund back to this transaction's fee payer.
-	account, err := GetFeeAccount(ctx, feeTx, rfd.feeGrantKeeper)
-	if err != nil {
-		return ctx, err
-	}
-	err = rfd.bankKeeper.SendCoinsFromModuleToAccount(ctx, authTypes.FeeCollectorName, account, refund)
+	err = rfd.bankKeeper.SendCoinsFromModuleToAccount(ctx, authTypes.FeeCollectorName, GetFeeAccount(feeTx), refund)
 	if err != nil {
 		return ctx, err
 	}
diff --git a/x/global/utils.go b/x/global/utils.go
index 3584957..5d03f79 100644
--- a/x/global/utils.go
+++ b/x/global/utils.go
@@ -12,30 +12,24 @@ import (
 
 	// Auth
 	"github.com/cosmos/cosmos-sdk/x/auth/ante"
-	// FeeGrant
-	feeGrantKeeper "cosmossdk.io/x/feegrant/keeper"
 	// Global
 	"github.com/KYVENetwork/chain/x/global/keeper"
 	// Staking
 	stakingKeeper "github.com/cosmos/cosmos-sdk/x/staking/keeper"
 )
 
-func GetFeeAccount(ctx sdk.Context, tx sdk.FeeTx, feeGrantKeeper feeGrantKeeper.Keeper) (sdk.AccAddress, error) {
-	fee := tx.GetFee()
+// GetFeeAccount returns the account which paid the fee of the transaction.
+// A fee allowance of a granter has already been used by the time the fee got
+// deducted, it must not be used a second time.
+func GetFeeAccount(tx sdk.FeeTx) sdk.AccAddress {
 	feePayer := tx.FeePayer()
 	feeGranter := tx.FeeGranter()
 
-	account := feePayer
 	if feeGranter != nil && !bytes.Equal(feeGranter, feePayer) {
-		err := feeGrantKeeper.UseGrantedFees(ctx, feeGranter, feePayer, fee, tx.GetMsgs())
-		if err != nil {
-			return nil, sdkErrors.Wrapf(err, "%s does not not allow to pay fees for %s", feeGranter, feePayer)
-		}
-
-		account = feeGranter
+		return feeGranter
 	}
 
-	return account, nil
+	return feePayer
 }
 
 // BuildTxFeeChecker ensures that the configured minimum gas price is met.
-- 
2.43.0


From 121693582f03d376713c0dea2776a0c6ca2b6f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 11/24] fix: leave stakers without delegation out of the
 governance tally

A protocol validator without any delegation which still is a member of a
pool and voted on a proposal made the tally divide by zero. This happens
in the end blocker of the gov module, i.e. the chain halts.
---
 x/stakers/keeper/exported_functions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/stakers/keeper/exported_functions.go b/x/stakers/keeper/exported_functions.go
index 63a9460..c843040 100644
--- a/x/stakers/keeper/exported_functions.go
+++ b/x/stakers/keeper/exported_functions.go
@@ -110,6 +110,12 @@ func (k Keeper) GetActiveValidators(ctx context.Context) (validators []interface
 	for _, address := range k.getAllActiveStakers(sdkCtx) {
 		delegation := int64(k.delegationKeeper.GetDelegationAmount(sdkCtx, address))
 
+		// a staker without any delegation has no voting power which could be shared
+		// between its delegators, the tally would divide by zero
+		if delegation == 0 {
+			continue
+		}
+
 		validator := govV1Types.NewValidatorGovInfo(
 			sdk.ValAddress(sdk.MustAccAddressFromBech32(address)),
 			math.NewInt(delegation),
-- 
2.43.0


From b3316efb428c21d26cadcc1272b81afa778ac826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 12/24] fix: count pages from one when paginating stakers by
 pool count

---
 x/delegation/keeper/getters_index_stakers.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/x/delegation/keeper/getters_index_stakers.go b/x/delegation/keeper/getters_index_stakers.go
index 4974608..d798e34 100644
--- a/x/delegation/keeper/getters_index_stakers.go
+++ b/x/delegation/keeper/getters_index_stakers.go
@@ -8,7 +8,6 @@ import (
 	"github.com/cosmos/cosmos-sdk/runtime"
 
 	"cosmossdk.io/store/prefix"
-	"github.com/KYVENetwork/chain/util"
 	"github.com/KYVENetwork/chain/x/delegation/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	"github.com/cosmos/cosmos-sdk/types/query"
@@ -28,12 +27,15 @@ func arrayPagination(slice []string, pagination *query.PageRequest) ([]string, *
 		return nil, nil, err
 	}
 
-	resultLength := util.MinInt(limit, len(slice)-page*limit)
-	result := make([]string, resultLength)
-
-	for i := 0; i < resultLength; i++ {
-		result[i] = slice[page*limit+i]
+	// pages start with one, pages after the last one are empty
+	start, end := len(slice), len(slice)
+	if page >= 1 && page-1 <= len(slice)/limit {
+		start = (page - 1) * limit
+	}
+	if limit < end-start {
+		end = start + limit
 	}
+	result := slice[start:end]
 
 	pageRes := &query.PageResponse{
 		NextKey: nil,
-- 
2.43.0


From e4c4a9acd46cacf4f500ac3a9232b5c73cb25399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 13/24] fix: do not let the available redelegation slots
 underflow

---
 x/query/keeper/grpc_account_redelegation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/query/keeper/grpc_account_redelegation.go b/x/query/keeper/grpc_account_redelegation.go
index d6bac7d..4401b2c 100644
--- a/x/query/keeper/grpc_account_redelegation.go
+++ b/x/query/keeper/grpc_account_redelegation.go
@@ -31,8 +31,14 @@ func (k Keeper) AccountRedelegation(goCtx context.Context, req *types.QueryAccou
 		}
 	}
 
+	// the maximum may have been lowered below the number of used slots
+	availableSlots := uint64(0)
+	if maxSlots := k.delegationKeeper.GetRedelegationMaxAmount(ctx); maxSlots > usedSlots {
+		availableSlots = maxSlots - usedSlots
+	}
+
 	return &types.QueryAccountRedelegationResponse{
 		RedelegationCooldownEntries: redelegationEntries,
-		AvailableSlots:              k.delegationKeeper.GetRedelegationMaxAmount(ctx) - usedSlots,
+		AvailableSlots:              availableSlots,
 	}, nil
 }
-- 
2.43.0


From 90e3977305361b2c13f8b5e1cd9b6c6695c8f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 14/24] fix: reverse pagination of finalized bundles with an
 offset beyond the last bundle

---
 x/bundles/keeper/getters_bundles.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/bundles/keeper/getters_bundles.go b/x/bundles/keeper/getters_bundles.go
index 17f222d..2a59577 100644
--- a/x/bundles/keeper/getters_bundles.go
+++ b/x/bundles/keeper/getters_bundles.go
@@ -244,6 +244,10 @@ func (k Keeper) GetPaginatedFinalizedBundleQuery(ctx sdk.Context, pagination *qu
 	// Translate offset to next page keys
 	if len(key) == 0 {
 		if reverse {
+			// an offset beyond the last bundle has no results
+			if offset > pageResponse.Total {
+				offset = pageResponse.Total
+			}
 			pagination.Key = util.GetByteKey(pageResponse.Total - offset)
 		} else {
 			pagination.Key = util.GetByteKey(offset)
-- 
2.43.0


From 9b8c406a1ba7a657f8ee47ecb67dffff09d320cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 15/24] fix: index stakers without delegation when the memory
 index is rebuilt

---
 x/delegation/genesis.go                | 2 +-
 x/delegation/keeper/keeper.go          | 5 +++++
 x/delegation/types/expected_keepers.go | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/delegation/genesis.go b/x/delegation/genesis.go
index eaf9867..d681731 100644
--- a/x/delegation/genesis.go
+++ b/x/delegation/genesis.go
@@ -37,7 +37,7 @@ func InitGenesis(ctx sdk.Context, k keeper.Keeper, genState types.GenesisState)
 		k.SetRedelegationCooldown(ctx, entry)
 	}
 
-	k.InitMemStore(ctx)
+	// the memory index is built in the first block, when the stakers are known as well
 }
 
 // ExportGenesis returns the capability module's exported genesis.
diff --git a/x/delegation/keeper/keeper.go b/x/delegation/keeper/keeper.go
index 7f54a34..afc9ee4 100644
--- a/x/delegation/keeper/keeper.go
+++ b/x/delegation/keeper/keeper.go
@@ -79,6 +79,11 @@ func (k Keeper) InitMemStore(gasCtx sdk.Context) {
 			k.SetStakerIndex(noGasCtx, entry.Staker)
 		}
 
+		// Stakers without any delegation do not have delegation data
+		for _, staker := range k.stakersKeeper.GetAllStakers(noGasCtx) {
+			k.SetStakerIndex(noGasCtx, staker.Address)
+		}
+
 		memStoreInitialized = true
 	}
 }
diff --git a/x/delegation/types/expected_keepers.go b/x/delegation/types/expected_keepers.go
index 4597599..9a14241 100644
--- a/x/delegation/types/expected_keepers.go
+++ b/x/delegation/types/expected_keepers.go
@@ -26,6 +26,7 @@ type UpgradeKeeper interface {
 }
 
 type StakersKeeper interface {
+	GetAllStakers(ctx sdk.Context) (list []stakerstypes.Staker)
 	DoesStakerExist(ctx sdk.Context, staker string) bool
 	GetAllStakerAddressesOfPool(ctx sdk.Context, poolId uint64) (stakers []string)
 	GetValaccountsFromStaker(ctx sdk.Context, stakerAddress string) (val []*stakerstypes.Valaccount)
-- 
2.43.0


From 2a22d53a256e2ebbdcb94b76596ac6f89641992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:22 +0000
Subject: [PATCH 16/24] fix: a protocol address cannot be a module account
 which must not receive funds

---
 util/expected_keepers.go | 1 +
 util/logic_bank.go       | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/util/expected_keepers.go b/util/expected_keepers.go
index 1c02929..ba8f95d 100644
--- a/util/expected_keepers.go
+++ b/util/expected_keepers.go
@@ -12,6 +12,7 @@ type AccountKeeper interface {
 }
 
 type BankKeeper interface {
+	BlockedAddr(addr sdk.AccAddress) bool
 	SendCoins(ctx context.Context, fromAddr, toAddr sdk.AccAddress, amt sdk.Coins) error
 	SendCoinsFromModuleToAccount(ctx context.Context, senderModule string, recipientAddr sdk.AccAddress, amt sdk.Coins) error
 	SendCoinsFromModuleToModule(ctx context.Context, senderModule, recipientModule string, amt sdk.Coins) error
diff --git a/util/logic_bank.go b/util/logic_bank.go
index 631202f..6b058ff 100644
--- a/util/logic_bank.go
+++ b/util/logic_bank.go
@@ -1,8 +1,10 @@
 package util
 
 import (
+	"cosmossdk.io/errors"
 	globalTypes "github.com/KYVENetwork/chain/x/global/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	errorsTypes "github.com/cosmos/cosmos-sdk/types/errors"
 )
 
 // TransferFromAddressToAddress sends tokens from the given address to a specified address.
@@ -23,6 +25,11 @@ func TransferFromAddressToAddress(
 		return errRecipientAddress
 	}
 
+	// module accounts only receive funds through their own modules
+	if bankKeeper.BlockedAddr(recipient) {
+		return errors.Wrapf(errorsTypes.ErrUnauthorized, "%s is not allowed to receive funds", recipient)
+	}
+
 	coins := sdk.NewCoins(sdk.NewInt64Coin(globalTypes.Denom, int64(amount)))
 	err := bankKeeper.SendCoins(ctx, sender, recipient, coins)
 	return err
-- 
2.43.0


From 564dcd90c93ee0e87bc206956615f137ce26f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 17/24] fix: lists in a parameter change replace the previous
 lists entirely

---
 x/bundles/keeper/msg_server_update_params.go |  4 +---
 x/bundles/types/msgs.go                      |  6 ++---
 x/bundles/types/params.go                    | 20 +++++++++++++++++
 x/funders/keeper/msg_server_update_params.go |  4 +---
 x/funders/types/msgs.go                      |  6 ++---
 x/funders/types/params.go                    | 19 ++++++++++++++++
 x/global/keeper/msg_server_update_params.go  |  4 +---
 x/global/types/msgs.go                       |  6 ++---
 x/global/types/params.go                     | 23 ++++++++++++++++++++
 9 files changed, 71 insertions(+), 21 deletions(-)

diff --git a/x/bundles/keeper/msg_server_update_params.go b/x/bundles/keeper/msg_server_update_params.go
index 9e67e99..4c03a76 100644
--- a/x/bundles/keeper/msg_server_update_params.go
+++ b/x/bundles/keeper/msg_server_update_params.go
@@ -2,7 +2,6 @@ package keeper
 
 import (
 	"context"
-	"encoding/json"
 
 	"cosmossdk.io/errors"
 
@@ -22,8 +21,7 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
-	newParams := oldParams
-	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	newParams, _ := oldParams.Update(msg.Payload)
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/bundles/types/msgs.go b/x/bundles/types/msgs.go
index e568d11..ce4b7e9 100644
--- a/x/bundles/types/msgs.go
+++ b/x/bundles/types/msgs.go
@@ -1,8 +1,6 @@
 package types
 
 import (
-	"encoding/json"
-
 	"cosmossdk.io/errors"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
@@ -22,8 +20,8 @@ func (msg *MsgUpdateParams) ValidateBasic() error {
 		return errors.Wrap(err, "invalid authority address")
 	}
 
-	params := DefaultParams()
-	if err := json.Unmarshal([]byte(msg.Payload), &params); err != nil {
+	params, err := DefaultParams().Update(msg.Payload)
+	if err != nil {
 		return err
 	}
 
diff --git a/x/bundles/types/params.go b/x/bundles/types/params.go
index af02b01..e2b750e 100644
--- a/x/bundles/types/params.go
+++ b/x/bundles/types/params.go
@@ -1,6 +1,8 @@
 package types
 
 import (
+	"encoding/json"
+
 	"cosmossdk.io/math"
 
 	"github.com/KYVENetwork/chain/util"
@@ -43,6 +45,24 @@ func DefaultParams() Params {
 	)
 }
 
+// Update returns the params with the changes of the given JSON payload applied.
+// A list in the payload replaces the previous one as a whole, its entries must
+// not take over any values of (or overwrite) the previous entries.
+func (p Params) Update(payload string) (Params, error) {
+	updated := p
+	updated.StorageCosts = nil
+
+	if err := json.Unmarshal([]byte(payload), &updated); err != nil {
+		return p, err
+	}
+
+	if updated.StorageCosts == nil {
+		updated.StorageCosts = p.StorageCosts
+	}
+
+	return updated, nil
+}
+
 // Validate validates the set of params
 func (p Params) Validate() error {
 	if err := util.ValidatePositiveNumber(p.UploadTimeout); err != nil {
diff --git a/x/funders/keeper/msg_server_update_params.go b/x/funders/keeper/msg_server_update_params.go
index 0872cc6..d9063c8 100644
--- a/x/funders/keeper/msg_server_update_params.go
+++ b/x/funders/keeper/msg_server_update_params.go
@@ -2,7 +2,6 @@ package keeper
 
 import (
 	"context"
-	"encoding/json"
 
 	"cosmossdk.io/errors"
 	sdk "github.com/cosmos/cosmos-sdk/types"
@@ -21,8 +20,7 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
-	newParams := oldParams
-	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	newParams, _ := oldParams.Update(msg.Payload)
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/funders/types/msgs.go b/x/funders/types/msgs.go
index e568d11..ce4b7e9 100644
--- a/x/funders/types/msgs.go
+++ b/x/funders/types/msgs.go
@@ -1,8 +1,6 @@
 package types
 
 import (
-	"encoding/json"
-
 	"cosmossdk.io/errors"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
@@ -22,8 +20,8 @@ func (msg *MsgUpdateParams) ValidateBasic() error {
 		return errors.Wrap(err, "invalid authority address")
 	}
 
-	params := DefaultParams()
-	if err := json.Unmarshal([]byte(msg.Payload), &params); err != nil {
+	params, err := DefaultParams().Update(msg.Payload)
+	if err != nil {
 		return err
 	}
 
diff --git a/x/funders/types/params.go b/x/funders/types/params.go
index f998c08..e1c076f 100644
--- a/x/funders/types/params.go
+++ b/x/funders/types/params.go
@@ -1,6 +1,7 @@
 package types
 
 import (
+	"encoding/json"
 	"errors"
 	"fmt"
 
@@ -40,6 +41,24 @@ func DefaultParams() Params {
 	)
 }
 
+// Update returns the params with the changes of the given JSON payload applied.
+// A list in the payload replaces the previous one as a whole, its entries must
+// not take over any values of (or overwrite) the previous entries.
+func (p Params) Update(payload string) (Params, error) {
+	updated := p
+	updated.CoinWhitelist = nil
+
+	if err := json.Unmarshal([]byte(payload), &updated); err != nil {
+		return p, err
+	}
+
+	if updated.CoinWhitelist == nil {
+		updated.CoinWhitelist = p.CoinWhitelist
+	}
+
+	return updated, nil
+}
+
 // Validate validates the set of params
 func (p *Params) Validate() error {
 	if err := util.ValidateNumber(p.MinFundingMultiple); err != nil {
diff --git a/x/global/keeper/msg_server_update_params.go b/x/global/keeper/msg_server_update_params.go
index 4189a23..0f948cd 100644
--- a/x/global/keeper/msg_server_update_params.go
+++ b/x/global/keeper/msg_server_update_params.go
@@ -2,7 +2,6 @@ package keeper
 
 import (
 	"context"
-	"encoding/json"
 
 	"cosmossdk.io/errors"
 	sdk "github.com/cosmos/cosmos-sdk/types"
@@ -21,8 +20,7 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
-	newParams := oldParams
-	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	newParams, _ := oldParams.Update(msg.Payload)
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/global/types/msgs.go b/x/global/types/msgs.go
index 74c48a9..1c66ba9 100644
--- a/x/global/types/msgs.go
+++ b/x/global/types/msgs.go
@@ -1,8 +1,6 @@
 package types
 
 import (
-	"encoding/json"
-
 	"cosmossdk.io/errors"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
@@ -22,8 +20,8 @@ func (msg *MsgUpdateParams) ValidateBasic() error {
 		return errors.Wrap(err, "invalid authority address")
 	}
 
-	params := DefaultParams()
-	if err := json.Unmarshal([]byte(msg.Payload), &params); err != nil {
+	params, err := DefaultParams().Update(msg.Payload)
+	if err != nil {
 		return err
 	}
 	if err := params.Validate(); err != nil {
diff --git a/x/global/types/params.go b/x/global/types/params.go
index aeb31e7..5124076 100644
--- a/x/global/types/params.go
+++ b/x/global/types/params.go
@@ -1,6 +1,7 @@
 package types
 
 import (
+	"encoding/json"
 	"fmt"
 
 	"cosmossdk.io/math"
@@ -27,6 +28,28 @@ func DefaultParams() Params {
 	return NewParams(DefaultMinGasPrice, DefaultBurnRatio, []GasAdjustment{}, []GasRefund{})
 }
 
+// Update returns the params with the changes of the given JSON payload applied.
+// A list in the payload replaces the previous one as a whole, its entries must
+// not take over any values of (or overwrite) the previous entries.
+func (p Params) Update(payload string) (Params, error) {
+	updated := p
+	updated.GasAdjustments = nil
+	updated.GasRefunds = nil
+
+	if err := json.Unmarshal([]byte(payload), &updated); err != nil {
+		return p, err
+	}
+
+	if updated.GasAdjustments == nil {
+		updated.GasAdjustments = p.GasAdjustments
+	}
+	if updated.GasRefunds == nil {
+		updated.GasRefunds = p.GasRefunds
+	}
+
+	return updated, nil
+}
+
 // Validate validates the set of params
 func (p Params) Validate() error {
 	if err := validateMinGasPrice(p.MinGasPrice); err != nil {
-- 
2.43.0


From 437b6349c8ee732fc3f0b139987c472bfe102742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 18/24] fix: announce the returned amounts of a displaced
 funder

---
 x/funders/keeper/logic_funders.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/funders/keeper/logic_funders.go b/x/funders/keeper/logic_funders.go
index 4da6393..e3a1dfd 100644
--- a/x/funders/keeper/logic_funders.go
+++ b/x/funders/keeper/logic_funders.go
@@ -224,6 +224,7 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 		return err
 	}
 
+	defundAmounts := lowestFunding.Amounts
 	lowestFunding.Amounts = sdk.NewCoins()
 	lowestFunding.AmountsPerBundle = sdk.NewCoins()
 	fundingState.SetInactive(lowestFunding)
@@ -233,7 +234,7 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventDefundPool{
 		PoolId:  fundingState.PoolId,
 		Address: lowestFunding.FunderAddress,
-		Amounts: lowestFunding.Amounts.String(),
+		Amounts: defundAmounts.String(),
 	})
 
 	return nil
-- 
2.43.0


From fe397301076023fcc1601428f811af9558ff0059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 19/24] fix: announce the actual time of a scheduled runtime
 upgrade

---
 x/pool/keeper/msg_server_schedule_runtime_upgrade.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/pool/keeper/msg_server_schedule_runtime_upgrade.go b/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
index 3b8f1ab..a6a7951 100644
--- a/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
+++ b/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
@@ -61,7 +61,7 @@ func (k msgServer) ScheduleRuntimeUpgrade(
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventRuntimeUpgradeScheduled{
 		Runtime:       req.Runtime,
 		Version:       req.Version,
-		ScheduledAt:   req.ScheduledAt,
+		ScheduledAt:   scheduledAt,
 		Duration:      req.Duration,
 		Binaries:      req.Binaries,
 		AffectedPools: affectedPools,
-- 
2.43.0


From 9f70d98bd451c3dc983a04a6a79fbf7ccc411b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 20/24] fix: only members announce leaving a pool

---
 x/stakers/keeper/exported_functions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/stakers/keeper/exported_functions.go b/x/stakers/keeper/exported_functions.go
index c843040..10eafbf 100644
--- a/x/stakers/keeper/exported_functions.go
+++ b/x/stakers/keeper/exported_functions.go
@@ -21,6 +21,11 @@ import (
 // All points the staker had in that pool are deleted.
 // A pending leave request of the staker for that pool is dropped.
 func (k Keeper) LeavePool(ctx sdk.Context, staker string, poolId uint64) {
+	// only members can leave, others already did
+	if !k.DoesValaccountExist(ctx, poolId, staker) {
+		return
+	}
+
 	k.RemoveValaccountFromPool(ctx, poolId, staker)
 
 	// a pending leave request belongs to the membership which just ended, it
-- 
2.43.0


From 4e414e3e8d4c2df7d3580b4b07ed9adfa0aa75f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 21/24] fix: export for height zero with validators which have
 no commission

---
 app/export.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/export.go b/app/export.go
index c5d0fff..72df597 100644
--- a/app/export.go
+++ b/app/export.go
@@ -2,6 +2,7 @@ package app
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"log"
 
@@ -11,6 +12,8 @@ import (
 	serverTypes "github.com/cosmos/cosmos-sdk/server/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 
+	// Distribution
+	distributionTypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
 	// Slashing
 	slashingTypes "github.com/cosmos/cosmos-sdk/x/slashing/types"
 	// Staking
@@ -83,8 +86,9 @@ func (app *App) prepForZeroHeightGenesis(ctx sdk.Context, jailAllowedAddrs []str
 		if err != nil {
 			log.Panic(err)
 		}
+		// a validator without any accumulated commission has nothing to withdraw
 		_, err = app.DistributionKeeper.WithdrawValidatorCommission(ctx, valAddr)
-		if err != nil {
+		if err != nil && !errors.Is(err, distributionTypes.ErrNoValidatorCommission) {
 			log.Panic(err)
 		}
 		return false
-- 
2.43.0


From 538078f881a0e3d3e046a35c2060324a646ec9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 22/24] fix: jailed validators leave the power index when
 exporting for height zero

---
 app/export.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/export.go b/app/export.go
index 72df597..bc76f1e 100644
--- a/app/export.go
+++ b/app/export.go
@@ -222,6 +222,10 @@ func (app *App) prepForZeroHeightGenesis(ctx sdk.Context, jailAllowedAddrs []str
 
 		validator.UnbondingHeight = 0
 		if applyAllowedAddrs && !allowedAddrsMap[addr.String()] {
+			// jailed validators must not be part of the power index
+			if err := app.StakingKeeper.DeleteValidatorByPowerIndex(ctx, validator); err != nil {
+				log.Panic(err)
+			}
 			validator.Jailed = true
 		}
 
-- 
2.43.0


From 057e04d131b11cde166d8efa8245a2a3e9c0041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:31 +0000
Subject: [PATCH 23/24] fix: genesis validation of funders detects duplicates

---
 x/funders/types/genesis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/funders/types/genesis.go b/x/funders/types/genesis.go
index 9529939..d243269 100644
--- a/x/funders/types/genesis.go
+++ b/x/funders/types/genesis.go
@@ -20,6 +20,7 @@ func (gs GenesisState) Validate() error {
 		if _, ok := fundersIndexMap[string(index)]; ok {
 			return fmt.Errorf("duplicated funder id for %v", funder)
 		}
+		fundersIndexMap[string(index)] = struct{}{}
 	}
 
 	fundingByFunderIndexMap := make(map[string]struct{})
@@ -29,10 +30,12 @@ func (gs GenesisState) Validate() error {
 		if _, ok := fundingByFunderIndexMap[string(byFunderIndex)]; ok {
 			return fmt.Errorf("duplicated funding id for %v", funding)
 		}
+		fundingByFunderIndexMap[string(byFunderIndex)] = struct{}{}
 		byPoolIndex := FundingKeyByPool(funding.FunderAddress, funding.PoolId)
 		if _, ok := fundingByPoolIndexMap[string(byPoolIndex)]; ok {
 			return fmt.Errorf("duplicated funding id for %v", funding)
 		}
+		fundingByPoolIndexMap[string(byPoolIndex)] = struct{}{}
 	}
 
 	fundingStateIndexMap := make(map[string]struct{})
@@ -41,6 +44,7 @@ func (gs GenesisState) Validate() error {
 		if _, ok := fundingStateIndexMap[string(index)]; ok {
 			return fmt.Errorf("duplicated funding state id for %v", fundingState)
 		}
+		fundingStateIndexMap[string(index)] = struct{}{}
 	}
 	return gs.Params.Validate()
 }
-- 
2.43.0


From 42e8a6c6162c8706e0d97576856f797562901e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:31 +0000
Subject: [PATCH 24/24] fix: genesis validation of stakers detects duplicated
 stakers

---
 x/stakers/types/genesis.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x/stakers/types/genesis.go b/x/stakers/types/genesis.go
index dc1f54b..95a8916 100644
--- a/x/stakers/types/genesis.go
+++ b/x/stakers/types/genesis.go
@@ -14,6 +14,15 @@ func DefaultGenesis() *GenesisState {
 // Validate performs basic genesis state validation returning an error upon any failure.
 func (gs GenesisState) Validate() error {
 	// Staker
+	stakerMap := make(map[string]struct{})
+	for _, elem := range gs.StakerList {
+		index := string(StakerKey(elem.Address))
+		if _, ok := stakerMap[index]; ok {
+			return fmt.Errorf("duplicated index for staker %v", elem)
+		}
+		stakerMap[index] = struct{}{}
+	}
+
 	stakerLeaving := make(map[string]bool)
 
 	// Valaccounts
-- 
2.43.0

