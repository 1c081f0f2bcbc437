#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one object per line) from the table below."""
import json, os
H, I, C, S, F, K = "histories", "inputs", "configurations", "schedules", "fault_sequences", "crash_points"
P = []
def p(id, title, statement, over, text, why, files, mech, **anch):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(anch)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

D = "x/delegation/keeper/"
B = "x/bundles/keeper/"
FU = "x/funders/keeper/"
ST = "x/stakers/keeper/"
PO = "x/pool/keeper/"
TE = "x/team/keeper/"
GL = "x/global/"

p("D01", "Delegated stake is conserved and fully backed by custody",
  "At every point of every history each validator's total delegation equals the sum of what its delegators currently hold (up to rounding dust), and the delegation custody account holds at least all delegated stake plus all outstanding rewards. Delegating moves exactly the stated amount from the delegator into that delegator's stake with that validator, and every operation leaves the stake of every delegator it does not concern exactly as it was.",
  [H, I], "all interleavings of create-validator, delegate, undelegate, redelegate, withdraw, reward payout, slash and unbonding steps by several delegators over several validators, with odd amounts that force rounding",
  "existing tests replay hand-picked sequences of 2-6 operations with round numbers; backing must hold after every sequence, including re-entry after full exit and slashes between rounding payouts",
  [D+"logic_delegation.go", D+"logic_f1distribution.go", D+"exported_functions.go", D+"msg_server_delegate.go", D+"msg_server_undelegate.go", D+"msg_server_redelegate.go"],
  [("share accounting", D+"logic_f1distribution.go"), ("token movement on delegate/undelegate", D+"logic_delegation.go")],
  state=["delegation module balance", "total delegation per validator", "stake per delegator and validator"])

p("D02", "Delegation rewards are shared by stake, accrue once and are paid once",
  "When a reward is paid out to a validator's delegators, each delegator's outstanding reward grows by the reward times their share of the validator's stake at that moment, and nobody else's changes. Outstanding rewards change in no other way than a payout, or being paid in full into the owner's account when that owner withdraws or changes their stake with the validator; slashes and other people's operations never alter them.",
  [H, I], "all sequences of payouts (several denominations), joins, exits, slashes and withdrawals for several delegators",
  "tests check a few payout/withdraw patterns; proportionality must hold for every order of joins, exits, slashes and payouts within and between blocks",
  [D+"logic_f1distribution.go", D+"exported_functions.go", D+"msg_server_withdraw_rewards.go", D+"logic_delegation.go"],
  [("cumulative reward per unit of stake", D+"logic_f1distribution.go"), ("reward intake", D+"exported_functions.go")],
  state=["outstanding rewards per delegator and validator", "delegator balances"])

p("D03", "A slash takes the configured fraction from every delegator to the treasury",
  "Slashing a validator reduces the stake of each of its delegators, including the validator's own and stake that is queued for unbonding, by exactly the fraction configured for that kind of offence (up to rounding dust), and moves exactly the removed tokens into the community treasury. No delegator of any other validator and no liquid balance is touched.",
  [H, I, C], "all histories of delegations, undelegations, payouts and repeated slashes, for each slash type and several fractions",
  "tests slash once or twice in fixed setups; equal treatment must hold for any number of slashes between any delegator's entry and exit",
  [D+"exported_functions.go", D+"logic_f1distribution.go", D+"getters_delegation_slash.go", D+"getters_params.go", B+"logic_bundles.go"],
  [("slash application", D+"logic_f1distribution.go"), ("slash entry point", D+"exported_functions.go")],
  state=["stake per delegator", "delegation module balance", "community pool"])

p("D04", "Unbonding pays each request once, in order, only after the unbonding time",
  "An undelegation request keeps the stake delegated, earning and slashable, until the unbonding time has passed since the request; the first block at or after that moment pays out the requested amount, or whatever remains of that stake if it is less, exactly once, and removes the request. A request for more than the current stake is rejected, and requests of different delegators or validators never block, pay for or erase one another.",
  [H, I], "all interleavings of undelegation requests from several delegators, slashes, redelegations, parameter changes and block-time steps around the deadline (just before, at, after)",
  "tests exercise one or two pending requests; queue order, partial payment and deadline boundaries must hold for all interleavings",
  [D+"logic_unbonding.go", D+"getters_undelegation.go", D+"msg_server_undelegate.go", D+"logic_delegation.go", "x/delegation/module.go"],
  [("unbonding queue", D+"logic_unbonding.go"), ("queue storage", D+"getters_undelegation.go")],
  state=["pending requests", "delegator balances"])

p("D05", "Redelegation moves stake at once but only within the limited allowance",
  "A redelegation moves exactly the requested amount of the caller's stake from one validator to another in the same step without the tokens becoming liquid, only if the destination takes part in at least one pool and the caller has that much stake. A delegator can make at most the configured number of redelegations within any cooldown window, at most one per block, and gets each one back only after the cooldown has passed.",
  [H, I], "all histories of redelegations by several delegators with block-time steps around the cooldown boundary and changing allowance parameters",
  "tests follow one fixed schedule of redelegations; the sliding-window limit must hold for all schedules",
  [D+"msg_server_redelegate.go", D+"logic_redelegation.go", D+"getters_redelegation.go"],
  [("redelegation allowance", D+"logic_redelegation.go")],
  state=["recorded redelegations per delegator", "stake per delegator and validator"])

p("B01", "Finalized bundles form one gapless append-only chain per pool",
  "For each pool, finalized bundles are numbered consecutively from zero, each starts at the index where its predecessor ended, and once written none is ever altered or removed. A pool's progress (current index, last key, last summary and bundle count) changes only when a bundle is finalized and then to exactly the values of the accepted proposal, including the vote powers that secured it.",
  [H, I], "all sequences of claim, submit, vote, skip, timeout, leave, slash and pool configuration steps in one and two pools",
  "tests look at one or two finalizations; append-only and gaplessness are statements about all histories and all ways to finalize (next submission, skip, timeout)",
  [B+"logic_bundles.go", B+"getters_bundles.go", B+"msg_server_submit_bundle_proposal.go", B+"msg_server_skip_uploader_role.go", B+"logic_end_block_handle_upload_timeout.go"],
  [("finalization", B+"logic_bundles.go")],
  state=["finalized bundles", "pool progress", "open proposal"])

p("B02", "A bundle is decided by the stake majority of the pool's validators",
  "An open bundle proposal is accepted exactly when validators of the pool holding more than half of the pool's stake voted valid and rejected exactly when at least half voted invalid; otherwise it stays undecided and nothing is finalized, rejected, or punished for its vote. On acceptance exactly those who voted invalid are slashed and removed from the pool (slashed even if they have left the pool since), on rejection exactly the uploader (with the upload penalty) and the other valid voters; nobody else is punished for a bundle's decision.",
  [H, I], "all assignments of votes (valid, invalid, abstain, none) to validators with stake vectors around the 50% boundary, all evaluation triggers, and votes followed by leaves and stake changes",
  "tests sample a handful of vote/stake combinations; the threshold must be right for every distribution and trigger",
  [B+"logic_bundles.go", B+"msg_server_vote_bundle_proposal.go", B+"msg_server_submit_bundle_proposal.go", B+"msg_server_skip_uploader_role.go", B+"logic_end_block_handle_upload_timeout.go"],
  [("vote distribution and outcome", B+"logic_bundles.go")],
  state=["open proposal voters", "pool membership", "stakes"])

p("B03", "Only authorised participants act on a proposal, in turn and once",
  "Claiming, submitting, skipping and voting succeed only for the protocol address registered for a current member of that pool while the pool is able to run; only the designated uploader can submit or skip, only after the upload interval, and only with a bundle that continues at the pool's current index and respects its configured limits. Each validator counts in at most one of the valid, invalid and abstain lists, an abstention may be turned into a vote but a vote can never be changed, and the uploader counts as valid.",
  [H, I], "all sequences of actions by members, non-members, wrong protocol addresses and the uploader with correct and incorrect arguments and times",
  "tests check individual rejections; the guards must hold in every reachable pool and proposal state",
  [B+"logic_bundles.go", B+"msg_server_claim_uploader_role.go", B+"msg_server_vote_bundle_proposal.go", B+"msg_server_submit_bundle_proposal.go", B+"msg_server_skip_uploader_role.go"],
  [("eligibility assertions", B+"logic_bundles.go")],
  state=["open proposal", "pool membership", "pool status"])

p("B04", "The next uploader is an eligible member chosen by weighted round robin",
  "Whenever the protocol designates a next uploader it is a current member of the pool with stake, after an acceptance one that voted valid, after a skip not the skipper unless nobody else is eligible; only a pool without any eligible member has none. Over a period with constant stakes every validator is designated in proportion to its stake, and validators that join or were excluded neither jump the queue nor starve.",
  [H, I], "all stake vectors in a grid, all sequences of designation rounds with joins, leaves, stake changes and exclusion sets",
  "tests follow a few fixed rotation patterns; fairness and eligibility must hold for all histories of joins, leaves and exclusions",
  [B+"logic_round_robin.go", B+"logic_bundles.go", B+"getters_round_robin.go"],
  [("weighted round robin", B+"logic_round_robin.go")],
  state=["next uploader", "round robin progress"])

p("B05", "Inactivity points count consecutive misses and lead to removal and slash",
  "Each time an open proposal's votes are evaluated every member that did not vote on it gets exactly one inactivity point in that pool, and so does the designated uploader for each missed upload deadline; any own vote, submission or skip resets them, and nobody else's points change. A member reaching the configured maximum is, in that moment and only then, slashed with the timeout penalty and removed from that pool, and an uploader is only timed out after the upload interval plus upload timeout have passed.",
  [H, I, C], "all sequences of votes, missed votes, submissions, missed deadlines and block-time steps around the timeout",
  "tests drive points to the maximum in a fixed pattern; counts, resets and deadlines must be right in every history",
  [B+"logic_bundles.go", B+"logic_end_block_handle_upload_timeout.go", ST+"exported_functions.go", ST+"getters_valaccount.go"],
  [("non voter handling", B+"logic_bundles.go"), ("upload timeout", B+"logic_end_block_handle_upload_timeout.go")],
  state=["points per member and pool"])

p("B06", "Bundle rewards are split exactly by the published formula",
  "When a bundle is accepted, the amount taken from funders and from the pool's inflation balance is paid out entirely: the network fee share to the treasury, then the storage cost for the bundle size to the uploader (never more than available), then the uploader's commission, and the remainder to the uploader's delegators. No unit of any coin is created, lost or paid to anybody else, and without acceptance nobody is paid.",
  [H, I, C], "a grid of network fees, storage costs, bundle sizes, coin weights and decimals, commissions, multi-coin fundings, inflation rates, with and without delegations",
  "tests compute a few payouts by hand; the conservation and the split must hold for all parameter and coin combinations including rounding and missing coins",
  [B+"logic_bundles.go", B+"msg_server_submit_bundle_proposal.go", PO+"logic_pool.go", FU+"logic_funders.go", "util/logic_bank.go"],
  [("payout calculation", B+"logic_bundles.go"), ("inflation pool charge", PO+"logic_pool.go")],
  state=["module balances", "commission rewards", "outstanding rewards", "community pool"])

p("F01", "Funder deposits stay in custody and return only to their funder",
  "The funders custody account always holds exactly the sum of all remaining funding amounts, per coin. Funding moves exactly the stated amounts in, defunding returns at most the funder's own remaining amount to that funder, and no operation changes another funder's remaining amount except bundle charges and the full refund when the lowest funder is displaced.",
  [H, I], "all sequences of create, fund (several coins), defund, charge and displacement by several funders in several pools",
  "tests check single operations; custody must be exact after every sequence in every coin",
  [FU+"msg_server_fund_pool.go", FU+"msg_server_defund_pool.go", FU+"logic_funders.go", "x/funders/types/funders.go"],
  [("funding and defunding", FU+"msg_server_fund_pool.go")],
  state=["fundings", "funders module balance"])

p("F02", "Each accepted bundle charges every active funder exactly its per-bundle amount",
  "A charge takes from each active funder of that pool, per whitelisted coin, exactly the smaller of its agreed amount per bundle and its remaining amount, and from nobody else; the charged total is what the pool receives and is added to the funder's recorded total. A funder is active exactly while some amount remains, and exhausted funders are never charged again until they fund anew.",
  [H, I], "all funding states over several funders, coins, pools and whitelists, with repeated charges to exhaustion",
  "tests charge a few configurations; the rule must hold for all combinations of remaining amounts, coins and whitelist changes",
  [FU+"logic_funders.go", "x/funders/types/funders.go", FU+"getters_funding_state.go"],
  [("charging", FU+"logic_funders.go")],
  state=["fundings", "active funder list", "pool module balance"])

p("F03", "Funder slots are limited and only the lowest funder can be displaced",
  "A pool never has more than the fixed maximum of fifty active funders; with free slots nobody is displaced, with full slots a newcomer whose score is not below the lowest active one displaces a lowest-scoring active funder, who is refunded completely, and any other newcomer is rejected; a funder that already holds a slot displaces nobody. Funding and defunding are only accepted if what remains is in whitelisted coins, each at or above its minimum deposit, minimum per-bundle amount and minimum multiple.",
  [H, I, C], "all orders of funding, topping up, defunding and exhausting around the slot limit with scores below, equal to and above the lowest, and amounts around each minimum",
  "tests fill the slots once; the limit and fairness of displacement must hold for every state at the limit",
  [FU+"logic_funders.go", FU+"msg_server_fund_pool.go", "x/funders/types/funders.go", "x/funders/types/types.go"],
  [("slot handling", FU+"logic_funders.go"), ("compatibility checks", FU+"logic_funders.go")],
  state=["active funder list"])

p("S01", "Pool membership is consistent, bounded and owned by the validator",
  "A pool never has more than the fixed maximum of fifty members and its member list, count and each member's own list of pools always agree; a validator joins only by its own request, into an existing pool that is not disabled, at most once, with a protocol address that is neither its own nor a protocol account and that is not in use for it in another pool or by another member of the same pool. With full slots a newcomer must have strictly more stake than the lowest member, who alone is displaced; members otherwise lose membership only by leaving, by penalty or by the pool being disabled.",
  [H, I], "all sequences of joins, leaves, kicks, slashes, re-joins and pool disabling by several validators and pools, and around the slot limit",
  "tests cover single joins/kicks; consistency between the several indices must hold after every history",
  [ST+"msg_server_join_pool.go", ST+"logic_stakers.go", ST+"getters_valaccount.go", ST+"exported_functions.go"],
  [("join and slot handling", ST+"logic_stakers.go"), ("membership indices", ST+"getters_valaccount.go")],
  state=["pool accounts", "member counts"])

p("S02", "Leaving and commission changes take effect once, after their full delay",
  "A leave request keeps the validator a member until the leave time has passed and removes it from exactly that pool at the first block at or after that moment; at most one request per validator and pool is pending. A commission change lies between 0 and 100%, takes effect only after the full change time at the first block at or after it, a newer request replaces an older one, and the commission changes in no other way.",
  [H, I], "all interleavings of leave and commission-change requests of several validators, parameter changes, kicks and block-time steps around the deadlines",
  "tests have one or two pending entries; queue handling must hold for all interleavings and replacements",
  [ST+"logic_leave.go", ST+"logic_commission.go", ST+"logic_queue.go", ST+"getters_leave.go", ST+"getters_commission.go", ST+"msg_server_update_commission.go", ST+"msg_server_leave_pool.go"],
  [("delayed queues", ST+"logic_queue.go")],
  state=["pending leave and commission entries", "membership", "commission"])

p("S03", "Commission rewards are held in custody and claimable only by their validator",
  "The validator custody account always holds exactly the sum of all validators' unclaimed commission rewards per coin. A claim pays exactly the requested coins to the claiming validator and reduces its claimable rewards by the same amount, requests beyond what is claimable are rejected without effect, and nothing else reduces them.",
  [H, I], "all sequences of reward accrual in several coins and partial, full and excessive claims by several validators",
  "tests do single claims; custody must be exact after every sequence in every coin",
  [ST+"msg_server_claim_commission_rewards.go", ST+"exported_functions.go", ST+"logic_stakers.go"],
  [("claim", ST+"msg_server_claim_commission_rewards.go"), ("accrual", ST+"exported_functions.go")],
  state=["commission rewards", "stakers module balance"])

p("S04", "Validators and funders register once and own their public profile",
  "An account becomes a validator or a funder only by its own request and at most once. A new validator starts with the commission it asked for (10% if it named none, never outside 0 to 100%), no rewards, and exactly the paid-in amount as its own stake. A profile is set only by its owner, at once and to exactly the given values, and nothing else changes with it; a validator's texts are at most 255 bytes long and its identity is empty or a 64-bit hex string, and a funder's moniker is never empty: anything else is refused without effect. Registrations and profiles are changed by nothing else and never disappear.",
  [I, H], "a grid of field lengths, encodings, identities, commissions and amounts by validators, funders and strangers, and all sequences of registrations and profile updates between all other operations",
  "tests set one profile; limits, frame and permanence must hold for every input and history",
  [ST+"msg_server_create_staker.go", ST+"msg_server_update_metadata.go", ST+"getters_staker.go", "x/stakers/types/message_update_metadata.go", FU+"msg_server_create_funder.go", FU+"msg_server_update_funder.go", FU+"getters_funder.go"],
  [("registration", ST+"msg_server_create_staker.go"), ("validator profile", ST+"msg_server_update_metadata.go"), ("funder profile", FU+"msg_server_update_funder.go")],
  state=["validator records", "funder records"])

p("P01", "A pool runs only when it may, and upgrades and disabling act on time",
  "Uploading and voting are possible exactly when a pool is not disabled, not upgrading, has its end key not reached, has enough and not too concentrated stake; disabling removes all members and returns the pool's remaining balance of the native coin to the treasury, enabling only lifts the flag. A scheduled runtime upgrade changes version and binaries exactly once at the first block at or after its time, keeps the pool paused until the upgrade duration is over, and one cancelled before its time has no effect.",
  [H, I, C], "all sequences of create, update, disable, enable, schedule, cancel, joins, delegations and block-time steps around upgrade boundaries",
  "tests check each status in isolation; precedence, timing and combination with pending upgrades must hold in every history",
  [PO+"logic_end_block_handle_pool_upgrades.go", PO+"logic_pool.go", PO+"msg_server_disable_pool.go", PO+"msg_server_enable_pool.go", PO+"msg_server_schedule_runtime_upgrade.go", PO+"msg_server_cancel_runtime_upgrade.go", B+"logic_bundles.go", "x/query/keeper/helper.go"],
  [("upgrade processing", PO+"logic_end_block_handle_pool_upgrades.go"), ("run conditions", B+"logic_bundles.go")],
  state=["pool record", "membership"])

p("P02", "Only governance can administer pools and parameters",
  "Creating, updating, disabling, enabling or upgrading a pool and changing any module's parameters succeeds only when authorised by the governance account; from any other sender the request is rejected and changes nothing. An accepted change alters exactly the fields it names, and only in the addressed pool or module.",
  [H, I], "every administrative request by every kind of sender in every reachable state, with payloads naming every subset of a field list",
  "tests try one wrong sender per message; the guard and the exactness of the change must hold in all states and for all field combinations",
  [PO+"msg_server_create_pool.go", PO+"msg_server_update_pool.go", PO+"msg_server_disable_pool.go", PO+"msg_server_schedule_runtime_upgrade.go", PO+"msg_server_update_params.go", D+"msg_server_update_params.go", ST+"msg_server_update_params.go", B+"msg_server_update_params.go", FU+"msg_server_update_params.go", "x/global/keeper/msg_server_update_params.go"],
  [("authority checks", PO+"msg_server_create_pool.go")],
  state=["pools", "module parameters"])

p("I01", "Block inflation is split without loss between team, pools and chain stakers",
  "Of each block's minted tokens the team receives its time-dependent share, the remaining protocol share is divided between the active pools in proportion to their inflation weight (a pool which cannot run gets nothing), and what is left, rounding remainders included, stays with the chain's fee collector for its validators. Nothing is created or lost: supply grows only by the mint amount, and every pool balance grows by no more than its share.",
  [H, I, C], "all combinations of protocol inflation shares, pool weights, active, disabled, underfunded pools, team vesting states and block times",
  "tests check one or two pools; conservation and proportionality must hold for every pool/weight/status combination",
  [B+"logic_bundles.go", "x/bundles/module.go", "x/bundles/abci.go", "x/team/abci.go", "x/team/module.go"],
  [("inflation split", "x/bundles/abci.go")],
  state=["pool accounts", "team module balance", "fee collector", "supply"])

p("T01", "Team vesting and unlocking follow the published schedule",
  "For each team vesting account and time the vested amount is zero before the cliff, then grows linearly from commencement to the full allocation after the vesting duration, stopping at a clawback (and zero if that is before the cliff); unlocking releases the vested tokens linearly over two years, starting one year after the later of commencement and token launch. Both are non-decreasing in time without clawback and never exceed the allocation, and unlocked never exceeds vested.",
  [I], "a dense grid of commencements, allocations, clawback times and query times including each boundary second and its neighbours",
  "tests check a few dates; monotonicity and boundaries must hold for all inputs",
  [TE+"logic_team.go", "x/team/types/types.go", TE+"grpc_query_vesting_status_by_time.go"],
  [("vesting formula", TE+"logic_team.go")],
  state=["vesting status at a time"])

p("T02", "Team tokens are claimable once, only by authority, and always backed",
  "Claims and clawbacks need the right team authority, a claim pays at most what is unlocked (or accrued as reward) and not yet claimed, to the named recipient, and reduces the claimable amount by the same; the authority's own rewards are claimable once likewise. The team account always holds at least everything still owed to all accounts and the authority, and allocations can never be issued beyond the team allocation.",
  [H, I], "all sequences of account creation, claims, reward claims, clawbacks and block-time steps across the cliff, vesting and unlock boundaries",
  "tests do single claims at selected dates; solvency and claim-once hold over histories",
  [TE+"logic_team.go", "x/team/abci.go", TE+"msg_server_claim_unlocked.go", TE+"msg_server_claim_account_rewards.go", TE+"msg_server_claim_authority_rewards.go", TE+"msg_server_clawback.go", TE+"msg_server_create_team_vesting_account.go"],
  [("claims", TE+"msg_server_claim_unlocked.go"), ("inflation distribution", "x/team/abci.go")],
  state=["team accounts", "authority", "team module balance"])

p("G01", "Transaction fees obey minimum price, surcharge, refund and burn rules",
  "From the second block on a transaction is only accepted if its fee covers gas times the minimum gas price in the native coin, every message of a transaction whose type is listed consumes its configured extra gas, a successful single-message transaction of a listed type gets exactly the configured fraction of its fee, rounded down, refunded to whoever paid it, and every other transaction gets nothing back. A fee paid by a granter uses its allowance once. At the end of every block but the first exactly the configured fraction of the fees collected in it, rounded down per coin, is burned, and nothing else.",
  [I, C, H], "a grid of message types, single and multiple messages, nested messages, fees around the minimum, refund fractions, gas adjustments, burn ratios and fee payer arrangements",
  "tests check individual decorators with a few values; the combination must hold for all inputs",
  ["x/global/ante.go", "x/global/post.go", "x/global/abci.go", "x/global/utils.go", "app/ante.go"],
  [("min gas price and gas adjustment", "x/global/ante.go"), ("refund", "x/global/post.go"), ("burn", "x/global/abci.go")],
  state=["balances", "supply", "gas consumed"])

p("G02", "Protocol delegations carry governance voting power exactly once",
  "In a governance tally the voting power of chain validators plus all protocol delegations to validators with active participation counts: a delegator's own vote counts with its protocol stake, otherwise its validator's vote counts for it, and no stake is counted twice. The total used for the quorum is the bonded chain stake plus the protocol stake.",
  [H, I], "all assignments of votes to protocol validators, delegators and non-voters with several stake vectors and membership states",
  "tests check a few tallies; exactly-once counting must hold for every combination of voters and overlaps",
  [ST+"exported_functions.go", "app/app.go", D+"exported_functions.go"],
  [("protocol staking view for governance", ST+"exported_functions.go")],
  state=["tally result"])

p("X01", "Exporting and importing the state preserves it completely",
  "For every reachable state, exporting all protocol modules and importing the export into a fresh chain is accepted and yields a state with identical content that answers all queries alike, exports identically again, and behaves identically under every further operation. This includes the node's export command, both at the current height and prepared for a fresh start at height zero: protocol state, balances, supply and the chain's own stakes are kept (pending chain staking rewards are paid out first), and only validators left out of a given list are jailed.",
  [H, K], "every reachable state (up to the explored depth) of every module as the export point, followed by every operation",
  "tests import small hand-written genesis files; completeness of export must hold for every reachable state including pending queues",
  ["x/bundles/genesis.go", "x/delegation/genesis.go", "x/funders/genesis.go", "x/global/genesis.go", "x/pool/genesis.go", "x/stakers/genesis.go", "x/team/genesis.go", "app/export.go"],
  [("export command", "app/export.go"), ("export and import", "x/delegation/genesis.go")],
  state=["exported genesis of all protocol modules"])

p("X02", "A restarted node continues with exactly the same results",
  "A node that stops after any block and restarts from its persisted state produces, for every continuation, the same results and state commitments as a node that never stopped. In particular nothing that is held only in memory influences the outcome.",
  [K, H], "every block boundary of every explored history as the crash point, followed by every operation",
  "tests never restart the application; in-memory indexes must be rebuilt identically at every point",
  ["x/bundles/module.go", "x/delegation/module.go", B+"keeper.go", D+"keeper.go", B+"getters_bundles.go", D+"getters_index_stakers.go", "app/app.go"],
  [("rebuild of in-memory indexes", B+"getters_bundles.go")],
  state=["committed state", "in-memory stores"])

p("X03", "Block processing never fails, whatever users and governance did before",
  "No reachable combination of user and governance operations makes the processing at the beginning or end of a block fail or panic. Scheduled work of one pool or validator that cannot be done does not prevent the work of the others.",
  [H, I, C], "all explored operation sequences of all modules, followed by block processing",
  "tests run blocks after benign histories; a halt needs an unusual combination reached over several operations",
  ["app/app.go", "x/bundles/module.go", B+"logic_end_block_handle_upload_timeout.go", PO+"logic_end_block_handle_pool_upgrades.go", D+"logic_unbonding.go", ST+"logic_queue.go", "x/bundles/abci.go", "x/team/abci.go", "x/global/abci.go"],
  [("begin and end block processing", "app/app.go")],
  state=["block processing result"])

p("X04", "Queries report exactly what the state says",
  "In every reachable state the public queries agree with the state and with each other: pools and their status, validators and their stake, pool membership, delegations and outstanding rewards, unbondings, fundings, account assets and vote status. The can-propose, can-vote and can-validate answers agree with what the corresponding action would actually do (can-propose does not judge whether the votes on the open bundle already have a quorum; the vote status tells that), and walking any list page by page yields each entry exactly once.",
  [H, I], "every explored state, every query, every page size",
  "tests query a few states; agreement must hold in every state and for every page size",
  ["x/query/keeper/helper.go", "x/query/keeper/grpc_query_pool.go", "x/query/keeper/grpc_query_staker.go", "x/query/keeper/grpc_query_stakers_by_pool.go", "x/query/keeper/grpc_account_assets.go", "x/query/keeper/grpc_query_can_propose.go", "x/query/keeper/grpc_query_can_vote.go", "x/query/keeper/grpc_query_finalized_bundles.go", D+"getters_index_stakers.go", B+"getters_bundles.go"],
  [("query server", "x/query/keeper/helper.go")],
  state=["query answers"])

p("X05", "Protocol accounts take and create coins only by the protocol's own rules",
  "Nobody can pay coins directly into a protocol account (the custody accounts of delegations, pools, bundles, validators, funders and team, the fee collector, the chain's distribution, minting, bonding and IBC accounts), whatever request names the recipient: transfers, nested requests, protocol addresses, team claims, vesting accounts, treasury spends or withdraw addresses are refused without effect, while the governance account and all other accounts receive exactly what was sent. Only minting and IBC may create coins and only the fee collector, bonding, governance and IBC accounts may destroy them. No request changes the supply, and requests which move no money, or are refused, leave every protocol account untouched.",
  [I, H], "every request that names a recipient x every protocol account x amounts, every account's right to create and destroy coins, and all sequences of operations of all modules",
  "tests never name a protocol account as recipient; one unlisted account or unguarded path is enough to break custody",
  ["app/app_config.go", "util/logic_bank.go", ST+"msg_server_join_pool.go", "x/team/keeper/msg_server_claim_unlocked.go", "x/team/keeper/msg_server_claim_account_rewards.go", "x/team/keeper/msg_server_claim_authority_rewards.go"],
  [("account lists", "app/app_config.go"), ("transfers", "util/logic_bank.go")],
  state=["balances of all module accounts", "supply"])

p("X06", "Events announce exactly what happened, completely and with true values",
  "Every successful request and every block announces, through the protocol's typed events, exactly what it did: each stake change, reward or commission payout, slash, point, membership, commission change, funding, defunding (also of a displaced funder, with the returned coins), exhausted pool, proposal, vote, claimed or skipped uploader role, finalized or dropped bundle (status, vote powers, payouts and shares), pool creation, update, enabling, upgrade plan, parameter change (true old and new values) and team claim, once each and with the values that took effect. Refused requests and blocks in which nothing happens announce nothing.",
  [H, I], "all sequences of operations of all modules within the stated depths, and a grid of parameter changes and governance requests",
  "explorers, indexers and protocol nodes act on events alone; tests hardly look at them, and rare paths (a displaced funder, a partly paid unbonding, a plan in the past, a slashed former member) announce values taken from the wrong moment",
  [B+"logic_bundles.go", B+"msg_server_claim_uploader_role.go", B+"msg_server_skip_uploader_role.go", B+"msg_server_vote_bundle_proposal.go", B+"msg_server_update_params.go", D+"exported_functions.go", D+"logic_delegation.go", D+"logic_unbonding.go", FU+"logic_funders.go", FU+"msg_server_fund_pool.go", FU+"msg_server_defund_pool.go", ST+"exported_functions.go", ST+"logic_commission.go", ST+"msg_server_join_pool.go", PO+"msg_server_create_pool.go", PO+"msg_server_update_pool.go", PO+"msg_server_schedule_runtime_upgrade.go", TE+"msg_server_clawback.go", TE+"msg_server_claim_unlocked.go"],
  [("bundle events", B+"logic_bundles.go"), ("funding events", FU+"logic_funders.go"), ("stake events", D+"logic_delegation.go")],
  state=["events of transactions and blocks"])

p("X07", "Genesis files are accepted exactly when they are consistent",
  "The genesis exported from any reachable state, the default genesis, and the same records in any other order pass the protocol modules' genesis checks. A genesis file is refused when it names a record twice (funder, funding, funding state, pool, validator, membership, delegator, delegation entry or data, slash, queue entry, cooldown, proposal, finalized bundle, team account), when pool or team account ids reach their counters, queue entries lie outside their queue, finalized bundles are missing in between, slashes or delegators point to missing or foreign entries, leave requests and leaving marks disagree, claims exceed rewards, or a parameter is invalid.",
  [H, I], "every reachable state up to the stated depths x every such contradiction at every record, and every parameter value",
  "a genesis check that is too strict blocks a restart from an export of some rare state, one that is too lax lets a chain start from a corrupt file; tests validate a few hand-written files",
  ["x/bundles/types/genesis.go", "x/delegation/types/genesis.go", "x/funders/types/genesis.go", "x/global/types/genesis.go", "x/pool/types/genesis.go", "x/stakers/types/genesis.go", "x/team/types/genesis.go"],
  [("genesis checks", "x/delegation/types/genesis.go")],
  state=["genesis of all protocol modules"])

p("M01", "The v1.5 upgrade migrates every pool, funder and reward without loss",
  "Running the v1.5 upgrade on any state of the previous version keeps the total supply and all user balances, turns every previous funding, commission reward and outstanding delegation reward into the same amount of the native coin, leaves every custody account fully backed, and keeps all pools, validators, delegations and finalized bundles. Afterwards the chain processes blocks and users can withdraw and defund what they owned.",
  [I, C], "a grid of previous-version states (several funders, pools, delegators, commission rewards, finalized bundles) followed by operations after the upgrade",
  "the upgrade is covered only by compilation today; it runs once on mainnet data no test contains",
  ["app/upgrades/v1_5/upgrade.go", "app/upgrades/v1_5/v1_4_types"],
  [("store migration", "app/upgrades/v1_5/upgrade.go")],
  state=["all protocol stores"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        for fn in x["anchors"]["files"]:
            if not os.path.exists("/repo/" + fn): print("missing", x["id"], fn)
        for m in x["anchors"]["mechanism"]:
            if not os.path.exists("/repo/" + m["where"]): print("missing mech", x["id"], m["where"])
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
