"""Properties of the funding domain (sim crate: fund)."""
from gov_props import P
F = "pallets/funding/src/"
FN = F + "functions/"
LR = "pallets/linear-release/src/"
PB = "pallets/proxy-bonding/src/"
DI = "pallets/dispenser/src/"
HI = ["histories", "inputs", "schedules", "configurations"]
HF = ["histories", "inputs", "schedules", "fault_sequences", "configurations"]
HX = ["histories", "inputs", "fault_sequences", "configurations"]
T = "The unit tests walk a default project through its rounds with a helper that makes the calls in order; "
NOTE = "seeded simulation of whole funding campaigns on the real pallets of the Polimec chain and of the project's chain, every call compared with an executable specification and with independent invariants; sampling, not proof"

PROPS = [
P("F01", "Money is conserved and a refused call changes nothing",
  "Whatever users, issuers, the relay chain and project chains do, the PLMC of all accounts always adds up to the issuance, every funding asset keeps its total, and the contribution tokens of a project add up to their issuance; nothing is created except contribution tokens at settlement. A call that is refused leaves every balance, hold, participation, project and register as it was.",
  HF, "every history of calls on several projects at once, with any prices, forged messages, reverted blocks and failing routers",
  T + "the sum over all accounts is not checked, and refused calls are looked at one at a time in one state.",
  [F + "lib.rs", FN + "6_settlement.rs", PB + "functions.rs", LR + "impls.rs"],
  [("moving money in and out of a project", FN + "6_settlement.rs release_funding_asset, mint_contribution_tokens; " + FN + "misc.rs try_plmc_participation_lock, try_funding_asset_hold"), ("transactional calls", FN + "*.rs #[transactional]")]),
P("F02", "Every bonded PLMC is backed by a participation or a release schedule",
  "At any moment the PLMC an account has on hold for evaluations equals what its unsettled evaluations record, and what it has on hold for participations equals the bonds of its unsettled non-OTM bids and contributions plus what its release schedules still lock or have not released yet. Once everything is settled and every schedule is over, releasing the schedules frees everything: no bond is stranded and none is freed early.",
  HI, "every history of evaluations, bids and contributions of one account in several projects, of settlements and releases",
  T + "one account with bonds in several projects, schedules and unsettled participations at the same time is not tested.",
  [FN + "misc.rs", FN + "6_settlement.rs", LR + "impls.rs"],
  [("bonding", FN + "misc.rs try_plmc_participation_lock, bond_plmc_with_mode"), ("releasing", FN + "6_settlement.rs release_participation_bond_for, set_release_schedule_for; " + LR + "impls.rs write_release")]),
P("F03", "A project's escrow holds exactly what its unsettled participations paid",
  "For each project and funding asset the escrow account holds exactly the sum of the amounts locked by its bids and contributions that are not settled yet, so every one of them can be paid out or refunded; when a project has come to its end nothing is left in its escrow.",
  HI, "every mix of funding assets, prices, partial and rejected bids, and every order of settlements",
  T + "the escrow is compared after single settlements, not across all orders of partial refunds in three assets.",
  [FN + "6_settlement.rs", FN + "misc.rs"],
  [("escrow", FN + "misc.rs try_funding_asset_hold"), ("payout", FN + "6_settlement.rs release_funding_asset, calculate_refund")]),
P("F04", "Bids are priced by the buckets they fill and respect every limit",
  "A bid buys at the price of the current bucket and is split where a bucket is exhausted; the first bucket holds the auction allocation at the minimum price, each further one a tenth of it at a price higher by a tenth of the minimum. Prices never fall from one bid to the next. A bid is accepted only in the auction round, from a qualified investor other than the issuer, in an accepted currency, within the ticket limits, bid limits and multiplier limits, and locks exactly the funding asset and PLMC bond its price demands.",
  HI, "every sequence of bids of any sizes, multipliers, modes and assets, including bids that span several buckets",
  T + "bucket boundaries, bids spanning several buckets and limits reached by the split are sampled at a few points.",
  [FN + "3_auction.rs", F + "types.rs"],
  [("bidding", FN + "3_auction.rs do_bid, do_perform_bid"), ("buckets", F + "types.rs Bucket::{update,next}")]),
P("F05", "A project moves through its life in order, on time and only once",
  "A project goes from application to evaluation, auction, community round, funding end, settlement and migration, or to failure, only along the defined transitions, each made once; no round is cut short before its end (a sold-out community round may end early), and none can be left or repeated afterwards by anybody. Terms fixed at the start of the evaluation never change, and only the issuer's account and credential can start, edit or remove an application.",
  HI, "every history of round-ending, starting and settling calls by anybody at any block, in every state",
  T + "calls in states they were not meant for, and at the exact end of a round, are tested for a few pairs only.",
  [FN + "misc.rs", FN + "1_application.rs", FN + "2_evaluation.rs", FN + "3_auction.rs", FN + "5_funding_end.rs", FN + "6_settlement.rs", FN + "7_ct_migration.rs"],
  [("transitions", FN + "misc.rs transition_project"), ("round ends", FN + "2_evaluation.rs do_end_evaluation; " + FN + "3_auction.rs do_end_auction; " + FN + "5_funding_end.rs do_end_funding")]),
P("F06", "The auction gives its allocation to the best bids at a fair average price",
  "At the end of an auction the tokens given out are the smaller of what was asked and the auction allocation; no bid wins anything while a better one (higher price, or equal price and earlier) is not fully served, so at most one is partly accepted. The weighted average price is the minimum price unless more was asked than offered, and otherwise the average of the winning bids weighted by what they paid, never outside the prices bid. The winners, and only they, are registered.",
  HI, "every set of bids, up to many times the allocation",
  T + "the average is checked on examples sold less than twice over; order and ties on a handful of bids.",
  [FN + "misc.rs", FN + "3_auction.rs", F + "types.rs"],
  [("deciding bids", FN + "misc.rs decide_winning_bids"), ("average price", F + "types.rs Bucket::calculate_wap")]),
P("F07", "Funding succeeds exactly at its threshold, and fees follow their brackets",
  "When the community round ends the project succeeds if and only if the USD raised reaches the success threshold of its target; then evaluators are rewarded, otherwise slashed. The fee in contribution tokens is the bracketed share (10 percent of the first million USD, 8 of the next four, 6 of the rest) of the tokens sold; seven tenths are minted once for the treasury and three tenths form the evaluators' pot, a fifth of it for early evaluators.",
  HI, "every amount raised and every target, around the threshold and the bracket limits",
  T + "the outcome is tested at a few percentages and the fee on one project.",
  [FN + "5_funding_end.rs", FN + "6_settlement.rs", FN + "misc.rs"],
  [("outcome", FN + "5_funding_end.rs do_end_funding"), ("fees and rewards", FN + "misc.rs calculate_fee_allocation, compute_total_fee_from_brackets, generate_evaluator_rewards_info; " + FN + "6_settlement.rs do_start_settlement")]),
P("F08", "Every participation is settled exactly once, for exactly what it is due",
  "Anybody may settle any evaluation, bid or contribution once settlement has started (a rejected bid already before), each exactly once. A settled participation yields what the outcome entitles it to: rejected bids and failed projects get everything back; a winning bid pays the lower of its price and the average price and gets its tokens; contributions get theirs; evaluators get their bond and reward, or lose exactly the slashed share. The issuer's account gets the rest, one migration entry records the tokens and their vesting, and the tokens minted never exceed those sold plus rewards and fees.",
  HI, "every order of settlements by anybody, interleaved with other projects and other calls",
  T + "settlement is tested one participation at a time against the helper's own arithmetic.",
  [FN + "6_settlement.rs", FN + "misc.rs"],
  [("settling", FN + "6_settlement.rs do_settle_evaluation, do_settle_bid, do_settle_contribution"), ("rewards and slashes", FN + "6_settlement.rs slash_evaluator, reward_evaluator")]),
P("F09", "Every project that ends its funding can be settled and finished",
  "From every state a funding campaign can reach, doing what is due (ending rounds when they are over, settling each participation in any order, confirming migrations) brings the project to its end: no participation, however small or at whatever price, with whatever mixture of modes, blocks it, and it is finished only when nothing is left to settle.",
  HF, "every reachable campaign, followed by any order of the remaining calls once faults have stopped",
  T + "whether some odd participation blocks a whole project shows only after complete campaigns with odd amounts.",
  [FN + "6_settlement.rs", FN + "7_ct_migration.rs", FN + "misc.rs"],
  [("progress of settlement", FN + "6_settlement.rs do_settle_*, do_mark_project_as_settled"), ("vesting parameters", FN + "misc.rs calculate_vesting_info")]),
P("F10", "Only valid credentials act, within the limits of their person and role",
  "A call that needs a credential is accepted only with a token signed by the registered verifier, unexpired, for the caller's account and, where bound, the project's policy, and only for the investor types the call allows. What one identity (DID) spends on a project over all its accounts stays within the ticket maximum of its type; nobody takes part in a project of their own identity; an identity has at most one active project, and is free again exactly when that project ends, fails or is removed.",
  HX, "every credential (expired, forged, for another account or policy, of another type) on every call in every state, with several accounts per identity",
  T + "each check is tested once with one wrong credential; totals over several accounts of one identity are barely tested.",
  ["polimec-common/common/src/credentials/mod.rs", F + "lib.rs", FN + "1_application.rs", FN + "3_auction.rs", FN + "4_contribution.rs"],
  [("credential origin", "polimec-common/common/src/credentials/mod.rs EnsureInvestor"), ("limits per identity", FN + "3_auction.rs do_bid; " + FN + "4_contribution.rs do_contribute; DidWithActiveProjects")]),
P("F11", "Each participant's tokens migrate exactly once to the project's chain",
  "However messages between the chains are lost, delayed, duplicated, reordered or forged, a participant's contribution tokens are paid out on the project's chain at most once and in exactly the amount recorded; a migration is confirmed here only after it was executed there (or by the issuer's own confirmation), can be sent again only after it failed, and once confirmed stays so. The counter of unfinished migrations is the number of participants not confirmed, and a project finishes migration only at zero. Readiness needs the true answers of the right chain to the queries asked.",
  HF, "every schedule of sends, losses, duplicates, reorderings, late and forged answers and retries over two chains and several projects",
  T + "messages are answered at once, once and truthfully in every test, on one project.",
  [FN + "7_ct_migration.rs", FN + "misc.rs", "pallets/polimec-receiver/src/lib.rs"],
  [("sending and confirming", FN + "7_ct_migration.rs do_send_pallet_migration_for, do_confirm_pallet_migrations; " + FN + "misc.rs change_migration_status"), ("receiving", "pallets/polimec-receiver/src/lib.rs execute_migrations"), ("readiness", FN + "7_ct_migration.rs do_start_pallet_migration_readiness_check, do_pallet_migration_readiness_response")]),
P("F12", "No message from outside can crash the chain or act for another",
  "Any response, for any query, from any location and of any shape, and any channel request or acceptance, is either handled as specified or refused without effect: it never panics, and never changes a project whose chain is not the sender or whose query it does not answer.",
  HF, "every response shape (empty, oversized, of the wrong kind), query id and sender in every state, and every channel event",
  T + "only well-formed responses from the right chain are tested.",
  [FN + "7_ct_migration.rs", F + "lib.rs"],
  [("responses", FN + "7_ct_migration.rs do_pallet_migration_readiness_response, do_confirm_pallet_migrations"), ("channels", FN + "7_ct_migration.rs do_handle_channel_open_request, do_handle_channel_accepted")]),
P("F13", "Evaluations are bonded, counted and capped as recorded",
  "An evaluation bonds exactly the PLMC worth its USD amount at the current price; the project's totals are the sums over its evaluations, of which the first tenth of the target counts as early. The evaluation succeeds if and only if a tenth of the target is bonded at its end. An evaluation bond may be reused for the same evaluator's own bids and contributions in that project except for the slashable share, which stays bonded until settlement.",
  HI, "every sequence of evaluations by any accounts at any prices, around the early limit and the success threshold, with later reuse in bids and contributions",
  T + "the early limit and the reuse of bonds over several evaluations are sampled by single examples.",
  [FN + "2_evaluation.rs", FN + "misc.rs"],
  [("evaluating", FN + "2_evaluation.rs do_evaluate, do_end_evaluation"), ("reuse", FN + "misc.rs try_plmc_participation_lock")]),
P("F14", "Contributions sell what is left, at the average price, to those allowed",
  "In the community round tokens are sold at the weighted average price, never more than are left (a larger order buys the rest); tokens auctioned, contributed and left always add up to the allocation. Before the remainder phase winning bidders cannot contribute. Every contribution respects ticket sizes, currencies, multiplier limits and contribution limits, and locks exactly the funding asset and bond it costs.",
  HI, "every sequence of contributions by any accounts, modes and assets, around selling out and the start of the remainder phase",
  T + "selling out and the phase change are tested with one contribution each.",
  [FN + "4_contribution.rs"],
  [("contributing", FN + "4_contribution.rs do_contribute, do_perform_contribution")]),
P("L01", "Bonded tokens are released linearly, on schedule and completely",
  "A release schedule locks its amount until its start, then frees the per-block amount each block until nothing is left, whoever calls and however often; schedules of different hold reasons do not touch each other. Adding, merging or removing schedules never loses funds: merging two running schedules keeps the sum still locked and the later end, and everything is free when all are over. Transfers of vested funds are refused when too small or when the account has too many schedules.",
  HI, "every set of schedules (future, running, ended, dust, huge) and every order of vesting, merging, adding and transferring",
  "The unit tests use a few round schedules at chosen blocks.",
  [LR + "impls.rs", LR + "types.rs", LR + "lib.rs"],
  [("schedule arithmetic", LR + "types.rs VestingInfo"), ("vest, merge, add", LR + "impls.rs exec_action, merge_vesting_info, add_release_schedule, write_release")]),
P("P01", "One-token-model bonds come from the treasury and return to it",
  "A participation in the one-token model bonds the treasury's PLMC for the user against a fee of the configured share in the user's funding asset; until settlement the project's bonding account holds exactly the bonds and fees of those participations. Refused and failed participations get their fee back, the fees of successful ones go to the fee recipient, and the treasury's PLMC returns to it at once on failure and after the vesting period on success, neither earlier nor to anybody else.",
  HI, "every history of one-token-model bids and contributions, settlements, releases and transfers by anybody",
  "The unit tests bond and release once per mode.",
  [PB + "functions.rs", PB + "lib.rs", FN + "misc.rs", FN + "6_settlement.rs"],
  [("bonding", PB + "functions.rs bond_on_behalf_of, calculate_fee"), ("releasing", PB + "functions.rs set_release_type, refund_fee; " + PB + "lib.rs transfer_bonds_back_to_treasury, transfer_fees_to_recipient")]),
P("F15", "The dispenser serves each verified person once, with vesting",
  "The dispenser pays its configured amount once to each identity with a valid credential of the whitelisted policy, and to no one twice whichever account asks; the part not initially free vests linearly after the lock period. It pays only while it has the funds, never more than it has, and only the administrator can change the amount.",
  HX, "every credential and every sequence of claims by accounts of the same or different identities, with changing amounts and funds",
  "The unit tests claim once or twice with fresh accounts.",
  [DI + "lib.rs"], [("dispensing", DI + "lib.rs dispense")]),
P("F16", "What the read-only interface tells of a project is true",
  "The queries of the runtime interface (top evaluations, bids and contributions of a project, projects by funds raised or by the share of their target, contribution tokens of an account, projects and participations of a person, tokens to expect for an amount of a funding asset, least and greatest amount a person may give, the one-token-model fee, release schedules that may be merged) answer from the state as it is: complete up to the number asked for, greatest first, of the right project and person, with no entry that does not exist, and with amounts that agree with how calls price them; no query about an existing project panics.",
  HX, "every state a campaign can reach and every argument",
  "The unit tests ask each query once in a prepared state.",
  ["pallets/funding/src/runtime_api.rs", "pallets/funding/src/functions/misc.rs"],
  [("queries", "pallets/funding/src/runtime_api.rs impl Pallet")]),
]
