"""Properties of the staking domain (sim crate: stake)."""
from gov_props import P
S = "pallets/parachain-staking/src/"
HI = ["histories", "inputs", "schedules", "configurations"]
HF = ["histories", "inputs", "schedules", "fault_sequences", "configurations"]
T = "The unit tests check chosen candidates and delegations after a few calls; "
NOTE = "seeded simulation of the real staking pallet over many rounds, every call and block compared with a reference model that derives totals, rankings, collators, snapshots and rewards from who bonded and delegated what; sampling, not proof"

PROPS = [
P("K01", "Staked tokens are on hold exactly while they are staked",
  "At any moment the tokens an account has on hold as a collator candidate equal its bond, and those it has on hold as a delegator equal the sum of its delegations. They come back in full when the candidate or the delegator leaves, when a delegation is revoked, decreased or displaced, and when its candidate leaves; nobody but the payer of rewards ever loses a token to staking, and nobody stakes more than the free balance above the minimum.",
  HI, "every history of bonds, delegations, requests and exits of any accounts, with balances moved and locked meanwhile",
  T + "the holds of all accounts are not compared with all records.",
  [S + "types.rs", S + "lib.rs", S + "delegation_requests.rs"],
  [("holds", S + "types.rs adjust_bond_lock, bond_more, execute_bond_less"), ("leaving", S + "lib.rs execute_leave_candidates")]),
P("K02", "All records of the stake agree",
  "A candidate's delegation count, counted stake, room and bounds, the pool of active candidates, each delegator's list and total, and the network's total stake always are what follows from the bonds and delegations made, increased, decreased and removed so far.",
  HI, "every history of calls that change bonds and delegations, with equal amounts and full lists",
  T + "sums over all candidates and delegators after long histories are not.",
  [S + "types.rs", S + "lib.rs"],
  [("derived records", S + "types.rs reset_top_data, reset_bottom_data, add_delegation, rm_delegation_if_exists, increase_delegation, decrease_delegation"), ("total", S + "lib.rs delegator_leaves_candidate, execute_leave_candidates")]),
P("K03", "The greatest delegations count, and only a greater one displaces",
  "Of the delegations to a candidate the greatest up to the limit are counted, the next up to the second limit are kept uncounted, both in order. When both are full a new delegation is accepted only if it is greater than the lowest, which is then displaced and loses its request and auto-compounding with it; among equals the earlier keep their place.",
  HI, "every sequence of delegations, increases, decreases and removals to full and nearly full candidates, with equal amounts",
  T + "single moves between the two lists are tested, not sequences with ties.",
  [S + "types.rs"],
  [("ranking", S + "types.rs add_top_delegation, add_bottom_delegation, rm_top_delegation, increase_bottom_delegation, decrease_top_delegation")]),
P("K04", "Leaving and decreasing wait for their delay and can be cancelled",
  "A candidate's exit and bond decrease, a delegator's exit, and the revocation or decrease of a delegation are scheduled first, one per delegation, and take effect only when anybody executes them after the configured number of rounds for that kind; until then the owner can cancel. Executing does exactly what was asked for; an exit replaces pending decreases, and an open revocation stays as it is.",
  HI, "every interleaving of schedules, cancellations, executions, exits and rounds, with all delays different",
  T + "the delays are all equal in the test configuration.",
  [S + "delegation_requests.rs", S + "types.rs", S + "lib.rs"],
  [("delegation requests", S + "delegation_requests.rs delegation_schedule_revoke, delegation_schedule_bond_decrease, delegation_execute_scheduled_request, delegator_schedule_revoke_all"), ("candidates", S + "types.rs schedule_bond_less, schedule_leave, can_leave")]),
P("K05", "Roles and limits hold, and a refused call leaves no trace",
  "Nobody is candidate and delegator at once; bonds, delegations and a delegator's whole stake never fall below their minimums through a call, also not through several pending requests together; the number of delegations is limited; the counts given in advance must cover the real ones. A call in order succeeds; one that is not is refused and changes nothing.",
  HI, "every call by anybody (signed, root or unsigned) in every state, with amounts and counts at and around the limits",
  T + "each refusal is tested once, for its error only.",
  [S + "lib.rs", S + "auto_compound.rs", S + "delegation_requests.rs"],
  [("checks", S + "lib.rs dispatchables; " + S + "auto_compound.rs delegate_with_auto_compound")]),
P("K06", "The collators are the active candidates with the most counted stake",
  "At each round the collators are the active candidates with the greatest counted stake, up to the configured number (among equals the greater account), in order of account; candidates who are offline or leaving are not chosen from then on. With no active candidate at all the collators of the round before go on.",
  HI, "every set of candidates joining, leaving, going on- and offline, with changing and equal stakes",
  T + "the choice among equal and changing stakes over many rounds is not.",
  [S + "lib.rs"],
  [("choice", S + "lib.rs compute_top_candidates, select_top_candidates; " + S + "types.rs update_active")]),
P("K07", "A round's exposure is taken at its start, net of what is leaving",
  "The snapshot of each collator at the start of a round holds its bond and its counted delegations, less what pending requests of those delegations will take out, with the auto-compounding then set, and the total of these. Nothing that happens later changes it; it is used once.",
  HI, "every state of requests and delegations at the start of rounds",
  T + "one request at a time is tested.",
  [S + "lib.rs"],
  [("snapshot", S + "lib.rs select_top_candidates, get_rewardable_delegators")]),
P("K08", "Rewards follow the snapshot, are paid once, and only by the paymaster",
  "A round's issuance is the configured rate for the stake at its start; after the delay each collator with points is paid once, one per block: its share by points, of which the commission and its part by stake go to the collator and the rest to its delegators by their part in the snapshot, whatever happened since. Rewards come from the paying account alone, never more than it can spend; the issuance of tokens does not change.",
  HF, "every distribution of points and stakes, changing commission and settings, candidates and delegators who left meanwhile, and a paymaster without funds",
  T + "payouts are compared for single rounds with a full paymaster.",
  [S + "lib.rs"],
  [("payout", S + "lib.rs prepare_staking_payouts, handle_delayed_payouts, pay_one_collator_reward, compute_issuance")]),
P("K09", "Auto-compounding restakes the chosen part of each reward",
  "The part of a reward a delegator chose for a delegation is added to it (rounded up) when the reward is paid, if the delegation still stands and no revocation is pending; otherwise the reward is paid in full and nothing fails. The choice ends with the delegation - revoked, displaced or its candidate gone - and only its delegator changes it.",
  HI, "every history of settings, displaced, revoked and renewed delegations and payments",
  T + "what remains of a setting after a delegation ended in each way is not.",
  [S + "auto_compound.rs", S + "lib.rs"],
  [("compounding", S + "lib.rs mint_and_compound; " + S + "auto_compound.rs set_auto_compound, remove_auto_compound")]),
P("K10", "Rounds and sessions follow the blocks",
  "A round ends exactly when its length has passed since its first block, with the length then in force; with it the session ends and the next gets the collators chosen. Each author gets the points of its block in the round the block belongs to, and the estimates of session ends agree.",
  HI, "every sequence of blocks, authors and changes of the round length",
  T + "rounds of one length are tested.",
  [S + "lib.rs", S + "types.rs"],
  [("rounds", S + "types.rs RoundInfo; " + S + "lib.rs on_initialize, should_end_session, new_session"), ("points", S + "lib.rs award_points_to_block_author")]),
P("K11", "Only governance changes the settings, within their bounds",
  "Expectations, inflation, number of collators, commission, round length and reserve change only by governance, to valid values, and take effect from then on. The inflation per round always is the one that compounds to the annual inflation for the round length.",
  HI, "every value of every setting, in every order",
  T + "single values are tested.",
  [S + "lib.rs", S + "inflation.rs"],
  [("settings", S + "lib.rs set_staking_expectations, set_inflation, set_total_selected, set_collator_commission, set_blocks_per_round"), ("inflation", S + "inflation.rs perbill_annual_to_perbill_round, reset_round")]),
P("K12", "Staking never gets stuck: rounds go on and everybody can leave",
  "No call and no block panics. From any state every delegator and every candidate can leave within the configured delays, in any order and whatever is pending, gets everything back, and rounds keep turning.",
  HF, "every state reached by any history, followed by the exit of everybody in any order",
  T + "leaving is tested from fresh states.",
  [S + "lib.rs", S + "delegation_requests.rs", S + "types.rs"],
  [("leaving", S + "lib.rs execute_leave_candidates; " + S + "delegation_requests.rs delegator_execute_scheduled_revoke_all")]),
]
