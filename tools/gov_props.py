"""Properties of the governance domain (sim crate: gov)."""
D = "pallets/democracy/src/lib.rs"
E = "pallets/elections-phragmen/src/lib.rs"
V = "pallets/on-slash-vesting/src/lib.rs"
HI = ["histories", "inputs", "schedules", "configurations"]
HF = ["histories", "inputs", "schedules", "fault_sequences", "configurations"]
TESTS = "The unit tests replay a handful of fixed sequences with one configuration; "

def P(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}

PROPS = [
P("D01", "Referendum tally always equals the live votes and delegations",
  "At every moment the ayes, nays and turnout of each ongoing referendum equal the sum over all accounts that currently vote on it of their own conviction-weighted vote plus everything currently delegated to them; split votes count a tenth per side without delegations. Changing, removing or re-casting a vote, delegating and undelegating in any order never leaves a residue.",
  HI, "every interleaving of vote, re-vote, removal, delegation, undelegation and referendum start/end by any number of accounts",
  TESTS + "the tally is maintained incrementally by five different calls, and an error shows only after particular orders of them.",
  [D, "pallets/democracy/src/types.rs", "pallets/democracy/src/vote.rs", "pallets/democracy/src/conviction.rs"],
  [("incremental tally update", "pallets/democracy/src/types.rs Tally::{add,remove,increase,reduce}"), ("vote, remove and delegate", D + " try_vote, try_remove_vote, try_delegate, try_undelegate, increase_upstream_delegation, reduce_upstream_delegation")]),
P("D02", "Voting and delegating funds stay locked exactly as long as conviction demands",
  "While an account votes on an ongoing referendum or delegates, at least the amount used is frozen; after a winning vote or an undelegation the amount stays frozen until the conviction's lock period has passed and is released by an unlock at that block and not before (past locks of one account merge into the largest amount until the latest end); losing, no-conviction and cancelled votes lock nothing once removed. Nobody can shorten another account's lock, and once nothing justifies a lock an unlock frees everything.",
  HI, "every history of votes, removals by oneself or by others, delegations, outcomes, cancellations and unlocks, at every block",
  TESTS + "lock length depends on the vote, the outcome, the conviction, who removes the vote and when, and on locks accumulated earlier.",
  [D, "pallets/democracy/src/vote.rs", "pallets/democracy/src/conviction.rs"],
  [("lock computation", "pallets/democracy/src/vote.rs PriorLock, Voting::{rejig,locked_balance,set_common}"), ("freeze", D + " try_vote, try_remove_vote, try_undelegate, update_lock")]),
P("D03", "A referendum ends once, on time, with the outcome its votes dictate",
  "A referendum is decided exactly once, at the block its voting period ends, as approved if and only if its final tally passes its own threshold against the electorate at that block; until then it stays open and afterwards its outcome never changes. Referenda ending in the same or in later blocks are all decided, whatever was decided or cancelled before them.",
  HI, "every history of referenda overlapping in time, cancelled or decided out of order, with every threshold",
  TESTS + "out-of-order ends, skipped indices and boundary tallies for each threshold are not sampled.",
  [D, "pallets/democracy/src/vote_threshold.rs"],
  [("deciding", D + " begin_block, maturing_referenda_at_inner, bake_referendum"), ("thresholds", "pallets/democracy/src/vote_threshold.rs Approved for VoteThreshold")]),
P("D04", "An approved referendum is enacted exactly once, as root, after its delay",
  "The call of an approved referendum is executed with root rights exactly once, not before its enactment delay has passed and as soon as the scheduler has capacity, and nothing that was not approved is ever executed. A rejected referendum, or one cancelled while open, is never enacted.",
  HF, "every history, including stalled scheduling, full blocks, late or missing call data and node crashes",
  TESTS + "enactment under stalled scheduling, with equal calls approved twice and with call data that comes and goes is not tested.",
  [D], [("scheduling of approved calls", D + " bake_referendum")]),
P("D05", "Deposits of public proposals are held while queued and always settled",
  "For every queued public proposal each backer has exactly the proposal's deposit on hold per backing; when the proposal leaves the queue by being tabled or cleared all of it is released, when it is cancelled or blacklisted all of it is slashed, and nothing else is ever held or taken. Proposals and seconds beyond the configured limits, below the minimum deposit or without funds are refused without effect.",
  HI, "every history of proposing, seconding, tabling, cancelling, blacklisting and clearing, with repeated backers",
  TESTS + "the same account backing several times, and proposals leaving the queue in every possible way, are only sampled.",
  [D], [("deposits", D + " propose, second, launch_public, cancel_proposal, blacklist, clear_public_proposals")]),
P("D06", "Each launch period tables the best-backed proposal, alternating with externals",
  "At every launch period boundary, and only there, exactly one waiting motion becomes a referendum: the public proposal with the greatest total backing or the waiting external one, alternating when both wait and falling back to the other when one queue is empty. The new referendum carries the queued call, the threshold of its origin and the configured voting and enactment periods.",
  HI, "every sequence of proposals, backings and externals over many launch periods",
  TESTS + "alternation and selection depend on the queues' history over many periods.",
  [D], [("tabling", D + " launch_next, launch_public, launch_external")]),
P("D07", "Vetoes, blacklisting and cancellation bind for their full term",
  "A vetoed motion cannot be proposed again as a public or ordinary external proposal before its cool-off ends, nor vetoed twice by the same account; a blacklisted one can never be, and blacklisting removes every queued copy, the waiting external and the named referendum. A cancelled referendum disappears without outcome or enactment, and the same call can be emergency-cancelled only once.",
  HI, "every history of vetoes, cool-offs, blacklistings, cancellations and re-proposals",
  TESTS + "combinations (veto of a blacklisted call, several queued copies, cancelling between end and enactment) are not tested.",
  [D], [("veto, blacklist and cancel", D + " veto_external, blacklist, emergency_cancel, cancel_referendum, internal_cancel_referendum")]),
P("D08", "Externals and fast-tracking obey their origins, thresholds and minimum periods",
  "Only the authorised body can set an external motion of each kind, only one ordinary external can wait at a time, and privileged calls by anyone else change nothing. Fast-tracking needs the waiting majority- or default-carries motion with the given hash and at least the minimum voting period, unless instant voting is allowed and the instant body asks, and then starts exactly that referendum with that motion's threshold, period and delay.",
  HI, "every combination of caller, waiting motion, hash, voting period, delay and instant setting in every state",
  TESTS + "one or two combinations of origin, threshold and period are tested.",
  [D], [("external and fast-track calls", D + " external_propose*, fast_track")]),
P("D09", "Metadata follows its motion and never outlives or switches it",
  "Metadata set by the rightful owner of a proposal, external or referendum stays attached to that motion, moves with it when it becomes a referendum, and disappears when the motion is cancelled, vetoed, blacklisted, replaced or cleared. It never shows up on a different motion, and only known call data can be attached.",
  HI, "every history of setting, clearing, tabling, fast-tracking, vetoing and cancelling",
  TESTS + "transfers combined with removals and later motions in the same slot are not tested.",
  [D], [("metadata", D + " set_metadata, transfer_metadata, clear_metadata")]),
P("D10", "An account either votes or delegates, and delegated power is exact",
  "An account never votes and delegates at once, never delegates to itself, holds at most the configured number of votes and at most one vote per referendum. The voting power recorded as delegated to each account always equals the sum of the delegations in force to it, however delegations are re-targeted, re-weighted or withdrawn.",
  HI, "every interleaving of votes and delegations among accounts, including cycles, chains and re-delegation",
  TESTS + "re-delegation chains with accounts that vote in between are not tested.",
  [D, "pallets/democracy/src/vote.rs"], [("delegation", D + " try_delegate, try_undelegate, increase_upstream_delegation, reduce_upstream_delegation")]),
P("E01", "Members, runners-up and candidates are sorted, disjoint and within limits",
  "At every moment an account is at most one of member, runner-up and candidate; members and candidates are sorted without duplicates, and each group stays within its configured size. A submission, renouncement or removal that would break this is refused without effect.",
  HI, "every history of submissions, votes, elections, renouncements and removals with every limit",
  TESTS + "several operations and elections must combine to put one account in two sets.",
  [E], [("the three sets", E + " submit_candidacy, renounce_candidacy, remove_and_replace_member, do_phragmen")]),
P("E02", "Candidacy bonds are held for the seat's life and settled exactly once",
  "Each candidate, runner-up and member has exactly the bond in force when it submitted on hold, even when the required bond changes later or it is re-elected; leaving by renouncing returns it in full, losing an election or being removed with a slash takes it in full, exactly once. No other account has candidacy funds on hold.",
  HI, "every history including bond changes between terms, removal with and without slash, re-election and replacement",
  TESTS + "the bond travels through three roles over several terms while the required bond changes.",
  [E], [("bonds", E + " submit_candidacy, renounce_candidacy, remove_and_replace_member, do_phragmen")]),
P("E03", "An election voter's stake is frozen exactly as recorded, until it may leave",
  "For every voter the frozen stake equals its recorded stake, which is what it offered capped by what it owns; within the lock period the stake cannot be reduced nor the vote removed, and afterwards removal frees everything. Only voters none of whose choices stand or serve any more can be cleaned up, and their stake is freed.",
  HI, "every history of votes, re-votes, removals, clean-ups and changing balances",
  TESTS + "re-voting with more or less stake around the lock's end, and clean-up after several terms, are not tested together.",
  [E], [("voter stake", E + " vote, remove_voter, do_remove_voter, is_defunct_voter, clean_defunct_voters")]),
P("E04", "Each term elects exactly the sequential-Phragmen winners of the current votes",
  "At every term boundary, and only there or when a removal asks for it, the members become the top winners and the runners-up the following ones of sequential Phragmen over the recorded stakes and choices, excluding those without backing, recorded with their backing and in order. Candidates are then cleared and the round advances by one.",
  HI, "every set of candidates, voters and stakes over many terms, including ties and fewer candidates than seats",
  TESTS + "a few small elections are tested; order, truncation, zero-backed winners and returning members are not varied.",
  [E], [("election", E + " on_initialize, do_phragmen")]),
P("E05", "A vacant seat is filled by the best runner-up and by nobody else",
  "When a member renounces or is removed, the best-ranked runner-up of the last election takes the seat with its own stake and bond and leaves the runners-up, the others keeping their order; with none left the seat stays empty. Renouncing in a role one does not have, or removal by anyone but the authorised origin, is refused without effect.",
  HI, "every history of renouncements and removals between and around elections",
  TESTS + "repeated replacements down to an empty list, in every role, are not tested.",
  [E], [("replacement", E + " remove_and_replace_member, renounce_candidacy, remove_member")]),
P("E06", "The prime is the highest Borda-scored member and always a member",
  "After each election the prime is the elected member with the highest stake-weighted positional score over all votes, ties going to the higher account; when the prime leaves there is none until the next election. The prime is never an account that is not a member.",
  HI, "every vote profile and every departure of members between elections",
  TESTS + "two vote profiles are tested.",
  [E], [("prime", E + " do_phragmen, remove_and_replace_member")]),
P("E07", "An election that cannot be held leaves everything as it was",
  "When an election fails, because of too many voters or votes, the members, runners-up, candidates, prime, votes, bonds and round stay unchanged, and the next boundary tries again. With no candidate and no member nothing happens either.",
  HF, "every state in which an election is attempted beyond the configured capacity",
  TESTS + "one failing election in one state is tested.",
  [E], [("failed election", E + " do_phragmen")]),
P("E08", "The collective always mirrors the elected members",
  "After every call and every block the body that receives membership changes has exactly the elected members, told through changes whose incoming and outgoing sets are sorted and consistent with what it knew. No election, renouncement or removal leaves the two different.",
  HI, "every history of elections, replacements and removals",
  TESTS + "the tests' receiver checks single changes, not their accumulation over many terms.",
  [E], [("membership changes", E + " do_phragmen, remove_and_replace_member (ChangeMembers)")]),
P("V01", "A slash reduces vesting by the slashed amount and can never fail",
  "When held funds of an account are slashed, each of its vesting schedules locks what was still locked at that block minus the slashed amount, never more than before, fully vested or fully slashed schedules end, and the vesting lock equals what the schedules still lock. It works for every combination of running, finished and not yet started schedules.",
  HI, "every set of schedules, every slashed amount and every block",
  TESTS + "two tests use running schedules and one slash each.",
  [V], [("slash handler", V + " OnSlash for pallet_vesting::Pallet")]),
P("V02", "A slash keeps each vesting schedule's timeline",
  "After a slash every remaining schedule vests linearly what it still locks, from the current block or its own later start to its own end, at the rate that division allows. A schedule that has not started yet does not start earlier because of the slash.",
  HI, "every set of schedules (running, finished, future), repeated slashes and every block",
  TESTS + "future schedules and repeated slashes are not tested.",
  [V], [("slash handler", V + " OnSlash for pallet_vesting::Pallet")]),
P("S01", "Every node that executes the same block reaches the same state",
  "Executing a block of governance calls on the same parent state gives the same resulting state on every node, after any crash, restart, reorganisation, duplicate or late delivery, and when repeated. After faults stop all nodes agree.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "every fork, reorganisation, partition, crash and delivery order among several nodes",
  TESTS + "they execute each call once in one process and never re-execute on a fork.",
  [D, E, V], [("block hooks and calls", D + ", " + E + ", " + V)]),
P("S02", "No governance call, block hook or enactment ever panics",
  "No reachable state and no signed call makes a block hook, an enactment or a governance call panic or overflow, so no block is ever lost to it.",
  HI, "every reachable state, every call with every argument, every configuration of limits and periods",
  TESTS + "arithmetic and defensive assertions fail only in states several operations deep.",
  [D, E, V], [("hooks and calls", D + ", " + E + ", " + V)]),
P("S03", "Governance neither creates nor loses funds",
  "At every moment the issuance equals the sum of what all accounts own, and each account owns exactly what it owned before minus the slashes that the rules name; holds of different purposes never mix. Refused calls change no balance.",
  HF, "every history of governance calls, slashes and enactments, with crashes and reorganisations",
  TESTS + "balances are checked for single calls, not for the sum over long histories.",
  [D, E, V], [("holds, freezes and slashes", D + ", " + E + ", " + V)]),
]
NOTE = ("Seeded exploration: the property held on every simulated run, each compared step by step with an independent reference model. "
        "Trusts the SDK pallets (balances, scheduler, preimage, vesting), sp-npos-elections and the harness's block executive; periods and limits are small.")
