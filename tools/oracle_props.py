"""Properties of the price oracle's offchain worker (sim crate: oracle)."""
from gov_props import P
O = "pallets/oracle-ocw/src/"
HF = ["histories", "inputs", "schedules", "fault_sequences", "crash_points", "configurations"]
T = "The only offline unit test runs one worker against ready answers; "
NOTE = "seeded simulation of the real offchain worker on simulated nodes with interleaved workers, exchanges that fail in every way, crashes at any host call and re-organised chains; the prices and times of all feeds are compared with what the exchanges answered; sampling, not proof"

PROPS = [
P("O01", "A fed price is the volume-weighted mean of what the exchanges answered",
  "The price a node feeds for an asset is the mean of the typical prices (high, low and close) of the latest candles (15 of a minute; for PLMC 10 of half an hour), weighted by the quantity traded in each, over all exchanges that list the asset and answered properly in time. Every listing exchange is asked; an answer with another status, malformed, with too few candles (Kraken and XT are taken for what they have), with impossible numbers or without volume does not count; no price is fed from nothing.",
  HF, "every combination of answers, their numbers, order, length and timing",
  T + "its prices are the same on all exchanges, to a thousandth.",
  [O + "types.rs", O + "traits.rs", O + "lib.rs"],
  [("answers", O + "types.rs parse_body"), ("mean", O + "traits.rs get_moving_average; " + O + "lib.rs combine_prices")]),
P("O02", "No exchange can keep a node from feeding",
  "Whatever one exchange does (refuse, stay silent, answer late, piecemeal, endlessly, cut off, garbled or with absurd numbers), the worker never panics, ends within a minute, and feeds the price that follows from the proper answers of the others.",
  HF, "every behaviour of any exchanges, changing at any time",
  T + "no failing exchange is simulated.",
  [O + "traits.rs", O + "types.rs", O + "lib.rs"],
  [("deadlines", O + "traits.rs get_moving_average"), ("numbers", O + "types.rs from_u100f28, vwp; " + O + "lib.rs combine_prices")]),
P("O03", "Each asset is fed once per window, as soon as it can be",
  "A node asks for prices only at blocks within the first FetchWindow blocks of an interval and only for assets it has not fed in that window yet; it feeds each at the first such block at which an exchange answers and its pool takes the transaction, tries the others again at the next block, and never feeds an asset twice in a window, also when workers run twice, late, for older blocks or at the same time. Only a crash between sending and noting it, or a damaged local database, may repeat a feed. No two workers of a node ask at the same time.",
  HF, "every schedule of blocks, re-organisations, repeated and concurrent workers, partial failures and crashes at any host call",
  T + "no second worker, crash or failure is simulated.",
  [O + "lib.rs"],
  [("window and record", O + "lib.rs offchain_worker"), ("lock", O + "lib.rs LOCK_TIMEOUT_EXPIRATION")]),
P("O04", "Only a member's node feeds, signed with the member's key",
  "A node asks for prices only if its keystore holds the key of an account that is a member at that block, wherever in the keystore it is; the transaction it sends is correctly signed by such a member with that account's next nonce.",
  ["histories", "inputs", "schedules", "configurations"], "every content and order of the keystores and every change of the members",
  T + "its keystore holds one key.",
  [O + "lib.rs", O + "crypto.rs"],
  [("choice of the key", O + "lib.rs offchain_worker, send_signed_transaction")]),
P("O05", "Once faults stop every member's node feeds every asset in every window",
  "After crashes, damaged databases, failing exchanges, full pools and forks have ceased, a node with a member's key feeds the prices of all assets in each following window, also if its database stems from a version that did not know PLMC; nothing a crash leaves behind blocks it for more than a minute.",
  HF, "every history of faults before",
  T + "no recovery is simulated.",
  [O + "lib.rs"],
  [("lock and record after a crash", O + "lib.rs offchain_worker")]),
]
