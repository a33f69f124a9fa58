"""Properties of how transactions are paid for (sim crate: fee)."""
from gov_props import P
R = "runtimes/shared-configuration/src/"
HF = ["histories", "inputs", "fault_sequences", "configurations"]
T = "There are no offline unit tests of the fee handlers (those of the runtime need a whole chain and pay two or three fees under calm conditions). "
NOTE = "seeded simulation of the runtime's real fee handlers on real balances, with prices, authors, treasury and the payer's money changing before, during and after calls; all balances are compared with a model at every stage; sampling, not proof"

PROPS = [
P("T01", "What a transaction pays in PLMC goes to the treasury and its author",
  "A transaction that pays in PLMC is charged its fee and tip beforehand, only if the payer can afford it and stays alive, and is refused without effect otherwise. Afterwards what the work did not need is given back as far as the payer can receive it; the corrected fee goes to the operations treasury and the tip to the block's author, whatever the call did to anybody's money. Nothing is created or lost unless there is nobody to receive it (no author known, or an amount below the existential deposit), and a call that fails still pays. Work is priced by the scarcer of time and proof size: a basic transaction's weight costs a tenth of a milli-PLMC, ten kilobytes of proof ten milli-PLMC, more work never less.",
  HF, "every weight, length, tip, outcome of the call and change of balances between charge and settlement",
  T, [R + "fee.rs", R + "currency.rs"],
  [("price of weight", R + "fee.rs WeightToFee"), ("distribution", R + "fee.rs DealWithFees")]),
P("T02", "Fees can be paid in the accepted assets at the oracle's price",
  "A transaction may pay its fee in DOT, USDC or USDT: the fee in PLMC is converted at the prices and decimals known then, to at least one unit unless there is no fee; it is refused without effect if the asset is unknown or has no price, or the payer cannot pay and keep the account. After the call the fee really due is converted at the prices known then, never to more than was taken; the rest is given back, the fee goes to the treasury, the tip to the block's author (it is burnt if none is known), in the same asset; other assets and PLMC are not touched. A transaction that cannot be settled is dropped with everything it did.",
  HF, "every price, decimals, weight, tip, outcome of the call and change of prices, balances and author between charge and settlement",
  T, [R + "fee.rs", "polimec-common/common/src/lib.rs"],
  [("charge, conversion and settlement", R + "fee.rs TxFeeFungiblesAdapter"), ("decimals-aware prices", "polimec-common/common/src/lib.rs ProvideAssetPrice")]),
]
