from gov_props import P
PROPS = [
(P("M01", "Generated account constants are distinct and stable",
   "The account-generating macro gives every listed name one constant that is distinct from all others and the same in every build.",
   ["programs"], "every list of names given to the macro",
   "The test uses one list.", ["macros/src/lib.rs"], [("macro", "macros/src/lib.rs generate_accounts")]),
 "a pure compile-time macro: no schedule, time, I/O, randomness or second party for a simulator to vary"),
]
