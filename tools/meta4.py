p("X01", "Results depend on the arguments alone",
  "No library function reads the clock, the operating system's or a thread's random numbers, the environment, files, the network, another thread or a memory address, keeps hidden state that one call changes and a later one sees, or lets the visiting order of an unordered collection show in its result. Random paths come only from generators seeded by the caller. The one exception is resolving an exchange contract code without a reference date, which uses today's date.",
  "every function, closure and static of the library, on every call path", "A run twice on one machine gives the same numbers by luck; absence of an effect on every path is not observable from samples.",
  ["src"], [("seeded generators", "src/models/*: ChaCha20Rng::seed_from_u64"), ("look-up tables built once", "src/time/calendars/hongkong.rs, israel.rs"), ("today's date", "src/time/imm.rs date")], over=("programs", "histories"),
  technique="whole-program effect rule over the exported MIR: callees, types of locals, statics, forward dataflow from hash iteration",
  note="Every body of the crate is visited, reachable or not. Effects inside dependencies are known by name (the list is in sa/props/effects.py); an unlisted dependency function is taken to be deterministic. Printing is allowed.")
p("X02", "Serialized values read back as themselves",
  "Every type that can be both written and read by the serialization framework writes every field and variant, under a name that is read back into that same field or variant and no other. Each calendar and day counter is written under its own type tag, registered for that type and for no other.",
  "every serializable type, field, variant and type tag", "Tests round-trip two of the eighty-odd types with one value each.",
  ["src/derivatives", "src/markets", "src/time"], [("derived serialization", "src/**: derive(Serialize, Deserialize)"), ("type tags", "src/time/calendars.rs, src/time/daycounters.rs: typetag::serde")],
  technique="names written per field against names accepted per field, read off the expanded and type-checked program",
  note="Both generated directions are inspected, so attributes on one side only are seen. Trusts that the derive macros apply a name to the field they were given it for; hand-written directions, conditional writing and flattening are left undecided.")

REF = "acceptance predicate over MIR (explicit panics become marked early exits), compared with the stated condition by value-graph equivalence"
p("X03", "Model inputs outside their domain are refused on construction",
  "Building model inputs panics exactly when they break a stated domain: unordered or mismatched dates, knots, grids and schedules, correlations outside their range or asymmetric, non-positive volatility levels, elasticities outside zero to one, too few groups, terms or tenor points. Every admissible input is accepted, its boundary included.",
  "every constructor argument", "Tests hit each refusal with one bad value and never at its boundary; a refusal dropped or widened lets a nonsensical model price quietly.",
  ["src/models"], [("constructor checks", "src/models/**: assert! in new, with_*, build")],
  technique=REF, note="Explicit panics only: an index out of range or a failed unwrap is not covered, and a not-a-number input is not distinguished from a number. Panics inside the functions called count where they are called.")
p("X04", "Evaluations and simulations refuse meaningless arguments and no others",
  "A simulation refuses a non-positive horizon, step count or path count, a single step a non-positive length, an option price a non-positive strike, an inverse distribution a probability outside the open unit interval, a schedule a time outside its span, a tenor an index outside its range. A characteristic function refuses an odd or too coarse quadrature, a fit refuses an empty market, and every meaningful argument is accepted.",
  "every argument of every evaluating function of the models", "Tests call these with ordinary arguments; a dropped or narrowed refusal shows only at the boundary.",
  ["src/models", "src/math"], [("argument checks", "src/models/**, src/math/{normal,optimize}.rs: assert!")],
  technique=REF, note="Explicit panics only: an index out of range or a failed unwrap is not covered, and a not-a-number input is not distinguished from a number. The calibration entry points of the rate-linked models are not included.")

WHYNUM = "Sampled tests accept an error bound at a few parameters."
na("N01", "Simulated prices converge to analytic prices",
   "The average discounted payoff over simulated paths converges, as paths and steps grow, to the price given by the characteristic function of the same model.",
   "every model, parameter set, payoff and seed", WHYNUM, ["src/models"], [("simulators", "src/models/**: Simulator types"), ("pricers", "src/models/common/cos_pricer.rs")],
   "A statement about limits of random averages; no static argument over the source bounds the sampling and discretisation error. What is decided instead: the step equations (M05, M11, M14, M20, M27, M32) and the closed forms (M21, M24, M30) separately.")
na("N02", "Calibrations reach the least possible error",
   "Every calibration ends at parameters whose squared error is the least over the admissible set.",
   "every market and start", WHYNUM, ["src/models"], [("calibrators", "src/models/**: calibrate functions"), ("optimiser", "src/models/common/calibration.rs")],
   "A derivative-free local search guarantees no global minimum, so the property is false of the method in general and, where true, depends on the objective's shape at run time. Decided instead: the objectives (M16, M17, M22, M25, M31) and each move of the search (M10).")
na("N03", "Bootstrapped curves reprice their instruments to tolerance",
   "Every instrument used to build a discount curve is worth zero on the curve to the solver's tolerance.",
   "every set of quotes", WHYNUM, ["src/markets/termstructures/yieldcurve.rs"], [("root search", "src/markets/termstructures/yieldcurve.rs get_stripped_curve")],
   "Whether the root search converges within its iterations depends on runtime values. Decided instead: the equation solved for each pillar and the use of its root (Y properties).")
na("N04", "Results are accurate to rounding",
   "Every price, discount factor and volatility is within a small relative error of its exact real value, with no overflow, cancellation or not-a-number for finite inputs.",
   "every finite input", WHYNUM, ["src"], [("closed forms", "src/models, src/derivatives")],
   "Needs input ranges the interfaces do not state and error analysis of transcendental functions; the analyses here read floating point as real arithmetic.")
na("N05", "The cosine series has converged at the default number of terms",
   "With the default number of terms and range, the cosine price is within a small error of the exact Fourier price for every model.",
   "every characteristic function, strike and expiry", WHYNUM, ["src/models/common/cos_pricer.rs"], [("series", "src/models/common/cos_pricer.rs")],
   "The truncation error depends on the decay of the characteristic function at run-time parameters. Decided instead: every term of the series, its range and weights (M09).")
