// Exhaustive instances of the vault specification: decimals of one digit to base 4,
// a handful of coins, every order of operations.
module coresmall {
  import core.* from "./core"

  var w: World

  pure val BASKET = Set("uatom", "ujuno", "uosmo")
  pure def feeArgs(m: int, b: int, s: bool, r: int): FeeArgs =
    { collector: "coll0", mint: m, burn: b, sf: s, rate: r, freeze: false }

  pure def start(units: List[Unit], purse: int, f: FeeArgs, trades: (str, str) -> TradeInfo): World = {
    c: { gov: "gov0", pending: "", paused: false, pauseExp: -1, reserve: "uosmo", supply: 0,
         collector: f.collector, mintFee: f.mint, burnFee: f.burn,
         sf: f.sf, sfRate: f.rate, sfColl: Map(), sfFreeze: false, sfLast: if (f.sf) 1 else 0,
         units: units, resUnits: [], reb: false, mgr: "", defl: [], infl: [], trades: trades },
    now: 1,
    pools: Map(1 -> { a: "uatom", b: "uosmo", num: 1, den: 1 }, 2 -> { a: "ujuno", b: "uosmo", num: 2, den: 1 }),
    skew: 100, debt: Map(), streamed: Map(), realized: Map(), rebStart: -1,
    bank: tuples(Set("alice", "coll0", CORE, POOL), BASKET.union(Set(IDX))).mapBy(k =>
      if (k._2 == IDX or k._1 == CORE or k._1 == "coll0") 0 else if (k._1 == POOL) 20 else purse),
  }
  action apply(op: Op): bool = {
    val r = exec(w, op)
    // (a bounded number of roundings and of accruals)
    all { r.ok, r.w.debt.keys().forall(d => r.w.debt.get(d) <= 2 * ONE),
          r.w.streamed.keys().forall(d => r.w.streamed.get(d) <= 3), w' = r.w }
  }
  pure def attach(units: List[Unit], n: int): str -> int = deposit(units, n)
  action mints(n: int): bool =
    nondet a = 1.to(n).oneOf()
    all { w.c.supply + a <= 3, apply(Mint({ s: "alice", amt: a, rcv: "", ref: "", funds: attach(accrueAt(w.c, w.now).units, a) })) }
  action burns(n: int): bool =
    nondet a = 1.to(n).oneOf()
    nondet s = Set("alice", "coll0").oneOf()
    apply(Burn({ s: s, to: "", funds: Map(IDX -> a) }))
  action wait(last: int): bool = all { w.now < last, apply(Wait(1)) }

  // ---- tokens and fees ----
  action initFees = {
    nondet u = Set(3, 5).oneOf()
    nondet m = Set(-1, 1).oneOf()
    nondet b = Set(-1, 2).oneOf()
    nondet s = Set(0, 1, 2).oneOf()
    w' = start([{ d: "uatom", u: u }, { d: "ujuno", u: 4 }], 6, feeArgs(m, b, s > 0, s), Map())
  }
  action stepFees = any {
    mints(2), burns(3), wait(3), apply(Realize("coll0")),
    apply(UpdateFee({ s: "gov0", f: feeArgs(-1, 1, true, 1) })),
    apply(UpdateFee({ s: "gov0", f: feeArgs(-1, -1, false, 0) })),
  }

  // ---- rebalancing ----
  action initReb = {
    nondet u = Set(3, 4, 6).oneOf()
    nondet s = Set(0, 2).oneOf()
    w' = start([{ d: "uatom", u: u }, { d: "uosmo", u: 2 }], 6, feeArgs(-1, -1, s > 0, s), Map(
      ("uatom", "uosmo") -> { routes: [{ pool: 1, d: "uosmo" }], cooldown: 1, maxAmt: 2, last: -1 },
      ("uosmo", "ujuno") -> { routes: [{ pool: 2, d: "ujuno" }], cooldown: 0, maxAmt: 9, last: -1 }))
  }
  pure val PLANS: Set[{ defl: List[Unit], infl: List[Unit] }] = Set(
    { defl: [{ d: "uatom", u: 0 }], infl: [{ d: "ujuno", u: 1 }] },
    { defl: [{ d: "uatom", u: 2 }], infl: [{ d: "uosmo", u: 1 }, { d: "ujuno", u: 2 }] },
    { defl: [{ d: "uosmo", u: 1 }], infl: [{ d: "ujuno", u: 3 }] },
  )
  action stepReb = any {
    all { w.c.reb implies w.c.supply < 3, mints(2) }, burns(2), wait(3),
    { nondet p = PLANS.oneOf()
      apply(Init({ s: "gov0", mgr: "", defl: p.defl, infl: p.infl })) },
    { nondet d = BASKET.oneOf()
      nondet x = 1.to(2).oneOf()
      apply(Deflate({ s: "alice", d: d, x: x, lim: 9 })) },
    { nondet d = BASKET.oneOf()
      nondet x = 1.to(2).oneOf()
      apply(Inflate({ s: "alice", d: d, x: x, lim: 1 })) },
    apply(Finalize("alice")), apply(Realize("coll0")),
  }

  val inv = and { collateralized(w), supplyMatches(w), feesAccounted(w), ratesBounded(w), rebalanceSane(w), noNegative(w), conserved, finishable(w), redeemable(w, Set("alice", "coll0")) }
  val conserved = BASKET.forall(d => w.bank.keys().fold(0, (s, k) => if (k._2 == d) s + w.bank.get(k) else s) == 26)
}
