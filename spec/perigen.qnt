// Behaviours of the periphery: a vault, seven denoms, six pools, two traders, a
// governor, a market that moves, and coins that get lost in the periphery.
module perigen {
  import base.* from "./base"
  import pool.* from "./pool"
  import core as C from "./core"
  import peri.* from "./peri"

  var w: World
  var gifts: str -> int                                   // ghost: ever sent to the periphery
  var last: { op: Op, ok: bool, sure: bool, why: str, out: Out, ev: List[Attr] }

  pure val TRADERS = ["alice", "bobby", "alice", "bobby", "coll0"]
  pure val HOLDERS = ["alice", "bobby", "gov0", "coll0", "coll1"]
  pure val PURSE = 10^21
  pure val FEERATES = [-1, -1, ONE / 1000, ONE / 100, ONE / 10, ONE / 3, 1, 3 * ONE / 1000]
  pure val STREAMS = [MAXRATE, MAXRATE / 2, MAXRATE / 7, MAXRATE / 1000]

  type Rnd = { a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int }

  pure def mkFee(r: Rnd): C::FeeArgs =
    { collector: pick(["coll0", "coll0", "coll1"], r.a), mint: pick(FEERATES, r.b), burn: pick(FEERATES, r.c),
      sf: r.d % 3 != 0, rate: if (r.d % 3 == 0) 0 else pick(STREAMS, r.e), freeze: r.d % 3 != 0 and r.f % 9 == 0 }

  pure def poolOf(d: str): int =
    if (d == "uatom") 1 else if (d == "ujuno") 2 else if (d == "uion") 5 else if (d == "uatoms") 6 else 4
  pure def depth(ps: PoolMap, d: str): int = if (poolOf(d) > 4) 10^12 else reserve(ps.get(poolOf(d)), d)
  // 10^(6 + z) index tokens are a few per mill of the reserves
  pure def mkUnits(ps: PoolMap, r: Rnd, z: int): List[Unit] =
    range(0, 1 + r.a % 4).foldl([], (acc, i) => {
      pure val d = DENOMS[(r.b + i * (1 + 2 * ((r.b / 7) % 2))) % 7]
      if (hasU(acc, d)) acc
      else acc.append({ d: d, u: imax(1, (depth(ps, d) * ONE * (1 + (r.c / (i + 1)) % 100)) / (10^(6 + z) * 5000)) })
    })

  pure def fresh(ps: PoolMap, units: List[Unit], f: C::FeeArgs, t0: int): World = {
    pure val c: C::Core = {
      gov: "gov0", pending: "", paused: false, pauseExp: -1, reserve: "uosmo", supply: 0,
      collector: f.collector, mintFee: f.mint, burnFee: f.burn,
      sf: f.sf, sfRate: f.rate, sfColl: Map(), sfFreeze: f.sf and f.freeze, sfLast: if (f.sf) t0 else 0,
      units: units, resUnits: [], reb: false, mgr: "", defl: [], infl: [], trades: Map() }
    pure val holders = lset(HOLDERS).union(Set(C::CORE, C::POOL, PERI))
    pure val denoms = lset(DENOMS).union(Set(IDX))
    { ps: ps,
      c: { c: c, now: t0, pools: Map(), skew: 100, debt: Map(), streamed: Map(), realized: Map(), rebStart: -1,
           bank: tuples(holders, denoms).mapBy(k =>
             if (k._2 == IDX or k._1 == C::CORE or k._1 == PERI) 0 else if (k._1 == C::POOL) 10^30 else PURSE) } }
  }

  // ---- arguments ----------------------------------------------------------------
  pure def unitsNow(x: World): List[Unit] = C::accrueAt(x.c.c, x.c.now).units
  // a deal of a given part of the reserves, in index tokens
  pure def deal(x: World, r: Rnd): int = {
    pure val us = unitsNow(x)
    pure val u = if (us.length() == 0) { d: "uosmo", u: ONE } else pick(us, r.a)
    pure val n = (depth(x.ps, u.d) * ONE) / (imax(1, u.u) * pick([60, 150, 400, 1000, 5000, 100000, 10^7], r.b))
    imax(1, (n * (50 + r.c % 100)) / 100)
  }
  pure def via(r: Rnd): Via = { v: r.g % 2, miss: if (r.h % 23 == 0) pick(DENOMS, r.a) else "" }
  pure def paying(x: World, r: Rnd): str =
    if (r.d % 3 == 0 and unitsNow(x).length() > 0) pick(unitsNow(x), r.e).d else pick(DENOMS, r.e)
  pure def coinsOf(d: str, n: int, r: Rnd): str -> int =
    if (r.h % 29 == 1) Map(d -> imax(1, n)).put(if (d == "uion") "uos" else "uion", 5)
    else if (r.h % 29 == 2) Map()
    else if (r.h % 29 == 3) Map((if (d == "uatom") "uosmo" else "uatom") -> imax(1, n))
    else Map(d -> imax(1, n))
  pure def idxOf(x: World, s: str): int = bal(x.c.bank, s, IDX)
  pure def holder(x: World, r: Rnd): str = {
    pure val l = HOLDERS.select(a => idxOf(x, a) > 0)
    if (l.length() == 0) "alice" else pick(l, r.f)
  }
  // a fraction of what the account has, sized like a deal
  pure def lot(x: World, s: str, r: Rnd): int = {
    pure val have = idxOf(x, s)
    imax(1, pick([have, imin(have, deal(x, r)), imin(have, deal(x, r)), have / 2, imin(have, deal(x, r)), imin(have, deal(x, r) / 7), have / 1000], r.g / 2))
  }

  pure def genMintOut(x: World, r: Rnd): Op = {
    pure val idx = if (r.h % 31 == 0) pick([0, 1, 3, 17], r.c) else deal(x, r)
    pure val d = paying(x, r)
    pure val v = via(r)
    pure val t = costOf(x.ps, buyRoutes(d, v.v), unitsNow(x), idx, d)
    pure val n = t.tot + pick([t.tot / 50 + t.tol + 10, t.tot / 10 + t.tol + 10, t.tol + 1, t.tot, t.tol + t.tot / 1000, 9 * t.tot, -(t.tot / 2), -t.tol - 1, -t.tot / 100 - t.tol - 1, 0, 1], r.f)
    MintOut({ s: pick(TRADERS, r.f / 11), idx: idx, d: d, via: v, funds: coinsOf(d, imin(n, PURSE), r) })
  }
  pure def genMintIn(x: World, r: Rnd): Op = {
    pure val idx = deal(x, r)
    pure val d = paying(x, r)
    pure val v = via(r)
    pure val t = costOf(x.ps, buyRoutes(d, v.v), unitsNow(x), idx, d)
    pure val net = imax(0, idx - C::mintFeeOf(x.c.c, idx))
    pure val pct = pick([999, 990, 980, 950, 900, 800, 500, 300, 1010, 1100, 2000, 995], r.f)
    MintIn({ s: pick(TRADERS, r.f / 12), d: d, min: if (r.h % 19 == 5) 0 else (net * pct) / 1000, via: v,
             funds: coinsOf(d, imin(t.tot + pick([0, 6000, t.tot / 100], r.h), PURSE), r) })
  }
  pure def genBurnIn(x: World, r: Rnd): Op = {
    pure val s = holder(x, r)
    pure val n = lot(x, s, r)
    pure val d = paying(x, r)
    pure val v = via(r)
    pure val t = yieldOf(x.ps, sellRoutes(d, v.v), unitsNow(x), n - C::burnFeeOf(x.c.c, n), d)
    pure val min = pick([t.tot - t.tot / 50 - t.tol, t.tot - t.tot / 10 - t.tol, t.tot - t.tol - 1, t.tot / 2, 1, 0, t.tot + t.tol + 1, t.tot + t.tot / 50 + t.tol + 1, 2 * t.tot + t.tol], r.a / 3)
    BurnIn({ s: s, d: d, min: imax(0, min), via: v, funds: coinsOf(IDX, n, r) })
  }
  pure def genBurnOut(x: World, r: Rnd): Op = {
    pure val s = holder(x, r)
    pure val n = lot(x, s, r)
    pure val d = paying(x, r)
    pure val v = via(r)
    pure val t = yieldOf(x.ps, sellRoutes(d, v.v), unitsNow(x), n - C::burnFeeOf(x.c.c, n), d)
    pure val pct = pick([990, 980, 950, 900, 800, 500, 300, 1005, 1020, 1100, 2000, 995], r.b)
    BurnOut({ s: s, d: d, want: imax(1, (t.tot * pct) / 1000), via: v, funds: coinsOf(IDX, n, r) })
  }
  pure def genVaultMint(x: World, r: Rnd): Op = {
    pure val idx = deal(x, { ...r, b: r.b % 4 }) * (1 + r.d % 20)
    Vault(C::Mint({ s: pick(TRADERS, r.e), amt: idx, rcv: "", ref: "", funds: C::deposit(unitsNow(x), idx) }))
  }
  pure def genVaultBurn(x: World, r: Rnd): Op = {
    pure val s = holder(x, r)
    Vault(C::Burn({ s: s, to: "", funds: Map(IDX -> imax(1, lot(x, s, r) / 3)) }))
  }
  pure def genMarket(x: World, r: Rnd): Op = {
    pure val i = 1 + r.a % 4
    pure val p = x.ps.get(i)
    pure val j = r.b % p.assets.length()
    pure val k = (j + 1 + (r.b / 7) % (p.assets.length() - 1)) % p.assets.length()
    Market({ p: i, din: p.assets[j].d, dout: p.assets[k].d, n: imax(1, (p.assets[j].b * (1 + r.c % 100)) / pick([1000, 10000, 10^6], r.d)) })
  }
  pure def genReb(x: World, r: Rnd): Op = {
    pure val us = unitsNow(x)
    if (x.c.c.reb) Vault(C::Finalize("gov0"))
    else if (us.length() == 0) Nop
    else {
      pure val z = pick(us, r.a)
      pure val free = DENOMS.select(d => d != z.d)
      Vault(C::Init({ s: "gov0", mgr: "", defl: [{ d: z.d, u: z.u }], infl: [{ d: pick(free, r.b), u: ONE }] }))
    }
  }

  pure def gen(x: World, k: str, r: Rnd): Op =
    if (x.c.c.supply == 0 and r.h % 10 != 0) genVaultMint(x, r)
    else if (x.c.c.reb and r.h % 3 == 0) Vault(C::Finalize("gov0"))
    else if (C::isPaused(x.c.c, x.c.now) and r.h % 3 == 0) Vault(C::Release("gov0"))
    else if (x.c.skew != 100 and r.h % 3 == 1) Vault(C::SetSkew(100))
    else if (k == "mintout") genMintOut(x, r)
    else if (k == "mintin") genMintIn(x, r)
    else if (k == "burnin") genBurnIn(x, r)
    else if (k == "burnout") genBurnOut(x, r)
    else if (k == "simmintout") SimMintOut({ idx: deal(x, r), d: paying(x, r), via: via(r) })
    else if (k == "simmintin") {
      pure val d = paying(x, r)
      pure val t = costOf(x.ps, buyRoutes(d, r.g % 2), unitsNow(x), deal(x, r), d)
      SimMintIn({ x: imax(1, imin(t.tot, PURSE)), d: d, via: via(r) })
    }
    else if (k == "simburnin") SimBurnIn({ x: deal(x, r), d: paying(x, r), via: via(r) })
    else if (k == "simburnout") {
      pure val d = paying(x, r)
      pure val t = yieldOf(x.ps, sellRoutes(d, r.g % 2), unitsNow(x), deal(x, r), d)
      SimBurnOut({ want: imax(1, t.tot), d: d, via: via(r) })
    }
    else if (k == "vaultmint") genVaultMint(x, r)
    else if (k == "vaultburn") genVaultBurn(x, r)
    else if (k == "wait") Vault(C::Wait(pick([1, 5, 60, 3600, 86400, 604800, 2592000], r.a)))
    else if (k == "skew") Vault(C::SetSkew(pick([100, 99, 95, 98, 101, 105, 90], r.a)))
    else if (k == "market") genMarket(x, r)
    else if (k == "pricing") Pricing({ p: 5 + r.a % 2, num: if (r.a % 2 == 0) 1 + r.b % 997 else 900 + r.b % 200, den: if (r.a % 2 == 0) 1 + r.c % 997 else 900 + r.c % 200 })
    else if (k == "gift") Gift({ s: pick(HOLDERS, r.a), d: pick(["uosmo", "uatom", "ujuno", "uos", "uion", IDX], r.b), amt: imax(1, imin(deal(x, r), 10^15)) })
    else if (k == "finish") Finish({ s: pick(["alice", "bobby", PERI, C::CORE, "alice", "gov0"], r.a), ref: pick(["alice", "bobby", "gov0", C::BADADDR], r.b), d: pick(["uosmo", "uatom", "ujuno", "uos", "uion", IDX], r.c) })
    else if (k == "updatefee") Vault(C::UpdateFee({ s: "gov0", f: mkFee(r) }))
    else if (k == "pause") Vault(C::Pause({ s: "gov0", exp: pick([-1, x.c.now + 1, x.c.now + 3600], r.a) }))
    else if (k == "realize") Vault(C::Realize(x.c.c.collector))
    else if (k == "reb") genReb(x, r)
    else Nop

  action drive(kinds: List[str]): bool = {
    nondet a = 0.to(999999).oneOf()
    nondet b = 0.to(999999).oneOf()
    nondet c = 0.to(999999).oneOf()
    nondet d = 0.to(999999).oneOf()
    nondet e = 0.to(999999).oneOf()
    nondet f = 0.to(999999).oneOf()
    nondet g = 0.to(999999).oneOf()
    nondet h = 0.to(999999).oneOf()
    nondet k = 0.to(999).oneOf()
    val op = gen(w, pick(kinds, k), { a: a, b: b, c: c, d: d, e: e, f: f, g: g, h: h })
    val x = exec(w, op)
    all {
      w' = x.w,
      gifts' = match op {
        | Gift(z) => if (x.ok) gifts.put(z.d, mget(gifts, z.d) + z.amt) else gifts
        | _ => gifts
      },
      last' = { op: op, ok: x.ok, sure: x.sure, why: x.why, out: x.out, ev: if (x.ok) event(op, x.out) else [] },
    }
  }

  action init = {
    nondet a = 0.to(999999).oneOf()
    nondet b = 0.to(999999).oneOf()
    nondet c = 0.to(999999).oneOf()
    nondet d = 0.to(999999).oneOf()
    nondet e = 0.to(999999).oneOf()
    nondet f = 0.to(999999).oneOf()
    nondet g = 0.to(999999).oneOf()
    nondet h = 0.to(999999).oneOf()
    val ps = makePools(
      range(0, 9).foldl([], (acc, i) => acc.append(10^(9 + ((a / (2^i)) % 6)) + ((b * (i + 7)) % 10^6) * 10^(2 + i % 5))),
      range(0, 9).foldl([], (acc, i) => acc.append(pick(WEIGHTS, c / (i + 1)))),
      range(0, 4).foldl([], (acc, i) => acc.append(pick(FEES, b / (3 * i + 1)))),
      [1 + a % 997, 1 + b % 997, 900 + c % 200, 900 + a % 200])
    val r = { a: d, b: e, c: f, d: g, e: h, f: a, g: b, h: c }
    all {
      w' = fresh(ps, mkUnits(ps, r, 2 * (g % 3)), mkFee({ ...r, a: e, b: f, c: g }), 1700000000 + a),
      gifts' = Map(),
      last' = { op: Nop, ok: true, sure: true, why: "", out: noOut, ev: [] },
    }
  }
  action step = drive([
    "mintout", "mintout", "mintout", "mintout", "mintout", "mintout", "mintout", "mintin", "mintin", "mintin",
    "mintin", "mintin", "mintin", "mintin", "burnin", "burnin", "burnin", "burnin", "burnin", "burnin",
    "burnin", "burnout", "burnout", "burnout", "burnout", "burnout", "burnout", "burnout", "simmintout",
    "simmintin", "simburnin", "simburnout", "simmintout", "simburnin", "vaultmint", "vaultburn", "wait",
    "skew", "market", "market", "pricing", "gift", "finish", "updatefee", "pause", "realize", "reb"])

  // ---- properties of the specification itself ---------------------------------
  val P01_keepsNothing = lset(DENOMS).union(Set(IDX)).forall(d => bal(w.c.bank, PERI, d) <= mget(gifts, d))
  val C01_collateralized = C::collateralized(w.c)
  val C02_supply = C::supplyMatches(w.c)
  val C07_fees = C::feesAccounted(w.c)
  val bankSane = C::noNegative(w.c)
  // nothing but index tokens is ever created or destroyed
  val conserved = lset(DENOMS).forall(d =>
    w.c.bank.keys().fold(0, (s, k) => if (k._2 == d) s + w.c.bank.get(k) else s) == 10^30 + HOLDERS.length() * PURSE)
  val reservesPositive = w.ps.keys().forall(i => w.ps.get(i).assets.foldl(true, (acc, x) => acc and x.b > 0))
  val inv = and { P01_keepsNothing, C01_collateralized, C02_supply, C07_fees, bankSane, conserved, reservesPositive }

  // witnesses
  val reachMintOut = match last.op { | MintOut(_) => last.ok | _ => false }
  val reachMintIn = match last.op { | MintIn(_) => last.ok | _ => false }
  val reachBurnIn = match last.op { | BurnIn(_) => last.ok | _ => false }
  val reachBurnOut = match last.op { | BurnOut(_) => last.ok | _ => false }
}
