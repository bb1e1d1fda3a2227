// Behaviour generator for the exact instance of the core specification: an
// environment that drives the vault into interesting corners (boundaries of time,
// amounts and authority).  It decides only WHICH operation is tried; what the
// operation does is core.qnt.
module coregen {
  import core.* from "./core"

  var w: World
  var last: { op: Op, ok: bool, why: str, out: Out, ev: List[Attr] }

  pure val ACCTS = ["alice", "bobby", "gov0", "gov1", "mgr0", "coll0", "coll1"]
  pure val ASSETS = ["uosmo", "uatom", "ujuno", "uion"]
  // names that look like others: a beginning, an end, another case
  pure val MORE = ["ibc/27394FB092D2", "factory/osmo1abc/uatom", "uato", "UJUNO"]
  pure val RICH = 10^32

  pure val POOLS: int -> Pool = Map(
    1 -> { a: "uosmo", b: "uatom", num: 1, den: 1 },
    2 -> { a: "uosmo", b: "ujuno", num: 2, den: 1 },
    3 -> { a: "uatom", b: "ujuno", num: 3, den: 7 },
    4 -> { a: "uosmo", b: "uion", num: 1, den: 1 },
    5 -> { a: "uatom", b: "uion", num: 1, den: 2 },
  )

  pure val UNITSETS: List[List[Unit]] = [
    [{ d: "uatom", u: 2 * ONE }, { d: "ujuno", u: 5 * ONE }],
    [{ d: "uosmo", u: ONE + ONE / 2 }, { d: "uatom", u: ONE / 4 }, { d: "ujuno", u: 3 * ONE }],
    [{ d: "uosmo", u: ONE }],
    [{ d: "ujuno", u: 22 * ONE + 200 * 10^15 }, { d: "uatom", u: 9 * 10^12 }],
    [{ d: "uosmo", u: 123456789012345678 }, { d: "uion", u: 987654321987654321 }, { d: "uatom", u: 1 }],
    [{ d: "uion", u: 10^6 * ONE }, { d: "ujuno", u: ONE / 1000 }],
    [{ d: "ibc/27394FB092D2", u: 3 * ONE / 2 }, { d: "uosmo", u: ONE / 7 }, { d: "factory/osmo1abc/uatom", u: 12 * ONE },
     { d: "uatom", u: 10^12 + 1 }, { d: "uato", u: ONE }, { d: "ujuno", u: 4 * ONE }, { d: "UJUNO", u: 10^4 * ONE + 1 }, { d: "uion", u: ONE / 3 }],
    [{ d: "UJUNO", u: ONE }, { d: "uatom", u: 2 * ONE }, { d: "ibc/27394FB092D2", u: 5 * ONE }, { d: "uato", u: 999 }, { d: "ujuno", u: ONE / 2 }],
  ]
  pure val NICEUNITS: List[List[Unit]] = [
    [{ d: "uatom", u: 2 * ONE }, { d: "ujuno", u: 5 * ONE }],
    [{ d: "uosmo", u: ONE + ONE / 2 }, { d: "uatom", u: ONE / 4 }, { d: "ujuno", u: 3 * ONE }],
    [{ d: "uosmo", u: 3 * ONE }, { d: "uatom", u: 2 * ONE }],
    [{ d: "uion", u: 8 * ONE }, { d: "ujuno", u: ONE / 2 }, { d: "uatom", u: ONE }],
  ]
  pure val RATES = [-1, -1, -1, 1, ONE / 1000, ONE / 100, ONE / 10, ONE / 3, ONE - 1, ONE / 2]
  pure val BADRATES = [0, ONE, ONE + 1, 2 * ONE]
  pure val SRATES = [1, MAXRATE, MAXRATE, MAXRATE / 2, MAXRATE / 7, MAXRATE / 1000, MAXRATE - 1]
  pure val BADSRATES = [0, MAXRATE + 1, MAXRATE * 2, ONE]
  pure val MAGS = [1, 1, 2, 3, 5, 10, 99, 100, 1000, 12345, 10^6, 10^6, 10^6 + 1, 999999937, 10^9, 10^12 + 7,
                   10^15, 10^18, 5 * 10^20 + 3, 10^23]
  pure val NICEMAGS = [10^6, 10^6, 10^9, 4 * 10^6, 2 * 10^8, 10^12]

  type Rnd = { a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int }

  pure def mkFee(r: Rnd, allowBad: bool): FeeArgs = {
    pure val bad = allowBad and r.h % 4 == 0
    { collector: pick(["coll0", "coll0", "coll1", if (allowBad) BADADDR else "coll1"], r.a / 3),
      mint: if (bad and r.a % 3 == 0) pick(BADRATES, r.b) else pick(RATES, r.b),
      burn: if (bad and r.a % 3 == 1) pick(BADRATES, r.c) else pick(RATES, r.c),
      sf: r.d % 4 != 0,
      rate: if (r.d % 4 == 0) 0
            else if (bad and r.a % 3 == 2) pick(BADSRATES, r.e) else pick(SRATES, r.e),
      freeze: r.f % 8 == 0 }
  }
  pure val NOFEE: FeeArgs = { collector: "coll0", mint: -1, burn: -1, sf: false, rate: 0, freeze: false }

  pure def fresh(units: List[Unit], f: FeeArgs, reserve: str, t0: int): World = {
    pure val c: Core = {
      gov: "gov0", pending: "", paused: false, pauseExp: -1, reserve: reserve, supply: 0,
      collector: f.collector, mintFee: f.mint, burnFee: f.burn,
      sf: f.sf, sfRate: f.rate, sfColl: Map(), sfFreeze: f.sf and f.freeze, sfLast: if (f.sf) t0 else 0,
      units: units, resUnits: [], reb: false, mgr: "", defl: [], infl: [], trades: Map() }
    pure val holders = lset(ACCTS).union(Set(CORE, POOL))
    pure val denoms = lset(ASSETS).union(Set("uxxx", IDX))
    { c: c, now: t0, pools: POOLS, skew: 100, debt: Map(), streamed: Map(), realized: Map(), rebStart: -1,
      bank: tuples(holders, denoms).union(tuples(Set("alice", "bobby", "coll0"), lset(MORE).intersect(denomsU(units)))).mapBy(k =>
        if (k._2 == IDX or k._1 == CORE) 0
        else if (k._1 == POOL) RICH * 10^4 else RICH) }
  }

  // ---- argument choices -----------------------------------------------------
  pure def actor(right: str, r: int): str =
    if (r % 10 < 8) (if (right == "") pick(ACCTS, r / 10) else right) else pick(ACCTS, r / 10)
  pure def optAddr(r: int): str = pick(["", "", "", "alice", "bobby", "coll0", "", BADADDR, "", "", "", "alice", "gov0", CORE, "", BADADDR], r)
  pure def near(x: int, r: int): int = imax(0, x + pick([0, 0, 0, -1, 1, 0, 2, -2], r))

  pure def unitsNow(x: World): List[Unit] = accrueAt(x.c, x.now).units

  pure def genFunds(x: World, amt: int, r: int, s: int): str -> int = {
    pure val need = deposit(unitsNow(x), amt)
    pure val ds = unitsNow(x)
    pure val mode = r % 20
    if (ds.length() == 0) Map()
    else {
      pure val one = pick(ds, s).d
      if (mode < 9) need
      else if (mode < 11) need.keys().mapBy(d => need.get(d) + s)
      else if (mode == 11) (if (s % 2 == 0) need.keys().mapBy(d => 2 * need.get(d)) else need.set(one, 2 * need.get(one)))
      else if (mode < 14) need.set(one, need.get(one) + 1 + s)
      else if (mode < 17) nonzero(need.set(one, need.get(one) - 1))
      else if (mode == 17) need.put("uxxx", 1 + s)
      else if (mode == 18) need.keys().exclude(Set(one)).mapBy(d => if (s % 3 == 0) need.get(d) else 2 * need.get(d) + s)
      else nonzero(need.keys().mapBy(d => need.get(d) / 2))
    }
  }

  pure def genMint(x: World, nice: bool, r: Rnd): Op = {
    pure val amt = if (nice) pick(NICEMAGS, r.b) else if (r.c % 25 == 0) 0 else pick(MAGS, r.b) + (if (r.c % 3 == 0) r.d else 0)
    Mint({ s: pick(["alice", "bobby", "coll0", "alice"], r.e), amt: amt, rcv: if (nice) "" else optAddr(r.f),
           ref: if (nice) "" else optAddr(r.f / 16),
           funds: if (nice) deposit(unitsNow(x), amt) else genFunds(x, amt, r.g, r.h) })
  }

  pure def genBurn(x: World, r: Rnd): Op = {
    pure val rich = ACCTS.select(a => bal(x.bank, a, IDX) > 0)
    pure val s = if (rich.length() > 0 and r.h % 10 != 0) pick(rich, r.b) else pick(ACCTS, r.b)
    pure val have = bal(x.bank, s, IDX)
    pure val amt = pick([have, have / 2, have / 3, 1, imin(have, 2), imin(have, 1 + r.c), have - 1, imin(have, r.d * 1000 + 7)], r.e)
    pure val f = Map(IDX -> imax(amt, 1))
    Burn({ s: s, to: optAddr(r.f),
           funds: if (r.g % 25 == 0) Map("uosmo" -> 5)
                  else if (r.g % 25 == 1) f.put("uxxx", 3)
                  else if (r.g % 25 == 2) Map() else f })
  }

  pure def genWait(x: World, r: Rnd): Op = {
    pure val tr = x.c.trades.keys().filter(k => x.c.trades.get(k).last != -1)
      .map(k => x.c.trades.get(k).last + x.c.trades.get(k).cooldown - x.now)
    pure val edge =
      if (x.c.paused and x.c.pauseExp > x.now and r.b % 2 == 0) x.c.pauseExp - x.now + pick([-1, 0, 0, 1], r.c)
      else if (tr.filter(t => t > 0).size() > 0 and r.b % 4 != 3)
        tr.filter(t => t > 0).fold(10^9, (m, t) => imin(m, t)) + pick([-1, 0, 0, 1], r.c)
      else pick([1, 1, 2, 5, 7, 60, 100, 3600, 86400, 100000, 604800, 2592000,
                 if (r.f % 12 == 0) pick([31536000, 10^8, 4 * 10^9, 15768000], r.g) else 9999999], r.d)
    Wait(imax(edge, if (r.e % 2 == 0) 0 else 1))
  }

  // a route table that makes sense for the pools above
  type TRow = { d: str, routes: List[Route] }
  pure def rowsFor(reserve: str): List[TRow] =
    if (reserve == "uosmo") [
      { d: "uatom", routes: [{ pool: 1, d: "uosmo" }] },
      { d: "uosmo", routes: [{ pool: 1, d: "uatom" }] },
      { d: "uosmo", routes: [{ pool: 1, d: "uatom" }, { pool: 3, d: "ujuno" }] },
      { d: "ujuno", routes: [{ pool: 2, d: "uosmo" }] },
      { d: "uosmo", routes: [{ pool: 4, d: "uion" }] },
      { d: "uion", routes: [{ pool: 5, d: "uatom" }, { pool: 1, d: "uosmo" }] },
      { d: "uosmo", routes: [{ pool: 2, d: "ujuno" }] },
      { d: "uion", routes: [{ pool: 4, d: "uosmo" }] },
    ] else [
      { d: "uosmo", routes: [{ pool: 1, d: "uatom" }] },
      { d: "uatom", routes: [{ pool: 1, d: "uosmo" }] },
      { d: "uatom", routes: [{ pool: 3, d: "ujuno" }] },
      { d: "ujuno", routes: [{ pool: 2, d: "uosmo" }, { pool: 1, d: "uatom" }] },
      { d: "uatom", routes: [{ pool: 1, d: "uosmo" }, { pool: 4, d: "uion" }] },
      { d: "uion", routes: [{ pool: 5, d: "uatom" }] },
    ]
  pure val BADROUTES: List[List[Route]] = [
    [], [{ pool: 9, d: "uatom" }], [{ pool: 2, d: "uatom" }], [{ pool: 1, d: "uatom" }, { pool: 2, d: "ujuno" }],
    [{ pool: 3, d: "uosmo" }],
  ]
  pure def genTrade(x: World, r: Rnd): Op = {
    pure val row = pick(rowsFor(if (r.h % 10 == 0) "uatom" else x.c.reserve), r.b)
    UpdateTrade({ s: actor(x.c.gov, r.c), d: row.d,
      routes: if (r.d % 12 == 0) pick(BADROUTES, r.e) else row.routes,
      cooldown: pick([0, 0, 10, 100, 3600, 0, 10, if (r.e % 3 == 0) 2^63 else 60], r.f),
      maxAmt: pick([10^28, 10^28, 2^128 - 1, 10^6, 1000, 10^28, 0, 10^28], r.g) })
  }
  pure def missingRows(x: World): List[TRow] =
    rowsFor(x.c.reserve).select(row => not((row.d, row.routes[row.routes.length() - 1].d).in(x.c.trades.keys())))
  pure def setupTrade(x: World, r: Rnd): Op = {
    pure val row = pick(missingRows(x), r.b)
    UpdateTrade({ s: x.c.gov, d: row.d, routes: row.routes, cooldown: pick([0, 0, 0, 10, 100], r.f),
                  maxAmt: pick([10^28, 10^28, 10^7, 10^28, 20000], r.g) })
  }

  pure def genInit(x: World, r: Rnd): Op = {
    pure val us = unitsNow(x)
    pure val nd = if (us.length() == 0) 0 else 1 + r.b % imin(if (r.a % 3 == 0) 4 else 2, us.length())
    pure val defl = range(0, nd).foldl([], (acc, i) => {
      pure val z = us[(r.c + i) % us.length()]
      acc.append({ d: z.d, u: pick([0, 0, z.u / 2, z.u - z.u / 4, z.u, imax(0, z.u - ONE / 1000), z.u / 2,
                                    if (r.h % 5 == 0) z.u + 1 else 0], r.d / (1 + i * 8)) })
    })
    pure val free = (if (r.h % 7 == 0 or nd == 4) MORE.concat(ASSETS) else ASSETS).select(d => not(hasU(defl, d)))
    pure val ni = 1 + r.e % imin(3, free.length())
    pure val infl = range(0, ni).foldl([], (acc, i) =>
      acc.append({ d: free[(r.f + i) % free.length()], u: pick([ONE, ONE, ONE / 2, 3 * ONE, ONE / 3, 1, 7 * ONE / 10, 2 * ONE], r.g / (1 + i * 8)) }))
    pure val fault = r.h % 12
    Init({ s: actor(x.c.gov, r.a / 4), mgr: pick(["", "mgr0", "mgr0", "bobby", "", BADADDR], r.a / 40 + r.h),
      defl: if (fault == 0) [] else if (fault == 1 and nd > 0) defl.append({ d: defl[0].d, u: 0 })
            else if (fault == 2) defl.append({ d: "uxxx", u: 0 }) else defl,
      infl: if (fault == 3) [] else if (fault == 4) infl.append({ d: infl[0].d, u: ONE })
            else if (fault == 5) infl.append({ d: "uxxx", u: 0 })
            else if (fault == 6 and nd > 0) infl.append({ d: defl[0].d, u: ONE }) else infl })
  }

  pure def genDeflate(x: World, r: Rnd): Op = {
    pure val c = x.c
    pure val cands = c.defl.select(u => getU(c.units, u.d) > u.u)
    pure val d = if (cands.length() > 0 and r.b % 12 != 0) pick(cands, r.c).d else pick(ASSETS, r.c)
    pure val room = damt(imax(0, getU(c.units, d) - getU(c.defl, d)), c.supply)
    pure val key = (d, c.reserve)
    pure val rs = if (key.in(c.trades.keys())) c.trades.get(key).routes else []
    pure val cap = if (key.in(c.trades.keys())) c.trades.get(key).maxAmt else 10
    // how much reserve the remaining gap buys: invert the quote hop by hop
    pure val full = rs.foldl({ d: d, x: room, ok: true }, (h, q) =>
      if (not(q.pool.in(x.pools.keys()))) h
      else {
        pure val p = x.pools.get(q.pool)
        if (p.a != h.d and p.b != h.d) h else { d: otherSide(p, h.d), x: quoteIn(p, h.d, h.x), ok: true }
      }).x
    pure val amt = if (cap < full and r.d % 3 == 0) near(cap, r.e) else pick([full, full, full, near(full, r.d), full / 2, imin(full, cap), near(cap, r.d), 1, full / 3 + 1, r.e], r.f)
    pure val est = estOut(x, rs, c.reserve, amt)
    Deflate({ s: actor(c.mgr, r.g), d: d, x: amt,
              lim: if (r.h % 4 == 0) 10^30 else imax(0, est.x + pick([0, 0, 0, -1, 1, 5], r.h / 4)) })
  }

  pure def genInflate(x: World, r: Rnd): Op = {
    pure val c = x.c
    pure val cands = c.resUnits.select(u => u.u > 0)
    pure val d = if (cands.length() > 0 and r.b % 12 != 0) pick(cands, r.c).d else pick(ASSETS, r.c)
    pure val room = damt(getU(c.resUnits, d), c.supply)
    pure val key = (c.reserve, d)
    pure val rs = if (key.in(c.trades.keys())) c.trades.get(key).routes else []
    pure val cap = if (key.in(c.trades.keys())) c.trades.get(key).maxAmt else 10
    pure val amt = pick([room, room, room, near(room, r.d), room / 2, imin(room, cap), near(cap, r.d), 1, room / 3 + 1, r.e], r.f)
    pure val est = estIn(x, rs, c.reserve, amt)
    Inflate({ s: actor(c.mgr, r.g), d: d, x: amt,
              lim: if (r.h % 4 == 0) 0 else imax(0, est.x + pick([0, 0, 0, 1, -1, 5], r.h / 4)) })
  }

  pure def genPrice(r: Rnd): Op =
    SetPrice({ pool: 1 + r.b % 5, num: pick([1, 1, 2, 3, 1, 10, 7, 1000003], r.c), den: pick([1, 1, 1, 2, 5, 3, 999983], r.d) })

  pure def genRedeem(x: World, r: Rnd): Op = {
    pure val rich = ACCTS.select(a => bal(x.bank, a, IDX) > 0)
    pure val s = if (rich.length() > 0) pick(rich, r.b) else "alice"
    pure val have = bal(x.bank, s, IDX)
    QRedeem({ s: s, n: imax(1, pick([have, have, have / 2, have / 3, imin(have, 1 + r.c), imin(have, 100 + r.d)], r.e)),
              dt: pick([0, 0, 1, 3600, 86400, 2592000, 7776000, 15552000, 25000000, 31536000, 40000000, 10^8, 10^9], r.f) })
  }
  pure def genTime(x: World, r: Rnd): int = x.now + pick([0, 0, 1, 10, 3600, 86400, 2592000, -1], r.h)

  pure def gen(x: World, kind: str, r: Rnd): Op =
    if (kind == "mint") genMint(x, false, r)
    else if (kind == "nicemint") genMint(x, true, r)
    else if (kind == "burn") genBurn(x, r)
    else if (kind == "wait") genWait(x, r)
    else if (kind == "realize") Realize(actor(x.c.collector, r.b))
    else if (kind == "send") Send({ s: pick(ACCTS, r.b), to: pick(["alice", "bobby", CORE, "alice", "coll0"], r.c),
                                    d: pick([IDX, IDX, "uosmo", "uatom", "ujuno"], r.d), amt: pick(MAGS, r.e) })
    else if (kind == "pause") Pause({ s: actor(x.c.gov, r.b), exp: pick([-1, x.now - 1, x.now, x.now + 1, x.now + 2, x.now + 50, x.now + 86400], r.c) })
    else if (kind == "release") Release(actor(x.c.gov, r.b))
    else if (kind == "updategov") UpdateGov({ s: actor(x.c.gov, r.b), to: pick(["gov1", "gov0", "gov1", "alice", BADADDR], r.c) })
    else if (kind == "acceptgov") AcceptGov(actor(x.c.pending, r.b))
    else if (kind == "revokegov") RevokeGov(actor(x.c.gov, r.b))
    else if (kind == "succession")
      if (x.c.pending == "") UpdateGov({ s: actor(x.c.gov, r.b), to: pick(["gov1", "gov0", "alice", "mgr0", "gov1", "coll0"], r.c) })
      else pick([AcceptGov(actor(x.c.pending, r.b)), AcceptGov(actor(x.c.pending, r.c)), AcceptGov(x.c.gov),
                 RevokeGov(actor(x.c.gov, r.b)), RevokeGov(x.c.pending), UpdateGov({ s: actor(x.c.gov, r.b), to: "bobby" })], r.d)
    else if (kind == "pausing")
      if (isPaused(x.c, x.now)) Release(actor(x.c.gov, r.b))
      else Pause({ s: actor(x.c.gov, r.b), exp: pick([-1, x.now + 1, x.now + 2, x.now + 50, x.now + 50, x.now + 86400], r.c) })
    else if (kind == "updatefee") UpdateFee({ s: actor(x.c.gov, r.g), f: mkFee(r, true) })
    else if (kind == "updatemgr") UpdateManager({ s: actor(x.c.gov, r.b), m: pick(["", "mgr0", "alice", "mgr0", BADADDR], r.c) })
    else if (kind == "updatereserve") UpdateReserve({ s: actor(x.c.gov, r.b), d: pick(["uosmo", "uatom", "uosmo"], r.c) })
    else if (kind == "updatetrade") genTrade(x, r)
    else if (kind == "init") genInit(x, r)
    else if (kind == "deflate") genDeflate(x, r)
    else if (kind == "inflate") genInflate(x, r)
    else if (kind == "finalize") Finalize(actor(x.c.mgr, r.b))
    else if (kind == "instantiate") Instantiate({
        units: pick([pick(UNITSETS, r.b), pick(UNITSETS, r.b), pick(UNITSETS, r.b), pick(UNITSETS, r.b).append(pick(UNITSETS, r.b)[0])], r.g),
        f: mkFee(r, true), gov: pick(["gov0", "gov0", "gov0", "gov0", BADADDR], r.h / 4) })
    else if (kind == "price") genPrice(r)
    else if (kind == "skew") SetSkew(pick([100, 100, 99, 101, 50, 100], r.b))
    else if (kind == "qmint") {
        pure val t = genTime(x, r)
        pure val amt = pick(MAGS, r.b) + (if (r.c % 3 == 0) r.d else 0)
        pure val y = { ...x, now: imax(t, x.c.sfLast) }
        QSimMint({ amt: amt, gave: r.e % 3 != 0, funds: if (r.e % 3 != 0) genFunds(y, amt, r.g, r.f) else Map(), t: t })
      }
    else if (kind == "qburn") QSimBurn({ amt: pick(MAGS, r.b) + (if (r.c % 3 == 0) r.d else 0), t: genTime(x, r) })
    else if (kind == "qfee") QFee(genTime(x, r))
    else if (kind == "qportfolio") QPortfolio(genTime(x, r))
    else if (kind == "qconfig") QConfig(if (x.c.paused and x.c.pauseExp > 0 and r.b % 2 == 0) x.c.pauseExp + pick([-1, 0, 1], r.c) else genTime(x, r))
    else if (kind == "qfinish") QFinish
    else if (kind == "qredeem") genRedeem(x, r)
    else Nop

  // the operation that moves a rebalance forward
  pure def progress(x: World, nice: bool, r: Rnd): Op =
    if (x.c.supply == 0 and r.b % 50 != 0) gen(x, if (nice) "nicemint" else "mint", r)
    else if (missingRows(x).length() > 0 and r.a % 8 != 0) setupTrade(x, r)
    else if (not(x.c.reb)) gen(x, "init", r)
    else if (finalize(x, if (x.c.mgr == "") "alice" else x.c.mgr).ok and r.a % 4 != 0) gen(x, "finalize", r)
    else if (r.h % 11 == 0) Finalize(if (x.c.mgr == "") "alice" else x.c.mgr)    // too early
    else if (x.c.resUnits.select(u => u.u > 0).length() > 0 and r.a % 3 != 0) gen(x, "inflate", r)
    else gen(x, "deflate", r)

  action apply(op: Op): bool = {
    val res = exec(w, op)
    all {
      w' = res.w,
      last' = { op: op, ok: res.ok, why: res.why, out: res.out, ev: if (res.ok) event(w, op, res.w) else [] },
    }
  }

  action driven(kinds: List[str], nice: bool, drift: int): bool = {
    nondet a = 0.to(999999).oneOf()
    nondet b = 0.to(999999).oneOf()
    nondet c = 0.to(999999).oneOf()
    nondet d = 0.to(999999).oneOf()
    nondet e = 0.to(999999).oneOf()
    nondet f = 0.to(999999).oneOf()
    nondet g = 0.to(999999).oneOf()
    nondet h = 0.to(999999).oneOf()
    nondet k = 0.to(999).oneOf()
    nondet roll = 0.to(99).oneOf()
    val r = { a: a, b: b, c: c, d: d, e: e, f: f, g: g, h: h }
    apply(if (roll < drift) progress(w, nice, r) else gen(w, pick(kinds, k), r))
  }

  action drive(kinds: List[str], drift: int): bool = driven(kinds, true, drift)

  // ---- profiles -------------------------------------------------------------
  action start(units: List[List[Unit]], sfOdds: int): bool = {
    nondet a = 0.to(999999).oneOf()
    nondet b = 0.to(999999).oneOf()
    nondet c = 0.to(999999).oneOf()
    nondet d = 0.to(999999).oneOf()
    nondet e = 0.to(999999).oneOf()
    nondet f = 0.to(999999).oneOf()
    nondet k = 0.to(999).oneOf()
    val r = { a: a, b: b, c: c, d: d, e: e, f: f, g: 1, h: 1 }
    val fee = mkFee(r, false)
    all {
      w' = fresh(pick(units, k), if (f % 100 < sfOdds) fee else { ...fee, sf: false, rate: 0, freeze: false },
                 if (k % 5 == 0) "uatom" else "uosmo", 1700000000 + a),
      last' = { op: Nop, ok: true, why: "", out: noOut, ev: [] },
    }
  }

  // minting, burning, fees
  action initTokens = start(UNITSETS, 70)
  action stepTokens = drive(["mint", "mint", "mint", "mint", "burn", "burn", "burn", "burn", "wait", "wait", "wait",
    "realize", "send", "qmint", "qmint", "qburn", "qburn", "qfee", "qportfolio", "updatefee", "qredeem"], 0)
  // streaming fees and fee strategies
  action initFees = start(UNITSETS, 95)
  action stepFees = drive(["mint", "mint", "burn", "wait", "wait", "wait", "realize", "realize", "updatefee", "updatefee",
    "qfee", "qportfolio", "instantiate", "init", "finalize", "deflate", "updatetrade", "send", "release", "qredeem", "qredeem"], 5)
  // governance, pausing, authority
  action initGov = start(UNITSETS, 50)
  action stepGov = drive(["mint", "mint", "burn", "mint", "burn", "wait", "wait", "wait", "pausing", "pausing", "pause", "release", "updategov", "acceptgov",
    "succession", "succession", "succession", "succession", "revokegov", "updatefee", "updatemgr", "updatereserve", "updatetrade", "init", "finalize", "deflate", "inflate", "realize",
    "qconfig", "qconfig", "qconfig", "qfinish", "qredeem", "qredeem"], 4)
  // rebalancing
  action initReb = start(NICEUNITS, 25)
  action stepReb = drive(["mint", "burn", "wait", "wait", "price", "price", "skew", "deflate", "deflate", "inflate", "inflate", "finalize",
    "init", "updatemgr", "updatetrade", "realize", "qfee", "qportfolio", "pause", "release", "updatereserve", "updatefee", "send", "qfinish", "qredeem"], 72)
  // rebalances of odd supplies, brought to their end
  action initEnd = start(UNITSETS, 25)
  action stepEnd = driven(["mint", "burn", "burn", "burn", "wait", "price", "deflate", "deflate", "inflate", "inflate", "finalize", "finalize",
    "init", "updatetrade", "qfinish", "qfinish", "qfinish", "qfinish", "pausing", "qredeem", "qredeem"], false, 68)
  // everything at once
  action init = start(UNITSETS, 60)
  action step = drive(["mint", "mint", "burn", "burn", "wait", "wait", "wait", "realize", "send", "pausing", "release", "succession", "acceptgov",
    "revokegov", "updatefee", "updatemgr", "updatereserve", "updatetrade", "init", "deflate", "inflate", "finalize", "price", "skew",
    "instantiate", "qmint", "qburn", "qfee", "qportfolio", "qconfig", "qfinish", "qredeem"], 25)

  // ---- properties of the specification itself -------------------------------
  val C01_collateralized = collateralized(w)
  val C02_supply = supplyMatches(w)
  val C07_fees = feesAccounted(w)
  val C08_rates = ratesBounded(w)
  val C11_rebalance = rebalanceSane(w)
  val bankSane = noNegative(w)
  val C18_finishable = finishable(w)
  val C19_redeemable = redeemable(w, lset(ACCTS))
  val inv = and { C19_redeemable, C01_collateralized, C02_supply, C07_fees, C08_rates, C11_rebalance, bankSane, C18_finishable }

  // witnesses: situations the generator must reach
  val reachFinal = match last.op { | Finalize(_) => last.ok | _ => false }
  val reachInflate = match last.op { | Inflate(_) => last.ok | _ => false }
  val reachDeflate = match last.op { | Deflate(_) => last.ok | _ => false }
  val reachMint = match last.op { | Mint(_) => last.ok | _ => false }
  val reachBurn = match last.op { | Burn(_) => last.ok | _ => false }
}
