// The index-token vault (contracts/core) together with the chain around it: bank,
// token factory, pool manager, block time, atomic transactions.
//
// Every entry point is one pure function  state x arguments -> result  whose guard
// order does not matter: a rejected call changes nothing.  `why` names the first
// guard that refused the call; the replayer uses it only to say which property a
// disagreement belongs to.
module core {
  import base.* from "./base"
  export base.*

  type Route = { pool: int, d: str }
  type TradeInfo = { routes: List[Route], cooldown: int, maxAmt: int, last: int }  // last = -1: never
  type Pool = { a: str, b: str, num: int, den: int }    // 1 a buys num/den b

  type Core = {
    gov: str, pending: str,                             // "" = none
    paused: bool, pauseExp: int,                        // -1 = no expiry
    reserve: str, supply: int,
    collector: str, mintFee: int, burnFee: int,         // -1 = none
    sf: bool, sfRate: int, sfColl: str -> int, sfFreeze: bool, sfLast: int,
    units: List[Unit], resUnits: List[Unit],
    reb: bool, mgr: str, defl: List[Unit], infl: List[Unit],
    trades: (str, str) -> TradeInfo,
  }

  // ghosts, in units of 1/ONE: what rounding may have cost the vault per denom
  type World = {
    c: Core, bank: Bank, now: int,
    pools: int -> Pool, skew: int,                      // percent: executed / estimated
    debt: str -> int,                                   // ghost
    streamed: str -> int, realized: str -> int,         // ghosts: accrued / paid out
    rebStart: int,                                      // ghost: time of last Init, -1
  }

  type Out = { n: int, n2: int, m: str -> int, m2: str -> int, l: List[Unit], k: List[Unit], b: bool, s: str }
  pure val noOut: Out = { n: 0, n2: 0, m: Map(), m2: Map(), l: [], k: [], b: false, s: "" }
  type Res = { ok: bool, why: str, w: World, out: Out }

  pure def yes(w: World): Res = { ok: true, why: "", w: w, out: noOut }
  pure def ans(w: World, o: Out): Res = { ok: true, why: "", w: w, out: o }
  pure def no(w: World, why: str): Res = { ok: false, why: why, w: w, out: noOut }
  // run f on the intermediate world, but a failure rolls everything back
  pure def chain(orig: World, r: Res, f: (World) => Res): Res =
    if (not(r.ok)) no(orig, r.why)
    else {
      pure val r2 = f(r.w)
      if (r2.ok) r2 else no(orig, r2.why)
    }

  pure val CORE = "core"
  pure val POOL = "pool"
  pure val IDX = "factory/core/uibcx"
  pure val BADADDR = "X"

  pure def goodAddr(a: str): bool = a != BADADDR
  pure def orElse(a: str, dflt: str): str = if (a == "") dflt else a

  // ---------------------------------------------------------------- pricing ----
  pure def badSwap: int = -1
  pure def otherSide(p: Pool, d: str): str = if (p.a == d) p.b else p.a
  pure def quoteIn(p: Pool, din: str, x: int): int =
    if (p.a == din) (x * p.num) / p.den else (x * p.den) / p.num
  pure def quoteOut(p: Pool, dout: str, y: int): int =
    if (p.a == dout) cdiv(y * p.num, p.den) else cdiv(y * p.den, p.num)

  type Hop = { d: str, x: int, ok: bool }
  // exact-in: hops name the denom each pool pays out
  pure def estIn(w: World, rs: List[Route], din: str, x: int): Hop = {
    pure val r = rs.foldl({ d: din, x: x, ok: x > 0 and rs.length() > 0 }, (h, r) =>
      if (not(h.ok) or not(r.pool.in(w.pools.keys()))) { ...h, ok: false }
      else {
        pure val p = w.pools.get(r.pool)
        if ((p.a != h.d and p.b != h.d) or otherSide(p, h.d) != r.d) { ...h, ok: false }
        else {
          pure val y = quoteIn(p, h.d, h.x)
          { d: r.d, x: y, ok: y > 0 }
        }
      })
    r
  }
  // exact-out, walked backwards; the paying side of each pool is the other denom
  // (lenient reading of the route denoms, see DESIGN.md, finding K3)
  pure def estOut(w: World, rs: List[Route], dout: str, y: int): Hop = {
    pure val n = rs.length()
    range(0, n).foldl({ d: dout, x: y, ok: y > 0 and n > 0 }, (h, i) => {
      pure val r = rs[n - 1 - i]
      if (not(h.ok) or not(r.pool.in(w.pools.keys()))) { ...h, ok: false }
      else {
        pure val p = w.pools.get(r.pool)
        if (p.a != h.d and p.b != h.d) { ...h, ok: false }
        else {
          pure val x = quoteOut(p, h.d, h.x)
          { d: otherSide(p, h.d), x: x, ok: x > 0 }
        }
      }
    })
  }

  // ---------------------------------------------------------- streaming fee ----
  type Accr = { ok: bool, why: str, units: List[Unit], coll: str -> int, last: int, got: str -> int }
  pure def accrueAt(c: Core, t: int): Accr = {
    pure val idle = { ok: true, why: "", units: c.units, coll: c.sfColl, last: c.sfLast, got: Map() }
    if (not(c.sf)) idle
    else if (t < c.sfLast) { ...idle, ok: false, why: "past" }
    else if (c.sfFreeze or t == c.sfLast) idle
    else {
      pure val p = dpow(ONE + c.sfRate, t - c.sfLast)
      if (p == -1) { ...idle, ok: false, why: "pow" }
      else {
        pure val rate = p - ONE
        pure val fees = lmap(c.units, x => { d: x.d, u: dmul(x.u, rate) })
        pure val rest = lmap(c.units, x => { d: x.d, u: x.u - dmul(x.u, rate) })
        if (lany(rest, x => x.u < 0)) { ...idle, ok: false, why: "overrate" }
        else {
          pure val got = denomsU(fees).mapBy(d => damt(getU(fees, d), c.supply))
          { ok: true, why: "", units: rest,
            coll: c.sfColl.keys().union(got.keys()).mapBy(d => mget(c.sfColl, d) + mget(got, d)),
            last: t, got: got }
        }
      }
    }
  }
  pure def accrue(w: World): Res = {
    pure val a = accrueAt(w.c, w.now)
    if (not(a.ok)) no(w, a.why)
    else yes({ ...w,
      c: { ...w.c, units: a.units, sfColl: a.coll, sfLast: a.last },
      streamed: w.streamed.keys().union(a.got.keys()).mapBy(d => mget(w.streamed, d) + mget(a.got, d)) })
  }

  // ------------------------------------------------------------ mint / burn ----
  pure def isPaused(c: Core, t: int): bool = c.paused and (c.pauseExp == -1 or c.pauseExp > t)

  pure def deposit(units: List[Unit], amt: int): str -> int =
    denomsU(units).mapBy(d => imax(damt(getU(units, d), amt), 1))
  pure def redeem(units: List[Unit], amt: int): str -> int =
    denomsU(units).mapBy(d => damt(getU(units, d), amt))
  pure def mintFeeOf(c: Core, amt: int): int =
    if (c.mintFee == -1) 0 else imax(damt(c.mintFee, amt), 1)
  pure def burnFeeOf(c: Core, amt: int): int =
    if (c.burnFee == -1) 0 else damt(c.burnFee, amt)
  pure def fundsOk(units: List[Unit], need: str -> int, funds: str -> int): bool =
    funds.keys() == denomsU(units) and need.keys().forall(d => funds.get(d) >= need.get(d))

  type MintArgs = { s: str, amt: int, rcv: str, ref: str, funds: str -> int }
  pure def mint(w0: World, a: MintArgs): Res = {
    if (not(canPay(w0.bank, a.s, a.funds))) no(w0, "poor")
    else chain(w0, accrue({ ...w0, bank: moveAll(w0.bank, a.s, CORE, a.funds) }), w => {
      pure val c = w.c
      pure val need = deposit(c.units, a.amt)
      pure val fee = mintFeeOf(c, a.amt)
      if (isPaused(c, w.now)) no(w, "paused")
      else if (c.reb) no(w, "rebalancing")
      else if (not(goodAddr(a.rcv)) or not(goodAddr(a.ref))) no(w, "addr")
      else if (not(fundsOk(c.units, need, a.funds))) no(w, "funds")
      else if (a.amt - fee <= 0) no(w, "nothing")       // nothing would be left for the minter
      else {
        pure val back = need.keys().mapBy(d => a.funds.get(d) - need.get(d))
        pure val b1 = credit(credit(w.bank, orElse(a.rcv, a.s), IDX, a.amt - fee), c.collector, IDX, fee)
        pure val b2 = moveAll(b1, CORE, orElse(a.ref, a.s), back)
        yes({ ...w, bank: b2, c: { ...c, supply: c.supply + a.amt },
          debt: w.debt.keys().union(need.keys()).mapBy(d =>
            mget(w.debt, d) + imax(0, getU(c.units, d) * a.amt - mget(need, d) * ONE)) })
      }
    })
  }

  type BurnArgs = { s: str, to: str, funds: str -> int }
  pure def burn(w0: World, a: BurnArgs): Res = {
    if (not(canPay(w0.bank, a.s, a.funds))) no(w0, "poor")
    else chain(w0, accrue({ ...w0, bank: moveAll(w0.bank, a.s, CORE, a.funds) }), w => {
      pure val c = w.c
      if (isPaused(c, w.now)) no(w, "paused")
      else if (c.reb) no(w, "rebalancing")
      else if (not(goodAddr(a.to))) no(w, "addr")
      else if (a.funds.keys() != Set(IDX)) no(w, "payment")
      else {
        pure val got = a.funds.get(IDX)
        pure val fee = burnFeeOf(c, got)
        pure val amt = got - fee
        pure val pays = redeem(c.units, amt)
        if (amt <= 0 or amt > c.supply) no(w, "nothing")
        else if (c.units.length() > 0 and nonzero(pays).keys() == Set()) no(w, "dust")
        else {
          pure val b1 = credit(w.bank, CORE, IDX, -amt)
          pure val b2 = move(b1, CORE, c.collector, IDX, fee)
          if (not(canPay(b2, CORE, pays))) no(w, "insolvent")
          else yes({ ...w, bank: moveAll(b2, CORE, orElse(a.to, a.s), pays),
                     c: { ...c, supply: c.supply - amt } })
        }
      }
    })
  }

  pure def payFees(w: World, dst: str): World =
    { ...w, bank: moveAll(w.bank, CORE, dst, w.c.sfColl),
      realized: w.realized.keys().union(w.c.sfColl.keys()).mapBy(d => mget(w.realized, d) + mget(w.c.sfColl, d)),
      c: { ...w.c, sfColl: Map() } }

  pure def realize(w0: World, s: str): Res =
    chain(w0, accrue(w0), w => {
      pure val c = w.c
      if (s != c.collector) no(w, "auth")
      else if (not(c.sf) or c.sfColl.keys() == Set()) yes(w)
      else if (nonzero(c.sfColl).keys() == Set()) no(w, "dust")
      else if (not(canPay(w.bank, CORE, c.sfColl))) no(w, "insolvent")
      else yes(payFees(w, c.collector))
    })

  // ------------------------------------------------------------- governance ----
  pure def pause(w: World, s: str, exp: int): Res =
    if (s != w.c.gov) no(w, "auth")
    else if (isPaused(w.c, w.now)) no(w, "paused")
    else if (exp != -1 and exp <= w.now) no(w, "expiry")
    else yes({ ...w, c: { ...w.c, paused: true, pauseExp: exp } })

  pure def release(w: World, s: str): Res =
    if (s != w.c.gov) no(w, "auth")
    else if (not(isPaused(w.c, w.now))) no(w, "notpaused")
    else yes({ ...w, c: { ...w.c, paused: false, pauseExp: -1 } })

  pure def updateGov(w: World, s: str, dst: str): Res =
    if (s != w.c.gov) no(w, "auth")
    else if (w.c.pending != "") no(w, "pending")
    else if (not(goodAddr(dst))) no(w, "addr")
    else yes({ ...w, c: { ...w.c, pending: dst } })

  pure def acceptGov(w: World, s: str): Res =
    if (w.c.pending == "") no(w, "nopending")
    else if (s != w.c.pending) no(w, "auth")
    else yes({ ...w, c: { ...w.c, gov: s, pending: "" } })

  pure def revokeGov(w: World, s: str): Res =
    if (w.c.pending == "") no(w, "nopending")
    else if (s != w.c.gov) no(w, "auth")
    else yes({ ...w, c: { ...w.c, pending: "" } })

  type FeeArgs = { collector: str, mint: int, burn: int, sf: bool, rate: int, freeze: bool }
  pure def feeRatesOk(f: FeeArgs): bool = and {
    f.mint == -1 or (0 < f.mint and f.mint < ONE),
    f.burn == -1 or (0 < f.burn and f.burn < ONE),
    not(f.sf) or (0 < f.rate and f.rate < ONE and f.rate <= MAXRATE),
  }
  pure def applyFee(c: Core, f: FeeArgs, now: int): Core =
    { ...c, collector: f.collector, mintFee: f.mint, burnFee: f.burn,
      sf: f.sf, sfRate: if (f.sf) f.rate else 0, sfColl: Map(),
      sfFreeze: f.sf and f.freeze, sfLast: if (f.sf) now else 0 }

  pure def updateFee(w0: World, s: str, f: FeeArgs): Res =
    chain(w0, accrue(w0), w => {
      pure val c = w.c
      if (s != c.gov) no(w, "auth")
      else if (c.reb) no(w, "rebalancing")
      else if (not(goodAddr(f.collector))) no(w, "addr")
      else if (not(feeRatesOk(f))) no(w, "rates")
      else if (not(canPay(w.bank, CORE, c.sfColl))) no(w, "insolvent")
      // whatever accrued under the old strategy goes to the old collector
      else {
        pure val w1 = payFees(w, c.collector)
        yes({ ...w1, c: applyFee(w1.c, f, w.now) })
      }
    })

  pure def updateManager(w: World, s: str, m: str): Res =
    if (s != w.c.gov) no(w, "auth")
    else if (not(w.c.reb)) no(w, "norebalance")
    else if (not(goodAddr(m))) no(w, "addr")
    else yes({ ...w, c: { ...w.c, mgr: m } })

  pure def updateReserve(w: World, s: str, d: str): Res =
    if (s != w.c.gov) no(w, "auth")
    else if (w.c.reb) no(w, "rebalancing")
    else yes({ ...w, c: { ...w.c, reserve: d } })

  type TradeArgs = { s: str, d: str, routes: List[Route], cooldown: int, maxAmt: int }
  pure def updateTrade(w: World, a: TradeArgs): Res =
    if (a.s != w.c.gov) no(w, "auth")
    else if (a.routes.length() == 0) no(w, "routes")
    else yes({ ...w, c: { ...w.c, trades: w.c.trades.put(
      (a.d, a.routes[a.routes.length() - 1].d),
      { routes: a.routes, cooldown: a.cooldown, maxAmt: a.maxAmt, last: -1 }) } })

  // -------------------------------------------------------------- rebalance ----
  type InitArgs = { s: str, mgr: str, defl: List[Unit], infl: List[Unit] }
  pure def planFault(c: Core, a: InitArgs): str =
    if (a.defl.length() == 0 or a.infl.length() == 0) "empty"
    else if (dupU(a.defl) or dupU(a.infl)) "dup"
    else if (lany(a.infl, x => x.u == 0)) "weight"
    else if (lany(a.defl, x => not(hasU(c.units, x.d)))) "missing"
    else if (lany(a.defl, x => x.u > getU(c.units, x.d))) "overflow"
    else if (denomsU(a.defl).intersect(denomsU(a.infl)) != Set()) "conflict"
    else ""

  pure def rebInit(w0: World, a: InitArgs): Res =
    chain(w0, accrue(w0), w => {
      pure val c = w.c
      pure val fault = planFault(c, a)
      if (a.s != c.gov) no(w, "auth")
      else if (c.reb) no(w, "rebalancing")
      else if (not(goodAddr(a.mgr))) no(w, "addr")
      else if (fault != "") no(w, fault)
      else yes({ ...w, rebStart: w.now,
        c: { ...c, reb: true, mgr: a.mgr, defl: a.defl, infl: a.infl, resUnits: [],
             sfFreeze: c.sf } })
    })

  // hand `x` decimal units to the inflation denoms by weight, remainder to the last
  type SplitSt = { left: int, wt: int, res: List[Unit] }
  pure def split(res: List[Unit], infl: List[Unit], x: int): List[Unit] =
    infl.foldl({ left: x, wt: totU(infl), res: res }, (s, i) => {
      pure val part = dratio(dmul(s.left, i.u), s.wt)
      { left: s.left - part, wt: s.wt - i.u, res: addU(s.res, i.d, part) }
    }).res

  pure def mayTrade(c: Core, s: str): bool = c.mgr == "" or c.mgr == s

  type SwapArgs = { s: str, d: str, x: int, lim: int }
  pure def deflate(w: World, a: SwapArgs): Res = {
    pure val c = w.c
    if (not(c.reb)) no(w, "norebalance")
    else if (not(mayTrade(c, a.s))) no(w, "auth")
    else if (not(hasU(c.defl, a.d)) or not(hasU(c.units, a.d))) no(w, "target")
    else if (a.d == c.reserve) {
      pure val gap = getU(c.units, a.d) - getU(c.defl, a.d)
      if (gap < 0) no(w, "target")
      else yes({ ...w, c: { ...c,
        units: setU(c.units, a.d, getU(c.defl, a.d)),
        resUnits: split(c.resUnits, c.infl, gap) } })
    }
    else if (not((a.d, c.reserve).in(c.trades.keys()))) no(w, "notrade")
    else {
      pure val t = c.trades.get((a.d, c.reserve))
      pure val est = estOut(w, t.routes, c.reserve, a.x)
      pure val gap = getU(c.units, a.d) - getU(c.defl, a.d)
      if (t.last != -1 and w.now < t.last + t.cooldown) no(w, "cooldown")
      else if (a.x > t.maxAmt) no(w, "max")
      else if (not(est.ok)) no(w, "swap")
      else if (est.d != a.d) no(w, "swap")
      else if (gap < 0 or est.x > damt(gap, c.supply)) no(w, "gap")
      else if (est.x > a.lim) no(w, "slip")
      else if (c.supply == 0) no(w, "swap")
      else {
        pure val paid = cdiv(est.x * 100, w.skew)       // what the pool really takes
        pure val du = dratio(est.x, c.supply)
        pure val ru = dratio(a.x, c.supply)
        if (paid > est.x) no(w, "exec")
        else if (bal(w.bank, CORE, a.d) < paid) no(w, "insolvent")
        else yes({ ...w,
          bank: move(move(w.bank, CORE, POOL, a.d, paid), POOL, CORE, c.reserve, a.x),
          debt: w.debt.put(a.d, mget(w.debt, a.d) + est.x * ONE - du * c.supply),
          c: { ...c,
            units: setU(c.units, a.d, getU(c.units, a.d) - du),
            resUnits: split(c.resUnits, c.infl, ru),
            trades: c.trades.put((a.d, c.reserve), { ...t, last: w.now }) } })
      }
    }
  }

  pure def inflate(w: World, a: SwapArgs): Res = {
    pure val c = w.c
    if (not(c.reb)) no(w, "norebalance")
    else if (not(mayTrade(c, a.s))) no(w, "auth")
    else if (not(hasU(c.resUnits, a.d))) no(w, "earmark")
    else if (a.d == c.reserve)
      yes({ ...w, c: { ...c,
        units: addU(c.units, a.d, getU(c.resUnits, a.d)),
        resUnits: setU(c.resUnits, a.d, 0) } })
    else if (not((c.reserve, a.d).in(c.trades.keys()))) no(w, "notrade")
    else {
      pure val t = c.trades.get((c.reserve, a.d))
      pure val est = estIn(w, t.routes, c.reserve, a.x)
      if (t.last != -1 and w.now < t.last + t.cooldown) no(w, "cooldown")
      else if (a.x > t.maxAmt) no(w, "max")
      else if (a.x > damt(getU(c.resUnits, a.d), c.supply)) no(w, "earmark")
      else if (not(est.ok)) no(w, "swap")
      else if (est.x < a.lim) no(w, "slip")
      else if (c.supply == 0) no(w, "swap")
      else {
        pure val got = (est.x * w.skew) / 100           // what the pool really pays
        pure val ru = dratio(a.x, c.supply)
        pure val iu = dratio(est.x, c.supply)
        if (got < est.x) no(w, "exec")
        else if (bal(w.bank, CORE, c.reserve) < a.x) no(w, "insolvent")
        else yes({ ...w,
          bank: move(move(w.bank, CORE, POOL, c.reserve, a.x), POOL, CORE, est.d, got),
          debt: w.debt.put(c.reserve, mget(w.debt, c.reserve) + a.x * ONE - ru * c.supply),
          c: { ...c,
            units: addU(c.units, a.d, iu),
            resUnits: setU(c.resUnits, a.d, getU(c.resUnits, a.d) - ru),
            trades: c.trades.put((c.reserve, a.d), { ...t, last: w.now }) } })
      }
    }
  }

  // trades move whole base units and round units down: less than one base unit of the
  // whole supply, or the last digit of a unit, cannot be settled by trading
  pure def settleable(c: Core, u: int): bool = u > 1 and damt(u, c.supply) > 0

  pure def finalize(w: World, s: str): Res = {
    pure val c = w.c
    if (not(c.reb)) no(w, "norebalance")
    else if (not(mayTrade(c, s))) no(w, "auth")
    else if (lany(c.defl, x => settleable(c, getU(c.units, x.d) - x.u))) no(w, "target")
    else if (lany(c.resUnits, x => settleable(c, x.u))) no(w, "earmark")
    else yes({ ...w, rebStart: -1, c: { ...c,
      reb: false, mgr: "", defl: [], infl: [], resUnits: [],
      sfFreeze: false, sfLast: if (c.sf) w.now else 0,
      units: c.units.select(x => x.u != 0) } })
  }

  // everything the vault owes in denom d, times ONE
  pure def owed(w: World, d: str): int =
    getU(w.c.units, d) * w.c.supply
      + (if (d == w.c.reserve) totU(w.c.resUnits) * w.c.supply else 0)
      + mget(w.c.sfColl, d) * ONE

  // ------------------------------------------------------------- finishing ----
  // What brings any rebalance in progress to its end: given somebody who trades one for
  // one, routes opened by governance and the vault's rounding shortfall topped up, sell
  // every gap, spend every earmark, finalise.
  type Finish = { r: Res, sell: List[Unit], buy: List[Unit], topup: str -> int }   // amounts, not units
  type Fair = { pools: int -> Pool, trades: (str, str) -> TradeInfo, n: int }
  pure def fair(w: World): World = {
    pure val c = w.c
    pure val f: Fair = c.units.concat(c.infl).foldl({ pools: Map(), trades: Map(), n: 900 }, (f, x) =>
      if (x.d == c.reserve) f
      else {
        pure val t = { routes: [{ pool: f.n, d: x.d }], cooldown: 0, maxAmt: U128, last: -1 }
        { pools: f.pools.put(f.n, { a: x.d, b: c.reserve, num: 1, den: 1 }),
          trades: f.trades.put((x.d, c.reserve), { ...t, routes: [{ pool: f.n, d: c.reserve }] }).put((c.reserve, x.d), t),
          n: f.n + 1 }
      })
    { ...w, skew: 100, pools: f.pools, c: { ...c, trades: f.trades } }
  }
  pure def shortfall(w: World): str -> int =
    nonzero(denomsU(w.c.units).union(denomsU(w.c.infl)).union(Set(w.c.reserve))
      .mapBy(d => imax(0, cdiv(owed(w, d), ONE) - bal(w.bank, CORE, d))))

  pure def toSettle(c: Core, u: int): int = if (settleable(c, u)) damt(u, c.supply) else 0
  pure def finish(w: World): Finish = {
    pure val s = orElse(w.c.mgr, "alice")
    pure val w1 = fair(w)
    pure val topup = shortfall(w)
    pure val w2 = { ...w1, bank: topup.keys().fold(w1.bank, (b, d) => credit(b, CORE, d, topup.get(d))) }
    pure val f0: Finish = { r: yes(w2), sell: [], buy: [], topup: topup }
    pure val sold = range(0, 3 * w.c.defl.length()).foldl(f0, (f, i) => {
      pure val d = w.c.defl[i / 3].d
      pure val c = f.r.w.c
      pure val x = if (d == c.reserve) (if (i % 3 == 0) 1 else 0)
                   else toSettle(c, getU(c.units, d) - getU(c.defl, d))
      if (not(f.r.ok) or x == 0) f
      else { ...f, r: deflate(f.r.w, { s: s, d: d, x: x, lim: x }), sell: f.sell.append({ d: d, u: x }) }
    })
    pure val bought = range(0, 3 * w.c.infl.length()).foldl(sold, (f, i) => {
      pure val d = w.c.infl[i / 3].d
      pure val c = f.r.w.c
      pure val x = if (d == c.reserve) getU(c.resUnits, d) else toSettle(c, getU(c.resUnits, d))
      if (not(f.r.ok) or x == 0) f
      else { ...f, r: inflate(f.r.w, { s: s, d: d, x: x, lim: x }), buy: f.buy.append({ d: d, u: x }) }
    })
    if (bought.r.ok) { ...bought, r: finalize(bought.r.w, s) } else bought
  }
  pure def finishable(w: World): bool = not(w.c.reb) or finish(w).r.ok

  // ------------------------------------------------------------- redeeming ----
  // What a holder can do later, if nobody does anything until then: burn n (with the
  // vault's rounding shortfall, less than a base unit per mint or trade, topped up).
  type Redeem = { r: Res, topup: str -> int }
  pure def redeemAt(w: World, s: str, n: int, dt: int): Redeem = {
    pure val topup = shortfall(w)
    pure val w1 = { ...w, now: w.now + dt, bank: topup.keys().fold(w.bank, (b, d) => credit(b, CORE, d, topup.get(d))) }
    { r: burn(w1, { s: s, to: "", funds: Map(IDX -> n) }), topup: topup }
  }
  // vaults that stand still, amounts that are worth nothing; and a streaming fee that has
  // come to exceed the whole vault (known finding of C19)
  pure val MAYREFUSE = Set("paused", "rebalancing", "nothing", "dust", "overrate", "pow")
  pure def redeemable(w: World, holders: Set[str]): bool = holders.forall(s => {
    pure val n = bal(w.bank, s, IDX)
    pure val r = redeemAt(w, s, n, 0).r
    n == 0 or r.ok or r.why.in(MAYREFUSE)
  })

  // ---------------------------------------------------------------- queries ----
  pure def qSimMint(w: World, amt: int, gave: bool, funds: str -> int, t: int): Res = {
    pure val a = accrueAt(w.c, t)
    pure val need = deposit(a.units, amt)
    pure val pay = if (gave) funds else need
    pure val fee = mintFeeOf(w.c, amt)
    if (not(a.ok)) no(w, a.why)
    else if (not(fundsOk(a.units, need, pay))) no(w, "funds")
    else if (amt < fee) no(w, "nothing")
    else ans(w, { ...noOut, n: amt - fee, m: need,
                  m2: nonzero(need.keys().mapBy(d => pay.get(d) - need.get(d))) })
  }
  pure def qSimBurn(w: World, amt: int, t: int): Res = {
    pure val a = accrueAt(w.c, t)
    pure val net = amt - burnFeeOf(w.c, amt)
    if (not(a.ok)) no(w, a.why)
    else ans(w, { ...noOut, n: net, m: redeem(a.units, net) })
  }
  pure def qFee(w: World, t: int): Res = {
    pure val a = accrueAt(w.c, t)
    if (not(a.ok)) no(w, a.why)
    else ans(w, { ...noOut, m: a.coll, n: a.last, b: w.c.sf })
  }
  pure def qPortfolio(w: World, t: int): Res = {
    pure val a = accrueAt(w.c, t)
    if (not(a.ok)) no(w, a.why)
    else ans(w, { ...noOut, n: w.c.supply, l: a.units, m: redeem(a.units, w.c.supply) })
  }
  pure def qConfig(w: World, t: int): Res = {
    pure val p = isPaused(w.c, t)
    ans(w, { ...noOut, b: p, n: if (p) w.c.pauseExp else -1 })
  }

  // ------------------------------------------------------------ operations ----
  type Op =
    | Nop
    | Wait(int)
    | SetPrice({ pool: int, num: int, den: int })
    | SetSkew(int)
    | Send({ s: str, to: str, d: str, amt: int })
    | Mint(MintArgs)
    | Burn(BurnArgs)
    | Realize(str)
    | Pause({ s: str, exp: int })
    | Release(str)
    | UpdateGov({ s: str, to: str })
    | AcceptGov(str)
    | RevokeGov(str)
    | UpdateFee({ s: str, f: FeeArgs })
    | UpdateManager({ s: str, m: str })
    | UpdateReserve({ s: str, d: str })
    | UpdateTrade(TradeArgs)
    | Init(InitArgs)
    | Deflate(SwapArgs)
    | Inflate(SwapArgs)
    | Finalize(str)
    | Instantiate({ units: List[Unit], f: FeeArgs, gov: str })
    | QSimMint({ amt: int, gave: bool, funds: str -> int, t: int })
    | QSimBurn({ amt: int, t: int })
    | QFee(int)
    | QPortfolio(int)
    | QConfig(int)
    | QFinish
    | QRedeem({ s: str, n: int, dt: int })

  pure def exec(w: World, op: Op): Res = match op {
    | Nop => yes(w)
    | Wait(n) => yes({ ...w, now: w.now + n })
    | SetPrice(a) => yes({ ...w, pools: w.pools.put(a.pool, { ...w.pools.get(a.pool), num: a.num, den: a.den }) })
    | SetSkew(n) => yes({ ...w, skew: n })
    | Send(a) =>
        if (a.amt <= 0 or bal(w.bank, a.s, a.d) < a.amt) no(w, "poor")
        else yes({ ...w, bank: move(w.bank, a.s, a.to, a.d, a.amt) })
    | Mint(a) => mint(w, a)
    | Burn(a) => burn(w, a)
    | Realize(s) => realize(w, s)
    | Pause(a) => pause(w, a.s, a.exp)
    | Release(s) => release(w, s)
    | UpdateGov(a) => updateGov(w, a.s, a.to)
    | AcceptGov(s) => acceptGov(w, s)
    | RevokeGov(s) => revokeGov(w, s)
    | UpdateFee(a) => updateFee(w, a.s, a.f)
    | UpdateManager(a) => updateManager(w, a.s, a.m)
    | UpdateReserve(a) => updateReserve(w, a.s, a.d)
    | UpdateTrade(a) => updateTrade(w, a)
    | Init(a) => rebInit(w, a)
    | Deflate(a) => deflate(w, a)
    | Inflate(a) => inflate(w, a)
    | Finalize(s) => finalize(w, s)
    | Instantiate(a) =>
        if (dupU(a.units)) no(w, "dup")
        else if (not(goodAddr(a.gov)) or not(goodAddr(a.f.collector))) no(w, "addr")
        else if (not(feeRatesOk(a.f))) no(w, "rates")
        else yes(w)
    | QSimMint(a) => qSimMint(w, a.amt, a.gave, a.funds, a.t)
    | QSimBurn(a) => qSimBurn(w, a.amt, a.t)
    | QFee(t) => qFee(w, t)
    | QPortfolio(t) => qPortfolio(w, t)
    | QConfig(t) => qConfig(w, t)
    | QFinish =>
        // the trades that would end the rebalance; changes nothing
        if (not(w.c.reb)) no(w, "norebalance")
        else {
          pure val f = finish(w)
          ans(w, { ...noOut, b: f.r.ok, l: f.sell, k: f.buy, m: f.topup })
        }
    | QRedeem(a) => {
        // whether a holder can redeem after dt more seconds; changes nothing
        pure val f = redeemAt(w, a.s, a.n, a.dt)
        ans(w, { ...noOut, b: f.r.ok, s: f.r.why, m: f.topup,
                 m2: if (f.r.ok) nonzero(denomsU(w.c.units).mapBy(d => bal(f.r.w.bank, a.s, d) - bal(w.bank, a.s, d))) else Map() })
      }
  }

  // ------------------------------------------------------------- events ----
  // what the event of an accepted operation reports (w before, w2 after it)
  pure def event(w: World, op: Op, w2: World): List[Attr] = match op {
    | Mint(a) => [says("method", "mint"), says("executor", a.s), says("receiver", orElse(a.rcv, a.s)),
        says("refund_to", orElse(a.ref, a.s)), counts("amount", w2.c.supply - w.c.supply)]
    | Burn(a) => [says("method", "burn"), says("executor", a.s), says("redeem_to", orElse(a.to, a.s)),
        counts("amount", w.c.supply - w2.c.supply)]
    | Realize(s) => [says("method", "realize"), says("executor", s)]
    | Pause(a) => [says("method", "gov::pause"), says("executor", a.s),
        if (w2.c.pauseExp == -1) says("expires_at", "never") else counts("expires_at", w2.c.pauseExp)]
    | Release(s) => [says("method", "gov::release"), says("executor", s)]
    | UpdateGov(a) => [says("method", "gov::update_gov"), says("executor", a.s), says("pending_gov", w2.c.pending)]
    | AcceptGov(s) => [says("method", "gov::accept_gov"), says("executor", s), says("gov", w2.c.gov)]
    | RevokeGov(s) => [says("method", "gov::revoke_gov"), says("executor", s), says("pending_gov", w.c.pending)]
    | UpdateFee(a) => [says("method", "gov::update_fee"), says("executor", a.s)]
    | UpdateManager(a) => [says("method", "gov::update_rebalance_manager"), says("executor", a.s), says("new_manager", orElse(w2.c.mgr, "none"))]
    | UpdateReserve(a) => [says("method", "gov::update_reserve_denom"), says("executor", a.s), says("new_denom", w2.c.reserve)]
    | UpdateTrade(a) => [says("method", "gov::update_trade_info"), says("executor", a.s), says("denom_in", a.d),
        says("denom_out", a.routes[a.routes.length() - 1].d), counts("cooldown", a.cooldown), counts("max_trade_amount", a.maxAmt)]
    | Init(a) => [says("method", "rebalance::init"), says("executor", a.s), says("manager", orElse(w2.c.mgr, "none"))]
    | Deflate(a) => {
        pure val own = a.d == w.c.reserve
        pure val gap = damt(getU(w.c.units, a.d) - getU(w2.c.units, a.d), w.c.supply)
        [says("method", "deflate"), says("executor", a.s), says("denom", a.d), says("is_reserve", if (own) "true" else "false"),
         counts("amount_in", if (own) gap else estOut(w, w.c.trades.get((a.d, w.c.reserve)).routes, w.c.reserve, a.x).x),
         counts("amount_out", if (own) gap else a.x)] }
    | Inflate(a) => {
        pure val own = a.d == w.c.reserve
        pure val all_ = damt(getU(w.c.resUnits, a.d), w.c.supply)
        [says("method", "inflate"), says("executor", a.s), says("denom", a.d), says("is_reserve", if (own) "true" else "false"),
         counts("amount_in", if (own) all_ else a.x),
         counts("amount_out", if (own) all_ else estIn(w, w.c.trades.get((w.c.reserve, a.d)).routes, w.c.reserve, a.x).x)] }
    | Finalize(s) => [says("method", "rebalance::finalize"), says("executor", s)]
    | _ => []
  }

  // ------------------------------------------------------------- invariants ----
  pure def denomsOf(w: World): Set[str] =
    w.bank.keys().map(k => k._2).exclude(Set(IDX))

  pure def collateralized(w: World): bool =
    denomsOf(w).forall(d => bal(w.bank, CORE, d) * ONE + mget(w.debt, d) >= owed(w, d))

  pure def supplyMatches(w: World): bool =
    w.bank.keys().fold(0, (s, k) => if (k._2 == IDX) s + w.bank.get(k) else s) == w.c.supply

  pure def feesAccounted(w: World): bool =
    w.streamed.keys().union(w.realized.keys()).union(w.c.sfColl.keys()).forall(d =>
      mget(w.streamed, d) == mget(w.realized, d) + mget(w.c.sfColl, d))

  pure def ratesBounded(w: World): bool =
    feeRatesOk({ collector: w.c.collector, mint: w.c.mintFee, burn: w.c.burnFee,
                 sf: w.c.sf, rate: w.c.sfRate, freeze: w.c.sfFreeze })

  pure def rebalanceSane(w: World): bool = and {
    w.c.reb implies (w.c.defl.length() > 0 and w.c.infl.length() > 0
      and denomsU(w.c.defl).intersect(denomsU(w.c.infl)) == Set()
      and lall(w.c.defl, x => hasU(w.c.units, x.d) and getU(w.c.units, x.d) >= x.u)
      and lall(w.c.infl, x => x.u > 0)
      and denomsU(w.c.resUnits).subseteq(denomsU(w.c.infl))),
    not(w.c.reb) implies (w.c.resUnits == [] and w.c.mgr == ""),
    (w.c.reb and w.c.sf) implies w.c.sfFreeze,
    lall(w.c.units, x => x.u >= 0) and lall(w.c.resUnits, x => x.u >= 0),
    w.c.supply >= 0,
  }

  pure def noNegative(w: World): bool = w.bank.keys().forall(k => w.bank.get(k) >= 0)
}
