// Behaviours of the pool simulation: swaps that move the reserves, estimates and
// searches over whole index trades that must leave them alone, and the power function.
module poolgen {
  import pool.* from "./pool"

  type SwapArgs = { p: int, din: str, dout: str, n: int }
  type TradeArgs = { units: List[Unit], d: str, v: int, n: int }
  type SearchArgs = { units: List[Unit], d: str, v: int, want: int, seed: int }
  type Op =
    | Nop
    | SwapIn(SwapArgs)
    | SwapOut(SwapArgs)
    | Pow({ b: int, p: int, q: int })
    | Cost(TradeArgs)
    | Yield(TradeArgs)
    | FindCost(SearchArgs)
    | FindYield(SearchArgs)
  // tol: how far an implementation may be off
  // must: a call that is not ok has to fail in every implementation
  type Last = { op: Op, ok: bool, must: bool, slow: bool, n: int, m: int, tol: int, legs: List[Leg], y: int, r: int, p: int, q: int }

  var w: PoolMap
  var last: Last

  pure val blank: Last = { op: Nop, ok: true, must: false, slow: false, n: 0, m: 0, tol: 0, legs: [], y: ONE, r: ONE, p: 1, q: 1 }
  type Rnd = { a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int }
  type Next = { w: PoolMap, last: Last }

  pure def exec(x: PoolMap, op: Op): Next = match op {
    | Nop => { w: x, last: blank }
    | SwapIn(a) => {
        pure val p = x.get(a.p)
        pure val s = swapIn(p, a.din, a.n, a.dout)
        { w: if (s.ok) x.put(a.p, s.p) else x,
          last: { ...blank, op: op, ok: s.ok, must: not(has(p, a.din)) or not(has(p, a.dout)), slow: s.n == -2, n: s.n, tol: if (s.ok) slackIn(p, a.din, a.dout) else 0, y: s.y, r: s.r,
                  p: if (s.ok) weight(p, a.din) / SCALE else 1, q: if (s.ok) weight(p, a.dout) / SCALE else 1 } }
      }
    | SwapOut(a) => {
        pure val p = x.get(a.p)
        pure val s = swapOut(p, a.din, a.dout, a.n)
        { w: if (s.ok) x.put(a.p, s.p) else x,
          last: { ...blank, op: op, ok: s.ok, must: not(has(p, a.din)) or not(has(p, a.dout)) or (p.kind == 0 and a.n >= reserve(p, a.dout)),
                  slow: s.n == -2, n: s.n, tol: if (s.ok) slackOut(p, a.din, a.dout) else 0, y: s.y, r: s.r,
                  p: if (s.ok) weight(p, a.dout) / SCALE else 1, q: if (s.ok) weight(p, a.din) / SCALE else 1 } }
      }
    | Pow(a) => {
        pure val r = pow(a.b, (a.p * ONE) / a.q)
        { w: x, last: { ...blank, op: op, ok: r >= 0, must: a.b <= 0 or a.b >= 2 * ONE, slow: r == -2, n: r,
                            tol: if (a.p % a.q == 0) 100 * (1 + imax(r, 0) / ONE) else 2 * PREC * powTail(a.b) * (1 + imax(r, 0) / ONE), y: a.b, r: imax(r, 0), p: a.p, q: a.q } }
      }
    | Cost(a) => {
        pure val t = costOf(x, buyRoutes(a.d, a.v), a.units, a.n, a.d)
        { w: x, last: { ...blank, op: op, ok: t.ok, slow: t.tot == -2, n: t.tot, tol: t.tol, legs: t.legs } }
      }
    | Yield(a) => {
        pure val t = yieldOf(x, sellRoutes(a.d, a.v), a.units, a.n, a.d)
        { w: x, last: { ...blank, op: op, ok: t.ok, slow: t.tot == -2, n: t.tot, tol: t.tol, legs: t.legs } }
      }
    | FindCost(a) => {
        pure val f = searchCost(x, buyRoutes(a.d, a.v), a.units, a.d, a.want, if (a.seed == -1) 10^6 else a.seed)
        { w: x, last: { ...blank, op: op, ok: f.ok and f.done, n: f.idx, m: f.tot } }
      }
    | FindYield(a) => {
        pure val f = searchYield(x, sellRoutes(a.d, a.v), a.units, a.d, a.want, if (a.seed == -1) 10^6 else a.seed)
        { w: x, last: { ...blank, op: op, ok: f.ok and f.done, n: f.idx, m: f.tot } }
      }
  }

  pure def genSwap(x: PoolMap, inn: bool, r: Rnd): Op = {
    pure val i = 1 + r.a % 6
    pure val p = x.get(i)
    pure val len = p.assets.length()
    pure val j = r.b % len
    pure val k = (j + 1 + (r.b / len) % (len - 1)) % len
    pure val din = if (r.c % 40 == 0) "unone" else p.assets[j].d
    pure val dout = p.assets[k].d
    pure val base = if (inn) p.assets[j].b else p.assets[k].b
    // 0 .. 30 % of the reserve, over many orders of magnitude
    pure val small = (base * (1 + r.d % 300)) / (1000 * 10^(r.e % 7))
    pure val n = if (inn) (if (r.f % 30 == 0) r.g % 3 else if (r.f % 30 == 1) base * (1 + r.g % 3) else if (r.f % 30 == 2) base * (4 + r.g % 20) else small)
                 else (if (r.f % 30 == 0) base + r.g % 2 else if (r.f % 30 == 1) (base * (60 + r.g % 40)) / 100 else if (r.f % 30 < 4) (base * (25 + r.g % 25)) / 100 else imin(small, base / 4))
    pure val a = { p: i, din: din, dout: dout, n: n }
    if (inn) SwapIn(a) else SwapOut(a)
  }
  // few per mill of the reserves for 10^(6 + z) index units
  pure def genUnits(x: PoolMap, r: Rnd, z: int): List[Unit] = {
    pure val k = 1 + r.a % 4
    range(0, k).foldl([], (acc, i) => {
      pure val d = DENOMS[(r.b + i * (1 + 2 * ((r.b / 5) % 2))) % 7]
      if (hasU(acc, d)) acc else {
        pure val pid = if (d == "uatom") 1 else if (d == "ujuno") 2 else if (d == "uion") 5 else if (d == "uatoms") 6 else 4
        pure val b = if (d == "uosmo") reserve(x.get(4), d) else if (pid > 4) 10^11 else reserve(x.get(pid), d)
        acc.append({ d: d, u: (b * ONE * (1 + (r.c / (i + 1)) % 100)) / (10^(6 + z) * 5000) })
      }
    })
  }
  pure def genTrade(x: PoolMap, cost: bool, r: Rnd): Op = {
    pure val z = 2 * (r.h % 4)
    pure val a = { units: genUnits(x, r, z), d: pick(DENOMS, r.d), v: r.e % 2, n: (10^(6 + z) * (1 + r.f % 1000)) / (1000 * 10^(r.g % 4)) }
    if (cost) Cost(a) else Yield(a)
  }
  pure def genSearch(x: PoolMap, cost: bool, r: Rnd): Op = {
    pure val z = 2 * (r.h % 5)
    pure val us = genUnits(x, r, z)
    pure val d = pick(DENOMS, r.d)
    pure val v = r.e % 2
    pure val n = (10^(6 + z) * (1 + r.f % 1000)) / 1000
    pure val t = if (cost) costOf(x, buyRoutes(d, v), us, n, d) else yieldOf(x, sellRoutes(d, v), us, n, d)
    pure val a = { units: us, d: d, v: v, want: imax(1, t.tot + r.h % 20000), seed: if (r.g % 4 == 0) -1 else imax(1, (n * (50 + r.g % 100)) / 100) }
    if (cost) FindCost(a) else FindYield(a)
  }
  pure def genPow(r: Rnd): Op = {
    pure val q = 1 + r.a % 7
    pure val p = r.b % 16
    pure val wide = ((r.d * 10^6 + r.e) * 2 * ONE) / 10^12
    pure val b = if (r.c % 25 == 0) pick([0, 2 * ONE, 2 * ONE + 1, 3 * ONE], r.d) else if (r.c % 25 == 1) ONE
                 else if (r.c % 4 == 0) imax(ONE / 25, imin(2 * ONE - ONE / 50, wide))
                 else (6 * ONE) / 10 + ((r.d * 10^6 + r.e) * ONE) / 10^12
    Pow({ b: b, p: p, q: q })
  }
  pure def gen(x: PoolMap, k: str, r: Rnd): Op =
    if (k == "in") genSwap(x, true, r)
    else if (k == "out") genSwap(x, false, r)
    else if (k == "pow") genPow(r)
    else if (k == "cost") genTrade(x, true, r)
    else if (k == "yield") genTrade(x, false, r)
    else if (k == "findcost") genSearch(x, true, r)
    else genSearch(x, false, r)

  action drive(kinds: List[str]): bool = {
    nondet a = 0.to(999999).oneOf()
    nondet b = 0.to(999999).oneOf()
    nondet c = 0.to(999999).oneOf()
    nondet d = 0.to(999999).oneOf()
    nondet e = 0.to(999999).oneOf()
    nondet f = 0.to(999999).oneOf()
    nondet g = 0.to(999999).oneOf()
    nondet h = 0.to(999999).oneOf()
    nondet k = 0.to(999).oneOf()
    val x = exec(w, gen(w, pick(kinds, k), { a: a, b: b, c: c, d: d, e: e, f: f, g: g, h: h }))
    all { w' = x.w, last' = x.last }
  }
  action init = {
    nondet a = 0.to(999999).oneOf()
    nondet b = 0.to(999999).oneOf()
    nondet c = 0.to(999999).oneOf()
    all {
      w' = makePools(
        range(0, 9).foldl([], (acc, i) => acc.append(10^(8 + ((a / (2^i)) % 7)) + ((b * (i + 7)) % 10^6) * 10^(2 + i % 5))),
        range(0, 9).foldl([], (acc, i) => acc.append(pick(WEIGHTS, c / (i + 1)))),
        range(0, 4).foldl([], (acc, i) => acc.append(pick(FEES, b / (3 * i + 1)))),
        [1 + a % 997, 1 + b % 997, 900 + c % 200, 900 + a % 200]),
      last' = blank,
    }
  }
  action step = drive(["in", "in", "in", "out", "out", "out", "pow", "pow", "cost", "cost", "yield", "yield", "findcost", "findyield"])
  action initMath = init
  action stepMath = drive(["pow", "pow", "pow", "in", "out"])

  // the power found is right to within 5 * 10^-8 of its integer part (more for bases near zero), decided exactly
  val powRight = or { last.slow, not(last.ok), powOk(last.y, last.p, last.q, last.r, 5 * PREC * powTail(last.y) * (1 + last.r / ONE)) }
  val reservesPositive = w.keys().forall(i => w.get(i).assets.foldl(true, (acc, x) => acc and x.b > 0))
  val inv = and { powRight, reservesPositive }
}
