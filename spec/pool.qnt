// Weighted pools as the pool package simulates them, and the simulation of a whole
// index trade over several pools.  Decimals have 18 digits, truncated.  The power
// function is Osmosis' own: square-and-multiply for the integer part of the
// exponent, the binomial series down to terms below 10^-8 for the rest.  That it is
// close enough to the true power is itself an invariant here (powOk), decided in
// exact integer arithmetic.
module pool {
  import base.* from "./base"
  export base.*

  type Asset = { d: str, b: int, w: int }                  // denom, reserve, weight
  // kind 0: weighted; 1: concentrated, 2: stable, both quoted by the chain, here at the
  // constant price of num/den of the second asset for one of the first
  type WPool = { kind: int, assets: List[Asset], fee: int, num: int, den: int }
  type PoolMap = int -> WPool
  type Hop = { pool: int, d: str }                         // exact-in: denom paid out; exact-out: denom taken
  type RouteOf = (str, str) -> List[Hop]                   // (from, to)

  pure val PREC = 10^10                                    // 10^-8
  pure val BLOCKS = 20                                     // of 20 terms

  // ---- power ----------------------------------------------------------------
  type Sq = { x: int, y: int, n: int }
  pure def powInt(b: int, e: int): int =
    if (e == 0) ONE else {
      pure val s = range(0, 32).foldl({ x: b, y: ONE, n: e }, (st, _) =>
        if (st.n <= 1) st
        else { x: dmul(st.x, st.x), y: if (st.n % 2 == 0) st.y else dmul(st.y, st.x), n: st.n / 2 })
      dmul(s.x, s.y)
    }
  type Series = { term: int, sum: int, neg: bool, done: bool }
  // in blocks, as most series end within the first
  pure def powFrac(b: int, a: int): int = {
    pure val x = if (b >= ONE) b - ONE else ONE - b
    pure val s = range(0, BLOCKS).foldl({ term: ONE, sum: ONE, neg: false, done: false }, (blk, j) =>
      if (blk.done) blk else range(20 * j + 1, 20 * j + 21).foldl(blk, (st, i) =>
        if (st.done or st.term < PREC) { ...st, done: true }
        else {
          pure val k = (i - 1) * ONE
          pure val c = if (a >= k) a - k else k - a
          pure val t = dmul(st.term, dmul(c, x)) / i
          if (t == 0) { ...st, done: true }
          else {
            pure val flips = (if (b < ONE) 1 else 0) + (if (a < k) 1 else 0)
            pure val n = if (flips == 1) not(st.neg) else st.neg
            { term: t, sum: if (n) st.sum - t else st.sum + t, neg: n, done: false }
          }
        }))
    if (s.done) s.sum else -2
  }
  // -1: outside the domain (base 0 or >= 2); -2: the series is too slow for this specification
  pure def pow(b: int, e: int): int =
    if (b <= 0 or b >= 2 * ONE) -1
    else if (e == ONE) b
    else {
      pure val i = powInt(b, e / ONE)
      if (e % ONE == 0) i
      else {
        pure val f = powFrac(b, e % ONE)
        if (f == -2) -2 else dmul(i, f)
      }
    }
  // below one all terms of the series have the same sign: the terms left out add up to at most this
  // many times the first of them
  pure def powTail(b: int): int = if (b <= 0 or b >= ONE) 1 else 1 + cdiv(ONE - b, b)
  // r is the q-th root of b^p up to tol, in exact arithmetic
  pure def powOk(b: int, p: int, q: int, r: int, tol: int): bool = {
    pure val lo = imax(0, r - tol)
    pure val hi = r + tol
    pure val mid = b^p * ONE^q
    lo^q * ONE^p <= mid and mid <= hi^q * ONE^p
  }

  // ---- one swap ---------------------------------------------------------------
  pure def reserve(p: WPool, d: str): int = p.assets.foldl(-1, (acc, x) => if (x.d == d and acc == -1) x.b else acc)
  pure def weight(p: WPool, d: str): int = p.assets.foldl(0, (acc, x) => if (x.d == d) x.w else acc)
  pure def has(p: WPool, d: str): bool = reserve(p, d) != -1
  pure def shift(p: WPool, din: str, x: int, dout: str, y: int): WPool =
    if (p.kind != 0) p else { ...p, assets: p.assets.foldl([], (acc, z) => acc.append(
        if (z.d == din) { ...z, b: z.b + x } else if (z.d == dout) { ...z, b: z.b - y } else z)) }

  type Swap = { ok: bool, n: int, p: WPool, y: int, r: int }      // n: the amount found
  pure def refuse(p: WPool): Swap = { ok: false, n: 0, p: p, y: ONE, r: ONE }
  pure def slow(p: WPool): Swap = { ok: false, n: -2, p: p, y: ONE, r: ONE }

  pure def quoted(p: WPool, n: int): Swap = if (n <= 0) refuse(p) else { ...refuse(p), ok: true, n: n }
  pure def swapIn(p: WPool, din: str, x: int, dout: str): Swap =
    if (not(has(p, din)) or not(has(p, dout))) refuse(p)
    else if (p.kind != 0) quoted(p, if (p.assets[0].d == din) (x * p.num) / p.den else (x * p.den) / p.num)
    else {
      pure val bi = reserve(p, din)
      pure val bo = reserve(p, dout)
      pure val y = (bi * ONE) / (bi + (x * (ONE - p.fee)) / ONE)
      pure val r = pow(y, (weight(p, din) * ONE) / weight(p, dout))
      if (r == -2) slow(p)
      else if (r == -1 or r >= ONE) refuse(p)
      else {
        pure val n = (bo * (ONE - r)) / ONE
        { ok: true, n: n, p: shift(p, din, x, dout, n), y: y, r: r }
      }
    }
  pure def swapOut(p: WPool, din: str, dout: str, n: int): Swap =
    if (not(has(p, din)) or not(has(p, dout))) refuse(p)
    else if (p.kind != 0) quoted(p, if (p.assets[0].d == dout) cdiv(n * p.num, p.den) else cdiv(n * p.den, p.num))
    else {
      pure val bi = reserve(p, din)
      pure val bo = reserve(p, dout)
      if (n >= bo) refuse(p)
      else {
        pure val y = (bo * ONE) / (bo - n)
        pure val r = pow(y, (weight(p, dout) * ONE) / weight(p, din))
        if (r == -2) slow(p)
        else if (r == -1 or r < ONE) refuse(p)
        else {
          pure val x = cdiv((bi * (r - ONE) * ONE) / (ONE - p.fee), ONE)
          { ok: true, n: x, p: shift(p, din, x, dout, n), y: y, r: r }
        }
      }
    }

  // how far another evaluation of the same formula may be off: 10^-8 per term of the
  // series on the reserve it scales, one unit of rounding otherwise
  pure def whole(p: WPool, din: str, dout: str): bool = p.kind != 0 or weight(p, din) % weight(p, dout) == 0
  pure def slackIn(p: WPool, din: str, dout: str): int =
    if (whole(p, din, dout)) 1 else 2 + reserve(p, dout) / 10^9
  pure def slackOut(p: WPool, din: str, dout: str): int =
    if (whole(p, dout, din)) 1 else 2 + (2 * reserve(p, din)) / 10^9

  // the chain refuses swaps that empty a side of the pool
  pure def stocked(p: WPool): bool = p.assets.foldl(true, (acc, x) => acc and x.b > 0)

  // ---- routes -----------------------------------------------------------------
  // pos: no amount on the way is zero (the chain refuses to swap nothing)
  type Walk = { ok: bool, pos: bool, d: str, n: int, tol: int, ps: PoolMap }
  pure def walkIn(ps: PoolMap, hops: List[Hop], din: str, x: int): Walk =
    hops.foldl({ ok: true, pos: x > 0, d: din, n: x, tol: 0, ps: ps }, (k, h) =>
      if (not(k.ok) or not(h.pool.in(k.ps.keys()))) { ...k, ok: false }
      else {
        pure val s = swapIn(k.ps.get(h.pool), k.d, k.n, h.d)
        if (s.ok) { ok: true, pos: k.pos and s.n > 0 and stocked(s.p), d: h.d, n: s.n, tol: slackIn(k.ps.get(h.pool), k.d, h.d) + (2 * k.tol * s.n) / imax(k.n, 1), ps: k.ps.put(h.pool, s.p) }
        else { ...k, ok: false, n: s.n }
      })
  pure def walkOut(ps: PoolMap, hops: List[Hop], dout: str, n: int): Walk = {
    pure val len = hops.length()
    range(0, len).foldl({ ok: true, pos: n > 0, d: dout, n: n, tol: 0, ps: ps }, (k, i) => {
      pure val h = hops[len - 1 - i]
      if (not(k.ok) or not(h.pool.in(k.ps.keys()))) { ...k, ok: false }
      else {
        pure val s = swapOut(k.ps.get(h.pool), h.d, k.d, k.n)
        if (s.ok) { ok: true, pos: k.pos and s.n > 0, d: h.d, n: s.n, tol: slackOut(k.ps.get(h.pool), h.d, k.d) + (2 * k.tol * s.n) / imax(k.n, 1), ps: k.ps.put(h.pool, s.p) }
        else { ...k, ok: false, n: s.n }
      }
    })
  }

  // ---- a whole index trade: asset after asset, each on what the others left ----
  type Leg = { d: str, amt: int, n: int, swapped: bool }
  type Trade = { ok: bool, tot: int, tol: int, legs: List[Leg], ps: PoolMap }
  pure def noTrade(ps: PoolMap): Trade = { ok: true, tot: 0, tol: 0, legs: [], ps: ps }
  // what buying the assets of `idx` index tokens costs in `dpay`
  pure def costOf(ps: PoolMap, rs: RouteOf, units: List[Unit], idx: int, dpay: str): Trade =
    units.foldl(noTrade(ps), (t, u) => {
      pure val need = damt(u.u, idx)
      if (not(t.ok)) t
      else if (u.d == dpay) { ...t, tot: t.tot + need, legs: t.legs.append({ d: u.d, amt: need, n: need, swapped: false }) }
      else if (not((dpay, u.d).in(rs.keys()))) { ...t, ok: false }
      else {
        pure val k = walkOut(t.ps, rs.get((dpay, u.d)), u.d, need)
        { ok: k.ok, tot: if (k.ok) t.tot + k.n else k.n, tol: t.tol + k.tol, legs: t.legs.append({ d: u.d, amt: need, n: k.n, swapped: true }), ps: k.ps }
      }
    })
  // what the assets of `idx` index tokens sell for in `dget`
  pure def yieldOf(ps: PoolMap, rs: RouteOf, units: List[Unit], idx: int, dget: str): Trade =
    units.foldl(noTrade(ps), (t, u) => {
      pure val have = damt(u.u, idx)
      if (not(t.ok)) t
      else if (u.d == dget) { ...t, tot: t.tot + have, legs: t.legs.append({ d: u.d, amt: have, n: have, swapped: false }) }
      else if (not((u.d, dget).in(rs.keys()))) { ...t, ok: false }
      else {
        pure val k = walkIn(t.ps, rs.get((u.d, dget)), u.d, have)
        { ok: k.ok, tot: if (k.ok) t.tot + k.n else k.n, tol: t.tol + k.tol, legs: t.legs.append({ d: u.d, amt: have, n: k.n, swapped: true }), ps: k.ps }
      }
    })

  // ---- the search for an index amount that uses up (raises) a given amount -------
  pure val MAXERR = 5000
  type Found = { ok: bool, idx: int, tot: int, tol: int, done: bool }
  pure def ratioOf(a: int, b: int): int = (a * ONE) / b
  pure def searchCost(ps: PoolMap, rs: RouteOf, units: List[Unit], dpay: str, want: int, seed: int): Found = {
    pure val t0 = costOf(ps, rs, units, seed, dpay)
    range(0, 40).foldl({ ok: t0.ok, idx: seed, tot: t0.tot, tol: t0.tol, done: false }, (f, _) =>
      if (not(f.ok) or f.done) f
      else if (f.tot <= 0) { ...f, ok: false }
      else {
        pure val i = damt(ratioOf(want, f.tot), f.idx)
        pure val t = costOf(ps, rs, units, i, dpay)
        { ok: t.ok and t.tot > 0, idx: i, tot: t.tot, tol: t.tol, done: t.ok and t.tot <= want and want - t.tot < MAXERR }
      })
  }
  pure def searchYield(ps: PoolMap, rs: RouteOf, units: List[Unit], dget: str, want: int, seed: int): Found = {
    pure val t0 = yieldOf(ps, rs, units, seed, dget)
    range(0, 40).foldl({ ok: t0.ok, idx: seed, tot: t0.tot, tol: t0.tol, done: false }, (f, _) =>
      if (not(f.ok) or f.done) f
      else if (f.tot <= 0) { ...f, ok: false }
      else {
        pure val i = damt(ratioOf(want, f.tot), f.idx)
        pure val t = yieldOf(ps, rs, units, i, dget)
        { ok: t.ok and t.tot > 0, idx: i, tot: t.tot, tol: t.tol, done: t.ok and t.tot <= want and want - t.tot < MAXERR }
      })
  }

  // ---- the pools of the generated behaviours -----------------------------------
  type Edge = { p: int, f: str, t: str }
  pure val DENOMS = ["uosmo", "uatom", "ujuno", "ustars", "uos", "uion", "uatoms"]
  // from a denom to uosmo, directly or the long way round
  pure val UP: str -> List[List[Edge]] = Map(
    "uosmo" -> [[]],
    "uatom" -> [[{ p: 1, f: "uatom", t: "uosmo" }], [{ p: 3, f: "uatom", t: "ujuno" }, { p: 2, f: "ujuno", t: "uosmo" }]],
    "ujuno" -> [[{ p: 2, f: "ujuno", t: "uosmo" }], [{ p: 3, f: "ujuno", t: "uatom" }, { p: 1, f: "uatom", t: "uosmo" }]],
    "ustars" -> [[{ p: 4, f: "ustars", t: "uosmo" }], [{ p: 4, f: "ustars", t: "uos" }, { p: 4, f: "uos", t: "uosmo" }]],
    "uos" -> [[{ p: 4, f: "uos", t: "uosmo" }]],
    "uion" -> [[{ p: 5, f: "uion", t: "uosmo" }]],
    "uatoms" -> [[{ p: 6, f: "uatoms", t: "uatom" }, { p: 1, f: "uatom", t: "uosmo" }],
                  [{ p: 6, f: "uatoms", t: "uatom" }, { p: 3, f: "uatom", t: "ujuno" }, { p: 2, f: "ujuno", t: "uosmo" }]],
  )
  pure val SHORT: (str, str) -> List[Edge] = Map(
    ("uatom", "ujuno") -> [{ p: 3, f: "uatom", t: "ujuno" }], ("ujuno", "uatom") -> [{ p: 3, f: "ujuno", t: "uatom" }],
    ("ustars", "uos") -> [{ p: 4, f: "ustars", t: "uos" }], ("uos", "ustars") -> [{ p: 4, f: "uos", t: "ustars" }],
    ("uatom", "uatoms") -> [{ p: 6, f: "uatom", t: "uatoms" }], ("uatoms", "uatom") -> [{ p: 6, f: "uatoms", t: "uatom" }],
  )
  pure def down(e: List[Edge]): List[Edge] =
    range(0, e.length()).foldl([], (acc, i) => {
      pure val x = e[e.length() - 1 - i]
      acc.append({ p: x.p, f: x.t, t: x.f })
    })
  pure def path(f: str, t: str, v: int): List[Edge] =
    if (v == 0 and (f, t).in(SHORT.keys())) SHORT.get((f, t))
    else pick(UP.get(f), v).concat(down(if (f == "uosmo") pick(UP.get(t), v) else UP.get(t)[0]))
  pure def inHops(e: List[Edge]): List[Hop] = e.foldl([], (acc, x) => acc.append({ pool: x.p, d: x.t }))
  pure def outHops(e: List[Edge]): List[Hop] = e.foldl([], (acc, x) => acc.append({ pool: x.p, d: x.f }))
  // routes for buying with / selling for one denom; `v` chooses among the alternatives
  pure def buyRoutes(dpay: str, v: int): RouteOf =
    lset(DENOMS).exclude(Set(dpay)).map(d => (dpay, d)).mapBy(k => outHops(path(k._1, k._2, v)))
  pure def sellRoutes(dget: str, v: int): RouteOf =
    lset(DENOMS).exclude(Set(dget)).map(d => (d, dget)).mapBy(k => inHops(path(k._1, k._2, v)))

  pure val WEIGHTS = [1, 1, 1, 2, 3, 4, 5, 7, 9]
  pure val FEES = [0, 10^15, 2 * 10^15, 3 * 10^15, 10^16, 10^17]
  pure val SCALE = 2^30
  pure def asset(d: str, b: int, w: int): Asset = { d: d, b: b, w: w * SCALE }
  // a fixed topology with drawn reserves, weights and fees
  pure def weightedPool(l: List[Asset], f: int): WPool = { kind: 0, assets: l, fee: f, num: 1, den: 1 }
  pure def fixedPool(k: int, a: str, b: str, f: int, num: int, den: int): WPool =
    { kind: k, assets: [asset(a, 10^15, 1), asset(b, 10^15, 1)], fee: f, num: num, den: den }
  // a fixed topology with drawn reserves, weights, fees and prices
  pure def makePools(b: List[int], w: List[int], f: List[int], q: List[int]): PoolMap = Map(
    1 -> weightedPool([asset("uatom", b[0], w[0]), asset("uosmo", b[1], w[1])], f[0]),
    2 -> weightedPool([asset("ujuno", b[2], w[2]), asset("uosmo", b[3], w[3])], f[1]),
    3 -> weightedPool([asset("uatom", b[4], w[4]), asset("ujuno", b[5], w[5])], f[2]),
    4 -> weightedPool([asset("uos", b[6], w[6]), asset("uosmo", b[7], w[7]), asset("ustars", b[8], w[8])], f[3]),
    5 -> fixedPool(1, "uion", "uosmo", f[0], q[0], q[1]),
    6 -> fixedPool(2, "uatom", "uatoms", f[1], q[2], q[3]),
  )
}
