// The periphery: trades between index tokens and a single asset through pools, in one
// transaction.  The vault is the core specification's, the pools are pool.qnt's; the
// periphery itself keeps nothing.
//
// Mint-exact-out and burn-exact-in are functions of the state.  For mint-exact-in and
// burn-exact-out the amount of index tokens is the contract's choice: the result
// carries one permitted choice together with the bounds every choice has to meet.
module peri {
  import core as C from "./core"
  import pool.* from "./pool"

  type World = { c: C::World, ps: PoolMap }

  pure val PERI = "peri"
  pure val IDX = C::IDX

  // miss: the denom whose route the caller leaves out
  type Via = { v: int, miss: str }
  type OutArgs = { s: str, idx: int, d: str, via: Via, funds: str -> int }           // mint exactly idx
  type InArgs = { s: str, d: str, min: int, via: Via, funds: str -> int }            // mint for / burn exactly the funds
  type WantArgs = { s: str, d: str, want: int, via: Via, funds: str -> int }         // burn for exactly want
  type Op =
    | Nop
    | Vault(C::Op)                                   // straight to the vault
    | Gift({ s: str, d: str, amt: int })             // coins sent to the periphery
    | Market({ p: int, din: str, dout: str, n: int })  // somebody else trades
    | Pricing({ p: int, num: int, den: int })
    | MintOut(OutArgs)
    | MintIn(InArgs)
    | BurnIn(InArgs)
    | BurnOut(WantArgs)
    | Finish({ s: str, ref: str, d: str })
    | SimMintOut({ idx: int, d: str, via: Via })
    | SimMintIn({ x: int, d: str, via: Via })
    | SimBurnIn({ x: int, d: str, via: Via })
    | SimBurnOut({ want: int, d: str, via: Via })

  // idx: index tokens minted or burned, before fees; tot: simulated total of the swaps;
  // lims: per leg the limit on the swap; lo..hi: what any choice of idx has to lie in
  type Out = { idx: int, net: int, tot: int, tol: int, legs: List[Leg], lims: List[int], spend: str -> int, lo: int, hi: int, units: List[Unit] }
  pure val noOut: Out = { idx: 0, net: 0, tot: 0, tol: 0, legs: [], lims: [], spend: Map(), lo: 0, hi: 0, units: [] }
  // why "slow": needs more terms of the power series than is worth following
  // sure: no implementation within the tolerances may decide differently
  type Res = { ok: bool, sure: bool, why: str, w: World, out: Out }
  pure def no(w: World, why: str): Res = { ok: false, sure: true, why: why, w: w, out: noOut }
  pure def unsure(w: World, why: str): Res = { ok: false, sure: false, why: why, w: w, out: noOut }

  pure def buyVia(d: str, a: Via): RouteOf = {
    pure val r = buyRoutes(d, a.v)
    r.keys().exclude(Set((d, a.miss))).mapBy(k => r.get(k))
  }
  pure def sellVia(d: str, a: Via): RouteOf = {
    pure val r = sellRoutes(d, a.v)
    r.keys().exclude(Set((a.miss, d))).mapBy(k => r.get(k))
  }
  pure def rateOf(f: int): int = if (f == -1) 0 else f
  // Decimal::one() / (1 - rate)
  pure def expand(f: int): int = (ONE * ONE) / (ONE - rateOf(f))
  pure def amountsAt(units: List[Unit], n: int): str -> int =
    denomsU(units).mapBy(d => damt(getU(units, d), n))
  // what one more index unit is worth, rounded up
  pure def perUnit(tot: int, idx: int): int = cdiv(tot, imax(idx, 1))
  // Decimal::checked_from_ratio, -1 when it overflows
  pure def ratio(n: int, m: int): int = if (m == 0 or (n * ONE) / m > U128) -1 else (n * ONE) / m

  // ------------------------------------------------------ executing the swaps ----
  type Run = { ok: bool, why: str, w: World }
  // legs of exact outputs, in order, each at most its limit
  pure def runOut(w: World, rs: RouteOf, legs: List[Leg], dpay: str, lims: List[int]): Run =
    range(0, legs.length()).foldl({ ok: true, why: "", w: w }, (r, i) => {
      pure val l = legs[i]
      if (not(r.ok) or not(l.swapped)) r
      else {
        pure val k = walkOut(r.w.ps, rs.get((dpay, l.d)), l.d, l.amt)
        pure val paid = cdiv(k.n * 100, r.w.c.skew)
        if (not(k.ok) or not(k.pos)) { ...r, ok: false, why: "swap" }
        else if (paid > lims[i]) { ...r, ok: false, why: "limit" }
        else if (bal(r.w.c.bank, PERI, dpay) < paid) { ...r, ok: false, why: "short" }
        else { ok: true, why: "", w: { ps: k.ps, c: { ...r.w.c, bank: move(move(r.w.c.bank, PERI, C::POOL, dpay, paid), C::POOL, PERI, l.d, l.amt) } } }
      }
    })
  pure def runIn(w: World, rs: RouteOf, legs: List[Leg], dget: str, lims: List[int]): Run =
    range(0, legs.length()).foldl({ ok: true, why: "", w: w }, (r, i) => {
      pure val l = legs[i]
      if (not(r.ok) or not(l.swapped)) r
      else {
        pure val k = walkIn(r.w.ps, rs.get((l.d, dget)), l.d, l.amt)
        pure val got = (k.n * r.w.c.skew) / 100
        if (not(k.ok) or not(k.pos)) { ...r, ok: false, why: "swap" }
        else if (got < lims[i]) { ...r, ok: false, why: "limit" }
        else if (bal(r.w.c.bank, PERI, l.d) < l.amt) { ...r, ok: false, why: "short" }
        else { ok: true, why: "", w: { ps: k.ps, c: { ...r.w.c, bank: move(move(r.w.c.bank, PERI, C::POOL, l.d, l.amt), C::POOL, PERI, dget, got) } } }
      }
    })
  pure def limits(legs: List[Leg], amp: int): List[int] =
    legs.foldl([], (acc, l) => acc.append(if (l.swapped) damt(amp, l.n) else 0))

  // everything the periphery holds of a denom goes to the caller
  pure def sweep(w: World, d: str, dst: str): World =
    { ...w, c: { ...w.c, bank: move(w.c.bank, PERI, dst, d, bal(w.c.bank, PERI, d)) } }

  pure def paidOne(funds: str -> int, d: str): bool = funds.keys() == Set(d) and mget(funds, d) > 0
  pure def taken(w: World, s: str, funds: str -> int): World =
    { ...w, c: { ...w.c, bank: moveAll(w.c.bank, s, PERI, funds) } }

  // buy the basket of idx index tokens with at most `cap`, mint, sweep
  type Plan = { t: Trade, cap: int, idx: int }
  pure def buyAndMint(w0: World, s: str, d: str, rs: RouteOf, funds: str -> int, units: List[Unit], p: Plan): Res = {
    pure val w = taken(w0, s, funds)
    pure val amp = ratio(p.cap, p.t.tot)
    pure val lims = limits(p.t.legs, amp)
    if (amp == -1) unsure(w0, "ratio")
    else {
      pure val r = runOut(w, rs, p.t.legs, d, lims)
      if (not(r.ok)) { ...no(w0, r.why), sure: r.why == "swap" }
      else {
        pure val need = amountsAt(units, p.idx)
        if (need.keys().exists(x => need.get(x) == 0)) no(w0, "dust")
        else {
          pure val m = C::mint(r.w.c, { s: PERI, amt: p.idx, rcv: s, ref: s, funds: need })
          if (not(m.ok)) no(w0, m.why)
          else { ok: true, sure: true, why: "", w: sweep({ ...r.w, c: m.w }, d, s),
                 out: { ...noOut, idx: p.idx, net: p.idx - C::mintFeeOf(w.c.c, p.idx), tot: p.t.tot, tol: p.t.tol,
                        legs: p.t.legs, lims: lims, spend: need, units: units } }
        }
      }
    }
  }

  pure def mintOut(w: World, a: OutArgs): Res = {
    pure val acc = C::accrueAt(w.c.c, w.c.now)
    pure val rs = buyVia(a.d, a.via)
    if (not(canPay(w.c.bank, a.s, a.funds))) no(w, "poor")
    else if (not(acc.ok)) no(w, acc.why)
    else if (not(paidOne(a.funds, a.d))) no(w, "payment")
    else {
      pure val t = costOf(w.ps, rs, acc.units, a.idx, a.d)
      pure val have = mget(a.funds, a.d)
      if (not(t.ok)) unsure(w, if (t.tot == -2) "slow" else "sim")
      else if (t.tot > have) { ...no(w, "budget"), sure: t.tot > have + t.tol }
      else {
        pure val r = buyAndMint(w, a.s, a.d, rs, a.funds, acc.units, { t: t, cap: have, idx: a.idx })
        // within rounding of the budget anything can happen
        if (t.tot + t.tol > have) { ...r, sure: false } else r
      }
    }
  }

  pure def mintIn(w: World, a: InArgs): Res = {
    pure val acc = C::accrueAt(w.c.c, w.c.now)
    pure val rs = buyVia(a.d, a.via)
    pure val least = if (w.c.c.mintFee == -1) a.min else damt(expand(w.c.c.mintFee), a.min) + 1
    if (not(canPay(w.c.bank, a.s, a.funds))) no(w, "poor")
    else if (not(acc.ok)) no(w, acc.why)
    else if (not(paidOne(a.funds, a.d))) no(w, "payment")
    else {
      pure val have = mget(a.funds, a.d)
      pure val f = searchCost(w.ps, rs, acc.units, a.d, have, least)
      if (not(f.ok) or not(f.done)) unsure(w, if (f.tot == -2) "slow" else "search")
      else {
        // nothing above hi is affordable
        pure val hi = f.idx + cdiv((have - f.tot + f.tol) * 101, imax(1, (100 * f.tot) / imax(f.idx, 1))) + 2
        if (f.idx < least) { ...no(w, "budget"), sure: hi < least }
        else {
          pure val third = dratio(1, 3)
          pure val m = f.idx - damt(third, f.idx - least)
          pure val t = costOf(w.ps, rs, acc.units, m, a.d)
          if (not(t.ok)) unsure(w, if (t.tot == -2) "slow" else "sim")
          else {
            pure val r = buyAndMint(w, a.s, a.d, rs, a.funds, acc.units, { t: t, cap: t.tot + 10000, idx: m })
            { ...r, sure: r.sure and f.idx > least + least / 1000 + 2, out: { ...r.out, lo: least, hi: hi, units: acc.units } }
          }
        }
      }
    }
  }

  // burn, sell the basket for d with the given total as minimum, sweep
  pure def burnAndSell(w0: World, s: str, d: str, rs: RouteOf, funds: str -> int, burned: int, units: List[Unit], t: Trade, min: int): Res = {
    pure val w = taken(w0, s, funds)
    pure val amp = ratio(min, t.tot)
    pure val lims = limits(t.legs, amp)
    pure val b = C::burn(w.c, { s: PERI, to: "", funds: Map(IDX -> burned) })
    if (amp == -1) unsure(w0, "ratio")
    else if (not(b.ok)) no(w0, b.why)
    else {
      pure val r = runIn({ ...w, c: b.w }, rs, t.legs, d, lims)
      if (not(r.ok)) { ...no(w0, r.why), sure: r.why == "swap" }
      else { ok: true, sure: true, why: "", w: sweep(sweep(r.w, d, s), IDX, s),
             out: { ...noOut, idx: burned, net: burned - C::burnFeeOf(w.c.c, burned), tot: t.tot, tol: t.tol,
                    legs: t.legs, lims: lims, units: units } }
    }
  }

  pure def burnIn(w: World, a: InArgs): Res = {
    pure val acc = C::accrueAt(w.c.c, w.c.now)
    pure val rs = sellVia(a.d, a.via)
    if (not(canPay(w.c.bank, a.s, a.funds))) no(w, "poor")
    else if (not(acc.ok)) no(w, acc.why)
    else if (not(paidOne(a.funds, IDX))) no(w, "payment")
    else {
      pure val x = mget(a.funds, IDX)
      pure val t = yieldOf(w.ps, rs, acc.units, x - C::burnFeeOf(w.c.c, x), a.d)
      if (not(t.ok)) unsure(w, if (t.tot == -2) "slow" else "sim")
      else if (t.tot < a.min) { ...no(w, "budget"), sure: t.tot + t.tol < a.min }
      else {
        pure val held = bal(w.c.bank, PERI, IDX)
        pure val r = burnAndSell(w, a.s, a.d, rs, a.funds, x, acc.units, t, a.min)
        // index tokens that were lying around stay there
        pure val r2 = if (r.ok and a.d != IDX) { ...r, w: { ...r.w, c: { ...r.w.c, bank: move(r.w.c.bank, a.s, PERI, IDX, held) } } } else r
        if (t.tot < a.min + t.tol) { ...r2, sure: false } else r2
      }
    }
  }

  pure def burnOut(w: World, a: WantArgs): Res = {
    pure val acc = C::accrueAt(w.c.c, w.c.now)
    pure val rs = sellVia(a.d, a.via)
    if (not(canPay(w.c.bank, a.s, a.funds))) no(w, "poor")
    else if (not(acc.ok)) no(w, acc.why)
    else if (not(paidOne(a.funds, IDX))) no(w, "payment")
    else {
      pure val x = mget(a.funds, IDX)
      pure val f = searchYield(w.ps, rs, acc.units, a.d, a.want, x)
      pure val b = damt(expand(w.c.c.burnFee), f.idx) - 1
      if (not(f.ok) or not(f.done)) unsure(w, if (f.tot == -2) "slow" else "search")
      else if (f.idx > x or b > x) { ...no(w, "budget"), sure: b > x + x / 1000 + 10 }
      else if (b <= 0) unsure(w, "small")
      else {
        pure val t = yieldOf(w.ps, rs, acc.units, b - C::burnFeeOf(w.c.c, b), a.d)
        if (not(t.ok)) unsure(w, if (t.tot == -2) "slow" else "sim")
        else {
          pure val r = burnAndSell(w, a.s, a.d, rs, a.funds, b, acc.units, t, t.tot)
          // at most MAXERR and three index units' worth below what was wanted
          { ...r, sure: r.sure and b + x / 1000 + 10 < x,
            out: { ...r.out, hi: a.want + t.tol, lo: imax(0, a.want - MAXERR - 3 * perUnit(f.tot, f.idx) - 2 * acc.units.length() - f.tol - t.tol), units: acc.units } }
        }
      }
    }
  }

  pure def finish(w: World, s: str, ref: str, d: str): Res =
    if (s != PERI) no(w, "auth")
    else if (not(C::goodAddr(ref))) no(w, "addr")
    else { ok: true, sure: true, why: "", w: sweep(w, d, ref), out: noOut }

  // ------------------------------------------------------------- simulations ----
  pure def answer(w: World, o: Out): Res = { ok: true, sure: true, why: "", w: w, out: o }
  pure def simMintOut(w: World, idx: int, d: str, via: Via): Res = {
    pure val acc = C::accrueAt(w.c.c, w.c.now)
    if (not(acc.ok)) no(w, acc.why)
    else {
      pure val t = costOf(w.ps, buyVia(d, via), acc.units, idx, d)
      if (not(t.ok)) unsure(w, if (t.tot == -2) "slow" else "sim")
      else answer(w, { ...noOut, idx: idx, net: idx - C::mintFeeOf(w.c.c, idx), tot: t.tot, tol: t.tol, spend: amountsAt(acc.units, idx), units: acc.units })
    }
  }
  pure def simMintIn(w: World, x: int, d: str, via: Via): Res = {
    pure val acc = C::accrueAt(w.c.c, w.c.now)
    if (not(acc.ok)) no(w, acc.why)
    else {
      pure val f = searchCost(w.ps, buyVia(d, via), acc.units, d, x, 10^6)
      if (not(f.ok) or not(f.done) or f.idx < 100) unsure(w, if (f.tot == -2) "slow" else "search")
      else {
        pure val price = imax(1, (100 * f.tot) / imax(f.idx, 1))       // per 100 index units
        answer(w, { ...noOut, idx: f.idx - 100, tot: f.tot, tol: f.tol, units: acc.units,
          lo: imax(0, f.idx - 100 - cdiv((MAXERR + f.tol) * 102, price) - 2),
          hi: f.idx + cdiv((x - f.tot + f.tol) * 102, price) + 2 })
      }
    }
  }
  pure def simBurnIn(w: World, x: int, d: str, via: Via): Res = {
    pure val acc = C::accrueAt(w.c.c, w.c.now)
    if (not(acc.ok)) no(w, acc.why)
    else {
      pure val net = x - C::burnFeeOf(w.c.c, x)
      pure val t = yieldOf(w.ps, sellVia(d, via), acc.units, net, d)
      if (not(t.ok)) unsure(w, if (t.tot == -2) "slow" else "sim")
      else answer(w, { ...noOut, idx: x, net: net, tot: t.tot, tol: t.tol, spend: amountsAt(acc.units, net), units: acc.units })
    }
  }
  pure def simBurnOut(w: World, want: int, d: str, via: Via): Res = {
    pure val acc = C::accrueAt(w.c.c, w.c.now)
    if (not(acc.ok)) no(w, acc.why)
    else {
      pure val f = searchYield(w.ps, sellVia(d, via), acc.units, d, want, 10^6)
      if (not(f.ok) or not(f.done)) unsure(w, if (f.tot == -2) "slow" else "search")
      else {
        // near the found amount; the yield bends, by at most twice over a search step here
        pure val price = imax(1, (100 * f.tot) / imax(f.idx, 1))
        pure val off = cdiv((MAXERR + f.tol) * 400, price) + 3
        answer(w, { ...noOut, idx: damt(expand(w.c.c.burnFee), f.idx), net: f.idx, tot: f.tot, tol: f.tol, units: acc.units,
          lo: imax(0, f.idx - off), hi: f.idx + off })
      }
    }
  }

  pure def exec(w: World, op: Op): Res = match op {
    | Nop => answer(w, noOut)
    | Vault(o) => {
        pure val r = C::exec(w.c, o)
        { ok: r.ok, sure: true, why: r.why, w: { ...w, c: r.w }, out: noOut }
      }
    | Gift(a) =>
        if (a.amt <= 0 or bal(w.c.bank, a.s, a.d) < a.amt) no(w, "poor")
        else answer({ ...w, c: { ...w.c, bank: move(w.c.bank, a.s, PERI, a.d, a.amt) } }, noOut)
    | Market(a) => {
        pure val s = swapIn(w.ps.get(a.p), a.din, a.n, a.dout)
        if (s.ok and stocked(s.p)) answer({ ...w, ps: w.ps.put(a.p, s.p) }, noOut) else no(w, "swap")
      }
    | Pricing(a) => answer({ ...w, ps: w.ps.put(a.p, { ...w.ps.get(a.p), num: a.num, den: a.den }) }, noOut)
    | MintOut(a) => mintOut(w, a)
    | MintIn(a) => mintIn(w, a)
    | BurnIn(a) => burnIn(w, a)
    | BurnOut(a) => burnOut(w, a)
    | Finish(a) => finish(w, a.s, a.ref, a.d)
    | SimMintOut(a) => simMintOut(w, a.idx, a.d, a.via)
    | SimMintIn(a) => simMintIn(w, a.x, a.d, a.via)
    | SimBurnIn(a) => simBurnIn(w, a.x, a.d, a.via)
    | SimBurnOut(a) => simBurnOut(w, a.want, a.d, a.via)
  }

  // what the event of an accepted trade reports
  pure def paid(funds: str -> int): Attr = funds.keys().fold(coin("", "", 0, 0), (x, d) => coin("", d, funds.get(d), 0))
  pure def event(op: Op, o: Out): List[Attr] = match op {
    | MintOut(a) => [says("method", "mint_exact_amount_out"), says("executor", a.s), { ...paid(a.funds), k: "max_input" },
        coin("output", IDX, o.net, 1), about("refund", mget(a.funds, a.d) - o.tot, o.tol)]
    | MintIn(a) => [says("method", "mint_exact_amount_in"), says("executor", a.s), { ...paid(a.funds), k: "input" },
        coin("min_output", IDX, -1, 1)]
    | BurnIn(a) => [says("method", "burn_exact_amount_in"), says("executor", a.s), { ...paid(a.funds), k: "input_amount" },
        coin("min_output_amount", a.d, a.min, 0)]
    | BurnOut(a) => [says("method", "burn_exact_amount_out"), says("executor", a.s), { ...paid(a.funds), k: "max_input" },
        coin("output", a.d, a.want, 0)]
    | _ => []
  }
}
