// Behaviour generator for the listings.
module pagesgen {
  import base.* from "./base"
  import pages.* from "./pages"

  var w: World
  var last: { op: Op, ok: bool, why: str, out: List[int] }

  type Rnd = { a: int, b: int, c: int, d: int, e: int }
  pure val KINDS = ["trades", "trades", "byId", "byType", "byCreator", "byLabel", "labels", "claims", "claims"]
  pure val DENOMS_IN = [8, 9, 9, 40, 9]
  pure def genAdd(x: World, r: Rnd): Op = {
    pure val n = 1 + r.b % 24
    pure val mul = pick([1, 1, 3, 5, 7, 11, 27], r.c)
    pure val ks = range(0, n).foldl([], (l, k) => l.append((r.d + k * mul) % RANKS))
    if (r.a % 3 == 0) AddTrades({ i: pick(DENOMS_IN, r.e), outs: ks })
    else if (r.a % 3 == 1 or x.drops.length() == 0)
      AddDrops(range(0, n).foldl([], (l, k) => l.append({
        bearer: (r.c + k * mul) % 3 != 0, creator: (r.e + k * (r.a % 5)) % CREATORS, label: if ((r.b + k) % 4 == 0) -1 else (r.d + k * mul) % RANKS })))
    else AddClaims({ drop: if (r.e % 5 != 0) 0 else (r.e / 5) % (x.drops.length() + 1), keys: ks })
  }
  pure def genAsk(x: World, r: Rnd): Op = {
    pure val kind = pick(KINDS, r.a)
    pure val n = x.drops.length()
    pure val arg = if (kind == "trades") (if (r.b % 9 == 0) r.b % RANKS else pick(DENOMS_IN, r.b)) else if (kind == "byType") r.b % 2
      else if (kind == "byCreator") r.b % CREATORS else if (kind == "claims") (if (r.b % 5 < 3) 0 else r.b % (n + 2)) else 0
    pure val listing = keysOf(x, kind, arg)
    pure val listed = listing.length() > 0 and r.c % 3 != 0
    pure val start = if (r.c % 5 < 2) -1 else if (listed) pick(listing, r.d)
      else if (kind == "byLabel" or kind == "labels") r.d % (CREATORS * RANKS) else if (kind == "trades" or kind == "claims") r.d % RANKS
      else r.d % (n + 3)
    Ask({ kind: kind, arg: arg, start: start, ord: (r.e / 32) % 3,
          lim: pick([-1, -1, -1, 0, 1, 1, 2, 3, 5, 9, 10, 11, 20, 29, 29, 30, 30, 31, 32, 100, 255, 256, 65536, 4294967295], r.e) })
  }
  action init = all {
    w' = { trades: Set(), drops: [], claims: Set() },
    last' = { op: Nop, ok: true, why: "", out: [] },
  }
  action step = {
    nondet a = 0.to(999999).oneOf()
    nondet b = 0.to(999999).oneOf()
    nondet c = 0.to(999999).oneOf()
    nondet d = 0.to(999999).oneOf()
    nondet e = 0.to(999999).oneOf()
    nondet k = 0.to(99).oneOf()
    val r = { a: a, b: b, c: c, d: d, e: e }
    val op = if (k < (if (w.drops.length() < 40) 45 else 8)) genAdd(w, r) else genAsk(w, r)
    val res = exec(w, op)
    all { w' = res.w, last' = { op: op, ok: res.ok, why: res.why, out: res.out } }
  }
  val inv = match last.op {
    | Ask(p) => complete(w, p) and last.out.length() <= imax(p.lim, DEFAULT)
    | _ => true
  }
}
