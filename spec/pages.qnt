// Listings answered page by page: trade limits of the vault, airdrops / labels / claims of
// the airdrop contract.  Keys are ranks: rank k stands for the k-th of RANKS byte strings in
// ascending order (of different lengths, some prefixes of others), so that the order of
// strings is the order of integers.
module pages {
  import base.* from "./base"

  pure val RANKS = 64          // strings
  pure val CREATORS = 4        // accounts that register airdrops, in the order of their names
  pure val DEFAULT = 10        // entries of a page when no limit is given
  pure val MAX = 30            // the largest page one may ask for

  type Drop = { bearer: bool, creator: int, label: int }     // label: rank, -1: none
  type World = {
    trades: Set[int],          // RANKS * (denom in) + denom out
    drops: List[Drop],         // by id
    claims: Set[int],          // RANKS * id + key
  }
  type Page = {
    kind: str,                 // trades, byId, byType, byCreator, byLabel, labels, claims
    arg: int,                  // denom in / bearer / creator / airdrop
    start: int,                // the key to continue after (whether or not it is listed); -1: from the end
    lim: int,                  // -1: not given
    ord: int,                  // 0: not given, 1: ascending, 2: descending
  }
  type Op = Nop
    | AddTrades({ i: int, outs: List[int] })
    | AddDrops(List[Drop])
    | AddClaims({ drop: int, keys: List[int] })
    | Ask(Page)

  // out: for the Add operations 1 or 0 for each part that is accepted or refused; the
  // answer of a listing otherwise (ids; ranks for trades and claims)
  type Res = { w: World, ok: bool, why: str, out: List[int] }

  pure def labelKey(d: Drop): int = d.creator * RANKS + d.label
  pure def labels(w: World): Set[int] = w.drops.foldl(Set(), (s, d) => if (d.label == -1) s else s.union(Set(labelKey(d))))

  // the keys of a listing, ascending
  pure def ascending(s: Set[int], n: int): List[int] = range(0, n).foldl([], (l, k) => if (k.in(s)) l.append(k) else l)
  pure def keysOf(w: World, kind: str, arg: int): List[int] = {
    pure val n = w.drops.length()
    if (kind == "trades") range(0, RANKS).foldl([], (l, k) => if ((arg * RANKS + k).in(w.trades)) l.append(k) else l)
    else if (kind == "claims") range(0, RANKS).foldl([], (l, k) => if ((arg * RANKS + k).in(w.claims)) l.append(k) else l)
    else if (kind == "byId") range(0, n)
    else if (kind == "byType") range(0, n).foldl([], (l, k) => if (w.drops[k].bearer == (arg == 1)) l.append(k) else l)
    else if (kind == "byCreator") range(0, n).foldl([], (l, k) => if (w.drops[k].creator == arg) l.append(k) else l)
    else ascending(labels(w), CREATORS * RANKS)
  }
  pure def backwards(l: List[int]): List[int] = l.foldl([], (acc, k) => [k].concat(acc))
  pure def upTo(l: List[int], n: int): List[int] = if (l.length() <= n) l else l.slice(0, n)
  pure def page(w: World, p: Page): List[int] = {
    pure val up = keysOf(w, p.kind, p.arg)
    pure val dir = if (p.ord == 2) backwards(up) else up
    pure val rest = if (p.start == -1) dir
      else dir.foldl([], (l, k) => if (if (p.ord == 2) k < p.start else k > p.start) l.append(k) else l)
    upTo(rest, if (p.lim == -1) DEFAULT else p.lim)
  }
  // labels are listed with the airdrop they name
  pure def named(w: World, key: int): int =
    range(0, w.drops.length()).foldl(-1, (acc, i) => if (w.drops[i].label != -1 and labelKey(w.drops[i]) == key) i else acc)
  pure def entries(w: World, p: Page): List[int] =
    if (p.kind == "byLabel" or p.kind == "labels") page(w, p).foldl([], (l, k) => l.append(named(w, k))) else page(w, p)

  pure def exec(w: World, op: Op): Res = match op {
    | Nop => { w: w, ok: true, why: "", out: [] }
    // a pair that is set again is still one pair
    | AddTrades(a) => { w: { ...w, trades: a.outs.foldl(w.trades, (s, o) => s.union(Set(a.i * RANKS + o))) }, ok: true, why: "",
                        out: a.outs.foldl([], (l, _) => l.append(1)) }
    | AddDrops(ds) => ds.foldl({ w: w, ok: true, why: "", out: [] }, (r, d) =>
        if (d.label != -1 and labelKey(d).in(labels(r.w))) { ...r, out: r.out.append(0) }
        else { ...r, w: { ...r.w, drops: r.w.drops.append(d) }, out: r.out.append(1) })
    | AddClaims(c) => c.keys.foldl({ w: w, ok: true, why: "", out: [] }, (r, k) =>
        if (c.drop >= w.drops.length() or not(w.drops[imin(c.drop, w.drops.length() - 1)].bearer) or (c.drop * RANKS + k).in(r.w.claims))
          { ...r, out: r.out.append(0) }
        else { ...r, w: { ...r.w, claims: r.w.claims.union(Set(c.drop * RANKS + k)) }, out: r.out.append(1) })
    | Ask(p) =>
        if (p.lim > MAX) { w: w, ok: false, why: "limit", out: [] }
        else if (p.kind == "claims" and p.arg >= w.drops.length()) { w: w, ok: false, why: "airdrop", out: [] }
        else { w: w, ok: true, why: "", out: entries(w, p) }
  }

  // following the pages of a listing to its end
  pure def walk(w: World, p: Page): List[int] =
    range(0, 70).foldl({ got: [], at: -1, end: false }, (s, _) =>
      if (s.end) s else {
        pure val l = page(w, { ...p, start: s.at })
        if (l.length() == 0) { ...s, end: true } else { got: s.got.concat(l), at: l[l.length() - 1], end: false }
      }).got
  // ... gives everything once, in order
  pure def complete(w: World, p: Page): bool =
    (p.lim < 1 or p.lim > MAX or keysOf(w, p.kind, p.arg).length() > 60 * p.lim) or walk(w, p) == (if (p.ord == 2) backwards(keysOf(w, p.kind, p.arg)) else keysOf(w, p.kind, p.arg))
}
