// Shared vocabulary of the specification: decimals, unit lists, the bank.
// Every amount is an exact (unbounded) integer; a decimal x is the integer
// x * ONE.  ONE = 10^18 gives the contracts' arithmetic digit for digit, a tiny
// ONE gives the small instances that are checked exhaustively.
module base {
  import scale.* from "./scale"
  export scale.*

  type Unit = { d: str, u: int }            // denom, decimal units per index token
  type Bank = (str, str) -> int             // (account, denom) -> amount


  pure def imax(a: int, b: int): int = if (a >= b) a else b
  pure def imin(a: int, b: int): int = if (a <= b) a else b
  pure def cdiv(a: int, b: int): int = (a + b - 1) / b

  // ---- decimals -----------------------------------------------------------
  pure def dmul(x: int, y: int): int = (x * y) / ONE          // Decimal * Decimal
  pure def dratio(n: int, m: int): int = (n * ONE) / m        // Decimal::from_ratio
  pure def damt(x: int, n: int): int = (x * n) / ONE          // Decimal * Uint128

  // Decimal::checked_pow: square and multiply, truncating each product; -1 on overflow
  type PowSt = { x: int, y: int, n: int, bad: bool }
  pure def dpow(base: int, e: int): int = {
    if (e == 0) ONE else {
      pure val s = range(0, 32).foldl({ x: base, y: ONE, n: e, bad: false }, (st, _) =>
        if (st.n <= 1 or st.bad) st
        else {
          pure val y2 = if (st.n % 2 == 0) st.y else dmul(st.x, st.y)
          pure val x2 = dmul(st.x, st.x)
          { x: x2, y: y2, n: st.n / 2, bad: x2 > U128 or y2 > U128 }
        })
      pure val r = dmul(s.x, s.y)
      if (s.bad or r > U128) -1 else r
    }
  }

  // ---- lists --------------------------------------------------------------
  // Quint's simulator keeps an operator-valued argument in one static slot, so a
  // lambda handed to lmap/lall/lany/lsum must not (even indirectly) call the same
  // operator again.  The first-order helpers below use foldl directly for that
  // reason.
  pure def lmap(l: List[a], f: (a) => b): List[b] = l.foldl([], (acc, x) => acc.append(f(x)))
  pure def lall(l: List[a], f: (a) => bool): bool = l.foldl(true, (acc, x) => acc and f(x))
  pure def lany(l: List[a], f: (a) => bool): bool = l.foldl(false, (acc, x) => acc or f(x))
  pure def lsum(l: List[a], f: (a) => int): int = l.foldl(0, (acc, x) => acc + f(x))
  pure def pick(l: List[a], r: int): a = l[r % l.length()]
  pure def lset(l: List[a]): Set[a] = l.foldl(Set(), (s, x) => s.union(Set(x)))

  // ---- unit lists (ordered, as the order decides who gets the remainder) -----
  pure def hasU(l: List[Unit], d: str): bool = l.foldl(false, (acc, x) => acc or x.d == d)
  pure def getU(l: List[Unit], d: str): int =
    l.foldl(0, (acc, x) => if (x.d == d) x.u else acc)
  pure def denomsU(l: List[Unit]): Set[str] = l.foldl(Set(), (s, x) => s.union(Set(x.d)))
  pure def dupU(l: List[Unit]): bool = denomsU(l).size() != l.length()
  pure def setU(l: List[Unit], d: str, v: int): List[Unit] =
    l.foldl([], (acc, x) => acc.append(if (x.d == d) { d: d, u: v } else x))
  pure def addU(l: List[Unit], d: str, v: int): List[Unit] =
    if (hasU(l, d)) setU(l, d, getU(l, d) + v) else l.append({ d: d, u: v })
  pure def totU(l: List[Unit]): int = l.foldl(0, (acc, x) => acc + x.u)

  // ---- bank ---------------------------------------------------------------
  pure def bal(b: Bank, a: str, d: str): int = if ((a, d).in(b.keys())) b.get((a, d)) else 0
  pure def credit(b: Bank, a: str, d: str, n: int): Bank = b.put((a, d), bal(b, a, d) + n)
  pure def move(b: Bank, f: str, t: str, d: str, n: int): Bank =
    credit(credit(b, f, d, -n), t, d, n)
  pure def moveAll(b: Bank, f: str, t: str, m: str -> int): Bank =
    m.keys().fold(b, (acc, d) => move(acc, f, t, d, m.get(d)))
  pure def canPay(b: Bank, a: str, m: str -> int): bool =
    m.keys().forall(d => bal(b, a, d) >= m.get(d))
  pure def mget(m: str -> int, d: str): int = if (d.in(m.keys())) m.get(d) else 0
  pure def nonzero(m: str -> int): str -> int =
    m.keys().filter(d => m.get(d) != 0).mapBy(d => m.get(d))

  // ---- events ---------------------------------------------------------------
  // what the event of an accepted call has to say under key k: a text, a number (give or
  // take e), a coin, or (n = -1) the coin that reached the caller
  type Attr = { k: str, t: str, s: str, n: int, e: int }
  pure def says(k: str, s: str): Attr = { k: k, t: "text", s: s, n: 0, e: 0 }
  pure def counts(k: str, n: int): Attr = { k: k, t: "number", s: "", n: n, e: 0 }
  pure def about(k: str, n: int, e: int): Attr = { k: k, t: "number", s: "", n: n, e: e }
  pure def coin(k: str, d: str, n: int, e: int): Attr = { k: k, t: "coin", s: d, n: n, e: e }
}
