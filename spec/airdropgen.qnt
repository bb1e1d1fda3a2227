// Behaviour generator for the airdrop specification.
module airdropgen {
  import airdrop.* from "./airdrop"

  var w: World
  var last: { op: Op, ok: bool, why: str, valid: bool, ev: List[Attr] }

  pure val ACCTS = ["alice", "bobby", "carol", "dave0"]
  pure val DENOMS = ["uosmo", "uatom", "uatoms"]
  pure val SIGNERS = ["k0", "k1"]
  pure val HASHES = ["hash0", "hash1", "hash2", "hash3", "hash4", "hash5", "Hash0", "HASH0", " hash0", "hash0 ", "hash", "hash00", "hash0/alice"]
  pure val LABELS = ["a", "b/c", "", "zz", "A", "a ", "ZZ", "aa", "b/C", "a/", "0"]
  pure val AMTS = [1, 7, 50, 99, 100, 101, 150, 200, 300, 350, 600, 649, 650, 651, 1000, 10^6, 2 * 10^20]
  type Rnd = { a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int }

  pure val NOSIG: Sig = { by: "k0", h: "register", to: "", n: 0, tamper: 1 }

  pure def genRef(x: World, r: Rnd): Ref = {
    pure val n = x.drops.length()
    pure val i = if (n == 0) 0 else r.a % n
    if (r.b % 15 == 0 or n == 0) { byLabel: r.b % 2 == 0, id: n + r.b % 3, label: "alice/nope" }
    else if (r.b % 3 == 0 and x.drops[i].hasLabel) { byLabel: true, id: 0, label: x.drops[i].label }
    else { byLabel: false, id: i, label: "" }
  }
  pure def genFunds(d: str, r: int, amt: int): str -> int =
    if (r % 16 == 0) Map()
    else if (r % 16 == 1) Map(pick(DENOMS, r / 16) -> amt)
    else if (r % 16 == 2) Map(d -> amt).put(pick(DENOMS, r / 16), 3)
    else Map(d -> amt)

  pure def genRegister(x: World, r: Rnd): Op = {
    pure val s = pick(ACCTS, r.a)
    pure val typ = pick(["open", "bearer"], r.b)
    pure val denom = pick(DENOMS, r.c)
    pure val k = pick(SIGNERS, r.d)
    pure val good = r.e % 10 != 0
    Register({ s: s, typ: typ,
      root: if (r.f % 20 == 0) -1 - (r.f / 20) % 2 else if (typ == "open") pick([0, 1, 3, 5, 0, 4, 6, 7, 7, 8], r.f) else pick([2, 4, 3, 5, 2, 6, 9, 9], r.f),
      denom: denom, hasLabel: r.g % 2 == 0, label: pick(LABELS, r.g / 2),
      signer: k, sig: { by: if (good) k else pick(SIGNERS, r.e / 10), h: if (r.e % 10 == 1 and r.e % 3 == 0) "other" else "register", to: "", n: 0,
                        tamper: if (good) 0 else (r.e / 100) % 3 },
      funds: genFunds(denom, r.h, pick(AMTS, r.h / 16)) })
  }
  pure def genFund(x: World, r: Rnd): Op = {
    pure val ref = genRef(x, r)
    pure val i = idOf(x, ref)
    // sometimes exactly (or one short of) what the next claim needs
    pure val need = if (i == -1) 0 else {
      pure val d = x.drops[i]
      pure val t = TREES[d.root]
      t[r.g % t.length()].n + d.claimed - d.total - r.h % 2
    }
    Fund({ s: if (i != -1 and r.c % 5 != 0) x.drops[i].creator else pick(ACCTS, r.d), ref: ref,
           funds: genFunds(if (i == -1) "uosmo" else x.drops[i].denom, r.e, if (need > 0 and r.f % 2 == 0) need else pick(AMTS, r.f / 2)) })
  }
  pure def genClose(x: World, r: Rnd): Op = {
    pure val used = range(0, x.drops.length()).select(k => x.drops[k].closed == -1 and x.drops[k].claimed == x.drops[k].total)
    pure val ref = if (r.e % 2 == 0 and used.length() > 0) { byLabel: false, id: pick(used, r.f), label: "" } else genRef(x, r)
    pure val i = idOf(x, ref)
    Close({ s: if (i != -1 and r.c % 3 != 0) x.drops[i].creator else pick(ACCTS, r.d), ref: ref })
  }
  pure def genClaimArgs(x: World, q: bool, r: Rnd): ClaimArgs = {
    pure val ref = genRef(x, r)
    pure val i = idOf(x, ref)
    pure val d = if (i == -1) x.drops[0] else x.drops[i]
    pure val mode = r.g % 24
    pure val tree = d.root
    pure val fresh = range(0, TREES[tree].length()).select(j =>
      not(TREES[tree][j].k.in(d.claims.keys())) and (d.typ == "bearer" or TREES[tree][j].k.in(ACCTS.foldl(Set(), (s, z) => s.union(Set(z))))))
    pure val j = if (fresh.length() > 0 and r.c % 4 != 0) pick(fresh, r.d) else r.d % TREES[tree].length()
    pure val near = tree == 8 and r.g % 5 == 0
    pure val lf = if (near) { k: "dave0", n: 2820 } else TREES[tree][j]
    pure val other = r.h % TREES.length()
    pure val oleaf = (r.h / 7) % TREES[other].length()
    pure val amt = if (mode == 0) lf.n + 1 else if (mode == 1) pick(AMTS, r.h) else if (mode == 2) imax(0, lf.n - 1) else lf.n
    pure val sender = pick(ACCTS, r.e)
    pure val self = d.typ == "open" and r.f % 3 == 0 and lf.k.in(Set("alice", "bobby", "carol", "dave0"))
    pure val s = if (self) lf.k else sender
    pure val acct =
      if (d.typ == "open") (if (self and not(q)) "" else if (mode == 3) sender else if (mode == 4) BADADDR else if (mode == 5) "" else lf.k)
      else if (mode == 4 and not(q)) BADADDR else if (r.f % 3 == 0 and (not(q) or r.f % 2 == 0)) "" else pick(ACCTS, r.f / 3)
    pure val dst = if (acct == "") s else acct
    pure val h = if (mode == 6) pick(HASHES, r.h) else lf.k
    { s: s, ref: ref, n: amt, acct: acct, h: h,
      typ: if (mode == 7) (if (d.typ == "open") "bearer" else "open") else d.typ,
      proof: if (mode == 8) { tree: other, leaf: oleaf, tamper: 0 }
             else if (mode == 9) { tree: tree, leaf: j, tamper: 1 + r.h % 4 }
             else if (mode == 10) { tree: tree, leaf: (j + 1) % TREES[tree].length(), tamper: 0 }
             else { tree: tree, leaf: j, tamper: 0 },
      sig: { by: if (mode == 11) pick(SIGNERS, r.h) else if (d.typ == "bearer") d.signer else "k0",
             h: if (mode == 12) pick(HASHES, r.h) else h,
             to: if (mode == 13) pick(ACCTS, r.h) else dst,
             n: if (mode == 14) pick(AMTS, r.h) else amt,
             tamper: if (mode == 15) 1 + r.h % 2 else 0 } }
  }
  pure def gen(x: World, kind: str, r: Rnd): Op =
    if (kind == "advance") Advance(1 + r.a % 9)
    else if (kind == "donate") Donate({ s: pick(ACCTS, r.a), d: pick(DENOMS, r.b), n: pick(AMTS, r.c) })
    else if (kind == "register" or x.drops.length() == 0) genRegister(x, r)
    else if (kind == "fund") genFund(x, r)
    else if (kind == "close") genClose(x, r)
    else if (kind == "verify") QVerify(genClaimArgs(x, true, r))
    else Claim(genClaimArgs(x, false, r))

  action drive(kinds: List[str]): bool = {
    nondet a = 0.to(999999).oneOf()
    nondet b = 0.to(999999).oneOf()
    nondet c = 0.to(999999).oneOf()
    nondet d = 0.to(999999).oneOf()
    nondet e = 0.to(999999).oneOf()
    nondet f = 0.to(999999).oneOf()
    nondet g = 0.to(999999).oneOf()
    nondet h = 0.to(999999).oneOf()
    nondet k = 0.to(999).oneOf()
    val op = gen(w, pick(kinds, k), { a: a, b: b, c: c, d: d, e: e, f: f, g: g, h: h })
    val res = exec(w, op)
    all { w' = res.w, last' = { op: op, ok: res.ok, why: res.why, valid: res.valid, ev: if (res.ok) event(w, op, res.w) else [] } }
  }
  action init = {
    nondet a = 1.to(99999).oneOf()
    all {
      w' = { drops: [], labels: Map(), height: a,
             bank: tuples(Set("alice", "bobby", "carol", "dave0", SELF), Set("uosmo", "uatom", "uatoms")).mapBy(k =>
               if (k._1 == SELF) 0 else 10^24) },
      last' = { op: Nop, ok: true, why: "", valid: false, ev: [] },
    }
  }
  action step = drive(["register", "register", "fund", "claim", "claim", "claim", "claim", "claim", "claim", "verify", "verify", "close", "advance", "donate"])
  // few airdrops, many claims
  action initDeep = init
  action stepDeep = if (w.drops.length() < 2) drive(["register"])
    else drive(["claim", "claim", "claim", "claim", "claim", "claim", "fund", "verify", "claim", "claim", "fund", "advance"])
  // many airdrops
  action initWide = init
  action stepWide = drive(["register", "register", "register", "register", "register", "claim", "close", "advance", "fund"])

  val A01_solvent = solvent(w)
  val A01_isolated = isolated(w)
  val A05_labels = labelled(w)
  val inv = and { A01_solvent, A01_isolated, A05_labels }
}
