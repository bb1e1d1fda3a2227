// The airdrop contract: registrations, funding, claims, closing, and the bank.
//
// Merkle trees are abstract: TREES lists the leaves of every tree a root may
// commit to, a proof names (tree, leaf) it was made for.  A proof convinces the
// contract of (key, amount) exactly if it was made for a leaf with that content in
// the tree of the airdrop's root.  Signatures name who signed what.  The replayer
// builds the real trees, hashes and secp256k1 signatures.
module airdrop {
  import base.* from "./base"
  export base.*

  import trees.* from "./trees"
  export trees.*

  type Drop = {
    typ: str, creator: str, signer: str, denom: str, root: int,
    total: int, claimed: int, hasLabel: bool, label: str,
    created: int, closed: int, claims: str -> int,
    paidOut: int,                                  // ghost: everything paid to claimers
    refunded: int,                                 // ghost
    paidIn: int,                                   // ghost
  }
  type World = { drops: List[Drop], labels: str -> int, bank: Bank, height: int }

  type Ref = { byLabel: bool, id: int, label: str }
  type Proof = { tree: int, leaf: int, tamper: int }
  type Sig = { by: str, h: str, to: str, n: int, tamper: int }
  type RegArgs = { s: str, typ: str, root: int, denom: str, hasLabel: bool, label: str,
                   signer: str, sig: Sig, funds: str -> int }
  type FundArgs = { s: str, ref: Ref, funds: str -> int }
  type ClaimArgs = { s: str, typ: str, ref: Ref, n: int, acct: str, h: str, proof: Proof, sig: Sig }
  type CloseArgs = { s: str, ref: Ref }

  pure val SELF = "airdrop"
  pure val BADADDR = "X"

  type Res = { ok: bool, why: str, w: World, valid: bool }
  pure def yes(w: World): Res = { ok: true, why: "", w: w, valid: false }
  pure def no(w: World, why: str): Res = { ok: false, why: why, w: w, valid: false }

  pure def fullLabel(s: str, l: str): (str, str) = (s, l)

  // labels are scoped by their creator: key "creator/label"
  pure def idOf(w: World, r: Ref): int =
    if (not(r.byLabel)) (if (r.id >= 0 and r.id < w.drops.length()) r.id else -1)
    else if (r.label.in(w.labels.keys())) w.labels.get(r.label) else -1

  pure def onlyPay(funds: str -> int, d: str): bool = funds.keys() == Set(d) and funds.get(d) > 0

  // (every proof for a single leaf is the empty one)
  pure def single(t: int): bool = TREES[t].length() == 1
  pure def convinces(root: int, p: Proof, k: str, n: int): bool = and {
    p.tamper == 0, p.tree == root or (single(root) and single(p.tree)),
    TREES[root][p.leaf].k == k, TREES[root][p.leaf].n == n,
  }
  pure def signed(s: Sig, by: str, h: str, dst: str, n: int): bool =
    s.tamper == 0 and s.by == by and s.h == h and s.to == dst and s.n == n

  // `key` of a label as stored: the replayer spells it "creator/label"
  pure def labelKey(s: str, l: str): str = LABELKEYS.get((s, l))
  pure val LABELKEYS: (str, str) -> str = Map(
    ("alice", "a") -> "alice/a", ("alice", "b/c") -> "alice/b/c", ("alice", "") -> "alice/", ("alice", "zz") -> "alice/zz", ("alice", "A") -> "alice/A", ("alice", "a ") -> "alice/a ", ("alice", "ZZ") -> "alice/ZZ", ("alice", "aa") -> "alice/aa", ("alice", "b/C") -> "alice/b/C", ("alice", "a/") -> "alice/a/", ("alice", "0") -> "alice/0",
    ("bobby", "a") -> "bobby/a", ("bobby", "b/c") -> "bobby/b/c", ("bobby", "") -> "bobby/", ("bobby", "zz") -> "bobby/zz", ("bobby", "A") -> "bobby/A", ("bobby", "a ") -> "bobby/a ", ("bobby", "ZZ") -> "bobby/ZZ", ("bobby", "aa") -> "bobby/aa", ("bobby", "b/C") -> "bobby/b/C", ("bobby", "a/") -> "bobby/a/", ("bobby", "0") -> "bobby/0",
    ("carol", "a") -> "carol/a", ("carol", "b/c") -> "carol/b/c", ("carol", "") -> "carol/", ("carol", "zz") -> "carol/zz", ("carol", "A") -> "carol/A", ("carol", "a ") -> "carol/a ", ("carol", "ZZ") -> "carol/ZZ", ("carol", "aa") -> "carol/aa", ("carol", "b/C") -> "carol/b/C", ("carol", "a/") -> "carol/a/", ("carol", "0") -> "carol/0",
    ("dave0", "a") -> "dave0/a", ("dave0", "b/c") -> "dave0/b/c", ("dave0", "") -> "dave0/", ("dave0", "zz") -> "dave0/zz", ("dave0", "A") -> "dave0/A", ("dave0", "a ") -> "dave0/a ", ("dave0", "ZZ") -> "dave0/ZZ", ("dave0", "aa") -> "dave0/aa", ("dave0", "b/C") -> "dave0/b/C", ("dave0", "a/") -> "dave0/a/", ("dave0", "0") -> "dave0/0",
  )

  pure def register(w: World, a: RegArgs): Res =
    if (not(a.funds.keys().forall(d => bal(w.bank, a.s, d) >= a.funds.get(d)))) no(w, "poor")
    else if (a.root < 0) no(w, "root")
    else if (a.typ == "bearer" and not(signed(a.sig, a.signer, "register", "", 0))) no(w, "signature")
    else if (not(onlyPay(a.funds, a.denom))) no(w, "payment")
    else if (a.hasLabel and labelKey(a.s, a.label).in(w.labels.keys())) no(w, "label")
    else {
      pure val amt = a.funds.get(a.denom)
      yes({ ...w,
        bank: move(w.bank, a.s, SELF, a.denom, amt),
        labels: if (a.hasLabel) w.labels.put(labelKey(a.s, a.label), w.drops.length()) else w.labels,
        drops: w.drops.append({
          typ: a.typ, creator: a.s, signer: if (a.typ == "bearer") a.signer else "", denom: a.denom, root: a.root,
          total: amt, claimed: 0, hasLabel: a.hasLabel, label: if (a.hasLabel) labelKey(a.s, a.label) else "",
          created: w.height, closed: -1, claims: Map(), paidOut: 0, refunded: 0, paidIn: amt }) })
    }

  pure def fund(w: World, a: FundArgs): Res = {
    pure val i = idOf(w, a.ref)
    if (not(a.funds.keys().forall(d => bal(w.bank, a.s, d) >= a.funds.get(d)))) no(w, "poor")
    else if (i == -1) no(w, "unknown")
    else {
      pure val d = w.drops[i]
      if (d.creator != a.s) no(w, "auth")
      else if (d.closed != -1) no(w, "closed")
      else if (not(onlyPay(a.funds, d.denom))) no(w, "payment")
      else {
        pure val amt = a.funds.get(d.denom)
        yes({ ...w, bank: move(w.bank, a.s, SELF, d.denom, amt),
          drops: w.drops.replaceAt(i, { ...d, total: d.total + amt, paidIn: d.paidIn + amt }) })
      }
    }
  }

  pure def claim(w: World, a: ClaimArgs): Res = {
    pure val i = idOf(w, a.ref)
    pure val dst = if (a.acct == "") a.s else a.acct
    if (a.acct == BADADDR) no(w, "addr")
    else if (i == -1) no(w, "unknown")
    else {
      pure val d = w.drops[i]
      pure val key = if (d.typ == "open") dst else a.h
      if (d.typ != a.typ) no(w, "type")
      else if (d.closed != -1) no(w, "closed")
      else if (key.in(d.claims.keys())) no(w, "claimed")
      else if (not(convinces(d.root, a.proof, key, a.n))) no(w, "proof")
      else if (d.typ == "bearer" and not(signed(a.sig, d.signer, a.h, dst, a.n))) no(w, "signature")
      else if (d.claimed + a.n > d.total) no(w, "funds")
      else if (a.n == 0) no(w, "nothing")
      else yes({ ...w, bank: move(w.bank, SELF, dst, d.denom, a.n),
        drops: w.drops.replaceAt(i, { ...d, claimed: d.claimed + a.n, claims: d.claims.put(key, a.n), paidOut: d.paidOut + a.n }) })
    }
  }

  // would proof and signature be accepted for this account?  (`ok` = it answers at all)
  pure def verify(w: World, a: ClaimArgs): Res = {
    pure val i = idOf(w, a.ref)
    if (i == -1) no(w, "unknown")
    else if (a.acct == "") no(w, "account")
    else {
      pure val d = w.drops[i]
      pure val key = if (d.typ == "open") a.acct else a.h
      if (d.typ != a.typ) no(w, "type")
      else { ...yes(w), valid: and {
        d.closed == -1,
        convinces(d.root, a.proof, key, a.n),
        d.typ == "bearer" implies signed(a.sig, d.signer, a.h, a.acct, a.n),
      } }
    }
  }

  pure def close(w: World, a: CloseArgs): Res = {
    pure val i = idOf(w, a.ref)
    if (i == -1) no(w, "unknown")
    else {
      pure val d = w.drops[i]
      if (d.creator != a.s) no(w, "auth")
      else if (d.closed != -1) no(w, "closed")
      else yes({ ...w, bank: move(w.bank, SELF, a.s, d.denom, d.total - d.claimed),
        drops: w.drops.replaceAt(i, { ...d, closed: w.height, refunded: d.total - d.claimed }) })
    }
  }

  type Op =
    | Nop
    | Advance(int)
    | Donate({ s: str, d: str, n: int })
    | Register(RegArgs)
    | Fund(FundArgs)
    | Claim(ClaimArgs)
    | Close(CloseArgs)
    | QVerify(ClaimArgs)

  pure def exec(w: World, op: Op): Res = match op {
    | Nop => yes(w)
    | Advance(n) => yes({ ...w, height: w.height + n })
    | Donate(a) => if (bal(w.bank, a.s, a.d) < a.n) no(w, "poor") else yes({ ...w, bank: move(w.bank, a.s, SELF, a.d, a.n) })
    | Register(a) => register(w, a)
    | Fund(a) => fund(w, a)
    | Claim(a) => claim(w, a)
    | Close(a) => close(w, a)
    | QVerify(a) => verify(w, a)
  }

  // ---- events -----------------------------------------------------------------
  // what the event of an accepted call reports (w before, w2 after it); "root" stands for
  // the root of that tree, "signer" for the signer's account
  pure def event(w: World, op: Op, w2: World): List[Attr] = match op {
    | Register(a) => {
        pure val d = w2.drops[w.drops.length()]
        [says("action", "register"), says("executor", a.s), counts("id", w.drops.length()), says("type", a.typ),
         counts("merkle_root", d.root), counts("total_amount", d.total), says("label", d.label)]
          .concat(if (a.typ == "bearer") [says("signer", a.signer)] else []) }
    | Fund(a) => {
        pure val i = idOf(w, a.ref)
        [says("action", "fund"), says("executor", a.s), says("airdrop_type", w.drops[i].typ), counts("airdrop_id", i),
         counts("amount", w2.drops[i].total - w.drops[i].total)] }
    | Claim(a) => {
        pure val i = idOf(w, a.ref)
        [says("action", "claim"), says("executor", a.s), says("airdrop_type", w.drops[i].typ), counts("airdrop_id", i),
         says("claimer", if (a.acct == "") a.s else a.acct), counts("amount", w2.drops[i].claimed - w.drops[i].claimed)]
          .concat(if (a.typ == "bearer") [says("signer", w.drops[i].signer)] else []) }
    | Close(a) => {
        pure val i = idOf(w, a.ref)
        [says("method", "close"), says("executor", a.s), says("airdrop_type", w.drops[i].typ), counts("airdrop_id", i),
         counts("redeemed", w2.drops[i].refunded)] }
    | _ => []
  }

  // ---- invariants -------------------------------------------------------------
  pure def left(d: Drop): int = if (d.closed == -1) d.total - d.claimed else 0
  pure def outstanding(w: World, den: str): int =
    w.drops.foldl(0, (acc, d) => if (d.denom == den) acc + left(d) else acc)
  pure def solvent(w: World): bool =
    Set("uosmo", "uatom", "uatoms").forall(d => bal(w.bank, SELF, d) >= outstanding(w, d))
  // every airdrop pays out at most what was paid into it, and nothing is lost
  pure def isolated(w: World): bool =
    w.drops.foldl(true, (acc, d) => and { acc,
      d.claimed <= d.total, d.paidOut == d.claimed, d.paidIn == d.total,
      d.claims.keys().fold(0, (s, k) => s + d.claims.get(k)) == d.claimed,
      d.closed == -1 or d.paidIn == d.paidOut + d.refunded })
  pure def labelled(w: World): bool =
    w.labels.keys().forall(l => w.labels.get(l) >= 0 and w.labels.get(l) < w.drops.length() and w.drops[w.labels.get(l)].label == l)
}
