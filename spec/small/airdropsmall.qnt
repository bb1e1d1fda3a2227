// Exhaustive instance of the airdrop specification: every history of at most two
// airdrops between two accounts.
module airdropsmall {
  import airdrop.* from "./airdrop"

  var w: World

  pure val ACCTS = Set("alice", "bobby")
  pure val DENOMS = Set("uosmo", "uatom")
  pure val MAXDROPS = 2

  pure def good(typ: str, dst: str, h: str, n: int): Sig =
    if (typ == "bearer") { by: "k0", h: h, to: dst, n: n, tamper: 0 } else { by: "", h: "", to: "", n: 0, tamper: 1 }

  action init = w' = { drops: [], labels: Map(), height: 1,
    bank: tuples(ACCTS.union(Set(SELF)), DENOMS).mapBy(k => if (k._1 == SELF) 0 else 3) }

  action apply(op: Op): bool = {
    val r = exec(w, op)
    all { r.ok, w' = r.w }
  }

  action registerS = {
    nondet s = ACCTS.oneOf()
    nondet typ = Set("open", "bearer").oneOf()
    nondet d = DENOMS.oneOf()
    nondet n = 1.to(3).oneOf()
    nondet l = Set("none", "a").oneOf()
    all {
      w.drops.length() < MAXDROPS,
      apply(Register({ s: s, typ: typ, root: if (typ == "open") 0 else 1, denom: d, hasLabel: l != "none", label: l, signer: "k0",
        sig: { by: "k0", h: "register", to: "", n: 0, tamper: 0 }, funds: Map(d -> n) })),
    }
  }
  pure def refs(x: World): Set[Ref] =
    x.labels.keys().map(l => { byLabel: true, id: 0, label: l }).union(
      0.to(1).map(i => { byLabel: false, id: i, label: "" }))
  action fundS = {
    nondet s = ACCTS.oneOf()
    nondet r = refs(w).oneOf()
    nondet d = DENOMS.oneOf()
    nondet n = 1.to(2).oneOf()
    apply(Fund({ s: s, ref: r, funds: Map(d -> n) }))
  }
  action claimS = {
    nondet s = ACCTS.oneOf()
    nondet acct = Set("", "alice", "bobby").oneOf()
    nondet r = refs(w).oneOf()
    nondet t = 0.to(1).oneOf()
    nondet l = 0.to(TREES[t].length() - 1).oneOf()
    nondet typ = Set("open", "bearer").oneOf()
    nondet signee = ACCTS.oneOf()
    val x = TREES[t][l]
    apply(Claim({ s: s, typ: typ, ref: r, n: x.n, acct: acct, h: x.k, proof: { tree: t, leaf: l, tamper: 0 }, sig: good(typ, signee, x.k, x.n) }))
  }
  action closeS = {
    nondet s = ACCTS.oneOf()
    nondet r = refs(w).oneOf()
    apply(Close({ s: s, ref: r }))
  }
  action step = any { registerS, fundS, claimS, closeS }

  // money is neither made nor lost
  val conserved = DENOMS.forall(d => ACCTS.union(Set(SELF)).fold(0, (a, k) => a + bal(w.bank, k, d)) == 6)
  // closed airdrops owe nothing and open ones can pay what is left
  val inv = and { solvent2, isolated(w), labelled(w), conserved }
  val solvent2 = DENOMS.forall(d => bal(w.bank, SELF, d) == outstanding(w, d))
}
