module upgradegen {
  import base.* from "./base"
  import upgrade.* from "./upgrade"

  var w: World
  var last: { op: Op, ok: bool, why: str }

  pure val NUMS = [0, 0, 1, 1, 2, 2, 3, 9, 10, 11, 20, 100, 1000]
  pure val BADS = ["0.1", "v0.1.1", "latest", "0.1.1.0", " 0.1.1", "0.01.1", "-1.0.0", "0.1.x"]
  pure def ver(a: int, b: int, c: int, d: int): Version =
    if (d % 12 == 0) { ...CODE, bad: pick(BADS, a) }
    else if (d % 12 == 1) CODE
    else if (d % 12 < 5) { ...CODE, pa: pick(NUMS, c), pre: if (b % 3 != 1) pick(range(0, PRES.length()), a) else RELEASE }
    else { ma: if (a % 4 == 0) pick(NUMS, a / 4) else 0, mi: if (b % 2 == 0) 1 else pick(NUMS, b / 2), pa: pick(NUMS, c),
           pre: if (d % 2 == 0) RELEASE else pick(range(0, PRES.length()), d / 12), bad: "" }

  action init = all {
    w' = { c: lset(CONTRACTS).mapBy(_ => { name: 0, v: CODE }) },
    last' = { op: Nop, ok: true, why: "" },
  }
  action step = {
    nondet a = 0.to(999999).oneOf()
    nondet b = 0.to(999999).oneOf()
    nondet c = 0.to(999999).oneOf()
    nondet d = 0.to(999999).oneOf()
    nondet e = 0.to(999999).oneOf()
    val op = if (e % 2 == 0) Left({ c: pick(CONTRACTS, e / 2), name: if (e % 7 == 0) pick([-1, 1, 2, 3, 4, 5], a) else 0, v: ver(a, b, c, d) })
      else Migrate({ c: pick(CONTRACTS, e / 2), force: pick([-1, -1, -1, 0, 0, 1], b) })
    val r = exec(w, op)
    all { w' = r.w, last' = { op: op, ok: r.ok, why: r.why } }
  }
  // never backwards, unless forced
  val inv = match last.op {
    | Migrate(m) => last.ok implies w.c.get(m.c) == { name: 0, v: CODE }
    | _ => true
  }
}
