// Upgrades (migrate) of the three contracts: what version a contract may come from and
// what a migration touches.
module upgrade {
  import base.* from "./base"

  // pre: index into PRES, RELEASE is the plain release, those after it carry build metadata only; none of these is
  // older than the release
  pure val PRES = ["0", "2", "10", "alpha", "alpha.1", "alpha.2", "alpha.10", "alpha.beta", "beta", "beta.2", "beta.11", "rc.1", "rc.1+5", "", "+7", "+build.2"]
  pure val RELEASE = 13
  type Version = { ma: int, mi: int, pa: int, pre: int, bad: str }    // bad: text that is no version
  pure val CODE: Version = { ma: 0, mi: 1, pa: 2, pre: RELEASE, bad: "" }
  // name: 0 = its own, otherwise another name; -1 = nothing recorded
  type Stamp = { name: int, v: Version }
  type World = { c: str -> Stamp }
  pure val CONTRACTS = ["core", "airdrop", "peri"]

  pure def older(a: Version, b: Version): bool =
    if (a.ma != b.ma) a.ma < b.ma
    else if (a.mi != b.mi) a.mi < b.mi
    else if (a.pa != b.pa) a.pa < b.pa
    else a.pre < b.pre

  type Op =
    | Nop
    | Left({ c: str, name: int, v: Version })           // an earlier deployment left this behind
    | Migrate({ c: str, force: int })                   // force: -1 = not given

  type Res = { ok: bool, why: str, w: World }
  pure def no(w: World, why: str): Res = { ok: false, why: why, w: w }
  pure def exec(w: World, op: Op): Res = match op {
    | Nop => { ok: true, why: "", w: w }
    | Left(a) => { ok: true, why: "", w: { c: w.c.put(a.c, { name: a.name, v: a.v }) } }
    | Migrate(a) => {
        pure val s = w.c.get(a.c)
        if (a.force == 1) { ok: true, why: "", w: { c: w.c.put(a.c, { name: 0, v: CODE }) } }
        else if (s.name == -1) no(w, "unknown")
        else if (s.name != 0) no(w, "name")
        else if (s.v.bad != "") no(w, "version")
        else if (not(older(s.v, CODE))) no(w, "downgrade")
        else { ok: true, why: "", w: { c: w.c.put(a.c, { name: 0, v: CODE }) } }
      }
  }
}
