// Behaviour generator for the SDK's specification: sessions of an application.
module sdkgen {
  import base.* from "./base"
  import sdk.* from "./sdk"

  var w: World
  var base0: int                                  // a session is about a few neighbouring requests
  var asked: int                                  // ghost: requests made and not composed
  var got: int                                    // ghost: answers handed back
  var last: { op: Op, out: Out }

  // mostly one contract, at one place, used by one account
  pure def which(b: int, a: int): int = if (a % 6 == 0) (a / 6) % 3 else b % 3
  pure def where(a: int): int = if ((a / 18) % 4 == 0) 1 else 0
  pure def obj(via: str, b: int, a: int): Obj =
    { via: via, contract: which(b, a), addr: where(a), sender: if (via != "query" and (a / 72) % 3 == 0) 1 else 0 }
  pure def what(b: int, a: int): int = b / 3 + (if (a % 5 == 0) (a / 5) % 40 else (a / 5) % 4)

  action init = all {
    nondet b = 0.to(9999).oneOf()
    base0' = b,
    w' = { calls: 0, waiting: [], seen: [] },
    asked' = 0, got' = 0,
    last' = { op: Nop, out: QUIET },
  }
  pure def genOp(x: World, b: int, k: int, a: int, c: int, d: int): Op = {
    pure val n = x.waiting.length()
    pure val t = what(b, c)
    if (n > 6 or (k % 16 < 5 and n > 0)) Settle({ i: a % n, fails: c % 6 == 0, value: d % 1000 })
    else if (k % 16 < 8) Ask({ o: obj(if (d % 3 != 0) "query" else "sign", b, a), what: t })
    else if (k % 16 < 11) Run({ o: obj("sign", b, a), what: t, funds: d % 4, fee: (d / 4) % 4, memo: (d / 16) % 3 })
    else if (k % 16 < 13) Compose({ o: obj("compose", b, a), what: t, funds: d % 4 })
    else if (k % 16 < 14 or x.seen.length() == 0) Show({ contract: which(b, a), addr: where(a), what: t })
    else if (k % 16 < 15) Fetch(a % x.seen.length())
    else Fresh(obj(["query", "sign", "compose"][d % 3], b, a))
  }
  action step = {
    nondet k = 0.to(999999).oneOf()
    nondet a = 0.to(999999).oneOf()
    nondet c = 0.to(999999).oneOf()
    nondet d = 0.to(999999).oneOf()
    val op = genOp(w, base0, k, a, c, d)
    val r = exec(w, op)
    val composed = match op { | Compose(_) => 1 | _ => 0 }
    all {
      w' = r.w, base0' = base0,
      asked' = asked + r.out.sent.length() - composed,
      got' = got + r.out.settled.length(),
      last' = { op: op, out: r.out },
    }
  }
  // every request is answered once or still waiting; none is invented
  val inv = and {
    asked == got + w.waiting.length(),
    asked == w.calls,
    last.out.sent.length() <= 1,
    lset(range(0, w.waiting.length())).forall(i => w.waiting[i].call < w.calls),
  }
}
