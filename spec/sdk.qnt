// The TypeScript SDK in an application's hands: objects made for a contract (query client,
// signing client, message composer, query hooks), calls through them that overlap, answers
// and failures that come in any order.  Requests are numbers here: `what` stands for one of
// the recorded requests to that contract (tools/sdk/drive.js).
module sdk {
  import base.* from "./base"

  // via: query, sign, compose; kind of contract: 0 vault, 1 airdrop, 2 periphery
  type Obj = { via: str, contract: int, addr: int, sender: int }
  // what reaches the chain (or is composed): sender -1: nobody (a query)
  type Sent = { contract: int, addr: int, sender: int, what: int, funds: int, fee: int, memo: int }
  type Waiting = { call: int, sent: Sent }
  type Seen = { contract: int, addr: int, what: int }             // a hook on screen
  type World = { calls: int, waiting: List[Waiting], seen: List[Seen] }

  type Op =
    | Nop
    | Fresh(Obj)                                                                  // the object is made anew
    | Ask({ o: Obj, what: int })                                                  // a query
    | Run({ o: Obj, what: int, funds: int, fee: int, memo: int })                 // a transaction, 0: not given
    | Compose({ o: Obj, what: int, funds: int })                                  // a message
    | Show({ contract: int, addr: int, what: int })                               // a hook is rendered
    | Fetch(int)                                                                  // a hook's query runs
    | Settle({ i: int, fails: bool, value: int })                                 // the chain answers one of those waiting

  // sent: what the operation makes the SDK send; settled: the calls that return to the
  // application with the chain's answer; apart: hooks whose cache keys must differ from
  // the key of the one just shown
  type Out = { sent: List[Sent], settled: List[int], apart: List[int] }
  pure val QUIET: Out = { sent: [], settled: [], apart: [] }
  type Res = { w: World, out: Out }

  pure def asks(o: Obj, what: int): Sent =
    { contract: o.contract, addr: o.addr, sender: -1, what: what, funds: 0, fee: 0, memo: 0 }
  pure def sends(w: World, s: Sent): Res =
    { w: { ...w, calls: w.calls + 1, waiting: w.waiting.append({ call: w.calls, sent: s }) }, out: { ...QUIET, sent: [s] } }

  pure def exec(w: World, op: Op): Res = match op {
    | Nop => { w: w, out: QUIET }
    | Fresh(_) => { w: w, out: QUIET }
    | Ask(a) => sends(w, asks(a.o, a.what))
    | Run(a) => sends(w, { contract: a.o.contract, addr: a.o.addr, sender: a.o.sender, what: a.what, funds: a.funds, fee: a.fee, memo: a.memo })
    // composing sends nothing anywhere: the message itself is what comes of it
    | Compose(a) => { w: w, out: { ...QUIET, sent: [{ contract: a.o.contract, addr: a.o.addr, sender: a.o.sender, what: a.what, funds: a.funds, fee: 0, memo: 0 }] } }
    | Show(s) => { w: { ...w, seen: w.seen.append(s) },
                   out: { ...QUIET, apart: range(0, w.seen.length()).select(k => w.seen[k] != s) } }
    | Fetch(i) => sends(w, { contract: w.seen[i].contract, addr: w.seen[i].addr, sender: -1, what: w.seen[i].what, funds: 0, fee: 0, memo: 0 })
    | Settle(a) => { w: { ...w, waiting: range(0, w.waiting.length()).foldl([], (l, k) => if (k == a.i) l else l.append(w.waiting[k])) },
                     out: { ...QUIET, settled: [w.waiting[a.i].call] } }
  }
}
