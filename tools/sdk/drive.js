// Puts recorded requests to the TypeScript SDK of /repo as an application would, and records what
// the SDK makes of them; checks that the SDK's types admit the requests and the answers.
// Plays the sessions of spec/sdk.qnt as well.
//   node drive.js WIRE MADE REPORT SESSIONS...
'use strict';
const fs = require('fs'), path = require('path'), Module = require('module');
const ts = require(process.env.VERIF_TYPESCRIPT || '/opt/veriftools/node/node_modules/typescript');
const SDK = process.env.VERIF_SDK || '/repo/ts/sdk';
const [, , WIRE, MADE, REPORT, ...SESSIONS] = process.argv;

// ---- the packages the SDK stands on ---------------------------------------------------------
const enc = (s) => new Uint8Array(Buffer.from(String(s), 'utf8'));
const dec = (b) => Buffer.from(b).toString('utf8');
const hooks = [];
const useQuery = (key, fn, options) => {
  const q = key && !Array.isArray(key) && typeof key === 'object' ? key : { ...options, queryKey: key, queryFn: fn };
  hooks.push(q);
  return { data: undefined };
};
const known = {
  toUtf8: enc, fromUtf8: dec,
  toBase64: (b) => Buffer.from(b).toString('base64'), fromBase64: (s) => new Uint8Array(Buffer.from(s, 'base64')),
  toHex: (b) => Buffer.from(b).toString('hex'), fromHex: (s) => new Uint8Array(Buffer.from(s, 'hex')),
  toAscii: enc, fromAscii: dec,
  MsgExecuteContract: {
    typeUrl: '/cosmwasm.wasm.v1.MsgExecuteContract',
    fromPartial: (o) => ({ sender: o.sender || '', contract: o.contract || '', msg: o.msg || new Uint8Array(), funds: o.funds ? o.funds.map((c) => ({ denom: c.denom || '', amount: c.amount || '' })) : [] }),
  },
  coin: (amount, denom) => ({ amount: String(amount), denom }), coins: (amount, denom) => [{ amount: String(amount), denom }],
  useQuery,
};
const stub = new Proxy(known, {
  get: (t, k) => (k in t ? t[k] : k === '__esModule' ? true : k === 'default' ? stub : typeof k === 'symbol' ? undefined : class {}),
});
const load = Module._load;
Module._load = function (name, parent, main) {
  if (name.startsWith('.') || path.isAbsolute(name) || Module.builtinModules.includes(name)) return load(name, parent, main);
  return stub;
};
require.extensions['.ts'] = require.extensions['.tsx'] = (m, file) => {
  const out = ts.transpileModule(fs.readFileSync(file, 'utf8'), {
    compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2020, esModuleInterop: true, jsx: ts.JsxEmit.React },
    fileName: file,
  });
  m._compile(out.outputText, file);
};
require.extensions['.tsx'] = require.extensions['.ts'];

// ---- the SDK's surface: contract -> request -> how its arguments are given -------------------
const NAMED = 'named', WHOLE = 'whole', NONE = 'none';
const SURFACE = {
  Core: {
    execute: { mint: NAMED, burn: NAMED, realize: NONE, gov: WHOLE, rebalance: WHOLE },
    query: { get_balance: NAMED, get_total_supply: NONE, get_config: NAMED, get_fee: NAMED, get_portfolio: NAMED, get_rebalance: NONE, get_trade_info: NAMED, list_trade_info: NAMED, simulate_mint: NAMED, simulate_burn: NAMED },
  },
  Airdrop: {
    execute: { register: WHOLE, fund: WHOLE, claim: WHOLE, close: WHOLE },
    query: { get_airdrop: NAMED, list_airdrops: NAMED, latest_airdrop_id: NONE, get_claim: NAMED, verify_claim: NAMED, list_claims: NAMED, get_label: NAMED, list_labels: NAMED },
  },
  Periphery: {
    execute: { mint_exact_amount_in: NAMED, mint_exact_amount_out: NAMED, burn_exact_amount_in: NAMED, burn_exact_amount_out: NAMED, finish_operation: NAMED },
    query: { simulate_mint_exact_amount_in: NAMED, simulate_mint_exact_amount_out: NAMED, simulate_burn_exact_amount_in: NAMED, simulate_burn_exact_amount_out: NAMED },
  },
};
const camel = (s) => s.replace(/_([a-z])/g, (_, c) => c.toUpperCase());
const Cap = (s) => s[0].toUpperCase() + s.slice(1);
/** the arguments of a request as an application names them: what is left out is not there */
function args(style, payload) {
  if (style === NONE) return [];
  if (style === WHOLE) return [payload];
  const o = {};
  for (const [k, v] of Object.entries(payload)) if (v !== null) o[camel(k)] = v;
  return [o];
}

const entries = fs.readFileSync(WIRE, 'utf8').split('\n').filter(Boolean).map((l) => JSON.parse(l));
const report = { sessions: 0, steps: 0, requests: 0, calls: 0, answers: 0, typed: 0, wrong: [], skipped: {}, types: [] };
const wrong = (what, e, more) => { if (report.wrong.length < 400) report.wrong.push({ what, asked: { ...e, answer: undefined }, more: more === undefined ? undefined : String(more).slice(0, 600) }); };

let contracts;
try {
  const lib = require(path.join(SDK, 'src', 'index.ts'));
  contracts = lib.default || lib.contracts;
} catch (e) {
  report.error = 'the SDK cannot be loaded: ' + (e.stack || e);
}

const json = (v) => JSON.stringify(v);
const norm = (v) => Array.isArray(v) ? v.map(norm) : v && typeof v === 'object' ? Object.fromEntries(Object.keys(v).sort().filter((k) => v[k] !== undefined).map((k) => [k, norm(v[k])])) : v;

async function main() {
  const out = fs.openSync(MADE, 'w');
  const keys = new Map(); // cache key -> what it stands for
  // an application keeps its clients and composers; what stands behind them changes with the call
  const objects = new Map();
  let behind = {};
  const obj = (cls, name, ...a) => {
    const k = json([name, ...a]);
    if (!objects.has(k)) {
      const chain = { queryContractSmart: (...x) => behind.queryContractSmart(...x), execute: (...x) => behind.execute(...x) };
      objects.set(k, name.endsWith('Composer') ? new cls(...a) : new cls(chain, ...a));
    }
    return objects.get(k);
  };
  // calls follow each other in no particular order, with and without funds
  const order = entries.map((e, i) => [(Math.imul(i + 1, 2654435761) ^ (i << 7)) >>> 0, e]).sort((a, b) => a[0] - b[0]).map((x) => x[1]);
  let turn = 0;
  for (const e of order) {
    if (e.kind === 'instantiate') continue;
    turn++;
    const tag = Object.keys(e.msg)[0], payload = e.msg[tag];
    const style = SURFACE[e.contract][e.kind][tag];
    if (style === undefined) { report.skipped[`${e.contract}.${tag}`] = (report.skipped[`${e.contract}.${tag}`] || 0) + 1; continue; }
    report.requests++;
    const C = contracts[e.contract], method = camel(tag), a = args(style, payload);
    const copy = json(a);
    const made = [];
    const via = async (name, f) => {
      try { await f((m) => made.push({ via: name, ...m })); report.calls++; } catch (x) { made.push({ via: name, failed: true }); wrong(`${name}.${method} cannot be called`, e, x.stack || x); }
      if (json(a) !== copy) { wrong(`${name}.${method} changes its arguments`, e); a.splice(0, a.length, ...JSON.parse(copy)); }
    };
    if (e.kind === 'query') {
      const token = e.answer === null || e.answer === undefined ? { some: 'answer' } : e.answer;
      const plain = (record) => ({
        queryContractSmart: async (addr, msg) => { record({ addr, msg: json(msg) }); return token; },
        execute: async () => { throw new Error('executed instead of queried'); },
      });
      const same = (name, r) => { report.answers++; if (json(r) !== json(token)) wrong(`${name}.${method} does not return the answer`, e, json(r)); };
      await via(e.contract + 'QueryClient', async (rec) => {
        behind = plain(rec);
        const c = obj(C[e.contract + 'QueryClient'], e.contract + 'QueryClient', e.addr);
        const f = c[method];
        same(e.contract + 'QueryClient', await f(...a));
      });
      await via(e.contract + 'Client', async (rec) => {
        behind = plain(rec);
        const c = obj(C[e.contract + 'Client'], e.contract + 'Client', 'someone', e.addr);
        const f = c[method];
        same(e.contract + 'Client', await f(...a));
      });
      const hook = `use${e.contract}${Cap(method)}Query`;
      await via(hook, async (rec) => {
        for (const addr of [e.addr, e.addr + '2']) {
          const first = addr === e.addr;
          hooks.length = 0;
          const options = { enabled: true, staleTime: 7 };
          behind = plain((m) => first && rec(m));
          C[hook]({ client: obj(C[e.contract + 'QueryClient'], e.contract + 'QueryClient', addr), options, ...(style === NONE ? {} : { args: a[0] }) });
          if (hooks.length !== 1) throw new Error('the hook asks ' + hooks.length + ' times');
          const q = hooks[0];
          if (q.enabled !== true || q.staleTime !== 7) wrong(`${hook} drops its options`, e);
          same(hook, await q.queryFn({ queryKey: q.queryKey }));
          const key = json(norm(q.queryKey)), stands = json(norm([e.contract, addr, method, a]));
          if (!keys.has(key)) keys.set(key, stands);
          else if (keys.get(key) !== stands) wrong(`${hook} caches different requests as one`, e, keys.get(key) + ' and ' + stands);
        }
      });
    } else {
      const other = [{ denom: 'uother', amount: String(turn) }, { denom: 'umore', amount: '1' }];
      const own = e.funds.length ? e.funds : undefined;
      const FEE = { amount: [{ denom: 'uosmo', amount: '5000' }], gas: '400000' };
      // what is given after the arguments: fee, memo, funds
      for (const given of [own ? ['auto', undefined, own] : [], [FEE, 'a memo', own], ['auto', 'another', other], [7, undefined, []], [FEE], []]) {
        await via(e.contract + 'Client', async (rec) => {
          const result = { transactionHash: 'AB', logs: [], height: 5 };
          const [fee = 'auto', memo, funds = []] = given;
          let times = 0;
          behind = {
            execute: async (sender, addr, msg, f, m, fs) => {
              times++;
              rec({ addr, sender, msg: json(msg), funds: (fs || []).map((c) => ({ denom: c.denom, amount: c.amount })), given: funds });
              if (json(f) !== json(fee) || m !== memo) wrong(`${e.contract}Client.${method} changes fee or memo`, e, json([f, m]));
              return result;
            },
            queryContractSmart: async () => { throw new Error('queried instead of executed'); },
          };
          const c = obj(C[e.contract + 'Client'], e.contract + 'Client', e.sender, e.addr);
          const f = c[method];
          const r = await f(...a, ...given);
          if (r !== result) wrong(`${e.contract}Client.${method} does not return the result`, e);
          if (times !== 1) wrong(`${e.contract}Client.${method} executes ${times} times`, e);
        });
      }
      for (const given of [own ? [own] : [], [other], []]) {
        await via(e.contract + 'MessageComposer', async (rec) => {
          const c = obj(C[e.contract + 'MessageComposer'], e.contract + 'MessageComposer', e.sender, e.addr);
          const f = c[method];
          const m = f(...a, ...given);
          if (m.typeUrl !== '/cosmwasm.wasm.v1.MsgExecuteContract') wrong(`${e.contract}MessageComposer.${method} names the wrong type`, e, m.typeUrl);
          rec({ addr: m.value.contract, sender: m.value.sender, msg: dec(m.value.msg), funds: (m.value.funds || []).map((c) => ({ denom: c.denom, amount: c.amount })), given: given[0] || [] });
        });
      }
    }
    fs.writeSync(out, json({ asked: { ...e, answer: undefined }, made }) + '\n');
  }
  await sessions(out);
  fs.closeSync(out);
}

// ---- sessions: behaviours of spec/sdk.qnt -------------------------------------------------------
const patch = (base, d) => {
  if (d && typeof d === 'object' && !Array.isArray(d)) {
    if ('~' in d) {
      const r = { ...base };
      for (const k of Object.keys(d)) if (k !== '~') r[k] = patch(base[k], d[k]);
      return r;
    }
    if ('~m' in d) {
      const r = base.filter((e) => !d['~g'].some((g) => json(g) === json(e[0])));
      for (const c of d['~m']) { const i = r.findIndex((e) => json(e[0]) === json(c[0])); if (i < 0) r.push(c); else r[i] = c; }
      return r;
    }
  }
  return d;
};
const settle = () => new Promise((r) => setImmediate(() => setImmediate(r)));

async function sessions(out) {
  // the requests, neighbours alike: contract -> kind -> operation -> list
  const pool = {};
  for (const c of Object.keys(SURFACE)) {
    pool[c] = {};
    for (const kind of ['query', 'execute']) {
      const one = new Map();
      for (const e of entries) if (e.contract === c && e.kind === kind) {
        const tag = Object.keys(e.msg)[0];
        if (SURFACE[c][kind][tag] !== undefined) one.set(tag + json(norm(args(SURFACE[c][kind][tag], e.msg[tag]))), e);
      }
      const tags = new Map();
      for (const k of [...one.keys()].sort()) { const e = one.get(k), t = Object.keys(e.msg)[0]; tags.set(t, [...(tags.get(t) || []), e]); }
      pool[c][kind] = [...tags.values()];
    }
  }
  const kinds = Object.keys(SURFACE);
  const FUNDS = [undefined, [], [{ denom: 'ua', amount: '5' }], [{ denom: 'ua', amount: '5' }, { denom: 'ub', amount: '70000000000000000000' }]];
  const FEES = [undefined, 'auto', 3, { amount: [{ denom: 'uosmo', amount: '5000' }], gas: '400000' }];
  const MEMOS = [undefined, 'a memo', 'another'];
  for (const file of SESSIONS) for (const line of fs.readFileSync(file, 'utf8').split('\n').filter(Boolean)) {
    const session = JSON.parse(line);
    report.sessions++;
    const objects = new Map(), calls = [], sent = [], shown = [], waiting = [];
    let step = 0, state, off = false;
    const contractOf = (i, kind) => { for (let k = 0; k < 3; k++) { const c = kinds[(Number(i) + k) % 3]; if (pool[c][kind].length) return c; } throw new Error('no request of kind ' + kind); };
    const entry = (i, kind, what) => { 
      const c = contractOf(i, kind), ts = pool[c][kind], n = Math.floor(Number(what) / 8), l = ts[n % ts.length];
      return l[(Math.floor(n / ts.length) * 8 + Number(what) % 8) % l.length];
    };
    const place = (c, i) => `${c.toLowerCase()}${i}`, person = (i) => ['alice', 'bob'][i];
    const say = (what, e, more) => { off = true; wrong(`${session.name} step ${step}: ${what}`, e || { msg: {} }, more); };
    const wait = (m) => new Promise((ok, no) => waiting.push({ ok, no, n: sent.push(m) }));
    const chain = {
      queryContractSmart: (addr, msg) => wait({ addr, msg: json(msg) }),
      execute: (sender, addr, msg, fee, memo, funds) => wait({ addr, sender, msg: json(msg), fee, memo, funds: (funds || []).map((c) => ({ denom: c.denom, amount: c.amount })) }),
    };
    const key = (o, c) => json([o.via, c, String(o.addr), String(o.sender)]);
    const obj = (o, c) => {
      const k = key(o, c);
      if (!objects.has(k)) {
        const C = contracts[c], at = place(c, o.addr), who = person(o.sender);
        objects.set(k, o.via === 'query' ? new C[c + 'QueryClient'](chain, at) : o.via === 'sign' ? new C[c + 'Client'](chain, who, at) : new C[c + 'MessageComposer'](who, at));
      }
      return objects.get(k);
    };
    const begin = (f) => {
      const c = { n: calls.length };
      calls.push(c);
      try {
        Promise.resolve(f()).then((v) => { c.done = true; c.value = v; }, (v) => { c.done = true; c.failed = true; c.value = v; });
      } catch (x) { c.done = true; c.failed = true; c.value = x; }
    };
    for (const d of JSON.parse(line).trace) {
      state = step === 0 ? d : patch(state, d);
      step++;
      const { op, out: want } = state.last, v = op.value, before = sent.length;
      const settledBefore = calls.filter((c) => c.done).length;
      let e, a, composed;
      report.steps++;
      if (op.tag === 'Nop') continue;
      if (op.tag === 'Fresh') objects.delete(key(v, kinds[v.contract]));
      else if (op.tag === 'Ask') {
        e = entry(v.o.contract, 'query', v.what);
        const tag = Object.keys(e.msg)[0], c = obj(v.o, e.contract), m = c[camel(tag)];
        begin(() => m(...args(SURFACE[e.contract].query[tag], e.msg[tag])));
      } else if (op.tag === 'Run' || op.tag === 'Compose') {
        e = entry(v.o.contract, 'execute', v.what);
        const tag = Object.keys(e.msg)[0], c = obj(v.o, e.contract), m = c[camel(tag)];
        a = args(SURFACE[e.contract].execute[tag], e.msg[tag]);
        const funds = FUNDS[v.funds];
        if (op.tag === 'Run') {
          const rest = [FEES[v.fee], MEMOS[v.memo], funds];
          while (rest.length && rest[rest.length - 1] === undefined) rest.pop();
          begin(() => m(...a, ...rest));
        } else {
          try {
            const r = m(...a, ...(funds ? [funds] : []));
            composed = { addr: r.value.contract, sender: r.value.sender, msg: dec(r.value.msg), funds: (r.value.funds || []).map((c) => ({ denom: c.denom, amount: c.amount })) };
          } catch (x) { say('composing fails', e, x.stack || x); break; }
        }
      } else if (op.tag === 'Show') {
        e = entry(v.contract, 'query', v.what);
        const tag = Object.keys(e.msg)[0], [x] = args(SURFACE[e.contract].query[tag], e.msg[tag]);
        hooks.length = 0;
        try {
          contracts[e.contract][`use${e.contract}${Cap(camel(tag))}Query`]({ client: obj({ via: 'query', addr: v.addr, sender: 0 }, e.contract), ...(x === undefined ? {} : { args: x }) });
        } catch (x) { say('the hook fails', e, x.stack || x); break; }
        if (hooks.length !== 1) { say('the hook asks ' + hooks.length + ' times', e); break; }
        const q = hooks[0];
        shown.push({ e, q, key: json(norm(q.queryKey)), at: place(e.contract, v.addr) });
      } else if (op.tag === 'Fetch') {
        const s = shown[Number(v)];
        e = s.e;
        begin(() => s.q.queryFn({ queryKey: s.q.queryKey }));
      } else if (op.tag === 'Settle') {
        const w = waiting.splice(Number(v.i), 1)[0];
        w.answer = v.fails ? new Error('refused ' + v.value) : { answer: Number(v.value) };
        const call = calls[Number(want.settled[0])];
        if (call) { call.answer = w.answer; call.text = json(w.answer); call.fails = v.fails; }
        (v.fails ? w.no : w.ok)(w.answer);
      }
      await settle();
      // ---- against the specification
      const news = composed ? [composed] : sent.slice(before);
      if (composed && sent.length !== before) { say('composing a message sends something', e, json(sent.slice(before))); break; }
      if (news.length !== want.sent.length) { say(`${op.tag} makes ${news.length} requests instead of ${want.sent.length}`, e, json(news)); break; }
      for (const [i, s] of want.sent.entries()) {
        const g = news[i], query = Number(s.sender) < 0;
        const x = { ...e, addr: place(e.contract, s.addr), sender: query ? e.sender : person(s.sender), answer: undefined };
        fs.writeSync(out, json({ asked: x, made: [{ via: `${session.name} step ${step}: ${op.tag}`, ...g, given: query ? undefined : FUNDS[s.funds] || [] }] }) + '\n');
        if (op.tag === 'Run') {
          const fee = s.fee > 0 ? FEES[s.fee] : 'auto', memo = MEMOS[s.memo];
          if (json(g.fee) !== json(fee) || g.memo !== memo) say('fee or memo are not those given', x, json([g.fee, g.memo]));
        }
        if (query !== (g.sender === undefined)) say('executed instead of queried or the other way round', x, json(g));
      }
      for (const i of want.apart) {
        const me = shown[shown.length - 1], it = shown[Number(i)];
        // two requests may be the same one for the contract although they are numbered differently
        if (it.key === me.key && (it.at !== me.at || it.e !== me.e)) say('hooks that stand for different queries share a cache key', me.e, json([it.e.msg, it.at, me.e.msg, me.at, me.key]));
      }
      const done = calls.filter((c) => c.done).length - settledBefore;
      if (done !== want.settled.length) { say(`${done} calls return instead of ${want.settled.length}`, e, json(calls.filter((c) => c.done).map((c) => [c.n, c.failed && String(c.value)]))); break; }
      for (const i of want.settled) {
        const c = calls[Number(i)];
        report.answers++;
        if (!c.done || c.value !== c.answer && json(c.value) !== c.text || !!c.failed !== !!c.fails) say('a call returns something else than the chain answered', e, json([c.value, c.answer]));
      }
      if (off) break;
    }
  }
}

// ---- do the SDK's types admit the requests and the answers? -----------------------------------
function typecheck() {
  const dir = path.join(SDK, 'src', 'contracts');
  const lines = [], whose = [];
  const add = (line, e, what) => { lines.push(line); whose.push({ e, what }); };
  for (const c of Object.keys(SURFACE)) {
    add(`import * as ${c}T from ${json(path.join(dir, c + '.types'))};`, null, 'import');
    add(`import * as ${c}C from ${json(path.join(dir, c + '.client'))};`, null, 'import');
    add(`import * as ${c}M from ${json(path.join(dir, c + '.message-composer'))};`, null, 'import');
    add(`import * as ${c}Q from ${json(path.join(dir, c + '.react-query'))};`, null, 'import');
    add(`declare const ${c}Query: ${c}C.${c}QueryClient, ${c}Sign: ${c}C.${c}Client, ${c}Compose: ${c}M.${c}MessageComposer;`, null, 'declare');
  }
  // one of a kind is enough for types: shapes are distinct already, a few of each are kept
  const seen = new Map();
  const shape = (v) => Array.isArray(v) ? `[${v.length ? shape(v[0]) : ''}${v.length > 1 ? '+' : ''}]` : v && typeof v === 'object' ? `{${Object.keys(v).map((k) => k + ':' + shape(v[k]))}}` : v === null ? 'n' : typeof v === 'string' && !/^[\d.]*$/.test(v) && v.length < 12 ? typeof v : typeof v;
  for (const e of entries) {
    const k = [e.contract, e.kind, shape(e.msg), shape(e.answer)].join(' ');
    const n = (seen.get(k) || 0) + 1;
    seen.set(k, n);
    if (n > 1) continue;
    const c = e.contract, value = json(e.msg);
    if (e.kind === 'instantiate') { add(`{ const m: ${c}T.InstantiateMsg = ${value}; }`, e, 'InstantiateMsg does not admit the message'); continue; }
    const tag = Object.keys(e.msg)[0], style = SURFACE[c][e.kind][tag];
    if (style === undefined) continue;
    const method = camel(tag), a = args(style, e.msg[tag]).map(json), f = json(e.funds);
    add(`{ const m: ${c}T.${Cap(e.kind)}Msg = ${value}; }`, e, `${Cap(e.kind)}Msg does not admit the message`);
    if (e.kind === 'query') {
      add(`() => ${c}Query.${method}(${a});`, e, `QueryClient.${method} does not admit the arguments`);
      add(`() => ${c}Sign.${method}(${a});`, e, `Client.${method} does not admit the arguments`);
      add(`() => ${c}Q.use${c}${Cap(method)}Query({ client: ${c}Query${a.length ? ', args: ' + a[0] : ''} });`, e, `the hook for ${method} does not admit the arguments`);
      if (e.answer !== null && e.answer !== undefined) add(`{ const r: Awaited<ReturnType<typeof ${c}Query.${method}>> = ${json(e.answer)}; }`, e, `the type of ${method}'s answer does not admit the answer ${json(e.answer)}`);
    } else {
      add(`() => ${c}Sign.${method}(${[...a, '"auto"', '"memo"', f]});`, e, `Client.${method} does not admit the arguments`);
      add(`() => ${c}Compose.${method}(${[...a, f]});`, e, `MessageComposer.${method} does not admit the arguments`);
    }
  }
  report.typed = lines.length;
  const main = path.join(path.dirname(MADE), 'typed-use.ts');
  const stubs = path.join(__dirname, 'stubs.d.ts');
  const opts = {
    strict: true, noEmit: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, moduleResolution: ts.ModuleResolutionKind.NodeJs || 2,
    skipLibCheck: true, esModuleInterop: true, types: [], lib: ['lib.es2020.d.ts'],
  };
  const host = ts.createCompilerHost(opts), read = host.readFile, exists = host.fileExists, source = host.getSourceFile;
  const text = lines.join('\n') + '\nexport {};\n';
  host.getSourceFile = (f, v) => (path.resolve(f) === main ? ts.createSourceFile(f, text, v) : source.call(host, f, v));
  host.fileExists = (f) => path.resolve(f) === main || exists.call(host, f);
  host.readFile = (f) => (path.resolve(f) === main ? text : read.call(host, f));
  const prog = ts.createProgram([main, stubs], opts, host);
  const sf = prog.getSourceFile(main);
  for (const d of ts.getPreEmitDiagnostics(prog, sf)) {
    const { line } = sf.getLineAndCharacterOfPosition(d.start || 0), w = whose[line] || { what: '?' };
    const more = ts.flattenDiagnosticMessageText(d.messageText, '\n');
    if (w.e) { if (report.types.length < 400) report.types.push({ what: w.what, asked: { ...w.e, answer: undefined }, more: more.slice(0, 600) }); }
    else report.error = report.error || `typed-use: ${more}`;
  }
}

(async () => {
  try {
    if (contracts) { await main(); typecheck(); }
  } catch (e) {
    report.error = String(e.stack || e);
  }
  fs.writeFileSync(REPORT, json(report));
})();
