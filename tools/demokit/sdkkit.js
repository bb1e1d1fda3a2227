// loads the SDK of $REPO with stand-ins for the packages it stands on; offers a typed check
'use strict';
const fs = require('fs'), path = require('path'), Module = require('module');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const SDK = path.join(process.env.REPO, 'ts', 'sdk', 'src');
exports.asked = [];
const known = {
  toUtf8: (s) => new Uint8Array(Buffer.from(s)), fromUtf8: (b) => Buffer.from(b).toString(),
  MsgExecuteContract: { typeUrl: '/cosmwasm.wasm.v1.MsgExecuteContract', fromPartial: (o) => ({ sender: '', contract: '', ...o, funds: o.funds || [] }) },
  useQuery: (key, fn, options) => (key && !Array.isArray(key) ? key : { ...options, queryKey: key, queryFn: fn }),
};
const stub = new Proxy(known, { get: (t, k) => (k in t ? t[k] : k === '__esModule' ? true : k === 'default' ? stub : typeof k === 'symbol' ? undefined : class {}) });
const load = Module._load;
Module._load = (n, ...r) => (n.startsWith('.') || path.isAbsolute(n) || Module.builtinModules.includes(n) ? load(n, ...r) : stub);
require.extensions['.ts'] = (m, f) => m._compile(ts.transpileModule(fs.readFileSync(f, 'utf8'), { compilerOptions: { module: 1, target: 7, esModuleInterop: true }, fileName: f }).outputText, f);
const lib = require(path.join(SDK, 'index.ts'));
exports.sdk = lib.default || lib.contracts;
exports.chain = {
  queryContractSmart: async (addr, msg) => { exports.asked.push({ addr, msg: JSON.stringify(msg) }); return 'answer'; },
  execute: async (sender, addr, msg, fee, memo, funds) => { exports.asked.push({ sender, addr, msg: JSON.stringify(msg), fee, memo, funds: funds || [] }); return 'result'; },
};
exports.composed = (m) => ({ sender: m.value.sender, addr: m.value.contract, msg: Buffer.from(m.value.msg).toString(), funds: m.value.funds || [] });
/** do the SDK's types admit this use? */
exports.admits = (body) => {
  const main = path.join(SDK, 'contracts', '__demo.ts');
  const text = ['Core', 'Airdrop', 'Periphery'].map((c) => `import * as ${c} from "./${c}.types";`).join('\n') + '\n' + body + '\nexport {};';
  const o = { strict: true, noEmit: true, skipLibCheck: true, target: 7, types: [] }, h = ts.createCompilerHost(o);
  const [g, e] = [h.getSourceFile, h.fileExists];
  h.getSourceFile = (f, v) => (f === main ? ts.createSourceFile(f, text, v) : g.call(h, f, v));
  h.fileExists = (f) => f === main || e.call(h, f);
  const p = ts.createProgram([main], o, h);
  return ts.getPreEmitDiagnostics(p, p.getSourceFile(main)).map((d) => ts.flattenDiagnosticMessageText(d.messageText, ' '));
};
exports.need = (ok, what) => { if (!ok) { console.log('BROKEN: ' + what); process.exit(1); } };
