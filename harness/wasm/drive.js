// Drives the WebAssembly build: one JSON request per line, one JSON reply per line.
//   {"calls": [[arg, ...], ...], "fresh": bool}
// Each call is parseKuneiform(...args); the calls of a request run on one instance.
'use strict';
const fs = require('fs');
const readline = require('readline');
require(process.argv[2]);            // wasm_exec.js, sets globalThis.Go
const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[3]));
const real = process.stdout;
let up = null;

async function instance() {
  delete globalThis.parseKuneiform;
  const go = new globalThis.Go();
  let dead = null;
  go.exit = (c) => { dead = 'exit ' + c; };
  const inst = await WebAssembly.instantiate(module_, go.importObject);
  go.run(inst).then(() => { dead = dead || 'ended'; }, (e) => { dead = String(e); });
  for (let k = 0; k < 200 && typeof globalThis.parseKuneiform !== 'function'; k++) await new Promise(r => setTimeout(r, 5));
  if (typeof globalThis.parseKuneiform !== 'function') throw new Error('parseKuneiform is not defined');
  return { f: globalThis.parseKuneiform, dead: () => dead };
}

const SPECIAL = { '$undefined': undefined, '$null': null, '$object': {}, '$array': [], '$true': true, '$fn': () => 1, '$sym': 5.5 };
function arg(a) { return (typeof a === 'object' && a !== null && a.special) ? SPECIAL[a.special] : a; }

async function handle(q) {
  if (!up || q.fresh || up.dead()) up = await instance();
  const out = [];
  for (const c of q.calls) {
    const r = {};
    try {
      const v = up.f(...c.map(arg));
      r.type = v === null ? 'null' : typeof v;
      if (r.type === 'object') {
        r.json = v.json === undefined || v.json === null ? null : v.json;
        r.jsonType = typeof v.json;
        r.error = v.error === undefined || v.error === null ? null : String(v.error);
        r.keys = Object.keys(v).sort();
      } else r.value = String(v);
    } catch (e) { r.thrown = String(e).slice(0, 300); }
    await null;
    if (up.dead()) r.dead = up.dead();
    out.push(r);
    if (r.dead) break;
  }
  return out;
}

(async () => {
  const rl = readline.createInterface({ input: process.stdin });
  const fd = Number(process.argv[4]);
  for await (const line of rl) {
    let r;
    try { r = { out: await handle(JSON.parse(line)) }; } catch (e) { r = { crash: true, panic: String(e), ok: false }; up = null; }
    fs.writeSync(fd, JSON.stringify(r) + '\n');
  }
  process.exit(0);
})();
