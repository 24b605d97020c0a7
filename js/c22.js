// C22, the bindings: wasm/src/credential.js runs here as it is, in a JavaScript engine.  Where it expects the compiled
// module there is a stand-in with the same exports, which hands every call to the Rust functions compiled for this machine
// (another process, `c22 serve`).  The stand-in has a memory of its own, knows what is allocated in it, moves it (as growing
// it does) and sees every object that the bindings hand over, so that it can tell what was passed, kept and given back.
'use strict';
const fs = require('fs'), vm = require('vm'), path = require('path'), cp = require('child_process'), crypto = require('crypto');
const SERVER = process.argv[2], SOURCE = process.argv[3] || '/repo/wasm/src/credential.js';
const OUT = process.env.VH_OUT, SEED = process.env.VERIF_SEED || '1', THOROUGH = process.env.VERIF_TIER === 'thorough';
const out = s => fs.appendFileSync(OUT, JSON.stringify(s) + '\n');

// What is recorded.
const observed = {}, seen = new Set(), samples = [];
let evaluations = 0, violations = 0, phase = '', caseno = 0;
const count = (what, n) => { observed[what] = (observed[what] || 0) + (n === undefined ? 1 : n); evaluations += n === undefined ? 1 : n; };
const short = x => { let s; try { s = typeof x === 'string' ? x : JSON.stringify(x); } catch (e) { s = String(e); } return String(s).slice(0, 600); };
function violation(sig, detail) {
  if (++violations <= 60) out({ t: 'viol', sig: sig, detail: detail, phase: phase, case: caseno });
}
const check = (ok, sig, about) => { count(sig + ' checked'); if (!ok) violation(sig, about()); return ok; };
class Harness extends Error {}

// Numbers from the seed.
let state = 0;
const rand = what => { const h = crypto.createHash('sha256').update([SEED, phase, caseno, state++, what || ''].join('/')).digest(); return h; };
const below = n => rand().readUInt32LE(0) % n;
const bytes = n => {
  const r = [];
  while (r.length < n && r.length < 4096) for (const x of rand()) r.push(x);
  while (r.length < n) r.push(r[r.length - 4093] ^ 1);
  return r.slice(0, n);
};

// The Rust functions.
const dir = fs.mkdtempSync(path.join(path.dirname(OUT), 'c22js-'));
let req, resp;
function start() {
  const a = path.join(dir, 'req'), b = path.join(dir, 'resp');
  cp.execFileSync('mkfifo', [a, b]);
  const child = cp.spawn('sh', ['-c', 'exec "$0" serve "$2" < "$1"', SERVER, a, b], { stdio: ['ignore', 'ignore', 'inherit'] });
  child.unref();
  req = fs.openSync(a, 'w');
  resp = fs.openSync(b, 'r');
}
let rest = Buffer.alloc(0);
function ask(q) {
  const line = Buffer.from(JSON.stringify(q) + '\n');
  for (let n = 0; n < line.length;) n += fs.writeSync(req, line, n);
  const parts = [rest];
  for (;;) {
    const last = parts[parts.length - 1], i = last.indexOf(10);
    if (i >= 0) {
      rest = last.subarray(i + 1);
      parts[parts.length - 1] = last.subarray(0, i);
      return JSON.parse(Buffer.concat(parts).toString());
    }
    const b = Buffer.alloc(1 << 16), n = fs.readSync(resp, b, 0, b.length, null);
    if (n === 0) throw new Harness('the other process ended');
    parts.push(b.subarray(0, n));
  }
}

const F = ['system_parameters_create', 'issuer_create', 'issuer_new', 'issuer_get_issuer_parameters', 'issuer_issue', 'issuer_verify',
           'issuer_verify_roster_membership', 'user_obtain_finish', 'user_show'];
// What each takes: b for bytes, j for a value.
const KINDS = ['b', 'jb', 'jj', 'j', 'jbb', 'jj', 'jj', 'bjjj', 'jjb'];

// The stand-in for the compiled module.
let imports = null;
const M = { pages: 4, live: new Map(), max: 0, top: 1024, moved: 0, free: [] };
let memory = null, mode = '', last = null, highest = 0;
const u8 = () => new Uint8Array(memory.buffer);
// The memory moves whenever it is allocated from, or an export is called, as it may when it grows.
function move() { memory.grow(0); M.moved++; }
function malloc(n) {
  n = n >>> 0;
  if (mode === 'no-memory') throw new WebAssembly.RuntimeError('unreachable');
  // Fresh places mostly, sometimes one which was freed, and filled with rubbish.
  let p = 0;
  const i = M.free.findIndex(x => x[1] >= n + 32);
  if (i >= 0 && below(2)) { p = M.free[i][0]; M.free.splice(i, 1); }
  else {
    p = M.top;
    M.top += n + 64 & ~7;
    if (M.top > memory.buffer.byteLength) memory.grow(Math.ceil((M.top - memory.buffer.byteLength) / 65536) + 1);
    if (M.top > (200 << 20)) throw new Harness('the memory of the stand-in is full');
  }
  p += 16;
  move();
  u8().fill(0xa5, p - 16, p + n + 16);
  M.live.set(p, n);
  return p;
}
function free(p, n) {
  if (!M.live.has(p)) { violation('free-of-nothing', 'free(' + p + ', ' + n + ') in ' + mode + last); return; }
  const m = M.live.get(p);
  check(m === n, 'freed-with-another-length', () => n + ' instead of ' + m);
  const b = u8();
  let ok = true;
  for (let i = 1; i <= 16; i++) ok = ok && b[p - i] === 0xa5 && b[p + m + i - 1] === 0xa5;
  check(ok, 'written-outside', () => 'around a block of ' + m + ' bytes in ' + last);
  b.fill(0x5a, p, p + m);
  M.live.delete(p);
  M.free.push([p - 16, m + 32]);
  if (M.free.length > 64) M.free.shift();
  if (below(2)) move();
}
let got = null;
function rust(f, raw) {
  // The arguments as the compiled function reads them; values are dropped at its end.
  const args = [], drop = [];
  let k = 0;
  got = { f: f, args: args, reply: null };
  for (const c of KINDS[f]) {
    if (c === 'b') {
      const p = raw[k] >>> 0, n = raw[k + 1] >>> 0;
      k += 2;
      if (!M.live.has(p) || M.live.get(p) < n) violation('not-in-memory', F[f] + ': ' + n + ' bytes at ' + p);
      args.push({ b: Array.from(u8().subarray(p, p + n)) });
    } else {
      const idx = raw[k++];
      highest = Math.max(highest, idx);
      drop.push(idx);
      args.push({ idx: idx });
    }
  }
  if (k !== raw.length) violation('arguments', F[f] + ' got ' + raw.length + ' values instead of ' + k);
  for (const a of args) {
    if (a.idx === undefined) continue;
    const pp = malloc(8);
    let n;
    try { n = imports.__wbindgen_json_serialize(a.idx, pp) >>> 0; } catch (e) { free(pp, 8); throw e; }
    const p = new Uint32Array(memory.buffer)[pp >> 2];
    if (!M.live.has(p) || M.live.get(p) !== n) violation('not-in-memory', F[f] + ': a text of ' + n + ' bytes at ' + p);
    a.j = Buffer.from(u8().subarray(p, p + n)).toString();
    free(p, n);
    free(pp, 8);
  }
  if (mode === 'trap') throw new WebAssembly.RuntimeError('unreachable');
  if (mode === 'throw') {
    const t = Buffer.from('message \u00e9\u20ac \ud83d\ude00'), p = malloc(t.length);
    u8().set(t, p);
    try { imports.__wbindgen_throw(p, t.length); } finally { free(p, t.length); }
    throw new Harness('__wbindgen_throw came back');
  }
  const r = ask({ q: 'call', f: f, a: args.map(a => a.j === undefined ? { b: a.b } : { j: a.j }) });
  got.reply = r;
  if (r.panic !== undefined) throw new WebAssembly.RuntimeError('unreachable');
  for (const idx of drop) imports.__wbindgen_object_drop_ref(idx);
  if (r.text === '0') return imports.__wbindgen_number_new(0);
  const t = Buffer.from(r.text), p = malloc(t.length);
  u8().set(t, p);
  const idx = imports.__wbindgen_json_parse(p, t.length);
  free(p, t.length);
  highest = Math.max(highest, idx);
  return idx;
}
const exportsOf = () => {
  const e = { memory: memory, __wbindgen_malloc: malloc, __wbindgen_free: free };
  F.forEach((n, f) => { e[n] = function () { return rust(f, Array.from(arguments)); }; });
  return e;
};

// One call through the bindings, watched.
let W = null;
function call(f, args, how) {
  const about = () => F[f] + ' (' + how + ') ' + args.map(short).join(', ');
  const before = args.map(a => { try { return JSON.stringify(a); } catch (e) { return 'not JSON'; } });
  last = about();
  got = null;
  const live = M.live.size;
  let r, thrown = null;
  try { r = W[F[f]].apply(undefined, args); } catch (e) { if (e instanceof Harness) throw e; thrown = e; }
  count(F[f]);
  seen.add(f + how + before.join());
  check(M.live.size === live, 'not-freed', () => (M.live.size - live) + ' more blocks after ' + about());
  if (M.live.size !== live) M.live.clear();
  args.forEach((a, i) => { let now; try { now = JSON.stringify(a); } catch (e) { now = 'not JSON'; } check(now === before[i], 'argument-changed', about); });
  if (thrown) return { thrown: thrown };
  if (!got) { violation('not-called', about()); return { value: r }; }
  check(got.f === f, 'another-function', () => F[got.f] + ' instead of ' + about());
  got.args.forEach((a, i) => {
    if (a.b) check(a.b.length === args[i].length && a.b.every((x, k) => x === args[i][k]), 'bytes-differ', () => 'argument ' + i + ' is ' + short(a.b) + ' in ' + about());
    else check(a.j === (before[i] === undefined ? '' : before[i]), 'value-differs', () => 'argument ' + i + ' is ' + short(a.j) + ' in ' + about());
  });
  check(JSON.stringify(r) === got.reply.text, 'result-differs', () => short(r) + ' instead of ' + short(got.reply.text) + ' from ' + about());
  // And the library itself, on what was passed.
  const e = ask({ q: 'expect', f: f, a: args.map((a, i) => KINDS[f][i] === 'b' ? { b: Array.from(a) } : { j: before[i] === undefined ? '' : before[i] }) });
  if (e.want === null) check(r === 0, 'success', () => short(r) + ' instead of 0 from ' + about());
  else if (r === 0) violation('failure', '0 instead of ' + short(e.want) + ' from ' + about());
  else check(Array.isArray(r) && r.length === e.want.length && e.want.slice(0, e.det).every((x, k) => x === r[k]), 'differs', () => short(r) + ' and from the library ' + short(e.want) + ': ' + about());
  return { value: r };
}

// The forms in which bytes can be given.
function form(b) {
  switch (below(5)) {
    case 0: return Uint8Array.from(b);
    case 1: { const n = below(40), x = new Uint8Array(b.length + n + below(9)); x.set(b, n); return x.subarray(n, n + b.length); }
    case 2: return Buffer.from(b);
    case 3: return b.slice();
    default: return Uint8ClampedArray.from(b);
  }
}

function number() { const n = 1 + below(26); return bytes(n).map(x => x % 10); }

function main() {
  const runs = THOROUGH ? 260 : 40;
  const must = (f, args, what) => {
    const r = call(f, args, 'honest');
    if (r.thrown) { violation('honest-throws', what + ': ' + r.thrown); return 0; }
    check(r.value !== 0, 'honest-fails', () => what);
    return r.value;
  };
  let one = null;
  for (let c = 0; c < runs; c++) {
    phase = 'protocol'; caseno = c; state = 0;
    const seed = () => form(bytes(32)), n = number();
    const params = must(0, [seed()], 'parameters');
    const keypair = must(1, [params, seed()], 'an issuer');
    const issuer = must(2, [params, keypair], 'a restored issuer');
    const ip = must(3, [issuer], 'issuer parameters');
    const issuance = must(4, [issuer, form(n), seed()], 'issuing');
    const user = must(7, [form(n), params, ip, issuance], 'accepting');
    const e = ask({ q: 'entry', params: JSON.stringify(params), n: n, seed: bytes(32) });
    if (!e.entry) { if (params !== 0) violation('not-read-back', 'parameters ' + short(params)); continue; }
    const shown = must(8, [user, e.entry, seed()], 'showing');
    const verified = must(5, [issuer, shown], 'verifying');
    const member = must(6, [issuer, verified], 'membership');
    count('steps of whole runs', 9);
    check(JSON.stringify(member) === JSON.stringify(e.commitment), 'whole-run', () => 'a whole run ends with ' + short(member));
    one = { args: [[bytes(32)], [params, bytes(32)], [params, keypair], [issuer], [issuer, n, bytes(32)], [issuer, shown], [issuer, verified], [n, params, ip, issuance], [user, e.entry, bytes(32)]] };
    if (c < 3) samples.push('protocol/' + c + ': ' + n.join('') + ' ' + short(member).slice(0, 60));

    // Wrong and unusual arguments.
    phase = 'arguments';
    for (let f = 0; f < 9; f++) for (let k = 0; k < 14; k++) {
      const a = one.args[f].slice(), i = below(a.length);
      let how;
      if (KINDS[f][i] === 'b') {
        const n = [0, 1, 31, 32, 33, 64, 26, 27, 300, 70000, 200000, one.args[f][i].length + 256, one.args[f][i].length + 65536][below(13)];
        const b = n > 255 && below(2) ? one.args[f][i].concat(bytes(n - one.args[f][i].length)) : bytes(n);
        a[i] = form(b); how = n + ' bytes';
      } else {
        const x = a[i], y = Array.isArray(x) ? x.slice() : [];
        const at = y.length ? below(y.length) : 0;
        const V = [undefined, null, 0, 1, true, '', 'text \u00e9\u20ac\ud83d\ude00\u0000', [], {}, () => 1, Uint8Array.from(y), JSON.stringify(x), { bytes: y }, [y],
                   new Date(0), NaN, -1, Symbol('x'), y.concat(0), y.slice(1), y.map((v, q) => q === at ? v ^ 1 << below(8) : v),
                   y.map((v, q) => q === at ? v + 256 : v), y.map((v, q) => q === at ? v + 0.5 : v), y.map((v, q) => q === at ? undefined : v), y.map(String),
                   { toJSON: () => y }, Object.freeze(y.slice()), y.map((v, q) => q === at ? -0 : v), new Array(5000).fill(7), Object.assign(Object.create({ inherited: 1 }), { 0: 1 })];
        const w = below(V.length + 2);
        if (w >= V.length) { const r = one.args[below(9)]; a[i] = r[below(r.length)]; how = 'from elsewhere'; }
        else { a[i] = V[w]; how = 'value ' + w; }
      }
      for (let q = 0; q < a.length; q++) if (q !== i && KINDS[f][q] === 'b') a[q] = form(a[q]);
      const r = call(f, a, how);
      if (r.thrown) violation('throws', F[f] + ' (' + how + '): ' + r.thrown);
    }
  }
  if (!one) throw new Harness('no run');

  // Nothing adds up: as many objects are held after many calls as after a few.
  phase = 'balance'; caseno = 0; state = 0;
  highest = 0;
  const cycle = () => { for (let f = 0; f < 9; f++) call(f, one.args[f].map((a, i) => KINDS[f][i] === 'b' ? form(a) : a), 'again'); };
  cycle();
  const first = highest, top = M.live.size;
  for (let k = 0; k < (THOROUGH ? 400 : 60); k++) {
    caseno = k;
    cycle();
    for (let q = 0; q < 30; q++) { const f = 1 + below(8); call(f, one.args[f].map((a, i) => KINDS[f][i] === 'b' ? form(a) : below(4) ? 0 : null), 'nothing'); }
  }
  check(highest <= first + 16, 'objects-kept', () => 'the table of objects grew from ' + first + ' to ' + highest);
  check(M.live.size === top, 'memory-kept', () => M.live.size + ' blocks');

  // Values which cannot be written, traps, exceptions: the caller sees them, and the bytes passed are freed.
  phase = 'exceptions';
  for (let k = 0; k < (THOROUGH ? 400 : 100); k++) for (let f = 0; f < 9; f++) {
    caseno = k * 9 + f; state = 0;
    const a = one.args[f].map((a, i) => KINDS[f][i] === 'b' ? form(a) : a);
    const i = KINDS[f].indexOf('j'), w = below(i < 0 ? 2 : 4);
    mode = '';
    if (w === 0) mode = 'trap';
    else if (w === 1) mode = 'throw';
    else if (w === 2) { const x = {}; x.x = x; a[i] = x; }
    else a[i] = [BigInt(1)];
    const inside = mode;
    const r = call(f, a, 'exception ' + w);
    mode = '';
    if (!r.thrown) { violation('swallowed', F[f] + ' returns ' + short(r.value) + ' after an exception (' + w + ')'); continue; }
    const name = r.thrown.name;
    check(w === 0 ? r.thrown instanceof WebAssembly.RuntimeError : w === 1 ? r.thrown.message === 'message \u00e9\u20ac \ud83d\ude00' : name === 'TypeError',
          'another-exception', () => F[f] + ': ' + r.thrown + ' (' + w + ', ' + inside + ')');
    // It works as before.
    if (k % 10 === 0) { const again = call(f, one.args[f].map((a, i) => KINDS[f][i] === 'b' ? form(a) : a), 'after an exception'); if (again.thrown || again.value === 0) violation('not-after-exception', F[f]); }
  }
  count('moves of the memory', M.moved);
}

async function run() {
  start();
  memory = new WebAssembly.Memory({ initial: M.pages });
  // How the bindings load the module: a stand-in for fetch and for WebAssembly gives them the exports.
  let asked = null;
  const load = async (what, i) => { imports = i['./credential']; return { instance: { exports: exportsOf() } }; };
  for (const streaming of [true, false]) {
    imports = null;
    const fake = streaming ? { instantiateStreaming: async (p, i) => load(await p, i), instantiate: load } : { instantiate: load };
    const box = { self: {}, TextDecoder: TextDecoder, TextEncoder: TextEncoder, WebAssembly: fake, console: console,
                  Uint8Array: Uint8Array, Uint32Array: Uint32Array, Array: Array, Object: Object, JSON: JSON, Error: Error,
                  fetch: p => { asked = p; return Promise.resolve({ arrayBuffer: () => Promise.resolve(new ArrayBuffer(8)) }); } };
    box.window = box.self; box.globalThis = box.self;
    vm.runInNewContext(fs.readFileSync(SOURCE, 'utf8'), box, { filename: SOURCE });
    W = box.self.wasm_bindgen || box.wasm_bindgen;
    if (!W) throw new Harness('no wasm_bindgen');
    await W('credential_bg.wasm');
    if (!imports) throw new Harness('the module was not instantiated');
    check(asked === 'credential_bg.wasm', 'another-module', () => String(asked));
    if (streaming) { phase = 'loading'; const r = call(0, [form(bytes(32))], 'streaming'); if (r.thrown) violation('throws', String(r.thrown)); }
  }
  main();
}

run().catch(e => {
  if (e instanceof Harness) out({ t: 'error', detail: String(e.stack) });
  else violation('bindings', phase + '/' + caseno + ': ' + e.stack);
}).then(() => {
  try { fs.closeSync(req); fs.closeSync(resp); } catch (e) { /* nothing was started */ }
  for (const n of ['req', 'resp']) { try { fs.unlinkSync(path.join(dir, n)); } catch (e) { /* not there */ } }
  fs.rmdirSync(dir);
  out({ t: 'done', evaluations: evaluations, distinct: seen.size, rule: 'calls through credential.js, in a JavaScript engine; distinct by function and arguments', samples: samples, observed: observed });
  process.exit(violations ? 1 : 0);
});
