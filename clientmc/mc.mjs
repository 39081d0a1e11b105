// The exploration driver of the client checks: the same command line, progress
// file and result files as harness/mc.h.
//
// A driver enumerates cases (sequences of user actions), numbered in
// enumeration order. Every case is a function of a chooser; all sequences of
// its choices (which answer of the server arrives next, with which outcome) are
// run by replay, depth first.
import fs from 'node:fs';
import { Worker } from 'node:worker_threads';

let prop, tier = 'quick', out, only = null, shard = 0, shards = 1;
let ordinal = 0, executed = 0, transitions = 0, traces = 0, checks = 0;
let exhaustive = true, group = 'main', fd;
const groups = {}, states = new Set(), bounds = {}, counters = {}, samples = [], violations = {};
const watch = new Int32Array(new SharedArrayBuffer(8));

export class Failure extends Error {
  constructor(sig, msg) { super(msg); this.sig = sig; }
}

export const thorough = () => tier === 'thorough';
export const print = (s) => fs.writeSync(1, s + '\n');

export function init() {
  const a = process.argv.slice(2);
  for (let i = 0; i + 1 < a.length; i += 2) {
    const v = a[i + 1];
    switch (a[i]) {
      case '--prop': prop = v; break;
      case '--tier': tier = v; break;
      case '--out': out = v; break;
      case '--case': only = Number(v); break;
      case '--shard': [shard, shards] = v.split('/').map(Number); break;
      default: process.stderr.write('unknown option ' + a[i] + '\n'); process.exit(2);
    }
  }
  fd = fs.openSync(`${out}/progress.${shard}`, 'w');
  progress(0xffffffffffffffffn, 0n);
  // a run that does not come to an end
  new Worker(`
    const { workerData } = require('node:worker_threads');
    const fs = require('node:fs');
    const w = new Int32Array(workerData);
    let last = -1, since = process.cpuUsage();
    setInterval(() => {
      const c = Atomics.load(w, 0), u = process.cpuUsage();
      if (c !== last) { last = c; since = u; return; }
      if ((u.user + u.system - since.user - since.system) / 1e6 > 30) {
        fs.writeSync(1, 'MC-HANG: one run takes longer than 30 s\\n');
        process.kill(process.pid, 'SIGKILL');
      }
    }, 500);`, { eval: true, workerData: watch.buffer }).unref();
  for (const k of ['log', 'info', 'warn', 'error', 'debug', 'clear', 'trace']) console[k] = () => {};
}

function progress(c, done) {
  const b = Buffer.alloc(16);
  b.writeBigUInt64LE(c, 0);
  b.writeBigUInt64LE(done, 8);
  fs.writeSync(fd, b, 0, 16, 0);
}

function hash(s) {
  let h = 0xcbf29ce484222325n;
  for (let i = 0; i < s.length; i++) {
    h ^= BigInt(s.charCodeAt(i));
    h = (h * 0x100000001b3n) & 0xffffffffffffffffn;
  }
  return h;
}

const fast = new Set();
export function state(s) {
  if (fast.has(s)) return;
  if (fast.size > 200000) fast.clear();
  fast.add(s);
  states.add(hash(s));
}
export const transition = () => { transitions++; };
export const count = (k, n = 1) => { counters[k] = (counters[k] ?? 0) + n; };
export const bound = (k, v) => { bounds[k] = String(v); };
export const setGroup = (g) => { group = g; };
export function check(ok, sig, msg) {
  checks++;
  if (!ok) throw new Failure(sig, typeof msg === 'function' ? msg() : msg);
}
export const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);

function record(e, desc, n) {
  const sig = e instanceof Failure ? e.sig : 'exception:' + (e?.name ?? typeof e);
  const msg = e instanceof Failure ? e.message : String(e?.stack ?? e);
  const v = (violations[sig] ??= []);
  if (v.length < 4) v.push({ sig, msg: msg.slice(0, 2000), desc: String(desc).slice(0, 2000), group, case: n });
}

// Runs one case with all sequences of choices. run(choose) gets a chooser:
// choose(k, name) gives a number below k.
export async function each(desc, run) {
  const n = ordinal++;
  if (only !== null ? n !== only : n % shards !== shard) return;
  executed++;
  groups[group] = (groups[group] ?? 0) + 1;
  progress(BigInt(n), 0n);
  let stack = [];
  for (;;) {
    let pos = 0;
    const names = [];
    const choose = (k, name = '') => {
      if (k <= 0) throw new Error('no choice');
      if (pos === stack.length) stack.push([0, k]);
      if (stack[pos][1] !== k) throw new Failure('nondeterminism', `replay of ${desc}: ${names.join(' ')} has ${k} choices, was ${stack[pos][1]}`);
      const c = stack[pos++][0];
      if (name) names.push(typeof name === 'function' ? name(c) : name + c);
      return c;
    };
    Atomics.add(watch, 0, 1);
    try {
      await run(choose, (s) => names.push(s));
    } catch (e) {
      record(e, `${desc} | ${names.join(' ')}`, n);
      if (only !== null) print(`FAILED [${e.sig ?? e.name}] ${e.message}\n  ${desc} | ${names.join(' ')}`);
    }
    traces++;
    if (samples.length < 6 && traces % 97 === 1) samples.push(`[${group}] ${desc} | ${names.join(' ')}`.slice(0, 600));
    if (Object.values(violations).some((v) => v.length >= 4)) { if (only === null) { exhaustive = false; finish(); } else break; }
    stack = stack.slice(0, pos);
    while (stack.length && stack[stack.length - 1][0] + 1 >= stack[stack.length - 1][1]) stack.pop();
    if (!stack.length) break;
    stack[stack.length - 1][0]++;
  }
}

export function finish() {
  progress(0xffffffffffffffffn, 1n);
  const base = `${out}/result.${shard}`;
  const b = Buffer.alloc(8 * states.size);
  let i = 0;
  for (const s of states) b.writeBigUInt64LE(s, 8 * i++);
  fs.writeFileSync(base + '.states', b);
  const vs = Object.values(violations).flat().sort((x, y) => x.case - y.case);
  fs.writeFileSync(base + '.json', JSON.stringify({
    cases: ordinal, executed, transitions, traces, checks, exhaustive, capped: false, bounds, counters, groups, samples,
    violations: vs
  }));
  process.exit(vs.length ? 1 : 0);
}

// every sequence over 0..k-1 of length lo..hi
export function* sequences(k, lo, hi) {
  for (let n = lo; n <= hi; n++) {
    const d = Array(n).fill(0);
    for (;;) {
      yield d.slice();
      let i = n - 1;
      while (i >= 0 && ++d[i] === k) d[i--] = 0;
      if (i < 0) break;
    }
  }
}
