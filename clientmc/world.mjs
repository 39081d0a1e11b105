// The world around the client: a browser window, a server whose answers arrive
// when and how the explorer says, and the client itself, loaded afresh.
import fs from 'node:fs';
import { Failure, transition } from './mc.mjs';

const code = fs.readFileSync(process.env.MC_CLIENT, 'utf8');
const factory = new Function('module', 'exports', 'require', code);

// what the server of /repo serves (web/server/src/soro_server.cc)
const name = '([a-zA-Z0-9_-]+)';
const routes = [
  [/^\/infrastructures\/?$/, 'infrastructures'],
  [new RegExp(`^/infrastructure/${name}/bounding_box/?$`), 'bounding_box'],
  [new RegExp(`^/infrastructure/${name}/stations/?$`), 'stations'],
  [new RegExp(`^/infrastructure/${name}/station/(\\d+)$`), 'station'],
  [new RegExp(`^/infrastructure/${name}/station_route/(\\d+)$`), 'station_route'],
  [new RegExp(`^/infrastructure/${name}/interlocking_route/(\\d+)$`), 'interlocking_route'],
  [new RegExp(`^/infrastructure/${name}/element/(\\d+)$`), 'element'],
  [new RegExp(`^/infrastructure/${name}/search/${name}$`), 'search'],
  [new RegExp(`^/infrastructure/${name}/timetables/?$`), 'timetables'],
  [new RegExp(`^/infrastructure/${name}/timetable/${name}/?$`), 'timetable'],
  [new RegExp(`^/infrastructure/${name}/timetable/${name}/ordering\\?from=([0-9]+)&to=([0-9]+)&trainIds=(\\d*(?:,\\d+)*)$`), 'ordering']
];
export function route(path) {
  for (const [re, kind] of routes) {
    const m = re.exec(path);
    if (m) return [kind, ...m.slice(1)];
  }
  return null;
}

// two infrastructures with the same ids for different things
export const infras = ['A', 'B'];
const k = (i) => infras.indexOf(i) + 1;
export const data = {
  infrastructures: () => ({ infrastructures: infras }),
  timetables: (i) => ({ timetables: [i + '1', i + '2'] }),
  timetable: (i, t) => (t[0] === i ? { timetable: { source: t, interval: { start: 1000 * k(i) + 100 * Number(t[1]), end: 1000 * k(i) + 100 * Number(t[1]) + 50 } } } : null),
  bounding_box: (i) => ({ boundingBox: ['box', i] }),
  stations: (i) => ({ stations: [i + 'S0', i + 'S1'] }),
  station: (i, id) => ({ id: Number(id), ds100: `${i}S${id}`, stationRoutes: [{ id: 1, name: i + 'r1', fromElement: 0, toElement: 1 }, { id: 2, name: i + 'r2', fromElement: 0, toElement: 1 }], interlockingRouteIds: [1] }),
  station_route: (i, id) => ({ id: Number(id), name: `${i}r${id}`, fromElement: 0, toElement: 1, ds100: 'x', path: [{ lon: k(i), lat: Number(id) }, { lon: k(i), lat: 50 }] }),
  interlocking_route: (i, id) => ({ id: Number(id), path: [{ lon: k(i), lat: Number(id) }, { lon: k(i), lat: 60 }] }),
  element: (i, id) => ({ id: Number(id) }),
  search: (i, q) => (q.length < 3 ? [] : [0, 1].map((n) => ({ type: 'station', id: n, name: `${i}-${q}-${n}`, boundingBox: [i, q, n], elementType: '' }))),
  ordering: (i, t, f, to, ids) => (t[0] === i ? {
    attributes: { totalTrains: 2 },
    nodes: ['0', '1', `${t}/${f}-${to}/${ids}`].map((key, n) => ({ key, attributes: { train: n, route: n, offset: n, relativeTrainId: n, of: `${t}/${f}-${to}/${ids}` } })),
    edges: [{ source: '0', target: '1' }]
  } : null)
};
export const box = (i) => data.bounding_box(i).boundingBox;

class Storage {
  constructor() { this.m = new Map(); }
  getItem(x) { return this.m.has(x) ? this.m.get(x) : null; }
  setItem(x, v) { this.m.set(x, String(v)); }
  removeItem(x) { this.m.delete(x); }
  clear() { this.m.clear(); }
  get length() { return this.m.size; }
  key(n) { return [...this.m.keys()][n] ?? null; }
}

export class NetworkFailure extends Error {}
const rejected = [];
process.on('unhandledRejection', (e) => rejected.push(e));
globalThis.mcImport = (p) => Promise.resolve({ default: { async: p } });

export class World {
  constructor() {
    this.storage = new Storage();
    this.osDark = false;
    this.requests = [];
    this.pending = [];
    this.answers = 0;
    this.load();
  }

  // loads (or reloads) the page
  load() {
    rejected.length = 0;
    this.components = [];
    this.pending = [];
    this.media = [];
    this.listeners = {};
    const win = {
      origin: 'http://server', localStorage: this.storage, location: { hash: '' },
      matchMedia: (q) => {
        const w = this;
        const mq = {
          media: q, get matches() { return /dark/.test(q) ? w.osDark : !w.osDark; }, l: [],
          addEventListener: (e, h) => { if (e === 'change') mq.l.push(h); }, addListener: (h) => mq.l.push(h),
          removeEventListener: (e, h) => { mq.l = mq.l.filter((x) => x !== h); }
        };
        this.media.push(mq);
        return mq;
      },
      addEventListener: (e, h) => { (this.listeners[e] ??= []).push(h); }, removeEventListener() {},
      setTimeout, clearTimeout
    };
    globalThis.window = win;
    globalThis.localStorage = this.storage;
    globalThis.document = { getElementById: () => null, querySelector: () => null, createElement: () => ({}) };
    globalThis.fetch = (url, opt = {}) => this.fetch(url, opt);
    const mod = { exports: {} };
    factory(mod, mod.exports, () => ({}));
    this.m = mod.exports;
    this.store = this.m.createGlobalStore();
    this.store.$vuetify = this.m.theVuetify;
  }

  fetch(url, opt) {
    const path = String(url).startsWith('http://server') ? String(url).slice('http://server'.length) : String(url);
    this.requests.push(path);
    if (/undefined|null|NaN/.test(path)) rejected.push(new Failure('senseless request', path));
    return new Promise((resolve, reject) => {
      this.pending.push({ path, method: opt.method ?? 'GET', headers: opt.headers, body: opt.body, resolve, reject, n: this.requests.length });
    });
  }

  body(path) {
    const r = route(path);
    if (!r) return null;
    const [kind, ...a] = r;
    return data[kind](...a) ?? null;
  }

  // answers the n-th pending request
  answer(n, outcome = 'ok') {
    const [r] = this.pending.splice(n, 1);
    this.answers++;
    transition();
    const b = outcome === 'ok' ? this.body(r.path) : null;
    if (outcome === 'lost') { r.reject(new NetworkFailure('Failed to fetch')); return r; }
    const status = b === null ? (outcome === 'ok' ? 404 : 500) : 200;
    const text = b === null ? 'not json' : JSON.stringify(b);
    const res = {
      ok: status === 200, status, statusText: status === 200 ? 'OK' : 'Error ' + status, headers: new Map(),
      json: async () => JSON.parse(text), text: async () => text, clone() { return this; }
    };
    r.resolve(res);
    return r;
  }

  // until nothing moves but the server
  async settle() {
    for (let i = 0; i < 3; i++) {
      await new Promise(setImmediate);
      this.m.vue.flush();
      if (i === 1) for (const l of this.m.goldenlayout.layouts) l.frame();
    }
    this.failures();
  }

  failures() {
    for (const e of [...rejected.splice(0), ...this.m.vue.errors.splice(0)]) {
      if (e instanceof Failure) throw e;
      if (e instanceof TypeError || e instanceof ReferenceError || e instanceof RangeError) throw new Failure('exception:' + e.name, String(e.stack));
      if (/Graph\.|no node/.test(e?.message ?? '')) throw new Failure('exception:graph', String(e.stack));
    }
  }

  async answerAll(outcome = 'ok') {
    for (let n = 0; this.pending.length && n < 100; n++) {
      this.answer(0, outcome);
      await this.settle();
    }
  }

  mount(component, o = {}) {
    const c = this.m.vue.mount(component, { store: this.store, globals: { $vuetify: this.store.$vuetify }, ...o });
    this.components.push(c);
    return c;
  }
}

// Runs a sequence of actions with every order of actions and answers. An
// action is [name, enabled(), run()]; outcomes are those an answer may have;
// at most `faults` answers fail.
export async function interleave(w, choose, note, actions, { faults = 0, order = true, after = () => {} } = {}) {
  let next = 0, bad = 0;
  for (;;) {
    const more = next < actions.length;
    const nAnswers = w.pending.length;
    const perAnswer = bad < faults ? 2 : 1;
    const k = (more ? 1 : 0) + nAnswers * perAnswer;
    if (k === 0) break;
    let c = order ? choose(k) : 0;
    if (more && c === 0) {
      const [nm, enabled, run] = actions[next++];
      if (!enabled()) { note(`(${nm})`); continue; }
      note(nm);
      transition();
      await run();
    } else {
      if (more) c--;
      const which = Math.floor(c / perAnswer), out = c % perAnswer === 0 ? 'ok' : 'error';
      if (out !== 'ok') bad++;
      const r = w.answer(which, out);
      note(`${out === 'ok' ? '<' : '!'}${r.path.replace('/infrastructure/', '')}`);
    }
    await w.settle();
    after();
  }
  return bad;
}
