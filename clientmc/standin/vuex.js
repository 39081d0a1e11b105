// A stand-in for Vuex: modules, mutations, actions and the helpers.
import { touch, activeStore } from './vue.js';

export class Store {
  constructor(o = {}) {
    this.state = {}; this.m = {}; this.a = {}; this.getters = {}; this.subs = [];
    this._install([], o, '');
  }
  _install(path, o, ns) {
    const st = typeof o.state === 'function' ? o.state() : o.state ?? {};
    if (path.length === 0) this.state = st;
    else path.slice(0, -1).reduce((s, k) => s[k], this.state)[path.at(-1)] = st;
    const local = () => path.reduce((s, k) => s[k], this.state);
    const ctx = {
      commit: (t, p, opt) => this.commit(opt?.root ? t : ns + t, p),
      dispatch: (t, p, opt) => this.dispatch(opt?.root ? t : ns + t, p),
      rootGetters: this.getters
    };
    Object.defineProperty(ctx, 'state', { get: local });
    Object.defineProperty(ctx, 'rootState', { get: () => this.state });
    const getters = {};
    Object.defineProperty(ctx, 'getters', { get: () => getters });
    for (const [k, f] of Object.entries(o.getters ?? {})) {
      const d = { enumerable: true, get: () => f(local(), getters, this.state, this.getters) };
      Object.defineProperty(getters, k, d);
      Object.defineProperty(this.getters, ns + k, d);
    }
    for (const [k, f] of Object.entries(o.mutations ?? {})) (this.m[ns + k] ??= []).push((p) => f.call(this, local(), p));
    for (const [k, a] of Object.entries(o.actions ?? {})) {
      const f = typeof a === 'function' ? a : a.handler;
      (this.a[ns + k] ??= []).push((p) => f.call(this, ctx, p));
    }
    for (const [k, mod] of Object.entries(o.modules ?? {})) this._install([...path, k], mod, ns + (mod.namespaced ? k + '/' : ''));
  }
  registerModule(path, mod) {
    path = Array.isArray(path) ? path : [path];
    this._install(path, mod, mod.namespaced ? path.join('/') + '/' : '');
  }
  commit(t, p) {
    if (typeof t === 'object') { p = t; t = t.type; }
    const l = this.m[t];
    if (!l) { console.error('unknown mutation ' + t); return; }
    l.forEach((f) => f(p));
    this.subs.forEach((f) => f({ type: t, payload: p }, this.state));
    touch();
  }
  dispatch(t, p) {
    if (typeof t === 'object') { p = t; t = t.type; }
    const l = this.a[t];
    if (!l) { console.error('unknown action ' + t); return undefined; }
    // as in vuex, what an action throws synchronously is thrown by dispatch
    const rs = l.map((f) => { const r = f(p); return r && typeof r.then === 'function' ? r : Promise.resolve(r); });
    return new Promise((res, rej) => (rs.length > 1 ? Promise.all(rs) : rs[0]).then(res, rej));
  }
  subscribe(f) { this.subs.push(f); return () => { this.subs = this.subs.filter((x) => x !== f); }; }
  watch() {}
}
export const createStore = (o) => new Store(o);
export const useStore = () => activeStore();

const split = (ns, map) => (typeof ns === 'string' ? [ns.replace(/\/$/, ''), map] : ['', ns]);
const entries = (map) => (Array.isArray(map) ? map.map((k) => [k, k]) : Object.entries(map));
const at = (state, ns) => (ns ? ns.split('/').reduce((s, k) => s[k], state) : state);
const full = (ns, k) => (ns ? ns + '/' : '') + k;
export const mapState = (a, b) => {
  const [ns, map] = split(a, b);
  return Object.fromEntries(entries(map).map(([n, k]) => [n, function () {
    const s = at(this.$store.state, ns);
    return typeof k === 'function' ? k.call(this, s, this.$store.getters) : s[k];
  }]));
};
export const mapGetters = (a, b) => {
  const [ns, map] = split(a, b);
  return Object.fromEntries(entries(map).map(([n, k]) => [n, function () { return this.$store.getters[full(ns, k)]; }]));
};
const mapTo = (what) => (a, b) => {
  const [ns, map] = split(a, b);
  return Object.fromEntries(entries(map).map(([n, k]) => [n, function (...args) {
    if (typeof k === 'function') return k.call(this, (t, p) => this.$store[what](full(ns, t), p), ...args);
    return this.$store[what](full(ns, k), args[0]);
  }]));
};
export const mapMutations = mapTo('commit'), mapActions = mapTo('dispatch');
export const createNamespacedHelpers = (ns) => ({
  mapState: (m) => mapState(ns, m), mapGetters: (m) => mapGetters(ns, m), mapMutations: (m) => mapMutations(ns, m), mapActions: (m) => mapActions(ns, m)
});
