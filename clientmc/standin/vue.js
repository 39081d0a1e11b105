// A stand-in for the parts of Vue the scripts of the components use: options
// and setup(), with watchers that run in a microtask after what changed them.
// Nothing is rendered.
let watchers = [], scheduled = false, current = null;
export const errors = [];
const fail = (e) => errors.push(e);

export function touch() {
  if (scheduled) return;
  scheduled = true;
  Promise.resolve().then(flush);
}

export function flush() {
  scheduled = false;
  for (let round = 0; round < 100; round++) {
    let any = false;
    for (const w of watchers.slice()) if (watchers.includes(w) && run(w)) any = true;
    if (!any) return;
  }
  fail(new TypeError('watchers do not come to rest'));
}

const snap = (v, deep) => (deep ? JSON.stringify(unref(v)) : v);
function run(w) {
  let v;
  try { v = w.get(); } catch (e) { fail(e); return false; }
  const s = snap(v, w.deep);
  if (Object.is(s, w.snap)) return false;
  const old = w.old;
  w.snap = s; w.old = v;
  call(() => w.cb(v, old));
  return true;
}
function call(f) {
  try {
    const r = f();
    if (r && typeof r.then === 'function') r.then(undefined, fail);
    return r;
  } catch (e) { fail(e); }
}
function addWatcher(get, cb, opt, owner) {
  const w = { get, cb, deep: !!opt?.deep, owner };
  w.old = get(); w.snap = snap(w.old, w.deep);
  watchers.push(w);
  if (opt?.immediate) call(() => cb(w.old, undefined));
  return () => { watchers = watchers.filter((x) => x !== w); };
}

export const defineComponent = (o) => (typeof o === 'function' ? { setup: o } : o);
export const defineAsyncComponent = (l) => ({ async: l });
export const markRaw = (x) => x, toRaw = (x) => x, shallowReactive = (x) => x, readonly = (x) => x;
export const nextTick = (f) => Promise.resolve().then(() => Promise.resolve()).then(f);
class Ref {
  constructor(v) { this.v = v; this.__isRef = true; }
  get value() { return this.v; }
  set value(x) { this.v = x; touch(); }
}
export const isRef = (r) => r instanceof Ref || !!r?.__isRef;
export const ref = (v) => (isRef(v) ? v : new Ref(v));
export const shallowRef = ref;
export const unref = (r) => (isRef(r) ? r.value : r);
export const computed = (f) => {
  const get = typeof f === 'function' ? f : f.get;
  return { __isRef: true, get value() { return get(); }, set value(x) { f.set?.(x); touch(); } };
};
export const reactive = (o) => new Proxy(o, { set(t, k, v) { t[k] = v; touch(); return true; } });
export const toRef = (o, k) => ({ __isRef: true, get value() { return o[k]; }, set value(x) { o[k] = x; } });
export const toRefs = (o) => Object.fromEntries(Object.keys(o).map((k) => [k, toRef(o, k)]));
export const watch = (src, cb, opt) => {
  const get = Array.isArray(src) ? () => src.map((s) => (typeof s === 'function' ? s() : unref(s)))
    : typeof src === 'function' ? src : () => unref(src);
  return addWatcher(get, cb, { ...opt, deep: opt?.deep || Array.isArray(src) || (!isRef(src) && typeof src !== 'function') }, current);
};
export const watchEffect = (f) => { call(f); return addWatcher(() => { call(f); return 0; }, () => {}, {}, current); };
const hook = (name) => (f) => current?.hooks[name].push(f);
export const onMounted = hook('mounted'), onBeforeUnmount = hook('beforeUnmount'), onUnmounted = hook('unmounted'),
  onBeforeMount = hook('created'), onUpdated = () => {};
export const getCurrentInstance = () => current;
export const provide = () => {};
export const inject = (k, d) => (current?.provided && k in current.provided ? current.provided[k] : d);
export const useAttrs = () => ({}), useSlots = () => ({});
export const toValue = (x) => (typeof x === 'function' ? x() : unref(x));
export const isReactive = () => false, isProxy = () => false, isReadonly = () => false, triggerRef = () => touch();
export const shallowReadonly = (x) => x, hasInjectionContext = () => !!current;
export const watchPostEffect = (f) => watchEffect(f), watchSyncEffect = watchPostEffect;
export const onBeforeUpdate = () => {}, onActivated = () => {}, onDeactivated = () => {}, onErrorCaptured = () => {};
export const effectScope = () => ({ run: (f) => f(), stop() {} });
export const h = () => null, resolveComponent = (x) => x;
export const createApp = () => ({ use() { return this; }, mount() { return this; } });
export const Fragment = Symbol(), Text = Symbol();

// mounts a component; what it emits is given to emit(name, ...args)
export function mount(options, { store, props = {}, provided = {}, refs = {}, emit = () => {}, globals = {} } = {}) {
  const inst = { refs, provided, hooks: { created: [], mounted: [], beforeUnmount: [], unmounted: [] }, exposed: null, proxy: null };
  const data = {}, comp = {}, methods = {}, setupState = {}, propValues = {};
  for (const [k, d] of Object.entries(options.props ?? {})) {
    if (k in props) continue;
    const def = d && typeof d === 'object' && !Array.isArray(d) ? d.default : undefined;
    propValues[k] = typeof def === 'function' ? def() : def;
  }
  Object.assign(propValues, props);
  for (const [k, d] of Object.entries(options.inject && !Array.isArray(options.inject) ? options.inject : Object.fromEntries((options.inject ?? []).map((k) => [k, {}])))) {
    const from = d?.from ?? k;
    propValues[k] = from in provided ? provided[from] : typeof d?.default === 'function' ? d.default() : d?.default;
  }
  const $emit = (n, ...a) => call(() => emit(n, ...a));
  const special = { $store: store, $refs: refs, $emit, $props: propValues, $nextTick: nextTick, $options: options, $el: {}, $watch: (k, cb, o) => addWatcher(typeof k === 'function' ? k : () => proxy[k], cb.bind(proxy), o, inst), ...globals };
  const proxy = new Proxy({}, {
    get(_, k) {
      if (k in setupState) return unref(setupState[k]);
      if (k in data) return data[k];
      if (k in comp) return comp[k].get.call(proxy);
      if (k in methods) return methods[k];
      if (k in propValues) return propValues[k];
      return special[k];
    },
    set(_, k, v) {
      if (k in setupState && isRef(setupState[k])) setupState[k].value = v;
      else if (k in comp) comp[k].set?.call(proxy, v);
      else if (k in propValues && !(k in data)) throw new TypeError('write to prop ' + String(k));
      else data[k] = v;
      touch();
      return true;
    },
    has: (_, k) => k in setupState || k in data || k in comp || k in methods || k in propValues || k in special
  });
  inst.proxy = proxy;
  inst.setProp = (k, v) => { propValues[k] = v; touch(); };
  inst.appContext = { config: { globalProperties: special } };
  const before = current;
  current = inst;
  currentStore = store;
  let setupResult;
  if (options.setup) {
    setupResult = options.setup(propValues, { emit: $emit, expose: (x) => { inst.exposed = x ?? {}; }, attrs: {}, slots: {} });
    if (setupResult && typeof setupResult === 'object') Object.defineProperties(setupState, Object.getOwnPropertyDescriptors(setupResult));
  }
  inst.setupState = setupState;
  for (const [k, f] of Object.entries(options.methods ?? {})) methods[k] = f.bind(proxy);
  for (const [k, c] of Object.entries(options.computed ?? {})) comp[k] = typeof c === 'function' ? { get: c } : c;
  if (options.data) Object.assign(data, options.data.call(proxy, proxy));
  for (const [k, w] of Object.entries(options.watch ?? {}))
    for (const one of Array.isArray(w) ? w : [w]) {
      const h = typeof one === 'function' ? one : typeof one === 'string' ? methods[one] : typeof one.handler === 'string' ? methods[one.handler] : one.handler;
      addWatcher(() => k.split('.').reduce((o, p) => o?.[p], proxy), h.bind(proxy), typeof one === 'object' ? one : {}, inst);
    }
  if (options.created) call(() => options.created.call(proxy));
  inst.hooks.created.forEach(call);
  current = before;
  // template refs of <script setup> components
  for (const [k, el] of Object.entries(refs)) if (k in setupState && isRef(setupState[k])) setupState[k].value = el;
  if (options.mounted) call(() => options.mounted.call(proxy));
  inst.hooks.mounted.forEach(call);
  inst.unmount = () => {
    if (options.beforeUnmount) call(() => options.beforeUnmount.call(proxy));
    inst.hooks.beforeUnmount.forEach(call);
    watchers = watchers.filter((w) => w.owner !== inst);
    if (options.unmounted) call(() => options.unmounted.call(proxy));
    inst.hooks.unmounted.forEach(call);
  };
  inst.set = (k, v) => { proxy[k] = v; };
  return inst;
}
let currentStore = null;
export const activeStore = () => currentStore;
