// C03: every tab has a component of its own, of its kind, and the tabs are there
// again when the page is loaded again.
import { init, finish, each, check, same, sequences, setGroup, bound, thorough, state, transition } from './mc.mjs';
import { World } from './world.mjs';

init();
const T = thorough();
const show = (x) => JSON.stringify(x);

class Page {
  constructor() { this.w = new World(); this.model = ['InfrastructureComponent']; }
  async load() {
    const { w } = this;
    const stubs = new Map();
    const page = this;
    const refs = new Proxy({ GLRoot: { offsetWidth: 100, offsetHeight: 50, getBoundingClientRect: () => ({ left: 0, top: 0 }) } }, {
      // the elements of the components, as the template makes them
      get(t, k) {
        if (typeof k !== 'string' || !k.startsWith('glc_')) return t[k];
        const id = Number(k.slice(4));
        if (!page.components().has(id)) return undefined;
        if (!stubs.has(id)) stubs.set(id, { id, pos: null, visible: null, setPosAndSize(...a) { this.pos = a; }, setVisibility(v) { this.visible = v; }, setZIndex(z) { this.z = z; } });
        return [stubs.get(id)];
      }
    });
    this.adapter = w.mount(w.m.Adapter, { refs });
    this.app = w.mount(w.m.App, { refs: { GLayoutRoot: this.adapter.exposed } });
    await w.settle();
    await w.answerAll();
    this.menu = w.mount(w.m.Menu).proxy;
    this.layout = w.m.goldenlayout.layouts.at(-1);
  }
  components() {
    const m = Object.values(Object.getOwnPropertyDescriptors(this.adapter.setupState)).map((d) => d.value ?? d.get?.()).find((v) => this.w.m.vue.isRef(v) && v.value instanceof Map);
    return m.value;
  }
  async verify() {
    const tabs = this.layout.tabs, comps = this.components();
    check(same(tabs.map((t) => t.config.componentType), this.model), 'tabs', () => `${show(tabs.map((t) => t.config.componentType))} instead of ${show(this.model)}`);
    const ids = tabs.map((t) => t.config.componentState.refId);
    check(new Set(ids).size === ids.length, 'component of two tabs', () => show(ids));
    check(same([...comps.keys()].sort(), [...ids].sort()), 'components', () => `${[...comps.keys()]} for tabs ${ids}`);
    for (const [i, t] of tabs.entries()) {
      const c = comps.get(ids[i]);
      const kind = (await c.glc.async()).default.async;
      check(kind === `./components/${this.model[i]}.vue`, 'kind of component', () => `${kind} instead of ${this.model[i]}`);
      check(c.container === t && t.bound?.component?.id === ids[i] && t.bound.virtual === true, 'binding', () => `tab ${i} with component ${ids[i]}`);
      // the window manager moves and hides it
      this.layout.beforeVirtualRectingEvent?.(1);
      t.virtualRectingRequiredEvent(t, 10 + i, 20 + i);
      t.virtualVisibilityChangeRequiredEvent(t, i % 2 === 0);
      check(same(t.bound.component.pos, [0, 0, 10 + i, 20 + i]) && t.bound.component.visible === (i % 2 === 0), 'place', () => show(t.bound.component));
    }
    state(show([ids, this.model]));
  }
}

setGroup('tabs');
const n = T ? 6 : 5;
bound('tabs', `all sequences of ${n} openings of two kinds of tabs, closings of the first, second and last tab, moves of the last tab to the front and reloads, at once or one after the other`);
const kinds = [['INFRASTRUCTURE', 'InfrastructureComponent'], ['ORDERING_GRAPH', 'OrderingGraphComponent']];
for (const seq of sequences(7, 1, n)) {
  await each(`tabs ${seq}`, async (choose, note) => {
    const p = new Page();
    await p.load();
    await p.verify();
    const close = (i) => { if (i >= 0 && i < p.layout.tabs.length) { p.model.splice(i, 1); p.layout.close(i); } };
    const open = (k) => { p.model.push(kinds[k][1]); p.menu.addTab(kinds[k][0]); };
    const acts = [['infrastructure', () => open(0)], ['graph', () => open(1)], ['close 1', () => close(0)], ['close 2', () => close(1)], ['close last', () => close(p.layout.tabs.length - 1)],
      ['to the front', () => { if (p.model.length > 1) { p.model.unshift(p.model.pop()); p.layout.tabs.unshift(p.layout.tabs.pop()); p.layout.changed(); } }],
      ['reload', async () => {
        p.w.load();
        await p.load();
      }]];
    let burst = false;
    for (let i = 0; i < seq.length; i++) {
      const a = seq[i];
      note(acts[a][0]);
      transition();
      await acts[a][1]();
      // two tabs that are opened at once
      burst = a < 2 && seq[i + 1] < 2 && seq.length <= n - 1 && choose(2, (c) => (c ? '&' : ';')) === 1;
      if (burst) continue;
      await p.w.settle();
      await p.verify();
    }
    // the page is loaded again
    p.w.load();
    await p.load();
    await p.verify();
  });
}
finish();
