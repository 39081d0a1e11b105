// A stand-in for the window manager: the tabs as a list; binding and unbinding
// of their components as golden-layout does it.
export const layouts = [];
class Container { constructor(c) { this.config = c; this.element = { getBoundingClientRect: () => ({ left: 0, top: 0 }) }; } }
export class VirtualLayout {
  constructor(root, bind, unbind) { this.root = root; this.bind = bind; this.unbind = unbind; this.tabs = []; this.handlers = {}; layouts.push(this); }
  on(e, h) { (this.handlers[e] ??= []).push(h); }
  // golden-layout tells of changes in the next animation frame
  changed() { this.dirty = true; }
  frame() { if (this.dirty) { this.dirty = false; this.tell(); } }
  tell() { for (const h of this.handlers.stateChanged ?? []) h(); }
  open(type, state, title) {
    const c = new Container({ type: 'component', componentType: type, componentState: JSON.parse(JSON.stringify(state ?? {})), title });
    this.tabs.push(c);
    c.bound = this.bind(c, c.config);
    return c;
  }
  addComponent(type, state, title) { const c = this.open(type, state, title); this.changed(); return c; }
  newComponent(type, state, title) { return this.addComponent(type, state, title); }
  close(i) { const [c] = this.tabs.splice(i, 1); this.unbind(c); this.changed(); }
  clear() { while (this.tabs.length) this.unbind(this.tabs.shift()); this.changed(); }
  loadLayout(cfg) {
    this.clear();
    const walk = (item) => {
      if (item.type === 'component') this.open(item.componentType, item.componentState, item.title);
      else (item.content ?? []).forEach(walk);
    };
    if (cfg.root) walk(cfg.root);
    this.changed();
  }
  saveLayout() {
    return JSON.parse(JSON.stringify({
      resolved: true,
      root: this.tabs.length ? { type: 'row', content: [{ type: 'stack', content: this.tabs.map((c) => c.config) }] } : undefined
    }));
  }
  setSize() {}
}
export const LayoutConfig = {
  isResolved: (c) => c.resolved === true,
  fromResolved: (c) => { const d = JSON.parse(JSON.stringify(c)); delete d.resolved; return d; }
};
export const ResolvedLayoutConfig = {};
