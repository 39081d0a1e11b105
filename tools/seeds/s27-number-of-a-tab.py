PROPERTY = "C03"
CLIENT = True
NEEDS = "several tabs restored from a stored layout, and a further one opened"
BREAKS = "a new tab gets the number of a restored one, both share a component"
EDITS = {"web/client/src/golden-layout/golden-layout-adapter.vue": [("""        while (AllComponents.value.has(CurIndex)) {
            CurIndex++; 
        }

        index = CurIndex;
""", """        index = CurIndex++;
""")]}
DEMO = r'''import { World } from './world.mjs';
const w = new World();
async function load() {
  const refs = new Proxy({ GLRoot: { offsetWidth: 100, offsetHeight: 50, getBoundingClientRect: () => ({ left: 0, top: 0 }) } }, {
    get: (t, k) => (typeof k === 'string' && k.startsWith('glc_') ? [{ setPosAndSize() {}, setVisibility() {}, setZIndex() {} }] : t[k])
  });
  const adapter = w.mount(w.m.Adapter, { refs });
  w.mount(w.m.App, { refs: { GLayoutRoot: adapter.exposed } });
  await w.settle();
  await w.answerAll();
  w.menu = w.mount(w.m.Menu).proxy;
}
await load();
for (let i = 0; i < 3; i++) {
  w.menu.addTab('INFRASTRUCTURE');
  await w.settle();
}
w.load();
await load();
for (let i = 0; i < 2; i++) {
  w.menu.addTab('ORDERING_GRAPH');
  await w.settle();
}
const ids = w.m.goldenlayout.layouts.at(-1).tabs.map((t) => t.config.componentState.refId);
console.log(ids);
process.exit(ids.length === 6 && new Set(ids).size === 6 ? 0 : 1);
'''
