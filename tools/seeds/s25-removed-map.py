PROPERTY = "C01"
CLIENT = True
NEEDS = "the infrastructure is deselected, and something is highlighted, searched for or chosen that concerns the map before another one is selected"
BREAKS = "a map that was removed because no infrastructure is selected any more is still used"
EDITS = {"web/client/src/components/infrastructure/infrastructure-map.vue": [("""        this.libreGLMap.remove();
        this.libreGLMap = undefined;
""", """        this.libreGLMap.remove();
""")]}
DEMO = r'''import { World } from './world.mjs';
const w = new World();
w.menu = w.mount(w.m.Menu).proxy;
w.store.dispatch('sidebar/initialLoad');
await w.settle();
await w.answerAll();
w.menu.loadInfrastructure('A');
await w.settle();
w.mount(w.m.InfrastructureMap, { refs: { map: {} }, provided: { goldenLayoutKeyInjection: 'glc_0' } });
await w.settle();
await w.answerAll();
const map = w.m.maplibre.maps.at(-1);
w.menu.loadInfrastructure(undefined);
await w.settle();
w.store.commit('sidebar/setCurrentBoundingBox', [0, 0, 1, 1]);
await w.settle();
if (!map.removed || map.bounds.length > 0) {
  console.log('a removed map is moved', map.bounds);
  process.exit(1);
}
process.exit(0);
'''
