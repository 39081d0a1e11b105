// C02: the settings and the map's legend are what the user chose, on the screen
// and after the page is loaded again.
import { init, finish, each, check, same, sequences, setGroup, bound, thorough, state, transition } from './mc.mjs';
import { World } from './world.mjs';

init();
const T = thorough();
const show = (x) => JSON.stringify(x);
const osChange = (w) => {
  w.osDark = !w.osDark;
  for (const mq of w.media) for (const h of mq.l.slice()) h({ matches: mq.matches, media: mq.media });
};

async function settings() {
  setGroup('settings');
  const n = T ? 6 : 5;
  bound('settings', `all sequences of ${n} choices of mode and colour, changes of the system's mode and reloads, from both modes of the system`);
  for (const osDark of [false, true]) for (const seq of sequences(7, 1, n)) {
    await each(`settings ${osDark} ${seq}`, async (choose, note) => {
      const w = new World();
      w.osDark = osDark;
      let panel;
      const load = async () => {
        w.store.dispatch('settings/loadSettings');
        await w.settle();
        panel = w.mount(w.m.MenuSettings).proxy;
        await w.settle();
      };
      await load();
      let mode = 'os', color;
      const fresh = w.store.state.settings.primaryColor;
      const verify = () => {
        const s = w.store.state.settings, t = w.store.$vuetify.theme;
        const theme = mode === 'os' ? (w.osDark ? 'dark' : 'light') : mode;
        check(s.darkLightModePreference === mode, 'mode', () => `${s.darkLightModePreference} instead of ${mode}`);
        check(s.theme === theme && t.global.name.value === theme, 'theme', () => `${s.theme}, shown ${t.global.name.value}, instead of ${theme}`);
        const c = color ?? fresh;
        check(s.primaryColor === c, 'colour', () => `${s.primaryColor} instead of ${c}`);
        for (const k of ['light', 'dark']) check(t.themes.value[k].colors.primary === c, 'colour of a theme', () => `${k}: ${t.themes.value[k].colors.primary} instead of ${c}`);
        check(panel.colorSelection === c, 'colour that is offered', () => `${panel.colorSelection} instead of ${c}`);
        state(show([s, w.osDark, mode, color]));
      };
      verify();
      const acts = [
        ['dark', () => { mode = 'dark'; panel.setDarkLightModePreference('dark'); }],
        ['light', () => { mode = 'light'; panel.setDarkLightModePreference('light'); }],
        ['os', () => { mode = 'os'; panel.setDarkLightModePreference('os'); }],
        ['system', () => osChange(w)],
        ['red', () => { color = '#f00'; panel.onUpdateColorSelection('#f00'); }],
        ['blue', () => { color = '#00f'; panel.onUpdateColorSelection('#00f'); }],
        ['reload', async () => { w.load(); await load(); }]
      ];
      for (const a of seq) {
        note(acts[a][0]);
        transition();
        await acts[a][1]();
        await w.settle();
        verify();
      }
    });
  }
}

// is an element with this direction let through by the filter?
function passes(f, rising) {
  const ev = (e) => {
    if (!Array.isArray(e)) return e;
    switch (e[0]) {
      case 'get': return e[1] === 'rising' ? rising : undefined;
      case '!': return !ev(e[1]);
      case 'boolean': return e.slice(1).map(ev).find((x) => typeof x === 'boolean');
      case 'all': return e.slice(1).every(ev);
      case 'any': return e.slice(1).some(ev);
      case '==': return ev(e[1]) === ev(e[2]);
      case '!=': return ev(e[1]) !== ev(e[2]);
      case 'literal': return e[1];
      default: throw new Error('filter ' + e[0]);
    }
  };
  return f === undefined || f === null || ev(f) === true;
}

async function legend() {
  setGroup('legend');
  const n = T ? 6 : 5;
  bound('legend', `all sequences of ${n} switches of the legend's entries, resets, reloads, new maps, second tabs, changes of the theme and of the highlighted routes (these in sequences of up to ${n - 1})`);
  const keys = ['station', 'bumper', 'hlt', 'Rising', 'Falling'];
  for (const seq of sequences(12, 1, n)) {
    if (seq.slice(0, -1).some((x, i) => x === seq[i + 1] && x >= 6 && x < 8)) continue;
    if (seq.length === n && seq.some((x) => x >= 8 && x < 11)) continue;
    await each(`legend ${seq}`, async (choose, note) => {
      const w = new World();
      let tab, mode;
      const tabs = {};
      const initial = () => new Set(['station', 'hlt', 'ms', 'as', 'eotd', 'Rising', 'Falling']);
      const open = async (key) => {
        tab = key;
        tabs[key] ??= initial();
        const c = w.mount(w.m.InfrastructureMap, { refs: { map: {} }, provided: { goldenLayoutKeyInjection: key } });
        // what the legend gets and what it tells
        c.legend = w.mount(w.m.Legend, { props: { checkedControls: c.proxy.checkedControls }, emit: (e, ...a) => {
          if (e === 'change') c.proxy.onLegendControlChanged(...a);
          if (e === 'reset') c.proxy.resetLegend();
        } });
        w.cur = c;
        await w.settle();
        if (w.m.maplibre.maps.length) await ready();
      };
      const ready = async () => {
        const m = w.m.maplibre.maps.at(-1);
        if (m.loaded_) return;
        verify(m);
        m.loaded_ = true;
        m.fire('load', { target: m });
        await w.settle();
        for (const [, cb] of m.loads.splice(0)) cb(null, {});
        await w.settle();
        await w.answerAll();
      };
      const select = async (i) => {
        w.store.dispatch('sidebar/loadInfrastructure', i);
        await w.settle();
        await w.answerAll();
      };
      const verify = (before) => {
        const set = tabs[tab], got = w.cur.proxy.checkedControls;
        check(new Set(got).size === got.length && same([...got].sort(), [...set].sort()), 'entries of the legend', () => `${got} instead of ${[...set]}`);
        const m = before ?? w.m.maplibre.maps.at(-1);
        if (!m) return;
        for (const t of w.m.ElementTypes) {
          for (const layer of t === 'station' ? [t + '-layer'] : [t + '-layer', 'circle-' + t + '-layer']) {
            const def = m.style.layers.find((l) => l.id === layer);
            const vis = m.layout[layer] ?? def.layout.visibility;
            check((vis === 'visible') === set.has(t), 'layer', () => `${layer} is ${vis}`);
            if (t === 'station') continue;
            for (const rising of [true, false])
              check(passes(layer in m.filters ? m.filters[layer] : def.filter, rising) === set.has(rising ? 'Rising' : 'Falling'), 'direction', () => `${layer}: ${show(m.filters[layer])} with ${[...set]}`);
          }
        }
        // the routes that are highlighted are still there
        const drawn = (before ?? m).loaded_ ? ['station-routes', 'interlocking-routes'].map((k) => m.sources[k].shown.features) : null;
        const hl = w.store.state.sidebar;
        if (drawn) check(same(drawn, [hl.highlightedStationRoutes, hl.highlightedInterlockingRoutes]), 'routes on the map', () => `${show(drawn)} instead of ${show([hl.highlightedStationRoutes, hl.highlightedInterlockingRoutes])}`);
        state(show([tab, got, w.store.state.settings.theme, (drawn ?? []).map((x) => x.length)]));
      };
      await select('A');
      await open('glc_0');
      verify();
      const toggle = (k) => () => {
        const set = tabs[tab], on = !set.has(k);
        if (on) set.add(k); else set.delete(k);
        w.cur.legend.proxy.emitChange({ target: { value: k, checked: on } });
      };
      w.store.dispatch('settings/loadSettings');
      await w.settle();
      const route = (kind, id) => async () => {
        const k = kind === 'Station' ? 'highlightedStationRoutes' : 'highlightedInterlockingRoutes';
        const on = w.store.state.sidebar[k].some((r) => r.properties.id === id);
        w.store.dispatch(`sidebar/${on ? 'delete' : 'add'}Highlighted${kind}Route`, id);
        await w.settle();
        await w.answerAll();
      };
      const acts = [...keys.map((k) => ['~' + k, toggle(k)]),
        ['reset', () => { tabs[tab] = initial(); w.cur.legend.proxy.$emit('reset'); }],
        ['reload', async () => { w.load(); await select('A'); await open(tab); }],
        ['other tab', async () => { w.cur.unmount(); await open(tab === 'glc_0' ? 'glc_1' : 'glc_0'); }],
        ['theme', () => w.store.dispatch('settings/setDarkLightModePreference', w.store.state.settings.theme === 'dark' ? 'light' : 'dark')],
        ['~station route', route('Station', 1)], ['~interlocking route', route('Interlocking', 1)],
        ['new map', async () => { await select(w.store.state.sidebar.currentInfrastructure === 'A' ? 'B' : 'A'); await ready(); }]];
      for (const a of seq) {
        note(acts[a][0]);
        transition();
        await acts[a][1]();
        await w.settle();
        verify();
      }
    });
  }
}

await settings();
await legend();
finish();
