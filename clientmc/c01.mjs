// C01: what the client shows belongs to what is selected, in whatever order
// the answers of the server arrive.
import { init, finish, each, check, same, sequences, setGroup, bound, thorough, state } from './mc.mjs';
import { World, interleave, data, box, route } from './world.mjs';

init();
const S = (w) => w.store.state.sidebar;
const show = (x) => JSON.stringify(x);
const T = thorough();

async function start() {
  const w = new World();
  w.menu = w.mount(w.m.Menu).proxy;
  w.store.dispatch('sidebar/initialLoad');
  await w.settle();
  await w.answerAll();
  return w;
}
const pick = (w, i) => [`infrastructure ${i}`, () => i === undefined || S(w).infrastructures.includes(i), () => {
  if (S(w).currentInfrastructure !== i) w.era = (w.era ?? 0) + 1;
  w.menu.loadInfrastructure(i);
}];
const settled = (w) => state(show(S(w)));

// infrastructures and timetables that are selected, and the time range
async function selection() {
  setGroup('selection');
  const n = T ? 5 : 4;
  bound('selection', `all sequences of ${n} selections, all orders of answers, up to one of them failed`);
  for (const seq of sequences(6, 1, n)) {
    await each(`selection ${seq}`, async (choose, note) => {
      const w = await start();
      let range;  // the ranges that may be shown
      const tt = (k) => [`timetable ${k}`, () => !!S(w).currentInfrastructure && S(w).timetables.length > k, () => {
        const t = S(w).timetables[k];
        check(t[0] === S(w).currentInfrastructure, 'timetable of another infrastructure', () => `${t} is offered for ${S(w).currentInfrastructure}`);
        w.menu.loadTimetable(t);
        w.wantRange = [t];
      }];
      const all = [
        pick(w, 'A'), pick(w, 'B'), tt(0), tt(1),
        ['no timetable', () => !!S(w).currentInfrastructure, () => { w.menu.loadTimetable(undefined); w.wantRange = []; }],
        ['time range', () => !!S(w).currentTimetable, () => { w.menu.setCurrentDateRange([7, 9]); w.wantRange = [...(w.pending.some((p) => route(p.path)?.[0] === 'timetable') ? w.wantRange : []), 'manual']; }],
      ];
      let last;
      const wrap = ([nm, en, run], i) => [nm, en, () => {
        if (i < 2) { if (last !== 'AB'[i]) w.wantRange = []; last = 'AB'[i]; w.current = undefined; w.wantRange = []; }
        run();
        if (i === 2 || i === 3) w.current = S(w).currentInfrastructure + (i - 1);
        if (i === 4) w.current = undefined;
      }];
      const bad = await interleave(w, choose, note, seq.map((i) => wrap(all[i], i)), { faults: 1, after: () => {
        const s = S(w);
        check(s.currentInfrastructure === last, 'infrastructure', () => `${s.currentInfrastructure} instead of ${last}`);
        check(s.currentTimetable === w.current, 'timetable', () => `${s.currentTimetable} instead of ${w.current}`);
        settled(w);
      } });
      const s = S(w);
      if (last !== undefined) {
        const want = data.timetables(last).timetables;
        check(same(s.timetables, want) || (bad && same(s.timetables, [])), 'timetables', () => `${show(s.timetables)} for ${last}`);
      }
      if (s.currentTimetable !== undefined && !bad) {
        const ok = (w.wantRange ?? []).map((t) => {
          if (t === 'manual') return [7, 9];
          const iv = data.timetable(t[0], t).timetable.interval;
          return [iv.start, iv.end];
        });
        check(ok.some((r) => same(r, s.currentDateRange)), 'time range', () => `${show(s.currentDateRange)} for ${s.currentTimetable}, not one of ${show(ok)}`);
      }
    });
  }
}

// routes that are switched on and off
async function highlights() {
  setGroup('routes');
  const n = T ? 5 : 4;
  bound('routes', `all sequences of ${n} switches of three routes and of the infrastructure, all orders of answers; in shorter ones up to one of them failed`);
  for (const seq of sequences(8, 1, n)) {
    await each(`routes ${seq}`, async (choose, note) => {
      const w = await start();
      const station = w.mount(w.m.Station);
      w.menu.loadInfrastructure('A');
      await w.settle();
      await w.answerAll();
      let infra = 'A';
      const on = { sr1: 0, sr2: 0, ir1: 0 };  // 1: on, 0: off, ?: unknown
      const failed = new Set();
      const sw = (key, add, id, what) => [`${add ? '+' : '-'}${key}`, () => true, () => {
        on[key] = add ? 1 : 0;
        if (add) station.proxy[`addHighlighted${what}Route`](id)?.catch?.(() => {});
        else station.proxy[`deleteHighlighted${what}Route`](id);
      }];
      const go = (i) => [`infrastructure ${i}`, () => i !== infra, () => {
        infra = i;
        for (const x in on) on[x] = w.seen?.has(i) ? on[x] && '?' : 0;
        for (const x in on) if (w.old?.has(i + x)) on[x] = '?';
        w.menu.loadInfrastructure(i);
      }];
      // routes asked for in an infrastructure that was left and chosen again may appear
      w.old = new Set();
      const mark = ([nm, en, run]) => [nm, en, () => { for (const x in on) if (on[x]) w.old.add(infra + x); run(); }];
      const all = [sw('sr1', true, 1, 'Station'), sw('sr1', false, 1, 'Station'), sw('sr2', true, 2, 'Station'), sw('sr2', false, 2, 'Station'),
        sw('ir1', true, 1, 'Interlocking'), sw('ir1', false, 1, 'Interlocking'), mark(go('A')), mark(go('B'))];
      const bad = await interleave(w, choose, note, seq.map((i) => all[i]), { faults: seq.length < n ? 1 : 0, after: () => settled(w) });
      const s = S(w);
      const lon = infra === 'A' ? 1 : 2;
      for (const [key, list, id] of [['sr1', s.highlightedStationRoutes, 1], ['sr2', s.highlightedStationRoutes, 2], ['ir1', s.highlightedInterlockingRoutes, 1]]) {
        const f = list.filter((x) => x.properties.id === id);
        for (const x of f)
          check(x.geometry.coordinates.every((c) => c[0] === lon) && x.geometry.coordinates[0][1] === id, 'route of another infrastructure', () => `${key}: ${show(x)} with ${infra} selected`);
        if (on[key] === 0) check(f.length === 0, 'route is shown that is switched off', () => `${key}: ${show(f)}`);
        if (on[key] === 1 && !bad) check(f.length > 0, 'route is not shown', key);
      }
      station.unmount();
    });
  }
}

// the ordering graph
async function ordering() {
  setGroup('ordering graph');
  const n = T ? 4 : 3;
  bound('ordering graph', `all sequences of ${n} changes of time range, train filter and timetable, all orders of answers; in shorter ones up to one of them failed`);
  for (const early of [0, 1]) for (const seq of sequences(6, 1, n)) {
    await each(`ordering ${early} ${seq}`, async (choose, note) => {
      const w = await start();
      const mount = () => { w.og = w.mount(w.m.OrderingGraph, { refs: { graph: {}, container: {} } }); };
      if (early) mount();
      w.menu.loadInfrastructure('A');
      await w.settle();
      await w.answerAll();
      w.menu.loadTimetable('A1');
      await w.settle();
      if (!early) await w.answerAll();
      if (!early) mount();
      const all = [
        ['time 1', () => !!S(w).currentTimetable, () => w.menu.setCurrentDateRange([1, 2])],
        ['time 2', () => !!S(w).currentTimetable, () => w.menu.setCurrentDateRange([3, 4])],
        ['trains 1', () => true, () => w.menu.setTrainIdsFilter([1])],
        ['trains 1,2', () => true, () => w.menu.setTrainIdsFilter([1, 2])],
        ['timetable A2', () => S(w).timetables.includes('A2'), () => w.menu.loadTimetable('A2')],
        ['infrastructure B, timetable B1', () => S(w).currentInfrastructure === 'A', async () => {
          w.menu.loadInfrastructure('B');
          await w.settle();
          const i = w.pending.findIndex((p) => p.path.endsWith('/timetables'));
          w.answer(i);
          await w.settle();
          w.menu.loadTimetable('B1');
        }]
      ];
      const live = () => w.m.sigma.sigmas.filter((x) => !x.killed);
      const bad = await interleave(w, choose, note, seq.map((i) => all[i]), { faults: seq.length < n ? 1 : 0, after: () => {
        check(live().length <= 1, 'graphs', () => `${live().length} graphs are drawn over each other`);
      } });
      const s = S(w);
      if (!s.currentDateRange) return;
      const of = `${s.currentTimetable}/${s.currentDateRange[0]}-${s.currentDateRange[1]}/${s.trainIdsFilter}`;
      const g = w.og.proxy.graph;
      const seen = new Set();
      g.forEachNode((k, a) => seen.add(a.of));
      state(show([of, [...seen], bad]));
      if (bad) check(seen.size === 0 || (seen.size === 1), 'mixed graph', () => `${[...seen]}`);
      else {
        check(seen.size === 1 && seen.has(of) && g.order === 3 && g.size === 1, 'graph', () => `${[...seen]} (${g.order} nodes, ${g.size} edges) instead of ${of}`);
        check(live().length === 1 && live()[0].graph === g, 'drawn graph', () => `${live().length} graphs drawn`);
        g.forEachNode((k, a) => check(a.x === a.offset * 2000 && a.y === a.relativeTrainId * -2000 && a.type === 'fast', 'place of a node', () => show(a)));
        // clicks on a node switch its route on and off
        live()[0].fire('clickNode', { node: '1' });
        await w.settle();
        await w.answerAll();
        check(S(w).highlightedInterlockingRoutes.some((f) => f.properties.id === 1), 'click', () => 'the route of a node that was clicked is not shown');
        live()[0].fire('rightClickNode', { node: '1' });
        await w.settle();
        check(S(w).highlightedInterlockingRoutes.length === 0, 'click', () => 'the route of a node is still shown');
      }
    });
  }
}

// the search
async function search() {
  setGroup('search');
  const n = T ? 5 : 4;
  const texts = ['ab', 'abc', 'abcd', 'x_-9', ''];
  bound('search', `all sequences of ${n} changes of the text and the infrastructure, all orders of answers; in shorter ones up to one of them failed`);
  for (const seq of sequences(texts.length + 2, 1, n)) {
    await each(`search ${seq}`, async (choose, note) => {
      const w = await start();
      const c = w.mount(w.m.ExtendedSearch);
      w.menu.loadInfrastructure('A');
      await w.settle();
      await w.answerAll();
      let infra = 'A', text = '', stale = false;
      const all = [...texts.map((t) => [`"${t}"`, () => true, () => { if (text !== t) stale = false; text = t; c.set('currentQuery', t); }]),
        ['infrastructure A', () => infra !== 'A', () => { infra = 'A'; stale = true; w.menu.loadInfrastructure('A'); }],
        ['infrastructure B', () => infra !== 'B', () => { infra = 'B'; stale = true; w.menu.loadInfrastructure('B'); }]];
      const bad = await interleave(w, choose, note, seq.map((i) => all[i]), { faults: seq.length < n ? 1 : 0, after: () => settled(w) });
      const r = S(w).currentSearchResults;
      const want = data.search(infra, text);
      check(same(r, want) || ((bad || stale) && same(r, [])), 'search results', () => `${show(r)} for "${text}" in ${infra}`);
      if (r.length) {
        await c.proxy.pickFirstResult();
        check(same(S(w).currentBoundingBox, r[0].boundingBox), 'first result', () => show(S(w).currentBoundingBox));
      }
    });
  }
}

// the station
async function station() {
  setGroup('station');
  const n = T ? 5 : 4;
  bound('station', `all sequences of ${n} selections of three stations and two infrastructures, all orders of answers; in shorter ones up to one of them failed`);
  for (const seq of sequences(6, 1, n)) {
    await each(`station ${seq}`, async (choose, note) => {
      const w = await start();
      let bar = w.mount(w.m.Sidebar), c = w.mount(w.m.Station);
      w.menu.loadInfrastructure('A');
      await w.settle();
      await w.answerAll();
      let infra = 'A', id;
      const st = (i) => [`station ${i}`, () => id !== i, () => {
        id = i;
        w.store.commit('setShowOverlay', false);
        w.store.commit('setSelectedOverlay', 'menu');
        w.store.commit('sidebar/setCurrentStation', i);
      }];
      const all = [st(0), st(1), st(2),
        ['infrastructure A', () => infra !== 'A', () => { infra = 'A'; id = undefined; w.menu.loadInfrastructure('A'); }],
        ['infrastructure B', () => infra !== 'B', () => { infra = 'B'; id = undefined; w.menu.loadInfrastructure('B'); }],
        ['sidebar closed and opened', () => true, async () => { c.unmount(); c = w.mount(w.m.Station); }]];
      let lastBad = false;
      const bad = await interleave(w, choose, note, seq.map((i) => all[i]), { faults: seq.length < n ? 1 : 0, after: () => {
        settled(w);
        if (id !== undefined) check(w.store.state.showOverlay === true && w.store.state.selectedOverlay === 'station', 'overlay', () => `station ${id} is not brought up`);
      } });
      const p = c.proxy;
      const got = { id: p.id, ds100: p.ds100, stationRoutes: p.stationRoutes, interlockingRouteIds: p.interlockingRouteIds };
      if (id === undefined) check(p.id === -1, 'station of another infrastructure', () => `${show(got)} with ${infra} selected`);
      else if (!bad) {
        const want = data.station(infra, id);
        check(same(got, want), 'station', () => `${show(got)} instead of ${show(want)}`);
      } else check(p.id === -1 || p.ds100[0] === infra, 'station of another infrastructure', () => show(got));
    });
  }
}

// the map
async function map() {
  setGroup('map');
  const n = T ? 5 : 4;
  bound('map', `all sequences of ${n} selections, loads of the map and its icons, with up to two (the longest: one) search results chosen, changes of the theme and routes highlighted, all orders of answers, up to one of them failed`);
  for (const seq of sequences(8, 1, n)) {
    if (seq.filter((x) => x >= 4 && x < 7).length > (T ? 2 : seq.length < n ? 2 : 1)) continue;
    await each(`map ${seq}`, async (choose, note) => {
      const w = await start();
      const c = w.mount(w.m.InfrastructureMap, { refs: { map: { id: 'map' } }, provided: { goldenLayoutKeyInjection: 'glc_0' } });
      const maps = () => w.m.maplibre.maps;
      const live = () => maps().filter((x) => !x.removed);
      const infra_ = () => S(w).currentInfrastructure;
      let place;  // of the result chosen last
      const finishIcons = (m) => { const l = m.loads.splice(0); for (const [u, cb] of l) cb(null, { u }); };
      const all = [pick(w, 'A'), pick(w, 'B'), ['no infrastructure', () => true, () => w.menu.loadInfrastructure(undefined)],
        ['map loads', () => live().length > 0 && !live()[0].loaded_, () => { const m = live()[0]; m.loaded_ = true; m.fire('load', { target: m }); }],
        ['search result', () => true, () => { place = ['result', infra_()]; w.store.commit('sidebar/setCurrentBoundingBox', place); w.moved = live()[0]; }],
        ['theme', () => live().length > 0, () => { w.store.dispatch('settings/setDarkLightModePreference', w.store.state.settings.theme === 'dark' ? 'light' : 'dark'); }],
        ['route', () => !!infra_(), () => { w.store.dispatch('sidebar/addHighlightedInterlockingRoute', 1).catch(() => {}); }],
        ['icons load', () => maps().some((m) => m.loads.length), () => { const m = maps().find((m) => m.loads.length); finishIcons(m); }]];
      const bad = await interleave(w, choose, note, seq.map((i) => all[i]), { faults: 1, after: () => {
        const i = S(w).currentInfrastructure;
        if (w.moved) check(same(w.moved.bounds.at(-1), place), 'view', () => `${show(w.moved.bounds)} after ${show(place)} was chosen`);
        w.moved = undefined;
        check(live().length === (i ? 1 : 0), 'maps', () => `${live().length} maps for ${i}`);
        for (const m of maps()) {
          check(m.misuse.length === 0, 'use of a removed map', () => show(m.misuse));
          if (!m.removed && m.loaded_ && !m.loads.length) for (const [k, x] of [['station-routes', S(w).highlightedStationRoutes], ['interlocking-routes', S(w).highlightedInterlockingRoutes]])
            check(same(m.sources[k].shown.features, x), 'routes on the map', () => `${show(m.sources[k].shown.features)} instead of ${show(x)}`);
          const url = (p, t) => m.options.transformRequest(p, t).url;
          const of = url('/tiles/1/2/3.mvt', 'Tile');
          if (!m.removed) check(of === `http://server/infrastructure/${i}/tiles/1/2/3.mvt`, 'tiles', () => `${of} for ${i}`);
          check(url('/icons/a.png', 'Image') === 'http://server/icons/a.png' && url('/font/x', 'Glyphs') === 'http://server/font/x', 'urls', 'icons');
          for (const b of m.bounds) check(of === `http://server/infrastructure/${b[1]}/tiles/1/2/3.mvt`, 'view', () => `the map of ${of} goes to the box ${b}`);
        }
        state(show(maps().map((m) => [m.removed, m.bounds, m.loads.length])));
      } });
      // let the current map come to its end
      for (const m of live()) if (!m.loaded_) { m.loaded_ = true; m.fire('load', { target: m }); }
      await w.settle();
      for (const m of maps()) finishIcons(m);
      await w.settle();
      await w.answerAll();
      const i = S(w).currentInfrastructure;
      if (i && !bad) check(live()[0].bounds.length > 0, 'view', () => `the map of ${i} is not at its place`);
      for (const m of maps()) for (const b of m.bounds) check(m.removed || same(b, box(i)) || same(b, ['result', i]), 'view', () => `the map of ${i} goes to ${b}`);
    });
  }
}

for (const f of [selection, highlights, ordering, search, station, map]) await f();
finish();
