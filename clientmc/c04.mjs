// C04: what the client asks for is what the server serves, an answer that is no
// result is an error, and the controls give what was entered.
import { init, finish, each, check, same, sequences, setGroup, bound, thorough, state, transition, Failure } from './mc.mjs';
import { World, route } from './world.mjs';

init();
const T = thorough();
const show = (x) => JSON.stringify(x);

async function requests() {
  setGroup('requests');
  bound('requests', 'every request of the client for names and numbers of every kind');
  const names = ['A', 'b_2', 'long-Name_0'], ids = [0, 1, 4294967295], filters = [[], [0], [3, 10, 7]];
  const cases = [['infrastructures', (c) => c.infrastructures(), ['infrastructures']]];
  for (const i of names) {
    const at = (c) => c.infrastructure(i);
    for (const [m, k] of [['boundingBox', 'bounding_box'], ['stations', 'stations'], ['timetables', 'timetables']])
      cases.push([`${m} ${i}`, (c) => at(c)[m](), [k, i]]);
    for (const [m, k] of [['station', 'station'], ['stationRoute', 'station_route'], ['interlockingRoute', 'interlocking_route'], ['element', 'element']])
      for (const id of ids) cases.push([`${m} ${i} ${id}`, (c) => at(c)[m](id), [k, i, String(id)]]);
    for (const t of names) {
      cases.push([`timetable ${i} ${t}`, (c) => at(c).timetable(t).get(), ['timetable', i, t]]);
      for (const [from, to] of [[0, 0], [1000, 2000], [4102444800, 4102448400]]) for (const f of filters)
        cases.push([`ordering ${i} ${t} ${from} ${to} ${f}`, (c) => at(c).timetable(t).ordering(from, to, f), ['ordering', i, t, String(from), String(to), f.join(',')]]);
    }
  }
  for (const [desc, call, want] of cases) await each(desc, async () => {
    const w = new World();
    const r = call(new w.m.SoroClient('http://server'));
    r.catch?.(() => {});
    await w.settle();
    transition();
    check(w.pending.length === 1 && w.pending[0].method === 'GET', 'request', () => `${w.pending.length} requests`);
    state(w.pending[0].path);
    const got = route(w.pending[0].path);
    check(same(got, want), 'request', () => `${w.pending[0].path} instead of ${show(want)}`);
  });

  setGroup('search texts');
  const chars = ['a', ' ', '/', '#', '?', '%', '.', 'ü', '&'], len = T ? 4 : 3;
  bound('search texts', `all texts of up to ${len} characters over "${chars.join('')}"`);
  for (const seq of sequences(chars.length, 1, len)) {
    const q = seq.map((x) => chars[x]).join('');
    await each(`search ${show(q)}`, async () => {
      const w = new World();
      new w.m.SoroClient('http://server').infrastructure('A').search(q).catch(() => {});
      await w.settle();
      transition();
      // what a browser makes of the address
      const u = new URL('http://server' + w.pending[0].path);
      const seg = u.pathname.split('/');
      let text;
      try { text = decodeURIComponent(seg[4] ?? ''); } catch { text = null; }
      const dots = q === '.' || q === '..';
      if (!dots) check(seg.length === 5 && seg[3] === 'search' && text === q && !u.search && !u.hash, 'search text', () => `${q} is asked for as ${w.pending[0].path}`);
      state(q);
    });
  }
}

async function answers() {
  setGroup('answers');
  bound('answers', 'all kinds of answers for all methods, with and without contents');
  const jsons = ['{"a":1}', '[]', 'null', '""', '', '<html>', '{'];
  for (const method of ['get', 'post', 'put', 'delete']) for (const status of [200, 201, 204, 301, 304, 400, 401, 404, 500, 503, -1]) for (const text of jsons) {
    await each(`${method} ${status} ${text}`, async () => {
      const w = new World();
      const c = new w.m.HttpClient('http://server');
      const body = { x: [1, 'y'] };
      const p = method === 'get' || method === 'delete' ? c[method]('/e') : c[method]('/e', body);
      let got = 'pending';
      p.then((v) => { got = ['value', v]; }, (e) => { got = ['error', e instanceof Error]; });
      await w.settle();
      transition();
      const [r] = w.pending.splice(0);
      check(r.path === '/e' && r.method === method.toUpperCase(), 'request', () => `${r.method} ${r.path}`);
      if (method === 'post' || method === 'put') check(r.body === JSON.stringify(body), 'contents', () => String(r.body));
      else check(r.body === undefined, 'contents', () => String(r.body));
      let want = ['error', true];
      if (status < 0) r.reject(new Error('lost'));
      else {
        const ok = status >= 200 && status < 300;
        const res = { ok, status, statusText: 'S' + status, json: async () => JSON.parse(text), text: async () => text, clone() { return this; } };
        if (ok && status !== 204) try { want = ['value', JSON.parse(text)]; } catch { /* no JSON */ }
        r.resolve(res);
      }
      await w.settle();
      check(same(got, want), 'answer', () => `${show(got)} instead of ${show(want)}`);
      state(show([method, status, text]));
    });
  }
  setGroup('headers');
  const n = T ? 5 : 4;
  bound('headers', `all sequences of ${n} changes of headers and requests`);
  for (const seq of sequences(6, 1, n)) await each(`headers ${seq}`, async (choose, note) => {
    const w = new World();
    const c = new w.m.HttpClient('http://server');
    const want = {};
    const acts = [['a=1', () => { want.a = '1'; c.setHeader('a', '1'); }], ['a=2', () => { want.a = '2'; c.setHeader('a', '2'); }], ['b=3', () => { want.b = '3'; c.setHeader('b', '3'); }],
      ['user', () => { want.authorization = 'Basic ' + btoa('me:secret'); c.setBasicAuth('me', 'secret'); }],
      ['token', () => { want.authorization = 'Bearer t'; c.setBearerAuth('t'); }],
      ['get', () => { c.get('/e').catch(() => {}); }]];
    for (const a of seq) {
      note(acts[a][0]);
      transition();
      acts[a][1]();
      for (const [k, v] of Object.entries(want)) check(c.getHeader(k) === v, 'header', () => `${k}: ${c.getHeader(k)}`);
      if (a === 5) {
        await w.settle();
        const r = w.pending.splice(0)[0];
        const h = Object.fromEntries([...new Headers(r.headers)]);
        check(same(Object.entries(h).sort(), Object.entries(want).sort()), 'headers', () => `${show(h)} instead of ${show(want)}`);
      }
    }
    state(show(want));
  });
}

async function controls() {
  setGroup('train ids');
  const chars = ['0', '1', '7', ',', ' ', 'x', '-'], len = T ? 6 : 5;
  bound('train ids', `all texts of up to ${len} characters over "${chars.join('')}"`);
  for (const seq of sequences(chars.length, 0, len)) {
    const t = seq.map((x) => chars[x]).join('');
    await each(`ids ${show(t)}`, async () => {
      const w = new World();
      const out = [];
      const c = w.mount(w.m.IdInput, { props: { label: 'x' }, emit: (...a) => out.push(a) });
      c.set('trainIds', t);
      c.proxy.emitEnter();
      transition();
      const want = /^[0-9]+(,[0-9]+)*$/.test(t) ? [['enter', t.split(',').map(Number)]] : [];
      check(same(out, want), 'train ids', () => `${show(out)} for ${show(t)}`);
      const accepted = c.proxy.validationRules().every((r) => r(t) === true);
      check(accepted === (t === '' || want.length > 0), 'rule', () => `${show(t)} is ${accepted ? '' : 'not '}accepted`);
      state(t);
    });
  }
  setGroup('time range');
  const n = T ? 5 : 4;
  bound('time range', `all sequences of ${n} ranges from outside, from the user, complete or not`);
  const ts = [0, 1, 86399, 4102444800];
  for (const seq of sequences(7, 1, n)) await each(`range ${seq}`, async (choose, note) => {
    const w = new World();
    const out = [];
    const c = w.mount(w.m.DateTimeRange, { emit: (...a) => out.push(a) });
    let shown = [];
    const enter = (r) => { c.set('dateTimeRange', r); c.proxy.emitChange(); };
    const expect = (v) => { check(same(out.splice(0), v ? [['change', v]] : []), 'time range', () => `entered ${show(v)}`); };
    const acts = [
      ['outside 1', async () => { c.setProp('watchValue', [ts[1], ts[2]]); await w.settle(); expect(null); check(same(c.proxy.dateTimeRange.map((d) => d.getTime()), [1000, 86399000]), 'range that is shown', () => show(c.proxy.dateTimeRange)); c.proxy.emitChange(); expect([1, 86399]); }],
      ['outside 2', async () => { c.setProp('watchValue', [ts[0], ts[3]]); await w.settle(); expect(null); c.proxy.emitChange(); expect([0, 4102444800]); }],
      ['range', () => { enter([new Date(5000), new Date(7999)]); expect([5, 7]); }],
      ['same time', () => { enter([new Date(999), new Date(999)]); expect([0, 0]); }],
      ['nothing', () => { enter(null); expect(null); }],
      ['start', () => { enter([new Date(5000)]); expect(null); }],
      ['start only', () => { enter([new Date(5000), null]); expect(null); }]];
    for (const a of seq) {
      note(acts[a][0]);
      transition();
      await acts[a][1]();
      await w.settle();
    }
    state(String(seq));
  });
  setGroup('selects and switches');
  bound('selects and switches', `all sequences of ${n} choices and values from outside`);
  for (const seq of sequences(5, 1, n)) await each(`select ${seq}`, async (choose, note) => {
    const w = new World();
    const out = [];
    const c = w.mount(w.m.Select, { props: { label: 'x', options: ['a', 'b'] }, emit: (...a) => out.push(a) });
    let want;
    c.val = null;
    const acts = [['a', () => { want = 'a'; c.set('currentValue', 'a'); c.proxy.emitChange(); }], ['clear', () => { want = undefined; c.set('currentValue', undefined); c.proxy.emitChange(); }],
      ['value b', async () => { c.setProp('value', 'b'); await w.settle(); want = c.val === 'b' ? want : 'b'; c.val = 'b'; }], ['value a', async () => { c.setProp('value', 'a'); await w.settle(); want = c.val === 'a' ? want : 'a'; c.val = 'a'; }],
      ['value none', async () => { c.setProp('value', null); await w.settle(); if (c.val !== null) want = null; c.val = null; }]];
    for (const a of seq) {
      note(acts[a][0]);
      transition();
      await acts[a][1]();
      await w.settle();
      check(same(out.splice(0), a < 2 ? [['select', want]] : []), 'selection', () => acts[a][0]);
      check(c.proxy.currentValue === want, 'value', () => `${c.proxy.currentValue} instead of ${want}`);
    }
    const sw = [];
    for (const initially of [false, true]) {
      const s = w.mount(w.m.Switch, { props: { internalValue: 7, label: 'x', initiallyChecked: initially, onChecked: (v) => sw.push(['+', v]), onUnchecked: (v) => sw.push(['-', v]) } });
      check(s.proxy.isChecked === initially, 'switch', () => String(s.proxy.isChecked));
      for (const a of seq) {
        const on = a % 2 === 0;
        s.set('isChecked', on);
        s.proxy.onChange();
        check(same(sw.splice(0), [[on ? '+' : '-', 7]]), 'switch', () => String(on));
      }
    }
  });
}

await requests();
await answers();
await controls();
finish();
