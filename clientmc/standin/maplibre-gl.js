// A stand-in for the map: records what it is told to show.
export const maps = [];
export class Map {
  constructor(o) {
    this.options = o; this.handlers = {}; this.removed = false; this.bounds = []; this.layout = {}; this.filters = {}; this.images = new Set();
    this.style = o.style; this.loads = []; this.misuse = [];
    this.sources = Object.fromEntries(Object.entries(o.style?.sources ?? {}).map(([k, s]) => [k, this._source(s)]));
    this.dragPan = { enable() {} };
    this.loaded_ = false;
    maps.push(this);
  }
  _source(s) {
    return { _data: JSON.parse(JSON.stringify(s.data ?? {})), shown: JSON.parse(JSON.stringify(s.data ?? {})), setData(d) { this._data = d; this.shown = JSON.parse(JSON.stringify(d)); } };
  }
  _use(what) { if (this.removed) this.misuse.push(what); }
  on(e, l, h) { (this.handlers[e] ??= []).push(h ?? l); return this; }
  once(e, h) { return this.on(e, h); }
  off(e, h) { this.handlers[e] = (this.handlers[e] ?? []).filter((x) => x !== h); return this; }
  fire(e, a) { for (const h of this.handlers[e] ?? []) h(a); }
  remove() { this.removed = true; this.handlers = {}; }
  // maplibre: a source can only be had once the style is there
  getSource(n) { this._use('getSource'); return this.loaded_ ? this.sources[n] : undefined; }
  setLayoutProperty(l, p, v) { this._use('setLayoutProperty'); this.layout[l] = v; }
  setFilter(l, f) { this._use('setFilter'); this.filters[l] = f; }
  setStyle(s) { this._use('setStyle'); this.style = s; this.layout = {}; this.filters = {}; this.sources = Object.fromEntries(Object.entries(s?.sources ?? {}).map(([k, x]) => [k, this._source(x)])); }
  fitBounds(b) { this._use('fitBounds'); this.bounds.push(b); }
  loadImage(u, cb) { this.loads.push([u, cb]); }
  hasImage(n) { return this.images.has(n); }
  addImage(n) { this.images.add(n); }
  getLayer(l) { return this.style?.layers?.find((x) => x.id === l); }
  getLayoutProperty(l, p) { return this.layout[l] ?? this.getLayer(l)?.layout?.[p]; }
  getFilter(l) { return l in this.filters ? this.filters[l] : this.getLayer(l)?.filter; }
  getStyle() { return this.style; }
  setPaintProperty() {} triggerRepaint() {} jumpTo() {} flyTo() {} easeTo() {} stop() { return this; } getZoom() { return 0; } getCanvas() { return { style: {} }; }
  addLayer() {} addSource() {} addControl() {} resize() {} isStyleLoaded() { return this.loaded_; } loaded() { return this.loaded_; }
  queryRenderedFeatures() { return this.rendered ?? []; }
}
export class LngLatBounds {}
export const ResourceTypeEnum = {};
export default { Map, LngLatBounds };
