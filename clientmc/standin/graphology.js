// A stand-in for the graph: like graphology, import() adds to what is there
// and refuses nodes that are there already.
export class DirectedGraph {
  constructor() { this.n = new Map(); this.e = new Map(); this.attr = {}; }
  clear() { this.n.clear(); this.e.clear(); this.attr = {}; }
  import(d) {
    const c = JSON.parse(JSON.stringify(d));
    for (const x of c.nodes ?? []) {
      if (this.n.has(String(x.key))) throw new Error(`Graph.addNode: the "${x.key}" node already exist in the graph.`);
      this.n.set(String(x.key), x.attributes ?? {});
    }
    for (const x of c.edges ?? []) {
      const k = x.key ?? x.source + '->' + x.target;
      if (this.e.has(k)) throw new Error('Graph.addEdge: exists');
      this.e.set(k, { ...x, attributes: x.attributes ?? {} });
    }
    Object.assign(this.attr, c.attributes ?? {});
    return this;
  }
  hasNode(n) { return this.n.has(String(n)); }
  hasEdge(a, b) { return this.e.has(b === undefined ? String(a) : a + '->' + b); }
  addNode(key, attributes) { this.import({ nodes: [{ key, attributes }] }); return String(key); }
  addEdge(source, target, attributes) { this.import({ edges: [{ source, target, attributes }] }); return source + '->' + target; }
  addDirectedEdge(...a) { return this.addEdge(...a); }
  addEdgeWithKey(key, source, target, attributes) { this.import({ edges: [{ key, source, target, attributes }] }); return key; }
  getNodeAttribute(n, k) { return this.getNodeAttributes(n)[k]; }
  setNodeAttribute(n, k, v) { this.getNodeAttributes(n)[k] = v; return this; }
  setAttribute(k, v) { this.attr[k] = v; return this; }
  getEdgeAttributes(e) { return this.e.get(e).attributes; }
  setEdgeAttribute(e, k, v) { this.e.get(e).attributes[k] = v; return this; }
  getAttributes() { return this.attr; }
  getAttribute(k) { return this.attr[k]; }
  getNodeAttributes(n) { if (!this.n.has(String(n))) throw new Error('no node ' + n); return this.n.get(String(n)); }
  forEachNode(f) { for (const [k, a] of this.n) f(k, a); }
  forEachEdge(f) { for (const [k, x] of this.e) f(k, x.attributes); }
  nodes() { return [...this.n.keys()]; }
  edges() { return [...this.e.keys()]; }
  get order() { return this.n.size; }
  get size() { return this.e.size; }
}
export default DirectedGraph;
