export const sigmas = [];
export class Sigma {
  constructor(graph, container, settings) { this.graph = graph; this.container = container; this.settings = settings; this.handlers = {}; this.killed = false; sigmas.push(this); }
  on(e, h) { (this.handlers[e] ??= []).push(h); return this; }
  fire(e, a) { for (const h of this.handlers[e] ?? []) h(a); }
  refresh() { return this; }
  setGraph(g) { this.graph = g; return this; }
  getGraph() { return this.graph; }
  clear() { this.killed = true; }
  kill() { this.killed = true; this.handlers = {}; }
  removeAllListeners() { this.handlers = {}; }
}
export default Sigma;
