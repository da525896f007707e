// Reduced ordered binary decision diagrams for path conditions (guards).
// 0 = false, 1 = true. Variables are ordered by creation.
export class BDD {
  constructor() {
    this.v = [Infinity, Infinity];
    this.lo = [0, 1];
    this.hi = [0, 1];
    this.uniq = new Map();
    this.iteCache = new Map();
    this.resCache = new Map();
    this.nvars = 0;
  }
  node(v, lo, hi) {
    if (lo === hi) return lo;
    const k = `${v},${lo},${hi}`;
    let n = this.uniq.get(k);
    if (n === undefined) {
      n = this.v.length;
      this.v.push(v);
      this.lo.push(lo);
      this.hi.push(hi);
      this.uniq.set(k, n);
    }
    return n;
  }
  newVar() {
    return this.nvars++;
  }
  varNode(i) {
    return this.node(i, 0, 1);
  }
  ite(f, g, h) {
    if (f === 1) return g;
    if (f === 0) return h;
    if (g === h) return g;
    if (g === 1 && h === 0) return f;
    if (f === g) g = 1;
    if (f === h) h = 0;
    if (g === 1 && h === 0) return f;
    if (g === h) return g;
    const k = `${f},${g},${h}`;
    const c = this.iteCache.get(k);
    if (c !== undefined) return c;
    const V = this.v;
    const top = Math.min(V[f], V[g], V[h]);
    const f0 = V[f] === top ? this.lo[f] : f, f1 = V[f] === top ? this.hi[f] : f;
    const g0 = V[g] === top ? this.lo[g] : g, g1 = V[g] === top ? this.hi[g] : g;
    const h0 = V[h] === top ? this.lo[h] : h, h1 = V[h] === top ? this.hi[h] : h;
    const r = this.node(top, this.ite(f0, g0, h0), this.ite(f1, g1, h1));
    this.iteCache.set(k, r);
    return r;
  }
  and(a, b) { return this.ite(a, b, 0); }
  or(a, b) { return this.ite(a, 1, b); }
  not(a) { return this.ite(a, 0, 1); }
  xor(a, b) { return this.ite(a, this.not(b), b); }
  iff(a, b) { return this.not(this.xor(a, b)); }
  imp(a, b) { return this.ite(a, b, 1); }
  implies(a, b) { return this.and(a, this.not(b)) === 0; }
  andAll(xs) { return xs.reduce((a, b) => this.and(a, b), 1); }
  orAll(xs) { return xs.reduce((a, b) => this.or(a, b), 0); }
  // Coudert/Madre restrict: simplify f using care set c (f need only be right where c holds).
  restrict(f, c) {
    if (c === 0) return 0;
    if (c === 1 || f === 0 || f === 1) return f;
    if (f === c) return 1;
    const k = `${f},${c}`;
    const m = this.resCache.get(k);
    if (m !== undefined) return m;
    let r;
    const vf = this.v[f], vc = this.v[c];
    if (vc < vf) r = this.restrict(f, this.or(this.lo[c], this.hi[c]));
    else {
      const c0 = vc === vf ? this.lo[c] : c, c1 = vc === vf ? this.hi[c] : c;
      if (c0 === 0) r = this.restrict(this.hi[f], c1);
      else if (c1 === 0) r = this.restrict(this.lo[f], c0);
      else r = this.node(vf, this.restrict(this.lo[f], c0), this.restrict(this.hi[f], c1));
    }
    this.resCache.set(k, r);
    return r;
  }
  // cofactor by a variable assignment map var -> 0|1
  assign(f, m, memo = new Map()) {
    if (f < 2) return f;
    const c = memo.get(f);
    if (c !== undefined) return c;
    const v = this.v[f];
    const a = m.get ? m.get(v) : m(v);
    let r;
    if (a === 0) r = this.assign(this.lo[f], m, memo);
    else if (a === 1) r = this.assign(this.hi[f], m, memo);
    else r = this.ite(this.varNode(v), this.assign(this.hi[f], m, memo), this.assign(this.lo[f], m, memo));
    memo.set(f, r);
    return r;
  }
  // existential quantification over the variables selected by pred
  exists(f, pred, memo = new Map()) {
    if (f < 2) return f;
    const c = memo.get(f);
    if (c !== undefined) return c;
    const v = this.v[f];
    const l = this.exists(this.lo[f], pred, memo), h = this.exists(this.hi[f], pred, memo);
    const r = pred(v) ? this.or(l, h) : this.ite(this.varNode(v), h, l);
    memo.set(f, r);
    return r;
  }
  support(f, s = new Set(), seen = new Set()) {
    if (f < 2 || seen.has(f)) return s;
    seen.add(f);
    s.add(this.v[f]);
    this.support(this.lo[f], s, seen);
    this.support(this.hi[f], s, seen);
    return s;
  }
  // cubes (paths to 1), at most n, as arrays of [var, bool]
  cubes(f, n = 8) {
    const out = [];
    const rec = (x, acc) => {
      if (out.length >= n || x === 0) return;
      if (x === 1) { out.push(acc); return; }
      rec(this.hi[x], [...acc, [this.v[x], true]]);
      rec(this.lo[x], [...acc, [this.v[x], false]]);
    };
    rec(f, []);
    return out;
  }
}
