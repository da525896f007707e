// Value domain of the abstract interpreter: guarded sets of hash-consed leaves.
import { BDD } from "./bdd.mjs";
import { ts } from "./program.mjs";

export class Core {
  constructor() {
    this.bdd = new BDD();
    this.leafTab = new Map();
    this.leaves = [];
    this.atoms = []; // var index -> description {kind, ...}
    this.atomTab = new Map();
    this.eqTab = new Map(); // leaf id -> [{c leaf, v}]
    this.journal = null;
    this.heapN = 0;
    this.pc = 1;
    this.UNDEF = this.c(undefined);
    this.NULL = this.c(null);
    this.TRUE = this.c(true);
    this.FALSE = this.c(false);
  }
  // ---------- leaves
  leaf(key, make) {
    let l = this.leafTab.get(key);
    if (!l) {
      l = make();
      l.id = this.leaves.length;
      l.key = key;
      this.leaves.push(l);
      this.leafTab.set(key, l);
    }
    return l;
  }
  cl(v) {
    const key = typeof v === "bigint" ? `c:bigint:${v}` : Object.is(v, -0) ? "c:number:0" : `c:${v === null ? "null" : typeof v}:${String(v)}`;
    return this.leaf(key, () => ({ t: "c", v: Object.is(v, -0) ? 0 : v }));
  }
  c(v) { return this.one(this.cl(v)); }
  // symbolic application; args are Vals, leaves or strings/numbers
  sl(op, args, ty, extra) {
    const key = `s:${op}(${args.map((a) => this.argKey(a)).join(",")})`;
    const l = this.leaf(key, () => ({ t: "s", op, args, ty, ...(extra || {}) }));
    if (!l.ty && ty) l.ty = ty;
    // a repeated pass over a loop body makes the same events again: results belong to the latest
    if (extra?.ev && !op.startsWith("ext:")) l.ev = extra.ev;
    return l;
  }
  s(op, args, ty, extra) { return this.one(this.sl(op, args, ty, extra)); }
  argKey(a) {
    if (a === null || typeof a === "string" || typeof a === "number" || typeof a === "boolean") return JSON.stringify(a);
    if (a.alts) return this.vkey(a);
    return `#${a.id}`;
  }
  // ---------- guarded values
  one(l) { return l.single || (l.single = { alts: [{ l, g: 1 }] }); }
  vkey(v) {
    if (v.k) return v.k;
    v.k = v.alts.length === 1 && v.alts[0].g === 1 ? `#${v.alts[0].l.id}` : "{" + v.alts.map((a) => `${a.l.id}@${a.g}`).join(";") + "}";
    return v.k;
  }
  mkVal(alts) {
    const m = new Map();
    for (const { l, g } of alts) {
      if (g === 0) continue;
      const o = m.get(l);
      m.set(l, o === undefined ? g : this.bdd.or(o, g));
    }
    if (m.size === 1) {
      const [[l, g]] = m;
      if (g === 1) return this.one(l);
    }
    const out = [...m].map(([l, g]) => ({ l, g })).sort((a, b) => a.l.id - b.l.id);
    return { alts: out };
  }
  // simplify against the current path condition
  at(v, pc = this.pc) {
    if (v.alts.length === 1 && v.alts[0].g === 1) return v;
    if (pc === 0) return v;
    const alts = [];
    for (const a of v.alts) {
      if (this.bdd.and(a.g, pc) === 0) continue;
      alts.push({ l: a.l, g: this.bdd.restrict(a.g, pc) });
    }
    if (alts.length === 1) return this.one(alts[0].l);
    return this.mkVal(alts);
  }
  ite(g, a, b) {
    if (g === 1 || a === b) return a;
    if (g === 0) return b;
    const n = this.bdd.not(g);
    return this.mkVal([...a.alts.map((x) => ({ l: x.l, g: this.bdd.and(x.g, g) })), ...b.alts.map((x) => ({ l: x.l, g: this.bdd.and(x.g, n) }))]);
  }
  // map over alternatives: f(leaf) -> Val, evaluated with the path condition narrowed to the alternative
  over(v, f) {
    v = this.at(v);
    if (v.alts.length === 1) return f(v.alts[0].l, 1);
    const pc0 = this.pc;
    const out = [];
    let pcOut = 0;
    let dead = 0;
    for (const a of v.alts) {
      this.pc = this.bdd.and(pc0, a.g);
      if (this.pc === 0) continue;
      const r = f(a.l, a.g);
      pcOut = this.bdd.or(pcOut, this.pc);
      if (this.pc !== 0 && r) for (const x of r.alts) out.push({ l: x.l, g: this.bdd.and(x.g, a.g) });
    }
    this.pc = pcOut;
    if (pcOut === 0) return this.UNDEF;
    return this.at(this.mkVal(out));
  }
  // combine several values pointwise with a pure function of leaves
  lift(vals, f, cap = 96) {
    const vs = vals.map((v) => this.at(v));
    let combos = [{ ls: [], g: 1 }];
    for (const v of vs) {
      const nxt = [];
      for (const cmb of combos)
        for (const a of v.alts) {
          const g = this.bdd.and(cmb.g, a.g);
          if (g === 0 || (this.pc !== 0 && this.bdd.and(g, this.pc) === 0)) continue;
          nxt.push({ ls: [...cmb.ls, a.l], g });
        }
      combos = nxt;
      if (combos.length > cap) return null;
    }
    if (combos.length === 1) return f(...combos[0].ls);
    const out = [];
    for (const cmb of combos) for (const x of f(...cmb.ls).alts) out.push({ l: x.l, g: this.bdd.and(x.g, cmb.g) });
    return this.at(this.mkVal(out));
  }
  bool(g) {
    if (this.pc !== 0) g = this.bdd.restrict(g, this.pc);
    if (g === 1) return this.TRUE;
    if (g === 0) return this.FALSE;
    return this.mkVal([{ l: this.cl(true), g }, { l: this.cl(false), g: this.bdd.not(g) }]);
  }
  constOf(v) { // {v} if a single constant
    v = this.at(v);
    return v.alts.length === 1 && v.alts[0].l.t === "c" ? { v: v.alts[0].l.v } : undefined;
  }
  single(v) {
    v = this.at(v);
    return v.alts.length === 1 ? v.alts[0].l : undefined;
  }
  // ---------- atoms
  atom(key, desc) {
    let v = this.atomTab.get(key);
    if (v === undefined) {
      v = this.bdd.newVar();
      this.atoms[v] = { key, ...desc };
      this.atomTab.set(key, v);
    } else if (desc?.ev) this.atoms[v].ev = desc.ev;
    return this.bdd.varNode(v);
  }
  // possible falsy constants of a symbolic leaf, by its static type
  falsySet(l) {
    if (l.falsy) return l.falsy;
    let r = [undefined, null, "", 0, false];
    if (l.op === "concat" || l.op === "json" || l.op === "str") {
      r = l.op === "json" || (l.op === "concat" && l.args.some((a) => { const c = this.constOf(a); return c && c.v; })) ? [] : [""];
    } else if (l.op === "obj" || l.op === "arr") r = [];
    else if (l.op === "len") r = [0];
    else if (l.ty) {
      const acc = new Set();
      const F = ts.TypeFlags;
      const visit = (t) => {
        if (t.isUnion()) return t.types.forEach(visit);
        const f = t.flags;
        if (f & (F.Any | F.Unknown | F.TypeParameter | F.IndexedAccess | F.Conditional | F.Substitution)) { r.forEach((x) => acc.add(x)); return; }
        if (f & (F.Undefined | F.Void)) acc.add(undefined);
        else if (f & F.Null) acc.add(null);
        else if (f & F.BooleanLiteral) { if (t.intrinsicName === "false") acc.add(false); }
        else if (f & F.Boolean) acc.add(false);
        else if (f & F.StringLiteral) { if (t.value === "") acc.add(""); }
        else if (f & (F.StringLike)) acc.add("");
        else if (f & F.NumberLiteral) { if (t.value === 0) acc.add(0); }
        else if (f & F.NumberLike) acc.add(0);
        else if (f & F.Intersection) { if (!(t.types.some((x) => x.flags & F.Object))) r.forEach((x) => acc.add(x)); }
      };
      visit(l.ty);
      r = r.filter((x) => acc.has(x));
    }
    l.falsy = r;
    return r;
  }
  eqConst(l, k) { // symbolic leaf === constant leaf
    const v = k.v;
    if (v === undefined || v === null || v === "" || v === 0 || v === false) {
      if (!this.falsySet(l).includes(v)) return 0;
    }
    if (v === false && this.onlyBool(l)) {
      let r = this.bdd.not(this.eqConst(l, this.cl(true)));
      for (const x of [undefined, null]) if (this.falsySet(l).includes(x)) r = this.bdd.and(r, this.bdd.not(this.eqConst(l, this.cl(x))));
      return r;
    }
    if (v === 0 && l.op === "len") { const z = this.lenEmpty(l); if (z !== undefined) return z; }
    let tab = this.eqTab.get(l);
    if (!tab) this.eqTab.set(l, (tab = []));
    let g = 1;
    for (const e of tab) {
      if (e.k === k) return this.bdd.and(g, e.b);
      g = this.bdd.and(g, this.bdd.not(e.b));
    }
    const b = this.atom(`eq:${l.id}:${k.id}`, { kind: "eq", l, k });
    tab.push({ k, b });
    return this.bdd.and(g, b);
  }
  onlyBool(l) {
    if (!l.ty) return false;
    const F = ts.TypeFlags;
    const ok = (t) => (t.isUnion() ? t.types.every(ok) : !!(t.flags & (F.BooleanLike | F.Undefined | F.Null | F.Void)));
    return ok(l.ty);
  }
  truthLeaf(l) {
    if (l.t === "c") return l.v ? 1 : 0;
    if (l.t !== "s") return 1;
    if (l.op === "not") return this.bdd.not(this.truth(l.args[0]));
    if (this.onlyBool(l)) return this.eqConst(l, this.cl(true));
    let r = 0;
    for (const f of this.falsySet(l)) r = this.bdd.or(r, this.eqConst(l, this.cl(f)));
    return this.bdd.not(r);
  }
  truth(v) {
    v = this.at(v);
    let r = 0;
    for (const a of v.alts) r = this.bdd.or(r, this.bdd.and(a.g, this.truthLeaf(a.l)));
    return this.pc ? this.bdd.restrict(r, this.pc) : r;
  }
  nullishLeaf(l) {
    if (l.t === "c") return l.v === undefined || l.v === null ? 1 : 0;
    if (l.t !== "s") return 0;
    let r = 0;
    for (const f of this.falsySet(l)) if (f === undefined || f === null) r = this.bdd.or(r, this.eqConst(l, this.cl(f)));
    return r;
  }
  nullish(v) {
    v = this.at(v);
    let r = 0;
    for (const a of v.alts) r = this.bdd.or(r, this.bdd.and(a.g, this.nullishLeaf(a.l)));
    return this.pc ? this.bdd.restrict(r, this.pc) : r;
  }
  // strings built by concatenation whose fixed parts cannot agree
  fixedEnds(l) {
    if (l.t === "c") return typeof l.v === "string" ? [l.v, l.v, l.v] : null;
    if (l.t !== "s" || l.op !== "concat" || !l.args.length) return null;
    const k = (v) => { const c = this.constOf(v); return c ? String(c.v) : ""; };
    return [k(l.args[0]), k(l.args[l.args.length - 1]), null];
  }
  neverEqual(a, b) {
    const x = this.fixedEnds(a), y = this.fixedEnds(b);
    if (!x || !y || (x[2] !== null && y[2] !== null)) return false;
    const pre = (p, q) => p.startsWith(q) || q.startsWith(p), suf = (p, q) => p.endsWith(q) || q.endsWith(p);
    if (!pre(x[0], y[0]) || !suf(x[1], y[1])) return true;
    for (const [c, d] of [[x, y], [y, x]]) if (c[2] !== null && (c[2].length < d[0].length || c[2].length < d[1].length)) return true;
    return false;
  }
  eqLeaf(a, b) {
    if (a === b) return 1;
    if (this.neverEqual(a, b)) return 0;
    if (a.t === "c" && b.t === "c") return a.v === b.v ? 1 : 0;
    if (a.t === "c") [a, b] = [b, a];
    if (b.t === "c") {
      if (a.t !== "s") return 0;
      return this.eqConst(a, b);
    }
    if (a.t !== "s" && b.t !== "s") return 0;
    if (a.id > b.id) [a, b] = [b, a];
    return this.atom(`eq:${a.id}:${b.id}`, { kind: "eq", l: a, k: b });
  }
  eq(x, y) {
    x = this.at(x); y = this.at(y);
    let r = 0;
    for (const a of x.alts) for (const b of y.alts) {
      const g = this.bdd.and(a.g, b.g);
      if (g !== 0) r = this.bdd.or(r, this.bdd.and(g, this.eqLeaf(a.l, b.l)));
    }
    return this.pc ? this.bdd.restrict(r, this.pc) : r;
  }
  // ---------- journaled mutation
  set(o, f, v) {
    if (this.journal) { const old = o[f]; this.journal.push(() => { o[f] = old; }); }
    o[f] = v;
  }
  mset(m, k, v) {
    if (this.journal) { const had = m.has(k), old = m.get(k); this.journal.push(() => { if (had) m.set(k, old); else m.delete(k); }); }
    m.set(k, v);
  }
  push(arr, x) {
    if (this.journal) { this.journal.push(() => { arr.pop(); }); }
    arr.push(x);
  }
  // ---------- heap
  alloc(kind, extra) {
    const rec = { kind, props: new Map(), rest: [], dyn: [], items: kind === "array" ? [] : undefined, g: this.pc, hid: ++this.heapN, ...extra };
    rec.leaf = this.leaf(`o:${rec.hid}`, () => ({ t: "o", rec }));
    rec.val = this.one(rec.leaf);
    return rec;
  }
  note(w) { if (this.writes) this.writes.push(w); }
  setProp(rec, key, val, has = 1) {
    const g = this.bdd.restrict(this.pc, rec.g);
    const old = rec.props.get(key);
    this.note({ kind: "prop", rec, key });
    const hg = this.bdd.and(g, has);
    let nv;
    if (hg === 1) nv = { v: val, has: 1 };
    else if (!old) nv = { v: val, has: hg };
    else nv = { v: this.ite(hg, val, old.v), has: this.bdd.or(hg, old.has) };
    this.mset(rec.props, key, nv);
  }
  setCell(cell, val) {
    this.note({ kind: "cell", cell });
    const g = this.bdd.restrict(this.pc, cell.g ?? 1);
    this.set(cell, "v", cell.v === undefined || g === 1 ? val : this.ite(g, val, cell.v));
  }
  // ---------- rendering
  show(v, d = 0) {
    if (v === undefined) return "<none>";
    if (v === null || typeof v !== "object") return String(v);
    if (!v.alts) return this.showLeaf(v, d);
    if (v.alts.length === 1) return this.showLeaf(v.alts[0].l, d);
    if (d > 5) return "{..}";
    return "{" + v.alts.map((a) => `${this.showLeaf(a.l, d + 1)} if ${this.showG(a.g, 3)}`).join(" | ") + "}";
  }
  showLeaf(l, d = 0) {
    if (d > 7) return "..";
    switch (l.t) {
      case "c": return typeof l.v === "string" ? JSON.stringify(l.v) : typeof l.v === "bigint" ? `${l.v}n` : String(l.v);
      case "o": {
        const r = l.rec;
        if (r.kind === "array") return "[" + r.items.map((i) => (i.each ? `each(${this.show(i.each.src ?? "", d + 1)}): ` : "") + (i.spread ? "..." : "") + this.show(i.v, d + 1)).join(", ") + "]";
        if (r.kind === "promise") return `Promise(${this.show(r.pv, d + 1)})`;
        if (r.kind === "inst") return `${r.cls?.name?.text ?? "inst"}#${r.hid}`;
        if (r.kind === "map" || r.kind === "set") return `${r.kind}#${r.hid}`;
        return "{" + [...r.rest.map((x) => "..." + this.show(x.v, d + 1)), ...[...r.props].map(([k, p]) => `${k}${p.has === 1 ? "" : "?"}: ${this.show(p.v, d + 1)}`)].join(", ") + "}";
      }
      case "f": return `fn:${l.name || "anon"}`;
      case "k": return `class:${l.node.name?.text}`;
      case "x": return l.name;
      case "s":
        if (l.op === "get") return `${this.show(l.args[0], d + 1)}.${this.show(l.args[1], d + 1)}`;
        if (l.op === "in") return `$${l.args[0]}`;
        if (l.op === "res") return `res(${l.ev?.label ?? l.args[0]})`;
        if (l.op === "concat") return "`" + l.args.map((a) => { const c = this.constOf(a); return c ? c.v : "${" + this.show(a, d + 1) + "}"; }).join("") + "`";
        return `${l.op}(${l.args.map((a) => this.show(a, d + 1)).join(", ")})`;
    }
  }
  showAtom(i) {
    const a = this.atoms[i];
    switch (a.kind) {
      case "eq": return `${this.showLeaf(a.l, 3)}===${this.showLeaf(a.k, 3)}`;
      case "throw": return `throws(${a.ev.label})`;
      default: return a.text ? a.text : a.key;
    }
  }
  showG(g, n = 6) {
    if (g === 1) return "always";
    if (g === 0) return "never";
    return this.bdd.cubes(g, n).map((c) => c.map(([v, p]) => (p ? "" : "!") + this.showAtom(v)).join(" & ")).join(" || ");
  }
}
