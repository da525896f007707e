// Constant folding of a symbolic value under a valuation of its inputs (dataflow facts only: nothing of the program is run).
const NONE = Symbol("unknown"), VOID = Symbol("undefined");
export { NONE };
const num = (f) => (...xs) => f(...xs.map(Number));
const OPS = {
  "+": (a, b) => a + b, "-": num((a, b) => a - b), "*": num((a, b) => a * b), "/": num((a, b) => a / b), "%": num((a, b) => a % b), "**": num((a, b) => a ** b),
  "<": (a, b) => a < b, ">": (a, b) => a > b, "<=": (a, b) => a <= b, ">=": (a, b) => a >= b, neg: (a) => -a, "!": (a) => !a,
  Number: (x) => Number(x), str: (x) => String(x), String: (x) => String(x), parseInt: (x, r) => Number.parseInt(x, r), parseFloat: (x) => Number.parseFloat(x),
  "ext:lib#Date.UTC": (_, ...x) => Date.UTC(...x), Date: (...x) => new Date(...x), "date.getTime": (d) => (d instanceof Date ? d.getTime() : NONE), "date.valueOf": (d) => (d instanceof Date ? d.getTime() : NONE),
  "m:toPrecision": (x, p) => x.toPrecision(p), "m:toFixed": (x, p) => x.toFixed(p), "m:toString": (x, p) => x.toString(p),
  "m:trim": (x) => x.trim(), "m:toUpperCase": (x) => x.toUpperCase(), "m:toLowerCase": (x) => x.toLowerCase(), "m:charAt": (x, i) => x.charAt(i), "m:split": (x, s) => x.split(s),
};
const PREDS = { isInteger: Number.isInteger, isNaN: Number.isNaN, isFinite: Number.isFinite, isSafeInteger: Number.isSafeInteger, isArray: Array.isArray, truthy: Boolean, globalIsNaN: isNaN, globalIsFinite: isFinite };
export class Fold {
  constructor(I, val) { this.I = I; this.val = val; this.memo = new Map(); this.gm = new Map(); this.am = new Map(); }
  value(v) {
    if (v === undefined) return NONE;
    if (v.t) return this.leaf(v);
    for (const a of v.alts) { const g = this.guard(a.g); if (g === 1) return this.leaf(a.l); if (g === NONE) return NONE; }
    return NONE;
  }
  guard(g) {
    if (g === 0 || g === 1) return g;
    const r = this.I.bdd.assign(g, (v) => { if (!this.am.has(v)) this.am.set(v, this.atom(this.I.atoms[v])); const x = this.am.get(v); return x === NONE ? undefined : x ? 1 : 0; });
    return r === 0 || r === 1 ? r : NONE;
  }
  atom(a) {
    if (!a) return NONE;
    if (a.kind === "lt" && a.norm) { let s = 0; for (const [x, c] of a.norm) { const n = this.leaf(x); if (n === NONE) return NONE; s += c * Number(n); } return s < a.k; }
    if (a.kind === "lt" && a.a) { const x = this.leaf(a.a), y = this.leaf(a.b); return x === NONE || y === NONE ? NONE : x < y; }
    if (a.kind === "eqlin") { let s = 0; for (const [x, c] of a.norm) { const n = this.leaf(x); if (n === NONE) return NONE; s += c * Number(n); } return s === a.k; }
    if (a.kind === "eq") { const x = this.leaf(a.l), y = this.leaf(a.k); return x === NONE || y === NONE ? NONE : x === y; }
    if (a.kind === "pred" && PREDS[a.name]) { const x = this.leaf(a.l); return x === NONE ? NONE : !!PREDS[a.name](x); }
    if (a.kind === "regex") { const x = a.l ? this.leaf(a.l) : NONE, [p, f] = a.rx?.args ?? []; return x === NONE || typeof p !== "string" ? NONE : new RegExp(p, typeof f === "string" ? f.replace("g", "") : "").test(x); }
    if (a.kind === "inst") { const x = this.leaf(a.l), n = (a.k.xkey ?? "").split("#").pop(); return x === NONE || !["Date", "Error", "Array", "Map", "Set"].includes(n) ? NONE : x instanceof globalThis[n]; }
    return NONE;
  }
  leaf(l) {
    if (l.t === "c") return l.v;
    if (this.memo.has(l)) return this.memo.get(l);
    this.memo.set(l, NONE);
    const r = this.leaf_(l);
    this.memo.set(l, r);
    return r;
  }
  leaf_(l) {
    const x = this.val(l);
    if (x === VOID) return undefined;
    if (x !== undefined) return x;
    if (l.t === "x" && /^Math\.\w+$/.test(l.xkey ?? "") && typeof Math[l.xkey.slice(5)] === "number") return Math[l.xkey.slice(5)];
    if (l.t === "o" && l.rec.kind === "array") return this.array(l.rec.items);
    if (l.t !== "s") return NONE;
    if (l.op === "arr") return this.array(l.items);
    if (l.op === "res" && this.onRes) { const x = this.onRes(l, this); if (x !== undefined) return x; }
    if (l.op === "ext:lib#Date.UTC") { const xs = l.args.slice(1).map((a) => this.value(a)); return xs.includes(NONE) ? NONE : Date.UTC(...xs); }
    const as = (l.op === "sort" || l.op === "toSorted" ? [] : l.args).map((a) => (a?.alts ? this.value(a) : a?.t ? this.leaf(a) : a));
    if (as.includes(NONE)) return NONE;
    const m = /^(?:ext:)?Math\.(\w+)$/.exec(l.op);
    if (m && typeof Math[m[1]] === "function") return Math[m[1]](...as);
    if (l.op === "get") return as[0] === undefined || as[0] === null ? NONE : as[0][as[1]];
    if (l.op === "sort" || l.op === "toSorted") {
      const f = l.args[1]?.alts ? l.args[1] : undefined, J = this.I;
      if (!Array.isArray(as0(this, l))) return NONE;
      const xs = [...as0(this, l)];
      if (!f || (f.alts.length === 1 && f.alts[0].l.t === "c")) return xs.sort();
      let bad = false;
      xs.sort((a, b) => { const r = this.apply(f, [a, b]); if (typeof r !== "number") bad = true; return bad ? 0 : r; });
      return bad ? NONE : xs;
    }
    if (l.op === "join") return Array.isArray(as[0]) ? as[0].join(as[1]) : NONE;
    if (l.op === "concat") return as.map(String).join("");
    return OPS[l.op] ? OPS[l.op](...as) : NONE;
  }
  // the value of a function of the program for given arguments
  apply(f, args) {
    const I = this.I, pc = I.pc; I.pc = 1;
    const v = I.call(f, I.UNDEF, args.map((x) => I.c(x)), null);
    I.pc = pc;
    return this.value(v);
  }
  array(items) {
    const out = [];
    for (const x of items) {
      const g = x.g === undefined ? 1 : this.guard(x.g);
      if (g === 0) continue;
      if (g === NONE || x.each) return NONE;
      const v = this.value(x.v);
      if (v === NONE) return NONE;
      if (x.spread) { if (!Array.isArray(v)) return NONE; out.push(...v); } else out.push(v);
    }
    return out;
  }
}
const as0 = (F, l) => (l.args[0]?.alts ? F.value(l.args[0]) : F.leaf(l.args[0]));
// The value of input `name` by its concrete assignment (object of name -> value); members are followed by `get`.
export const fold = (I, v, env) => new Fold(I, (l) => (l.t === "s" && l.op === "in" && typeof l.args[0] === "string" && l.args[0] in env ? env[l.args[0]] ?? (env[l.args[0]] === null ? null : VOID) : undefined)).value(v);
export const foldG = (I, g, env) => new Fold(I, (l) => (l.t === "s" && l.op === "in" && typeof l.args[0] === "string" && l.args[0] in env ? env[l.args[0]] ?? (env[l.args[0]] === null ? null : VOID) : undefined)).guard(g);
