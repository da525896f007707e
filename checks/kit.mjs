// Shared query kit for the property checks: obligations, reports, evidence, and queries over guarded values.
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { Interp, ts, rel, loc, libProgram, allProgram, REPO, LIB, isTest } from "../engine/index.mjs";
export { Interp, ts, rel, loc, libProgram, allProgram, REPO, LIB, isTest };
export const VERIF = path.resolve(path.dirname(fileURLToPath(import.meta.url)), "..");
export const L = (p) => `lib/digitraffic-common/src/${p}`;

// The library's own loggers: calls are kept as `log.<method>` events (their content is decided by the logger property).
export function logStub(node, leaf, I) {
  const p = node.parent;
  if (ts.isMethodDeclaration(node) && ts.isClassDeclaration(p) && p.name?.text === "DtLogger") return { name: `log.${node.name.getText()}`, noThrow: true };
  if (ts.isFunctionDeclaration(node) && node.name?.text === "logException") return { name: "log.exception", noThrow: true };
  return undefined;
}

export class Check {
  constructor(id, tier = "quick") {
    this.id = id;
    this.tier = tier;
    this.obs = [];
    this.samples = [];
    this.rules = new Map();
    this.analysed = new Set();
    this.calls = 0; this.events = 0; this.unsup = new Map();
    this.interps = [];
    this.mins = new Map();
  }
  // one proof obligation: rule name, verdict, construct, explanation
  ob(rule, ok, where, msg, key) {
    this.rules.set(rule, (this.rules.get(rule) ?? 0) + 1);
    const o = { rule, ok: !!ok, where: typeof where === "string" ? where : where ? loc(where) : "?", msg, key: key ?? `${rule}` };
    this.obs.push(o);
    return o.ok;
  }
  min(rule, n) { this.mins.set(rule, n); }
  interp(opts = {}, prog = libProgram()) {
    const stubs = [opts.stub, opts.rawLog ? null : logStub].filter(Boolean);
    const I = new Interp(prog, { ...opts, stub: (n, l, J) => { for (const s of stubs) { const r = s(n, l, J); if (r) return r; } return undefined; } });
    this.interps.push(I);
    return I;
  }
  // Run an exported function on fully symbolic inputs (or given ones)
  fn(I, file, name, args) {
    const v = I.valueOfExport(file, name);
    return I.runFn(v, args ?? I.paramInputs(I.single(v).node, "", INPUTS[name]));
  }
  violations() {
    const out = this.obs.filter((o) => !o.ok);
    for (const [r, n] of this.mins) if ((this.rules.get(r) ?? 0) < n) out.push({ rule: r, ok: false, where: "(instance count)", msg: `expected at least ${n} instances, found ${this.rules.get(r) ?? 0}`, key: `${r}:count` });
    return out;
  }
}

// names the checks give the inputs of exported functions, by position
const INPUTS = {
  distanceBetweenPositionsInKm: ["pos1", "pos2"],
  distanceBetweenPositionsInM: ["pos1", "pos2"],
  areDistinctPositions: ["previous", "next"],
  isValidIMO: ["imo"],
  isValidMMSI: ["mmsi"],
  isValidLOCODE: ["locode"],
  validateMonth: ["month"],
  validateYear: ["year", "minYear", "maxYear"],
  countDiffMs: ["start", "end"],
  countDiffInSeconds: ["start", "end"],
  dateFromIsoString: ["isoString"],
  dateToUTCString: ["date", "formatString"],
  getErrorMessage: ["maybeError"],
  logLeadTime: ["name", "target", "tookMs", "extraFields"],
  logLeadTimes: ["ptl"],
  uploadToS3: ["s3", "bucketName", "body", "objectName", "cannedAcl", "contentType"],
  getLastUpdated: ["db", "datatype"],
  updateLastUpdated: ["db", "datatype", "updated"],
  getLastUpdatedWithSubtype: ["db", "datatype", "subtype"],
  updateLastUpdatedWithSubtype: ["db", "datatype", "subtype", "updated"],
  getUpdatedTimestamp: ["db", "datatype"],
  updateUpdatedTimestamp: ["db", "datatype", "date", "by"],
};
// ------------------------------------------------------------------ guards
export const imp = (I, a, b) => I.bdd.implies(a, b);
// g under the assumption that no opaque call fails (except those chosen)
export function calm(I, g, except) {
  let c = 1;
  for (let v = I.atoms.length - 1; v >= 0; v--) {
    const k = I.atoms[v]?.kind;
    if ((k === "throw" || k === "rej") && !(except && except(I.atoms[v]))) c = I.bdd.node(v, c, 0);
  }
  return I.bdd.and(g, c);
}
export const or = (I, xs) => I.bdd.orAll(xs);
// forget atoms (exists) chosen by predicate on their description
export const forget = (I, g, pred) => I.bdd.exists(g, (v) => pred(I.atoms[v] ?? {}));
export function sat(g) { return g !== 0; }
// ------------------------------------------------------------------ values
export function alts(I, v, pc) { return (pc === undefined ? v : I.at(v, pc)).alts; }
export function isC(l, x) { return l.t === "c" && l.v === x; }
// guard under which v is exactly the constant x
export function eqC(I, v, x) {
  let r = 0;
  for (const a of v.alts) r = I.bdd.or(r, I.bdd.and(a.g, a.l.t === "c" ? (a.l.v === x ? 1 : 0) : a.l.t === "s" ? I.eqConst(a.l, I.cl(x)) : 0));
  return r;
}
export function constVal(I, v, pc = 1) { const a = I.at(v, pc).alts; return a.length === 1 && a[0].l.t === "c" ? a[0].l.v : undefined; }
// the field `key` of a (frozen or live) value as {v, has}
export function field(I, v, key) {
  if (v === undefined) return { v: I.UNDEF, has: 0 };
  const out = []; let has = 0;
  for (const a of v.alts) {
    const l = a.l;
    if (l.t === "s" && l.op === "obj") {
      const f = l.fields.get(String(key));
      let hg = f ? I.bdd.and(a.g, f.has) : 0;
      if (f) for (const x of f.v.alts) out.push({ l: x.l, g: I.bdd.and(x.g, hg) });
      let rem = I.bdd.and(a.g, I.bdd.not(hg));
      for (let i = l.rest.length - 1; i >= 0 && rem !== 0; i--) {
        const r = l.rest[i];
        const rg = I.bdd.and(rem, r.g);
        if (rg === 0) continue;
        const sub = I.getProp(r.v, I.c(String(key)), null);
        for (const x of sub.alts) out.push({ l: x.l, g: I.bdd.and(x.g, rg) });
        hg = I.bdd.or(hg, rg);
        rem = I.bdd.and(rem, I.bdd.not(rg));
      }
      has = I.bdd.or(has, hg);
      if (rem !== 0) out.push({ l: I.cl(undefined), g: rem });
    } else if (l.t === "s" && l.op === "arr") {
      const it = l.items[Number(key)];
      if (it && !it.each && !it.spread) { has = I.bdd.or(has, a.g); for (const x of it.v.alts) out.push({ l: x.l, g: I.bdd.and(x.g, a.g) }); }
      else out.push({ l: I.cl(undefined), g: a.g });
    } else if (l.t === "o") {
      const pc0 = I.pc; I.pc = 1;
      const x0 = I.freezeLeaf(l, 0);
      I.pc = pc0;
      if (x0 === l) {
        const p = l.rec.props?.get(String(key));
        if (p) { has = I.bdd.or(has, I.bdd.and(a.g, p.has)); for (const x of p.v.alts) out.push({ l: x.l, g: I.bdd.andAll([x.g, a.g, p.has]) }); const nh = I.bdd.and(a.g, I.bdd.not(p.has)); if (nh) out.push({ l: I.cl(undefined), g: nh }); }
        else out.push({ l: I.cl(undefined), g: a.g });
      } else {
        const r = field(I, I.one(x0), key);
        has = I.bdd.or(has, I.bdd.and(a.g, r.has));
        for (const x of r.v.alts) out.push({ l: x.l, g: I.bdd.and(x.g, a.g) });
      }
    } else if (l.t === "c") {
      out.push({ l: I.cl(undefined), g: a.g });
    } else {
      const pc0 = I.pc; I.pc = 1;
      const x = I.getProp(I.one(l), I.c(String(key)), null);
      I.pc = pc0;
      has = I.bdd.or(has, a.g);
      for (const y of x.alts) out.push({ l: y.l, g: I.bdd.and(y.g, a.g) });
    }
  }
  return { v: I.mkVal(out), has };
}
export function path_(I, v, keys) { for (const k of keys) v = field(I, v, k).v; return v; }
export const dig = (I, v, p) => path_(I, v, p.split("."));
// all leaves reachable in a value (through structures and symbolic applications)
export function reach(I, v, opts = {}) {
  const seen = new Set();
  const out = new Set();
  const val = (x) => { if (!x) return; if (x.alts) { for (const a of x.alts) leaf(x === v && opts.pc !== undefined && I.bdd.and(a.g, opts.pc) === 0 ? null : a.l); } else if (x.t) leaf(x); };
  const leaf = (l) => {
    if (!l || seen.has(l)) return;
    seen.add(l); out.add(l);
    if (opts.stop?.(l)) return;
    if (l.t === "s") for (const a of l.args) { if (a && typeof a === "object") val(a); }
    if (l.t === "s" && l.op === "res" && opts.throughRes && l.ev) { for (const a of l.ev.fargs ?? []) val(a); if (l.ev.recv) val(l.ev.recv); }
    if (l.t === "o") {
      const r = l.rec;
      for (const p of r.props?.values() ?? []) val(p.v);
      for (const x of r.rest ?? []) val(x.v);
      for (const x of r.dyn ?? []) { val(x.key); val(x.v); }
      for (const x of r.items ?? []) val(x.v);
      for (const x of r.entries ?? []) { val(x.key); val(x.v); }
      if (r.pv) val(r.pv);
      if (r.ctorArgs) r.ctorArgs.forEach(val);
    }
  };
  val(v);
  return out;
}
export const mentions = (I, v, pred, opts) => { for (const l of reach(I, v, opts)) if (pred(l)) return true; return false; };
export const envLeaf = (l, name) => l.t === "s" && l.op === "get" && constKey(l) === name && isProcessEnv(l.args[0]);
export const isEnv = (l) => l.t === "s" && l.op === "get" && isProcessEnv(l.args[0]);
const constKey = (l) => { const a = l.args[1]; return typeof a === "string" ? a : a?.alts?.length === 1 ? a.alts[0].l.v : undefined; };
export { constKey };
function isProcessEnv(v) { const l = v?.alts ? v.alts[0]?.l : v; return !!l && l.t === "s" && l.op === "get" && constKey(l) === "env" && (() => { const b = l.args[0]?.alts?.[0]?.l; return b?.t === "x" && /process/.test(b.xkey); })() || (l?.t === "x" && /process\.env$/.test(l.xkey ?? "")); }
// ------------------------------------------------------------------ events
export const named = (r, re) => r.events.filter((e) => (typeof re === "string" ? e.name === re : re.test(e.name ?? "")) && ["call", "new", "super", "rec"].includes(e.kind));
export const isRes = (l, ev) => l.t === "s" && l.op === "res" && l.ev === ev;
export const before = (I, a, b, r) => r.events.indexOf(a) < r.events.indexOf(b);
export function where(e) { return e?.at ?? "?"; }
// Run f, collecting its exceptions, then continue from the state it leaves behind.
export function attempt(I, f) {
  const pc0 = I.pc;
  const from = I.events.length;
  I.handlers.push({ g: 0, v: I.UNDEF });
  const v = f();
  const h = I.handlers.pop();
  const okG = I.pc;
  I.pc = pc0;
  return { v: okG ? I.at(v, okG) : v, okG, throwG: h.g, throwV: h.v, events: I.events.slice(from) };
}
// Decide the numeric atoms of g for a valuation (leaf -> number) of the leaves they mention.
export function atNums(I, g, val) {
  return I.bdd.assign(g, (v) => {
    const a = I.atoms[v];
    if (!a) return undefined;
    if (a.kind === "lt" && a.norm) { let s = 0; for (const [x, c] of a.norm) { const n = val(x); if (n === undefined) return undefined; s += c * n; } return s < a.k ? 1 : 0; }
    if (a.kind === "lt" && a.a) { const x = val(a.a), y = val(a.b); return x === undefined || y === undefined ? undefined : x < y ? 1 : 0; }
    if (a.kind === "eqlin") { let s = 0; for (const [x, c] of a.norm) { const n = val(x); if (n === undefined) return undefined; s += c * n; } return s === a.k ? 1 : 0; }
    if (a.kind === "eq" && a.l.t === "s" && a.k.t === "c") { const n = val(a.l); return n === undefined ? undefined : n === a.k.v ? 1 : 0; }
    return undefined;
  });
}
// thresholds appearing in numeric atoms over leaves accepted by val
export function thresholds(I, val) {
  const out = new Set();
  for (const a of I.atoms) if (a && (a.kind === "lt" || a.kind === "eqlin") && a.norm && a.norm.every(([x]) => val(x) !== undefined)) out.add(a.k);
  return [...out];
}
// Lazily created clients kept in a module-level `let`: take the created state (the creation itself is not the subject).
export const createdClients = (sym, d, I) => {
  let vd = d; while (vd && !ts.isVariableDeclaration(vd)) vd = vd.parent;
  if (!vd || ts.getCombinedNodeFlags(vd) & ts.NodeFlags.Const) return undefined;
  const ty = I.checker.getNonNullableType(I.checker.getTypeOfSymbol(sym));
  const dd = ty.symbol?.declarations?.[0];
  if (dd && !I.isProject(dd) && (ts.isClassDeclaration(dd) || ts.isInterfaceDeclaration(dd)) && /node_modules/.test(dd.getSourceFile().fileName) && !/typescript\/lib/.test(dd.getSourceFile().fileName)) return I.s("client", [sym.name], ty);
  return undefined;
};
export function arr(I, vals) { const a = I.alloc("array"); for (const v of vals) a.items.push({ g: 1, v }); return a.val; }
export function obj(I, o) { const r = I.alloc("object"); for (const [k, v] of Object.entries(o)) I.setProp(r, k, v); return r.val; }
export const method = (I, o, name, args) => I.call(I.getProp(o, I.c(name), null), o, args, null);
// exact guard comparison on a set of worlds
export const sameUnder = (I, w, a, b) => I.bdd.and(w, I.bdd.xor(a, b)) === 0;
// A symbolic input with the declared type of a method's parameter (optional or defaulted parameters may be undefined).
export function paramOf(I, cls, m, i, name) {
  const n = I.single(cls).node;
  const mem = n.members.find((x) => (m === "constructor" ? ts.isConstructorDeclaration(x) : x.name?.text === m));
  const l = I.paramInputs(mem)[i];
  const v = l.spread ?? l;
  return I.input(name ?? v.alts[0].l.args[0], v.alts[0].l.ty);
}
