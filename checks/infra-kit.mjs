// Helpers for checks over CDK constructs: es-toolkit case folding on constants, class-restricted worlds, construct events.
import { field, constVal, or, ts } from "./kit.mjs";
const SPLIT = /\p{Lu}?\p{Ll}+|[0-9]+|\p{Lu}+(?!\p{Ll})|\p{Emoji_Presentation}|\p{Extended_Pictographic}|\p{L}+/gu;
const words = (s) => [...(s.match(SPLIT) ?? [])];
const cap = (w) => w.charAt(0).toUpperCase() + w.slice(1).toLowerCase();
const CASES = {
  kebabCase: (s) => words(s).map((w) => w.toLowerCase()).join("-"),
  snakeCase: (s) => words(s).map((w) => w.toLowerCase()).join("_"),
  camelCase: (s) => words(s).map((w, i) => (i ? cap(w) : w.toLowerCase())).join(""),
  startCase: (s) => words(s).map(cap).join(" "),
  pascalCase: (s) => words(s).map(cap).join(""),
  capitalize: cap,
};
// interpreter with constant folding of the case functions used in resource names
export function cdk(C, opts = {}, prog) {
  const I = C.interp({ noThrow: (e) => e.kind !== "rec", ...opts }, prog);
  for (const [n, f] of Object.entries(CASES)) I.natives.set(`es-toolkit#${n}`, (args, node) => {
    const v = I.freeze(args[0]);
    return I.lift ? I.lift([v], (x) => (x.t === "c" && typeof x.v === "string" ? I.c(f(x.v)) : I.s(`ext:es-toolkit#${n}`, [I.one(x)], I.checker.getStringType()))) : undefined;
  });
  I.natives.set("node:path#basename", (args) => I.lift([I.freeze(args[0])], (x) => (x.t === "c" && typeof x.v === "string" && args.length === 1 ? I.c(x.v.replace(/\/+$/, "").replace(/^.*\//, "")) : I.s("ext:node:path#basename", [I.one(x), ...args.slice(1).map((a) => I.freeze(a))], I.checker.getStringType()))));
  arrayNatives(I);
  return I;
}
const instName = (a) => a.k.xkey?.split("#")[1] ?? a.k.name ?? a.k.node?.name?.text ?? "";
// worlds where instanceof answers are exactly the named classes
export const onlyClass = (I, g, names) => I.bdd.assign(g, (v) => { const a = I.atoms[v]; return a?.kind === "inst" ? (names.includes(instName(a)) ? 1 : 0) : undefined; });
export const arg = (e, i) => e?.args[i] && (e.args[i].spread ?? e.args[i]);
export const made = (r, re) => r.events.filter((e) => (e.kind === "new" || e.kind === "super") && re.test(e.name ?? ""));
export const calls = (r, re) => r.events.filter((e) => e.kind === "call" && re.test(e.name ?? ""));
// an input whose chosen members are the given values
export function withProps(I, name, ty, props) {
  const v = I.input(name, ty);
  const ov = I.overlay(I.single(v));
  for (const [k, x] of Object.entries(props)) I.setProp(ov, k, x);
  return v;
}
export const lit = (I, x) => (Array.isArray(x) ? arrLit(I, x) : x && typeof x === "object" ? (x.alts ? x : objLit(I, x)) : I.c(x));
const arrLit = (I, xs) => { const a = I.alloc("array"); for (const v of xs) a.items.push({ g: 1, v: lit(I, v) }); return a.val; };
const objLit = (I, o) => { const r = I.alloc("object"); for (const [k, v] of Object.entries(o)) I.setProp(r, k, lit(I, v)); return r.val; };
export const typeNamed = (I, file, name) => { const sf = I.prog.getSourceFiles().find((s) => s.fileName.endsWith(file)); const s = I.checker.getExportsOfModule(I.checker.getSymbolAtLocation(sf)).find((x) => x.name === name); return I.checker.getDeclaredTypeOfSymbol(s); };
// guard under which an argument's field is the constant
export const fieldIs = (I, v, key, x) => { const f = field(I, v, key).v; return or(I, f.alts.filter((a) => a.l.t === "c" && a.l.v === x).map((a) => a.g)); };
export { constVal };
// items of an array value: [{v, g, each}] (empty when it is not a single known array)
export function items(I, v) {
  const out = [];
  for (const a of v?.alts ?? []) {
    const l = a.l;
    const src = l.t === "o" && l.rec.kind === "array" ? l.rec.items : l.t === "s" && l.op === "arr" ? l.items : [];
    for (const x of src) {
      if (x.spread) { for (const y of items(I, x.v)) out.push({ ...y, g: I.bdd.andAll([a.g, x.g ?? 1, y.g]) }); continue; }
      out.push({ v: x.v, g: I.bdd.and(a.g, x.g ?? 1), each: x.each });
    }
  }
  return out;
}
// constant tree of a value (undefined members dropped); symbolic leaves become {$: text}
export function tree(I, v, d = 0) {
  if (v === undefined || d > 14) return undefined;
  const as = v.alts;
  if (as.length !== 1) return { $: I.show(v) };
  const l = as[0].l;
  if (l.t === "c") return l.v;
  const isArr = (l.t === "o" && l.rec.kind === "array") || (l.t === "s" && l.op === "arr");
  if (isArr) return items(I, v).map((x) => (x.g === 1 && !x.each ? tree(I, x.v, d + 1) : { $maybe: tree(I, x.v, d + 1) }));
  if (l.t === "o" && (l.rec.kind === "object" || l.rec.kind === "inst")) {
    const o = {};
    for (const r of l.rec.rest ?? []) Object.assign(o, tree(I, r.v, d + 1));
    for (const [k, p] of l.rec.props) { const x = tree(I, p.v, d + 1); if (x !== undefined) o[k] = p.has === 1 ? x : { $maybe: x }; }
    return o;
  }
  if (l.t === "s" && l.op === "obj") {
    const o = {};
    for (const r of l.rest ?? []) Object.assign(o, tree(I, r.v, d + 1));
    for (const [k, p] of l.fields) { const x = tree(I, p.v, d + 1); if (x !== undefined) o[k] = p.has === 1 ? x : { $maybe: x }; }
    return o;
  }
  return { $: I.showLeaf(l) };
}
export function arrayNatives(I) {
  const known = (v) => v?.alts?.length === 1 && v.alts[0].l.t === "o" && v.alts[0].l.rec.kind === "array" && v.alts[0].l.rec.items.every((x) => x.g === 1 && !x.each && !x.spread);
  const mk = (xs) => { const a = I.alloc("array"); for (const v of xs) a.items.push({ g: 1, v }); return a.val; };
  I.natives.set("es-toolkit#range", (args) => {
    const n = args.map((a) => (a.alts.length === 1 && a.alts[0].l.t === "c" ? a.alts[0].l.v : undefined));
    if (n.some((x) => typeof x !== "number")) return I.s("ext:es-toolkit#range", args.map((a) => I.freeze(a)));
    const [from, to, step] = n.length === 1 ? [0, n[0], 1] : [n[0], n[1], n[2] ?? 1];
    const xs = []; for (let i = from; step > 0 ? i < to : i > to; i += step) xs.push(I.c(i));
    return mk(xs);
  });
  I.natives.set("es-toolkit#zipWith", (args, node) => {
    const f = args[args.length - 1], as = args.slice(0, -1);
    if (!as.every(known)) return I.s("ext:es-toolkit#zipWith", as.map((a) => I.freeze(a)));
    const ls = as.map((a) => a.alts[0].l.rec.items), n = Math.max(...ls.map((x) => x.length));
    const xs = []; for (let i = 0; i < n; i++) xs.push(I.call(f, I.UNDEF, ls.map((x) => x[i]?.v ?? I.UNDEF), node));
    return mk(xs);
  });
  I.natives.set("es-toolkit#zip", (args) => {
    if (!args.every(known)) return I.s("ext:es-toolkit#zip", args.map((a) => I.freeze(a)));
    const ls = args.map((a) => a.alts[0].l.rec.items), n = Math.max(...ls.map((x) => x.length));
    return mk([...Array(n).keys()].map((i) => mk(ls.map((x) => x[i]?.v ?? I.UNDEF))));
  });
}
// ---- queries over construct configurations
// Guarded alternatives of a value as [text, guard]
export const texts = (I, v, pc) => { const m = new Map(); for (const a of (v?.alts ?? [])) { const g = pc === undefined ? a.g : I.bdd.and(a.g, pc); if (g !== 0) m.set(I.showLeaf(a.l), I.bdd.or(m.get(I.showLeaf(a.l)) ?? 0, g)); } return m; };
// guard under which v shows as one of the texts
export const showsAs = (I, v, pred) => or(I, (v?.alts ?? []).filter((a) => (typeof pred === "string" ? I.showLeaf(a.l) === pred : pred(I.showLeaf(a.l), a.l))).map((a) => a.g));
// guard under which an array value contains an element accepted by pred
export const contains = (I, v, pred) => or(I, items(I, v).map((x) => I.bdd.and(x.g, showsAs(I, x.v, pred))));
// guard under which a value is the result of the given event
export const isResult = (I, v, ev) => or(I, (v?.alts ?? []).filter((a) => a.l.t === "s" && a.l.op === "res" && a.l.ev === ev).map((a) => a.g));
// numeric value of an arithmetic expression over leaves valued by val
export function evalNum(I, v, val) {
  if (v === undefined) return undefined;
  const l = v.alts ? (v.alts.length === 1 ? v.alts[0].l : undefined) : v;
  if (!l) return undefined;
  if (l.t === "c") return typeof l.v === "number" ? l.v : undefined;
  const x = val(l);
  if (x !== undefined) return x;
  const f = { "+": (a, b) => a + b, "-": (a, b) => a - b, "*": (a, b) => a * b, "/": (a, b) => a / b }[l.op];
  if (f && l.args.length === 2) { const a = evalNum(I, l.args[0], val), b = evalNum(I, l.args[1], val); return a === undefined || b === undefined ? undefined : f(a, b); }
  if (l.op === "lin") return undefined;
  return undefined;
}
export const ALARM_OPS = { GREATER_THAN_OR_EQUAL_TO_THRESHOLD: (a, b) => a >= b, GREATER_THAN_THRESHOLD: (a, b) => a > b, LESS_THAN_THRESHOLD: (a, b) => a < b, LESS_THAN_OR_EQUAL_TO_THRESHOLD: (a, b) => a <= b };
export const enumName = (I, v) => { const t = v && I.show(v); const m = t?.match(/#(?:\w+\.)*(\w+)$/); return m?.[1]; };
// A stack whose configuration has the given members; everything else symbolic.
export function stackInput(I, conf = {}, over = {}) {
  const ty = typeNamed(I, "lib/digitraffic-common/src/aws/infra/stack/stack.ts", "DigitrafficStack");
  const cty = typeNamed(I, "lib/digitraffic-common/src/aws/infra/stack/stack.ts", "StackConfiguration");
  const c = withProps(I, "conf", cty, Object.fromEntries(Object.entries({ shortName: "ST", ...conf }).map(([k, v]) => [k, lit(I, v)])));
  return withProps(I, "stack", ty, { configuration: c, ...Object.fromEntries(Object.entries(over).map(([k, v]) => [k, lit(I, v)])) });
}
// worlds where optional members tested by `in` exist
export const members = (I, g) => I.bdd.assign(g, (v) => (I.atoms[v]?.kind === "has" ? 1 : undefined));
