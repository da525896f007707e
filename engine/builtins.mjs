// Models of the JavaScript built-ins the repository relies on.
import { ts } from "./program.mjs";

const STR_FOLD = new Set(["toUpperCase", "toLowerCase", "trim", "slice", "substring", "startsWith", "endsWith", "includes", "indexOf", "charAt", "padStart", "padEnd", "repeat", "trimStart", "trimEnd", "at", "charCodeAt", "concat", "lastIndexOf", "localeCompare"]);
const STR_METHODS = new Set([...STR_FOLD, "replace", "replaceAll", "split", "match", "matchAll", "search", "normalize", "toString", "codePointAt", "toLocaleUpperCase", "toLocaleLowerCase", "substr", "valueOf", "at"]);

export function installBuiltins(I) {
  I.natives = new Map();
  // external functions treated as pure values (no effect, result determined by arguments)
  I.purePattern = /^(new )?(lib#(Math|JSON|Number|String|Boolean|BigInt|Symbol|Buffer|parseInt|parseFloat|isNaN|isFinite|encodeURIComponent|decodeURIComponent|encodeURI|decodeURI|atob|btoa|URL|URLSearchParams|Intl|RegExp|Date|DateConstructor|ReadonlyArray|Array|Headers|TextEncoder|TextDecoder|structuredClone|Error|Object|Function|ArrayBuffer|Uint8Array|NumberConstructor|BufferConstructor|RegExp)|aws-cdk-lib#(Duration|Fn|Aws|Size|Token|Lazy|Arn|CfnParameter)|date-fns|es-toolkit|etag|@date-fns|node:path|path#|node:crypto|crypto#|node:zlib#\w*Sync|zlib#\w*Sync|node:querystring|querystring#)/;
  I.throwingPure = /JSON\.parse|URL$|decodeURI|Sync$|RegExp$|BigInt$|toISOString/;
  const N = (k, f) => I.natives.set(k, f);
  const arg = (a, i) => (a[i] && !a[i].spread ? a[i] : I.UNDEF);

  // ---------- strings and numbers
  N("lib#String", (a) => I.lift([arg(a, 0)], (l) => (l.t === "c" ? I.c(String(l.v)) : I.stringy(l) ? I.one(l) : I.s("str", [I.freeze(I.one(l))]))) ?? I.s("str", [I.freeze(arg(a, 0))]));
  N("lib#Number", (a) => I.lift([arg(a, 0)], (l) => (l.t === "c" && typeof l.v !== "bigint" ? I.c(Number(l.v)) : I.s("Number", [I.one(l)], numTy()))) ?? I.s("Number", [arg(a, 0)]));
  N("lib#Boolean", (a) => I.bool(I.truth(arg(a, 0))));
  for (const k of ["lib#parseInt", "lib#Number.parseInt"]) N(k, (a) => { const c = I.constOf(arg(a, 0)); const r = I.constOf(arg(a, 1)); return c && r ? I.c(parseInt(c.v, r.v)) : I.s("parseInt", [I.freeze(arg(a, 0)), arg(a, 1)], numTy()); });
  for (const k of ["lib#parseFloat", "lib#Number.parseFloat"]) N(k, (a) => { const c = I.constOf(arg(a, 0)); return c ? I.c(parseFloat(c.v)) : I.s("parseFloat", [I.freeze(arg(a, 0))], numTy()); });
  const numTy = () => I.checker.getNumberType?.();
  const boolTy = () => I.checker.getBooleanType?.();
  const strTy = () => I.checker.getStringType?.();
  I.numTy = numTy; I.strTy = strTy; I.boolTy = boolTy;
  const pred = (name, f) => (a) => {
    const r = I.lift([arg(a, 0)], (l) => (l.t === "c" ? I.c(f(l.v)) : I.bool(I.atom(`${name}:${I.freezeLeaf(l, 0).id}`, { kind: "pred", name, l: I.freezeLeaf(l, 0), text: `${name}(${I.showLeaf(l)})` }))));
    return r ?? I.s(name, [arg(a, 0)], boolTy());
  };
  for (const p of ["lib#isNaN", "lib#Number.isNaN"]) N(p, pred("isNaN", (v) => Number.isNaN(Number(v))));
  for (const p of ["lib#isFinite", "lib#Number.isFinite"]) N(p, pred("isFinite", (v) => Number.isFinite(v)));
  N("lib#Number.isInteger", pred("isInteger", (v) => Number.isInteger(v)));
  N("lib#Number.isSafeInteger", pred("isSafeInteger", (v) => Number.isSafeInteger(v)));
  N("lib#Array.isArray", (a) => {
    const r = I.lift([arg(a, 0)], (l) => (l.t === "o" ? I.c(l.rec.kind === "array") : l.t === "s" && l.op !== "obj" && l.op !== "arr" ? I.bool(I.atom(`isArray:${l.id}`, { kind: "pred", name: "isArray", l, text: `isArray(${I.showLeaf(l)})` })) : I.c(l.op === "arr")));
    return r ?? I.s("isArray", [arg(a, 0)]);
  });
  for (const fn of ["max", "min", "floor", "ceil", "round", "abs", "sqrt", "sin", "cos", "asin", "acos", "atan2", "pow", "trunc", "sign", "tan", "atan", "log", "log10", "exp"]) {
    N(`lib#Math.${fn}`, (a) => {
      const cs = a.map((x) => (x.spread ? null : I.constOf(x)));
      if (cs.every(Boolean)) return I.c(Math[fn](...cs.map((c) => c.v)));
      return I.lift(a.filter((x) => !x.spread), (...ls) => {
        if (ls.length === a.length && ls.every((l) => l.t === "c")) return I.c(Math[fn](...ls.map((l) => l.v)));
        let as = ls.map((l) => I.one(l));
        if (fn === "max" || fn === "min") as = as.sort((p, q) => p.alts[0].l.id - q.alts[0].l.id);
        return I.s(`Math.${fn}`, as.length === a.length ? as : a.map((x) => x.spread ? I.freeze(x.spread) : x), numTy());
      }) ?? I.s(`Math.${fn}`, a.map((x) => I.freeze(x.spread ?? x)), numTy());
    });
  }
  N("lib#Math.random", (a, n) => { const e = I.event("call", { name: "Math.random", owner: "lib#Math", args: [], fargs: [] }, n); return I.s("res", [e.id], numTy(), { ev: e }); });
  N("lib#Date.now", (a, n) => { const e = I.event("call", { name: "Date.now", owner: "lib#Date", args: [], fargs: [] }, n); e.res = I.s("now", [e.id], numTy(), { ev: e }); return e.res; });
  N("new lib#Date", (a, n) => {
    if (a.length === 0) {
      const e = I.event("call", { name: "Date.now", owner: "lib#Date", args: [], fargs: [] }, n);
      e.res = I.s("now", [e.id], numTy(), { ev: e });
      return I.s("Date", [e.res], I.tyOf(n));
    }
    return I.s("Date", a.map((x) => I.freeze(x.spread ?? x)), I.tyOf(n));
  });
  N("lib#performance.now", (a, n) => { const e = I.event("call", { name: "performance.now", owner: "lib#performance", args: [], fargs: [] }, n); e.res = I.s("now", [e.id], numTy(), { ev: e }); return e.res; });
  // ---------- JSON
  N("lib#JSON.stringify", (a, n) => {
    const v = I.freeze(arg(a, 0));
    const rest = a.slice(1).map((x) => I.freeze(x.spread ?? x));
    const e = I.event("call", { name: "JSON.stringify", owner: "lib#JSON", args: a.map((x) => x.spread ?? x), fargs: [v, ...rest], pure: true }, n);
    const folded = rest.length === 0 || rest.every((r) => I.constOf(r)) ? constJson(v) : undefined;
    if (folded !== undefined) return I.c(JSON.stringify(folded.v, null, rest[1] ? I.constOf(rest[1])?.v : undefined));
    const isUnd = I.constOf(v);
    if (isUnd && isUnd.v === undefined) return I.UNDEF;
    const r = I.s("json", rest.length ? [v, ...rest] : [v], strTy());
    if (I.opts.jsonThrows) {
      const un = jsonUnsafe(v);
      if (un !== 0) {
        const T = I.atom(`throw:${e.id}`, { kind: "throw", ev: e });
        e.T = I.bdd.and(T, un);
        I.throwUnder(e.T, I.s("err", [e.id], undefined, { ev: e }));
      }
    }
    return r;
  });
  // guard under which serializing v may throw: anything not known to be a string, number or boolean
  const jsonUnsafe = (v) => I.bdd.orAll(v.alts.map((a) => {
    const l = a.l;
    if (l.t === "c") return typeof l.v === "bigint" ? a.g : 0;
    if (I.stringy(l)) return 0;
    const ty = l.ty && I.checker.getNonNullableType(l.ty);
    const prim = ty && (ty.flags & ts.TypeFlags.Union ? ty.types : [ty]).every((t) => t.flags & (ts.TypeFlags.StringLike | ts.TypeFlags.NumberLike | ts.TypeFlags.BooleanLike));
    if (prim) return 0;
    if (l.t !== "s") return a.g;
    const ty2 = I.typeofLeaf(l);
    return I.bdd.and(a.g, I.bdd.not(I.bdd.orAll(["string", "number", "boolean"].flatMap((k) => ty2.alts.map((b) => I.bdd.and(b.g, b.l.t === "c" ? (b.l.v === k ? 1 : 0) : I.eqConst(b.l, I.cl(k))))))));
  }));
  const constJson = (v) => {
    const l = v.alts.length === 1 ? v.alts[0].l : null;
    if (!l) return undefined;
    if (l.t === "c") return typeof l.v === "bigint" ? undefined : { v: l.v };
    if (l.t === "s" && l.op === "obj" && !l.rest.length && !l.dyn.length) {
      const o = {};
      for (const [k, f] of l.fields) {
        if (f.has !== 1) return undefined;
        const x = constJson(f.v);
        if (!x) return undefined;
        o[k] = x.v;
      }
      return { v: o };
    }
    if (l.t === "s" && l.op === "arr") {
      const o = [];
      for (const i of l.items) {
        if (i.g !== 1 || i.each || i.spread) return undefined;
        const x = constJson(i.v);
        if (!x) return undefined;
        o.push(x.v);
      }
      return { v: o };
    }
    return undefined;
  };
  I.constJson = constJson;
  N("lib#JSON.parse", (a, n) => {
    const v = arg(a, 0);
    const c = I.constOf(v);
    if (c && typeof c.v === "string") { try { return fromJson(JSON.parse(c.v)); } catch { /* throws */ } }
    return I.opaque("call", { name: "JSON.parse", owner: "lib#JSON" }, a, n, { pure: true });
  });
  const fromJson = (x) => {
    if (Array.isArray(x)) { const r = I.alloc("array"); x.forEach((y) => I.pushItem(r, { v: fromJson(y) })); return r.val; }
    if (x && typeof x === "object") { const r = I.alloc("object"); for (const k of Object.keys(x)) I.setProp(r, k, fromJson(x[k])); return r.val; }
    return I.c(x);
  };
  N("lib#structuredClone", (a) => clone(arg(a, 0)));
  const clone = (v) => I.over(v, (l) => {
    if (l.t === "o" && l.rec.kind === "object") { const r = I.alloc("object"); I.spreadObj(r, I.one(l)); for (const [k, p] of r.props) I.mset(r.props, k, { v: clone(p.v), has: p.has }); return r.val; }
    if (l.t === "o" && l.rec.kind === "array") { const r = I.alloc("array"); for (const it of l.rec.items) I.pushItem(r, { ...it, v: clone(it.v) }); return r.val; }
    if (l.t === "s") return I.s("clone", [I.one(l)], l.ty);
    return I.one(l);
  });
  // ---------- Object
  N("lib#Object.freeze", (a) => arg(a, 0));
  N("lib#Object.assign", (a, n) => {
    const t = arg(a, 0);
    for (const s of a.slice(1)) {
      for (const al of I.at(t).alts) {
        if (al.l.t === "o" && (al.l.rec.kind === "object" || al.l.rec.kind === "inst")) I.spreadObj(al.l.rec, s.spread ?? s);
        else I.event("set", { name: "[assign]", recv: t, args: [s.spread ?? s], fargs: [I.freeze(s.spread ?? s)] }, n);
      }
    }
    return t;
  });
  I.objKeys = (v) => objList(v, "keys");
  const objList = (v, what, n) => I.over(v, (l) => {
    if (l.t === "o" && (l.rec.kind === "object" || (l.rec.kind === "inst" && !l.rec.ext))) {
      const r = I.alloc("array");
      for (const x of l.rec.rest) { const o = objList(x.v, what, n); I.pushItem(r, { v: o, spread: true, g: x.g }); }
      flatten(r);
      for (const [k, p] of l.rec.props) I.pushItem(r, { v: what === "keys" ? I.c(k) : what === "values" ? p.v : I.tuple([I.c(k), p.v]), g: p.has });
      for (const d of l.rec.dyn) I.pushItem(r, { v: what === "keys" ? d.key : what === "values" ? d.v : I.tuple([d.key, d.v]), g: d.g, each: d.each });
      return r.val;
    }
    if (l.t === "o" && l.rec.kind === "array") {
      const r = I.alloc("array");
      l.rec.items.forEach((it, i) => I.pushItem(r, { ...it, v: what === "keys" ? I.c(String(i)) : what === "values" ? it.v : I.tuple([I.c(String(i)), it.v]) }));
      return r.val;
    }
    if (l.t === "s" && l.op === "obj") {
      const r = I.alloc("array");
      for (const x of l.rest) I.pushItem(r, { v: objList(x.v, what, n), spread: true, g: x.g });
      flatten(r);
      for (const [k, p] of l.fields) I.pushItem(r, { v: what === "keys" ? I.c(k) : what === "values" ? p.v : I.tuple([I.c(k), p.v]), g: p.has });
      return r.val;
    }
    const fr = I.one(I.freezeLeaf(l, 0));
    // entries/keys/values of an opaque object share one iteration source
    const src = I.s("entries", [fr]);
    const r = I.alloc("array");
    const each = { key: `each:${src.alts[0].l.id}:0`, src, srcLeaf: src.alts[0].l };
    const k = I.s("key", [src], strTy());
    const val = I.s("get", [fr, k], indexTy(l));
    I.pushItem(r, { v: what === "keys" ? k : what === "values" ? val : I.tuple([k, val]), each });
    return r.val;
  });
  const indexTy = (l) => { try { return l.ty && (I.checker.getIndexTypeOfType(I.checker.getNonNullableType(l.ty), ts.IndexKind.String) ?? undefined); } catch { return undefined; } };
  N("lib#Object.keys", (a, n) => objList(arg(a, 0), "keys", n));
  N("lib#Object.values", (a, n) => objList(arg(a, 0), "values", n));
  N("lib#Object.entries", (a, n) => objList(arg(a, 0), "entries", n));
  N("lib#Object.fromEntries", (a, n) => {
    const r = I.alloc("object");
    I.iterate(arg(a, 0), n, (el) => I.setMemberLeaf(r.leaf, I.getProp(el, I.c(0)), I.getProp(el, I.c(1)), n));
    return r.val;
  });
  // es-toolkit helpers the repository uses
  const entryMap = (f) => (a, n) => {
    const r = I.alloc("object");
    I.iterate(objList(arg(a, 0), "entries", n), n, (el) => {
      const k = I.getProp(el, I.c(0)), v = I.getProp(el, I.c(1));
      const x = I.call(arg(a, 1), I.UNDEF, [v, k, arg(a, 0)], n);
      f(r, k, v, x, n);
    });
    return r.val;
  };
  N("es-toolkit#mapKeys", entryMap((r, k, v, x, n) => I.setMemberLeaf(r.leaf, x, v, n)));
  N("es-toolkit#mapValues", entryMap((r, k, v, x, n) => I.setMemberLeaf(r.leaf, k, x, n)));
  for (const [nm, f] of [["lowerFirst", (s) => s.slice(0, 1).toLowerCase() + s.slice(1)], ["upperFirst", (s) => s.slice(0, 1).toUpperCase() + s.slice(1)]])
    N(`es-toolkit#${nm}`, (a) => I.lift([arg(a, 0)], (l) => (l.t === "c" && typeof l.v === "string" ? I.c(f(l.v)) : I.s(nm, [I.one(l)], strTy()))) ?? I.s(nm, [I.freeze(arg(a, 0))], strTy()));
  N("lib#Object.hasOwn", (a) => I.bool(I.hasKey(arg(a, 0), arg(a, 1))));
  N("lib#Object.getPrototypeOf", (a) => I.s("proto", [arg(a, 0)]));
  I.tuple = (vs) => { const r = I.alloc("array"); vs.forEach((v) => I.push(r.items, { g: 1, v })); return r.val; };
  // ---------- Array constructors
  const newArr = () => I.alloc("array");
  N("lib#Array.from", (a, n) => {
    const r = newArr();
    const src = arg(a, 0);
    const ls = I.single(src);
    if (ls?.t === "o" && ls.rec.kind === "object" && ls.rec.props.has("length")) {
      const len = I.constOf(ls.rec.props.get("length").v);
      if (len && len.v <= 64) { for (let i = 0; i < len.v; i++) I.pushItem(r, { v: a[1] ? I.call(a[1], I.UNDEF, [I.UNDEF, I.c(i)], n) : I.UNDEF }); return r.val; }
      return I.s("Array.from", [I.freeze(src)]);
    }
    I.iterate(src, n, (el, ix) => I.pushItem(r, { v: a[1] ? I.call(a[1], I.UNDEF, [el, ix], n) : el }));
    return r.val;
  });
  N("lib#Array.of", (a) => { const r = newArr(); a.forEach((x) => I.pushItem(r, { v: x.spread ?? x, spread: !!x.spread })); return r.val; });
  N("new lib#Array", (a) => { const r = newArr(); return a.length === 0 ? r.val : I.s("Array", a.map((x) => x.spread ?? x)); });
  N("lib#Array", I.natives.get("new lib#Array"));
  // ---------- Map / Set
  N("new lib#Map", (a, n) => {
    const r = I.alloc("map", { entries: [] });
    if (a[0] && !I.constOf(a[0])) I.iterate(a[0], n, (el) => I.pushEntry(r, { key: I.getProp(el, I.c(0)), v: I.getProp(el, I.c(1)) }));
    return r.val;
  });
  N("new lib#WeakMap", I.natives.get("new lib#Map"));
  N("new lib#Set", (a, n) => {
    const r = I.alloc("set", { entries: [] });
    if (a[0] && !I.constOf(a[0])) I.iterate(a[0], n, (el) => I.pushEntry(r, { key: el }));
    return r.val;
  });
  N("lib#RegExp", (a) => I.s("regex", [I.constOf(arg(a, 0))?.v ?? I.freeze(arg(a, 0)), a[1] ? I.constOf(a[1])?.v ?? a[1] : ""]));
  N("new lib#RegExp", I.natives.get("lib#RegExp"));
  // ---------- Promise
  const withFut = (f) => {
    const fut = { cons: [] };
    I.futs.push(fut);
    let res;
    try { res = f(); } finally { I.futs.pop(); }
    const l = I.single(res);
    if (l?.t === "o" && l.rec.kind === "promise" && !l.rec.ev) l.rec.cons = fut.cons;
    return res;
  };
  N("lib#Promise.resolve", (a) => withFut(() => {
    for (const x of I.at(arg(a, 0)).alts) if (x.l.t === "o" && x.l.rec.kind === "promise") I.consume(x.l.rec);
    return I.resolvedPromise(arg(a, 0));
  }));
  N("lib#Promise.reject", (a) => { const pc = I.pc; return I.makePromise(I.UNDEF, 0, pc, arg(a, 0)); });
  const promiseList = (v, n, f) => {
    // await each element; rejections collected
    const pc0 = I.pc;
    I.handlers.push({ g: 0, v: I.UNDEF });
    const r = newArr();
    I.iterate(v, n, (el) => {
      const x = f(el);
      if (I.pc !== 0) I.pushItem(r, { v: x });
    });
    const h = I.handlers.pop();
    const end = I.pc;
    I.pc = pc0;
    return { r, h, end };
  };
  N("lib#Promise.all", (a, n) => withFut(() => {
    const { r, h, end } = promiseList(arg(a, 0), n, (el) => I.settle(el));
    return I.makePromise(r.val, end, h.g, h.v);
  }));
  N("lib#Promise.allSettled", (a, n) => withFut(() => {
    const e = I.event("call", { name: "Promise.allSettled", owner: "lib#Promise", args: [arg(a, 0)], fargs: [I.freeze(arg(a, 0))] }, n);
    const { r } = promiseList(arg(a, 0), n, (el) => {
      I.handlers.push({ g: 0, v: I.UNDEF });
      const p0 = I.pc;
      const v = I.settle(el);
      const h = I.handlers.pop();
      I.pc = p0;
      const o = I.alloc("object");
      I.setProp(o, "status", I.mkVal([{ l: I.cl("fulfilled"), g: I.bdd.not(h.g) }, { l: I.cl("rejected"), g: h.g }]));
      I.setProp(o, "value", v);
      I.setProp(o, "reason", h.v);
      return o.val;
    });
    return I.resolvedPromise(r.val);
  }));
  const anyOf = (what) => (a, n) => withFut(() => {
    const l = I.single(arg(a, 0));
    if (!(l?.t === "o" && l.rec.kind === "array" && l.rec.items.every((i) => i.g === 1 && !i.each && !i.spread))) return I.opaque("call", { name: `Promise.${what}`, owner: "lib#Promise" }, a, n, { promise: true });
    const e = I.event("call", { name: `Promise.${what}`, owner: "lib#Promise", args: [arg(a, 0)], fargs: [] }, n);
    const its = l.rec.items.map((i) => i.v);
    // the first to settle: a free choice per element
    const pc0 = I.pc;
    let rem = pc0;
    const alts = [];
    let rejG = 0, rejV = I.UNDEF, pend = 0;
    const settledG = (v) => I.bdd.orAll(v.alts.map((x) => (x.l.t === "o" && x.l.rec.kind === "promise" ? I.bdd.and(x.g, I.bdd.not(x.l.rec.pendG || 0)) : x.g)));
    its.forEach((v, i) => {
      const later = I.bdd.orAll(its.slice(i + 1).map(settledG));
      const pick = later === 0 ? 1 : I.bdd.or(I.bdd.not(later), I.atom(`first:${e.id}:${i}`, { kind: "race", ev: e, i, text: `settles first #${i} of ${e.label}` }));
      const w = i === its.length - 1 && its.every((x) => settledG(x) === 1) ? rem : I.bdd.andAll([rem, settledG(its[i]), pick]);
      rem = I.bdd.and(rem, I.bdd.not(w));
      for (const al of v.alts) {
        if (al.l.t === "o" && al.l.rec.kind === "promise") {
          const p = al.l.rec;
          I.consume(p);
          const g = I.bdd.and(w, al.g);
          const rj = I.bdd.and(g, p.rejG);
          if (rj !== 0) { rejV = rejG === 0 ? p.rejV : I.ite(rj, p.rejV, rejV); rejG = I.bdd.or(rejG, rj); }
          if (p.pendG) pend = I.bdd.or(pend, I.bdd.and(g, p.pendG));
          for (const b of p.pv.alts) alts.push({ l: b.l, g: I.bdd.and(g, b.g) });
        } else alts.push({ l: al.l, g: I.bdd.and(w, al.g) });
      }
    });
    pend = I.bdd.or(pend, rem); // nothing settles
    return I.makePromise(I.mkVal(alts), I.bdd.and(pc0, I.bdd.not(I.bdd.or(rejG, pend))), rejG, rejV);
  });
  N("lib#Promise.race", anyOf("race"));
  N("lib#Promise.any", anyOf("any"));
  N("new lib#Promise", (a, n) => {
    const p = I.alloc("promise", { pv: I.UNDEF, rejG: 0, rejV: I.UNDEF, pendG: 1, executor: true });
    const settle = (rej) => I.native(rej ? "reject" : "resolve", (as, th, nd) => {
      let v = as[0] ?? I.UNDEF;
      const pc = I.pc;
      const g = I.bdd.and(I.bdd.restrict(pc, p.g), p.pendG);
      I.event("settle", { name: rej ? "reject" : "resolve", promise: p, args: [v], fargs: [I.freeze(v)] }, nd);
      if (g === 0) return I.UNDEF;
      const first = p.pendG === 1 && p.rejG === 0;
      if (rej) {
        I.set(p, "rejV", p.rejG === 0 ? v : I.ite(g, v, p.rejV));
        I.set(p, "rejG", I.bdd.or(p.rejG, g));
      } else {
        let rg = 0;
        const out = [];
        for (const al of I.at(v).alts) {
          if (al.l.t === "o" && al.l.rec.kind === "promise") {
            const q = al.l.rec;
            I.push((q.cons ??= []), { g, q: p });
            const rj = I.bdd.andAll([g, al.g, q.rejG]);
            if (rj) { I.set(p, "rejV", p.rejG === 0 ? q.rejV : I.ite(rj, q.rejV, p.rejV)); rg = I.bdd.or(rg, rj); }
            for (const b of q.pv.alts) out.push({ l: b.l, g: I.bdd.and(al.g, b.g) });
          } else out.push(al);
        }
        v = I.mkVal(out);
        I.set(p, "rejG", I.bdd.or(p.rejG, rg));
        I.set(p, "pv", p.hasV ? I.ite(g, v, p.pv) : v);
        I.set(p, "hasV", true);
      }
      I.set(p, "pendG", I.bdd.and(p.pendG, I.bdd.not(g)));
      return I.UNDEF;
    });
    const pc0 = I.pc;
    I.handlers.push({ g: 0, v: I.UNDEF });
    const fs = [settle(false), settle(true)];
    for (const x of fs) x.alts[0].l.settler = true;
    I.call(arg(a, 0), I.UNDEF, fs, n);
    const h = I.handlers.pop();
    if (h.g !== 0) {
      const g = I.bdd.and(I.bdd.restrict(h.g, p.g), p.pendG);
      if (g) { I.set(p, "rejV", p.rejG === 0 ? h.v : I.ite(g, h.v, p.rejV)); I.set(p, "rejG", I.bdd.or(p.rejG, g)); I.set(p, "pendG", I.bdd.and(p.pendG, I.bdd.not(g))); }
    }
    I.pc = pc0;
    return p.val;
  });
  const then = (l, onF, onR, n, fin) => {
    const p = l.rec;
    const fut = { cons: [] };
    I.futs.push(fut);
    I.consume(p);
    const b = I.bdd;
    const pc0 = I.pc;
    const pend = p.pendG ? b.and(pc0, p.pendG) : 0;
    const rejPc = b.and(b.and(pc0, p.rejG), b.not(pend));
    const okPc = b.and(b.and(pc0, b.not(p.rejG)), b.not(pend));
    I.handlers.push({ g: 0, v: I.UNDEF });
    let okV = I.at(p.pv, okPc || 1), okEnd = okPc, rV = I.UNDEF, rEnd = 0;
    const isFn = (v) => v && !v.spread && I.at(v).alts.some((x) => x.l.t !== "c");
    if (fin) {
      if (isFn(fin)) {
        I.pc = b.or(okPc, rejPc);
        if (I.pc) { const x = I.call(fin, I.UNDEF, [], n); I.settle(x); }
        okEnd = b.and(okPc, I.pc);
        const rr = b.and(rejPc, I.pc);
        I.pc = rr;
        if (rr) I.throwUnder(1, p.rejV);
      } else { I.pc = rejPc; if (rejPc) I.throwUnder(1, p.rejV); }
    } else {
      if (isFn(onF) && okPc) { I.pc = okPc; okV = I.call(onF, I.UNDEF, [okV], n); okV = I.pc ? I.settle(okV) : okV; okEnd = I.pc; }
      if (rejPc) {
        I.pc = rejPc;
        if (isFn(onR)) { rV = I.call(onR, I.UNDEF, [I.at(p.rejV)], n); rV = I.pc ? I.settle(rV) : rV; rEnd = I.pc; }
        else I.throwUnder(1, p.rejV);
      }
    }
    const h = I.handlers.pop();
    I.pc = pc0;
    const v = rEnd === 0 ? okV : okEnd === 0 ? rV : I.ite(rEnd, rV, okV);
    const res = I.makePromise(v, b.or(okEnd, rEnd), h.g, h.v);
    I.futs.pop();
    I.single(res).rec.cons = fut.cons;
    return res;
  };
  // ---------- misc globals
  N("lib#Symbol", (a) => I.s("symbol", [String(++I.heapN)]));
  N("lib#process.hrtime", (a, n) => I.opaque("call", { name: "process.hrtime", owner: "lib#process" }, a, n, { noThrow: true }));
  for (const t of ["lib#setTimeout", "lib#setInterval", "node:timers#setTimeout"]) N(t, (a, n) => I.opaque("call", { name: t.replace(/.*#/, ""), owner: "lib#timers" }, a, n, { noThrow: true }));
  for (const t of ["lib#clearTimeout", "lib#clearInterval"]) N(t, (a, n) => I.opaque("call", { name: t.slice(4), owner: "lib#timers" }, a, n, { noThrow: true }));

  // ---------- arrays
  const flatten = (rec) => {
    // splice in known arrays that were pushed as spreads
    const out = [];
    let changed = false;
    for (const it of rec.items) {
      const l = it.spread ? I.at(it.v).alts : null;
      if (l && l.length === 1 && l[0].l.t === "o" && l[0].l.rec.kind === "array") {
        changed = true;
        for (const x of l[0].l.rec.items) out.push({ ...x, g: I.bdd.and(x.g, it.g), each: x.each ?? it.each });
      } else out.push(it);
    }
    if (changed) { I.set(rec, "items", out); }
    return rec;
  };
  I.flattenSpreads = flatten;
  I.spreadItem = (v) => ({ g: 1, v, spread: true });
  I.spreadInto = (rec, v) => {
    v = I.at(v);
    const pc0 = I.pc;
    for (const a of v.alts) {
      I.pc = I.bdd.and(pc0, a.g);
      if (!I.pc) continue;
      const l = a.l;
      if (l.t === "c" && typeof l.v === "string") { for (const ch of l.v) I.pushItem(rec, { v: I.c(ch) }); continue; }
      if (l.t === "o" && l.rec.kind === "array") { for (const it of [...l.rec.items]) I.pushItem(rec, { ...it }); continue; }
      if (l.t === "o" && l.rec.kind === "set") { for (const it of l.rec.entries) I.pushItem(rec, { v: it.key, g: it.g, each: it.each }); continue; }
      if (l.t === "o" && l.rec.kind === "map") { for (const it of l.rec.entries) I.pushItem(rec, { v: I.tuple([it.key, it.v]), g: it.g, each: it.each }); continue; }
      if (l.t === "s" && l.op === "arr") { for (const it of l.items) I.pushItem(rec, { ...it }); continue; }
      I.pushItem(rec, { v: I.one(l), spread: true });
    }
    I.pc = pc0;
  };
  I.arraySlice = (v, i) => I.over(v, (l) => {
    if (l.t === "o" && l.rec.kind === "array" && l.rec.items.slice(0, i).every((x) => x.g === 1 && !x.each && !x.spread)) { const r = newArr(); l.rec.items.slice(i).forEach((it) => I.pushItem(r, { ...it })); return r.val; }
    return I.s("slice", [I.freeze(I.one(l)), i]);
  });
  const isArrTy = (ty) => { if (!ty) return false; try { const t = I.checker.getNonNullableType(ty); return I.checker.isArrayType(t) || I.checker.isTupleType(t) || (t.isUnion() && t.types.every((x) => I.checker.isArrayType(x))); } catch { return false; } };
  I.isArrTy = isArrTy;
  const plain = (rec) => rec.items.every((i) => i.g === 1 && !i.each && !i.spread);
  const cb = (f, el, ix, arr, n) => I.call(f, I.UNDEF, [el, ix, arr], n);
  const arrMethods = {
    push(l, a, n) { for (const x of a) { if (x.spread) I.spreadInto(l.rec, x.spread); else I.pushItem(l.rec, { v: x }); } return I.s("len", [I.freeze(I.one(l))]); },
    unshift(l, a) { const items = [...a.map((x) => ({ g: I.bdd.restrict(I.pc, l.rec.g), v: x.spread ?? x, spread: !!x.spread })), ...l.rec.items]; I.note({ kind: "prop", rec: l.rec, key: "#items" }); I.set(l.rec, "items", items); return I.UNDEF; },
    forEach(l, a, n) { I.iterate(I.one(l), n, (el, ix) => { const r = cb(arg(a, 0), el, ix, I.one(l), n); void r; }); return I.UNDEF; },
    map(l, a, n) { const r = newArr(); I.iterate(I.one(l), n, (el, ix) => { const v = cb(arg(a, 0), el, ix, I.one(l), n); if (I.pc) I.pushItem(r, { v }); }); return r.val; },
    flatMap(l, a, n) { const r = newArr(); I.iterate(I.one(l), n, (el, ix) => { const v = cb(arg(a, 0), el, ix, I.one(l), n); if (I.pc) I.spreadInto(r, v); }); return r.val; },
    filter(l, a, n) { const r = newArr(); I.iterate(I.one(l), n, (el, ix) => { const g = I.truth(cb(arg(a, 0), el, ix, I.one(l), n)); if (I.pc && g) I.pushItem(r, { v: el, g: I.bdd.restrict(I.bdd.and(I.pc, g), r.g) }); }); return r.val; },
    reduce(l, a, n) {
      const env = { v: arg(a, 1), g: I.pc, born: ++I.heapN };
      let started = a.length > 1;
      if (!started) { if (l.t === "o" && plain(l.rec) && l.rec.items.length) { env.v = l.rec.items[0].v; } else return I.opaque("call", { name: "reduce", owner: "lib#Array", recv: I.one(l) }, a, n, { pure: true, noThrow: true }); }
      const src = started ? I.one(l) : I.arraySlice(I.one(l), 1);
      I.iterate(src, n, (el, ix) => { const v = I.call(arg(a, 0), I.UNDEF, [env.v, el, ix, I.one(l)], n); if (I.pc) I.setCell(env, v); });
      return I.at(env.v);
    },
    some(l, a, n) { return quant(l, a, n, true); },
    every(l, a, n) { return quant(l, a, n, false); },
    find(l, a, n) { return findIn(l, a, n, "find"); },
    findLast(l, a, n) { return findIn(l, a, n, "findLast"); },
    findIndex(l, a, n) { return findIn(l, a, n, "findIndex"); },
    includes(l, a, n) { return I.bool(member(l, arg(a, 0), n)); },
    indexOf(l, a, n) {
      if (l.t === "o" && plain(l.rec)) {
        const alts = []; let used = 0;
        l.rec.items.forEach((it, i) => { const g = I.bdd.and(I.eq(it.v, arg(a, 0)), I.bdd.not(used)); alts.push({ l: I.cl(i), g }); used = I.bdd.or(used, g); });
        alts.push({ l: I.cl(-1), g: I.bdd.not(used) });
        return I.at(I.mkVal(alts));
      }
      return I.s("indexOf", [I.freeze(I.one(l)), I.freeze(arg(a, 0))], numTy());
    },
    concat(l, a) { const r = newArr(); I.spreadInto(r, I.one(l)); for (const x of a) { const v = x.spread ?? x; for (const al of I.at(v).alts) { const pc0 = I.pc; I.pc = I.bdd.and(pc0, al.g); if (I.pc) { if ((al.l.t === "o" && al.l.rec.kind === "array") || (al.l.t === "s" && (al.l.op === "arr" || isArrTy(al.l.ty)))) I.spreadInto(r, I.one(al.l)); else I.pushItem(r, { v: I.one(al.l) }); } I.pc = pc0; } } return r.val; },
    join(l, a) {
      const sep = a.length ? arg(a, 0) : I.c(",");
      if (l.t === "o" && plain(l.rec)) { const parts = []; l.rec.items.forEach((it, i) => { if (i) parts.push(sep); parts.push(it.v); }); return parts.length ? (parts.length === 1 ? I.concat([...parts, I.c("")]) : I.concat(parts)) : I.c(""); }
      return I.s("join", [I.freeze(I.one(l)), sep], strTy());
    },
    slice(l, a) {
      const s = a.length ? I.constOf(arg(a, 0)) : { v: 0 }, e = a.length > 1 ? I.constOf(arg(a, 1)) : { v: undefined };
      if (l.t === "o" && s && e && (plain(l.rec) || (s.v === 0 && e.v === undefined))) { const r = newArr(); l.rec.items.slice(s.v, e.v).forEach((it) => I.pushItem(r, { ...it })); return r.val; }
      if (s && e && s.v === 0 && e.v === undefined) { const r = newArr(); I.spreadInto(r, I.one(l)); return r.val; }
      return I.s("slice", [I.freeze(I.one(l)), ...a.map((x) => x.spread ?? x)], l.ty);
    },
    at(l, a, n) { const c = I.constOf(arg(a, 0)); if (c && l.t === "o" && plain(l.rec)) return l.rec.items.at(c.v)?.v ?? I.UNDEF; if (c && c.v >= 0) return I.getProp(I.one(l), I.c(c.v), n, n && I.tyOf(n)); return I.s("at", [I.freeze(I.one(l)), arg(a, 0)], n && I.tyOf(n)); },
    flat(l) { const r = newArr(); if (l.t === "o") { for (const it of l.rec.items) { const pc0 = I.pc; I.pc = I.bdd.and(pc0, it.g); if (I.pc && !it.spread && !it.each) I.spreadInto(r, it.v); else if (I.pc) { const k = r.items.length; I.spreadInto(r, it.v); for (const x of r.items.slice(k)) x.each = x.each ?? it.each; } I.pc = pc0; } return r.val; } return I.s("flat", [I.one(l)], l.ty); },
    entries(l) { const r = newArr(); if (l.t === "o") { l.rec.items.forEach((it, i) => I.pushItem(r, { ...it, v: I.tuple([plain(l.rec) ? I.c(i) : I.s("idx", [I.one(l), i]), it.v]) })); return r.val; } const each = eachOf(l); I.pushItem(r, { v: I.tuple([I.s("eidx", [I.one(l), 0]), I.s("elem", [I.one(l), 0], I.elemType(l.ty))]), each }); return r.val; },
    values(l) { return I.one(l); },
    keys(l) { const r = newArr(); if (l.t === "o" && plain(l.rec)) { l.rec.items.forEach((it, i) => I.pushItem(r, { v: I.c(i) })); return r.val; } return I.s("arrkeys", [I.freeze(I.one(l))]); },
    toString(l) { return arrMethods.join(l, []); },
    fill(l, a, n) { return I.s("fill", [I.freeze(I.one(l)), ...a.map((x) => x.spread ?? x)]); },
  };
  const eachOf = (l) => ({ key: `each:${l.id}:0`, src: I.one(l), srcLeaf: l });
  const mutators = new Set(["sort", "reverse", "splice", "pop", "shift", "fill", "copyWithin", "push", "unshift"]);
  const quant = (l, a, n, some) => {
    // exists(el: p) / !exists(el: !p)
    const cell = { v: some ? I.FALSE : I.TRUE, g: I.pc, born: ++I.heapN };
    I.iterate(I.one(l), n, (el, ix) => {
      const g = I.truth(cb(arg(a, 0), el, ix, I.one(l), n));
      const pc0 = I.pc;
      I.pc = I.bdd.and(pc0, some ? g : I.bdd.not(g));
      if (I.pc) I.setCell(cell, some ? I.TRUE : I.FALSE);
      I.pc = pc0;
    });
    return I.at(cell.v);
  };
  const findIn = (l, a, n, what) => {
    if (l.t === "o" && l.rec.items.every((i) => !i.each && !i.spread)) {
      const alts = []; let used = 0;
      const its = what === "findLast" ? [...l.rec.items].reverse() : l.rec.items;
      its.forEach((it, i) => {
        const pc0 = I.pc;
        I.pc = I.bdd.and(pc0, it.g);
        const g = I.pc ? I.bdd.and(it.g, I.truth(cb(arg(a, 0), it.v, I.c(i), I.one(l), n))) : 0;
        I.pc = pc0;
        const w = I.bdd.and(g, I.bdd.not(used));
        used = I.bdd.or(used, g);
        for (const x of (what === "findIndex" ? I.c(i) : it.v).alts) alts.push({ l: x.l, g: I.bdd.and(w, x.g) });
      });
      alts.push({ l: I.cl(what === "findIndex" ? -1 : undefined), g: I.bdd.not(used) });
      return I.at(I.mkVal(alts));
    }
    // opaque source: present iff some element satisfies the predicate
    const cell = { v: what === "findIndex" ? I.c(-1) : I.UNDEF, g: I.pc, born: ++I.heapN };
    I.iterate(I.one(l), n, (el, ix) => {
      const g = I.truth(cb(arg(a, 0), el, ix, I.one(l), n));
      const pc0 = I.pc;
      I.pc = I.bdd.and(pc0, g);
      if (I.pc) I.setCell(cell, what === "findIndex" ? ix : el);
      I.pc = pc0;
    });
    return I.at(cell.v);
  };
  const member = (l, v, n) => {
    let r = 0;
    const items = l.t === "o" ? l.rec.items : l.op === "arr" ? l.items : null;
    if (items) {
      for (const it of items) {
        if (it.spread) for (const al of I.at(it.v).alts) r = I.bdd.or(r, I.bdd.andAll([it.g, al.g, memberOpaque(al.l, v)]));
        else if (it.each) r = I.bdd.or(r, memberOpaque(I.freezeLeaf(l, 0), v));
        else r = I.bdd.or(r, I.bdd.and(it.g, I.eq(it.v, v)));
      }
      return r;
    }
    return memberOpaque(l, v);
  };
  const memberOpaque = (l, v) => {
    let r = 0;
    for (const a of I.at(v).alts) r = I.bdd.or(r, I.bdd.and(a.g, I.atom(`in:${l.id}:${I.freezeLeaf(a.l, 0).id}`, { kind: "member", l, k: a.l, text: `${I.showLeaf(a.l)} in ${I.showLeaf(l)}` })));
    return r;
  };
  const mapMethods = {
    get(l, a) { return mapGet(l.rec, arg(a, 0)); },
    has(l, a) { let r = 0; for (const e of l.rec.entries) r = e.each || (I.at(e.key).alts.some((x) => x.l.t !== "c") && I.at(arg(a, 0)).alts.some((x) => x.l.t !== "c") && I.eq(e.key, arg(a, 0)) === 0) ? I.bdd.or(r, e.each ? memberOpaque(l, arg(a, 0)) : 0) : I.bdd.or(r, I.bdd.and(e.g, I.eq(e.key, arg(a, 0)))); if (l.rec.open) r = I.bdd.or(r, memberOpaque(l, arg(a, 0))); return I.bool(r); },
    set(l, a) { I.pushEntry(l.rec, { key: arg(a, 0), v: arg(a, 1) }); return I.one(l); },
    add(l, a) { I.pushEntry(l.rec, { key: arg(a, 0) }); return I.one(l); },
    delete(l, a) { const k = arg(a, 0); const g0 = I.bdd.restrict(I.pc, l.rec.g); I.note({ kind: "prop", rec: l.rec, key: "#entries" }); I.set(l.rec, "entries", l.rec.entries.map((e) => ({ ...e, g: I.bdd.and(e.g, I.bdd.not(I.bdd.and(g0, I.eq(e.key, k)))) })).filter((e) => e.g !== 0)); return I.TRUE; },
    clear(l) { I.set(l.rec, "entries", I.pc === 1 ? [] : l.rec.entries.map((e) => ({ ...e, g: I.bdd.and(e.g, I.bdd.not(I.pc)) }))); return I.UNDEF; },
    forEach(l, a, n) { I.iterate(I.one(l), n, (el) => { if (l.rec.kind === "set") I.call(arg(a, 0), I.UNDEF, [el, el], n); else I.call(arg(a, 0), I.UNDEF, [I.getProp(el, I.c(1)), I.getProp(el, I.c(0))], n); }); return I.UNDEF; },
    entries(l) { return I.one(l); },
    values(l) { const r = newArr(); for (const e of l.rec.entries) I.pushItem(r, { v: l.rec.kind === "set" ? e.key : e.v, g: e.g, each: e.each }); return r.val; },
    keys(l) { const r = newArr(); for (const e of l.rec.entries) I.pushItem(r, { v: e.key, g: e.g, each: e.each }); return r.val; },
  };
  const mapGet = (rec, k) => {
    let acc = rec.open || rec.entries.some((e) => e.each) ? I.s("mapget", [I.one(rec.leaf), I.freeze(k), rec.entries.length]) : I.UNDEF;
    for (const e of rec.entries) {
      if (e.each) continue;
      const g = I.bdd.and(e.g, I.eq(e.key, k));
      acc = I.ite(g, e.v, acc);
    }
    return I.at(acc);
  };
  const strMethod = (l, key, a, n) => {
    const consts = a.map((x) => (x.spread ? null : I.constOf(x)));
    if (l.t === "c" && STR_FOLD.has(key) && consts.every(Boolean)) { const r = l.v[key](...consts.map((c) => c.v)); return I.c(r); }
    if (l.t === "c" && key === "toString") return I.c(l.v);
    const rx = a[0] && !a[0].spread ? regexOf(a[0]) : null;
    if (l.t === "c" && (key === "replace" || key === "replaceAll") && (consts[0] || rx) && consts[1]) return I.c(l.v[key](rx ?? consts[0].v, consts[1].v));
    if (l.t === "c" && key === "split" && (consts[0] || rx)) { const r = newArr(); l.v.split(rx ?? consts[0].v).forEach((x) => I.pushItem(r, { v: I.c(x) })); return r.val; }
    if (l.t === "c" && key === "match" && rx) { const m = l.v.match(rx); if (!m) return I.NULL; const r = newArr(); [...m].forEach((x) => I.pushItem(r, { v: I.c(x) })); return r.val; }
    if (key === "toString" || key === "valueOf") return I.one(l);
    if (key === "concat") return I.concat([I.one(l), ...a.map((x) => x.spread ?? x)]);
    if (key === "startsWith" && l.t === "s" && l.op === "concat") {
      const h = I.constOf(l.args[0]);
      if (h && consts[0] && String(h.v).length >= consts[0].v.length) return I.c(String(h.v).startsWith(consts[0].v));
    }
    if ((key === "includes" || key === "startsWith" || key === "endsWith") && a.length >= 1) {
      const fv = a.map((x) => I.freeze(x.spread ?? x));
      const r = I.lift(fv, (...ls) => I.bool(I.atom(`str.${key}:${l.id}:${ls.map((x) => x.id)}`, { kind: "pred", name: `str.${key}`, l, args: ls, text: `${I.showLeaf(l)}.${key}(${ls.map((x) => I.showLeaf(x))})` })));
      if (r) return r;
    }
    if ((key === "replace" || key === "replaceAll") && a[1] && I.single(a[1])?.t === "f") return I.opaque("call", { name: key, owner: "lib#String", recv: I.one(l) }, a, n, { pure: true, noThrow: true });
    return I.s(`str.${key}`, [I.one(l), ...a.map((x) => I.freeze(x.spread ?? x))], n ? I.tyOf(n) : undefined);
  };
  const regexOf = (v) => {
    const l = I.single(v);
    if (l?.t === "s" && l.op === "regex" && typeof l.args[0] === "string" && typeof l.args[1] === "string") { try { return new RegExp(l.args[0], l.args[1]); } catch { return null; } }
    return null;
  };
  I.regexOf = regexOf;
  // returns undefined when no model applies
  I.builtinMethod = (l, key, args, n) => {
    if (l.t === "c") {
      if (typeof l.v === "string" && STR_METHODS.has(key)) return strMethod(l, key, args, n);
      if (typeof l.v === "number" || typeof l.v === "boolean") {
        if (key === "toString") return I.c(l.v.toString(...args.map((x) => I.constOf(x)?.v)));
        if (key === "toFixed") return I.c(l.v.toFixed(I.constOf(arg(args, 0))?.v));
      }
      return I.s(`m:${key}`, [I.one(l), ...args.map((x) => x.spread ?? x)], n && I.tyOf(n));
    }
    if (l.t === "f" || l.t === "k") {
      if (l.t === "k" && key !== "bind") return undefined;
      if (key === "bind") return I.one(I.leaf(`bind:${l.id}:${++I.heapN}`, () => ({ t: "f", name: l.name, bound: { f: l, thisVal: arg(args, 0), args: args.slice(1) } })));
      if (key === "call") return I.invoke(l, arg(args, 0), args.slice(1), n);
      if (key === "apply") { const arr = I.single(arg(args, 1)); return I.invoke(l, arg(args, 0), arr?.t === "o" ? arr.rec.items.map((i) => i.v) : [{ spread: arg(args, 1) }], n); }
      return undefined;
    }
    if (l.t === "o") {
      const r = l.rec;
      if (r.kind === "promise") {
        if (key === "then") return then(l, args[0], args[1], n);
        if (key === "catch") return then(l, null, args[0], n);
        if (key === "finally") return then(l, null, null, n, arg(args, 0));
        // a promise with extra methods (for example ky's .json()/.text())
        const T = r.ev?.T;
        const v = I.s("pm", [I.at(r.pv), key, ...args.map((x) => I.freeze(x.spread ?? x))], n && I.awaitedType(I.tyOf(n)));
        const p = I.alloc("promise", { pv: v, rejG: r.rejG, rejV: r.rejV, pendG: r.pendG, ev: r.ev });
        const e = I.event("call", { name: key, owner: "promise", recv: I.one(l), args, fargs: args.map((x) => I.freeze(x.spread ?? x)) }, n);
        const T2 = I.atom(`throw:${e.id}`, { kind: "throw", ev: e });
        e.T = T2; e.res = v;
        const er = I.s("err", [e.id], undefined, { ev: e });
        e.err = er;
        p.rejV = r.rejG ? I.ite(r.rejG, r.rejV, er) : er;
        p.rejG = I.bdd.or(r.rejG, T2);
        return p.val;
      }
      if (r.kind === "array") {
        if (arrMethods[key]) return arrMethods[key](l, args, n);
        if (mutators.has(key)) {
          const v = I.opaque("call", { name: key, owner: "lib#Array", recv: I.one(l), mutates: true }, args, n, { noThrow: true });
          if (key === "pop" || key === "shift") {
            if (plain(r) && r.items.length) { const it = key === "pop" ? r.items[r.items.length - 1] : r.items[0]; I.note({ kind: "prop", rec: r, key: "#items" }); if (I.bdd.restrict(I.pc, r.g) === 1) I.set(r, "items", key === "pop" ? r.items.slice(0, -1) : r.items.slice(1)); return it.v; }
            return v;
          }
          if (key === "sort" || key === "reverse") {
            if (r.items.length > 1 || !plain(r)) {
              const s = I.s(key, [I.freeze(I.one(l)), ...args.map((x) => I.freeze(x.spread ?? x))], n && I.tyOf(n));
              I.note({ kind: "prop", rec: r, key: "#items" });
              I.set(r, "items", [{ g: 1, v: s, spread: true }]);
            }
            return I.one(l);
          }
          if (key === "splice") { const s = I.s("splice", [I.freeze(I.one(l)), ...args.map((x) => I.freeze(x.spread ?? x))]); I.note({ kind: "prop", rec: r, key: "#items" }); I.set(r, "items", [{ g: 1, v: s, spread: true }]); return v; }
          return v;
        }
        if (key === "toSorted" || key === "toReversed" || key === "with" || key === "toSpliced") return I.s(key, [I.freeze(I.one(l)), ...args.map((x) => I.freeze(x.spread ?? x))], n && I.tyOf(n));
        return undefined;
      }
      if (r.kind === "map" || r.kind === "set") return mapMethods[key]?.(l, args, n);
      if (r.kind === "object" || r.kind === "inst") {
        if (key === "hasOwnProperty" && !r.props.has(key)) return I.bool(I.hasKey(I.one(l), arg(args, 0)));
        if (key === "toString" && !r.props.has(key) && !(r.cls && I.findMember(r.cls, "toString")?.node)) return I.s("str", [I.one(l)], strTy());
      }
      return undefined;
    }
    if (l.t !== "s") return undefined;
    // promise-typed symbolic value: turn it into a promise object
    if ((key === "then" || key === "catch" || key === "finally") && (!l.ty || I.isPromiseType(l.ty) || (l.ty.flags & ts.TypeFlags.Any))) {
      const pc0 = I.pc;
      const T = I.atom(`rej:${l.id}`, { kind: "rej", l, text: `rejects(${I.showLeaf(l)})` });
      const p = I.alloc("promise", { pv: I.s("awaited", [I.one(l)], l.ty && I.awaitedType(l.ty)), rejG: T, rejV: I.s("rejection", [I.one(l)]) });
      void pc0;
      return I.builtinMethod(p.leaf, key, args, n);
    }
    if (l.op === "regex" && (key === "test" || key === "exec")) {
      const rx = regexOf(I.one(l)), c = I.constOf(arg(args, 0));
      if (rx && c && typeof c.v === "string") { if (key === "test") return I.c(rx.test(c.v)); }
      if (key === "test") return I.lift([arg(args, 0)], (x) => (rx && x.t === "c" && typeof x.v === "string" ? I.c(rx.test(x.v)) : I.bool(I.atom(`rx:${l.id}:${I.freezeLeaf(x, 0).id}`, { kind: "regex", rx: l, l: x, text: `/${I.show(l.args[0])}/.test(${I.showLeaf(x)})` })))) ?? I.s("test", [I.one(l), arg(args, 0)]);
      return I.s("exec", [I.one(l), I.freeze(arg(args, 0))], n && I.tyOf(n));
    }
    const own = n && ts.isCallExpression(n) ? I.ownerOf(n) : undefined;
    const isArr = own === "lib#Array" || own === "lib#ReadonlyArray" || (own === undefined && isArrTy(l.ty)) || l.op === "arr";
    if (isArr) {
      if (key === "push" || mutators.has(key)) return I.opaque("call", { name: key, owner: "lib#Array", recv: I.one(l), mutates: true }, args, n, { noThrow: true, value: undefined });
      if (arrMethods[key]) {
        if (l.op === "arr" && ["map", "filter", "forEach", "some", "every", "join", "includes", "concat", "find"].includes(key)) {
          const r = newArr(); I.spreadInto(r, I.one(l));
          return arrMethods[key](r.leaf, args, n);
        }
        return arrMethods[key](l, args, n);
      }
      if (/^to(Sorted|Reversed|Spliced)$|^with$|^lastIndexOf$/.test(key)) return I.s(key, [I.one(l), ...args.map((x) => I.freeze(x.spread ?? x))], n && I.tyOf(n));
    }
    if (own === "lib#String" || l.op === "concat" || l.op === "json" || l.op === "str") { if (STR_METHODS.has(key)) return strMethod(l, key, args, n); }
    if (own === "lib#Date" || l.op === "Date") {
      if ((key === "getTime" || key === "valueOf") && l.op === "Date" && l.args.length === 1) { const x = I.single(l.args[0]); if (x && (x.op === "now" || (x.t === "c" && typeof x.v === "number") || ["+", "-", "*"].includes(x.op) || x.op === "date.getTime")) return I.one(x); }
      if (/^set/.test(key)) return I.opaque("call", { name: key, owner: "lib#Date", recv: I.one(l), mutates: true }, args, n, { noThrow: true });
      if (key === "toISOString" && I.opts.jsonThrows && !(l.op === "Date" && l.args[0]?.alts?.every((x) => x.l.op === "now" || x.l.t === "c"))) {
        const nan = I.truth(I.natives.get("lib#isNaN")([I.s("date.getTime", [I.one(l)], numTy())], n));
        const e = I.event("call", { name: "toISOString", owner: "lib#Date", recv: I.one(l), args: [], fargs: [], pure: true }, n);
        e.T = nan;
        I.throwUnder(nan, I.s("err", [e.id], undefined, { ev: e }));
      }
      return I.s(key === "valueOf" ? "date.getTime" : `date.${key}`, [I.one(l), ...args.map((x) => I.freeze(x.spread ?? x))], n && I.tyOf(n));
    }
    if (own === "lib#Number" || own === "lib#Boolean" || own === "lib#BigInt" || own === "lib#Object") {
      if (key === "toString" && args.length === 0) return I.s("str", [I.one(l)], strTy());
      if (key === "hasOwnProperty") return I.bool(I.hasKey(I.one(l), arg(args, 0)));
      return I.s(`m:${key}`, [I.one(l), ...args.map((x) => I.freeze(x.spread ?? x))], n && I.tyOf(n));
    }
    if (own === "lib#RegExp" && key === "test") return I.bool(I.atom(`rx:${l.id}:${I.vkey(I.freeze(arg(args, 0)))}`, { kind: "regex", rx: l, text: `${I.showLeaf(l)}.test(${I.show(arg(args, 0))})` }));
    if (own === "lib#Map" || own === "lib#Set" || own === "lib#ReadonlyMap" || own === "lib#ReadonlySet") {
      if (key === "has") return I.bool(memberOpaque(l, arg(args, 0)));
      if (key === "get") return I.s("mapget", [I.one(l), I.freeze(arg(args, 0))], n && I.tyOf(n));
      if (key === "forEach") { I.iterate(I.one(l), n, (el) => { I.call(arg(args, 0), I.UNDEF, [I.s("get", [el, "1"]), I.s("get", [el, "0"])], n); }); return I.UNDEF; }
      if (["entries", "values", "keys"].includes(key)) return I.s(`map.${key}`, [I.one(l)], n && I.tyOf(n));
      if (["set", "add", "delete", "clear"].includes(key)) return I.opaque("call", { name: key, owner: own, recv: I.one(l), mutates: true }, args, n, { noThrow: true });
    }
    return undefined;
  };
}
