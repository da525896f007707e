// What every application stack deploys: its constructs with symbolic configuration, and the source files its functions run.
import fs from "node:fs";
import path from "node:path";
import { ts, rel, field, REPO } from "./kit.mjs";
import { apps, unwrap, enclosing, nameOf, reach } from "./apps-kit.mjs";
import { cdk, arg, made, items } from "./infra-kit.mjs";
import { parseVtl, runVtl } from "../engine/vtl.mjs";

let cache;
// every class of the applications that is constructed as a stack
export function stackClasses() {
  const A = apps(), out = [];
  for (const f of A.P.files) {
    const r = rel(f);
    if (/^(lib|tools|template)\//.test(r)) continue;
    for (const n of A.prog.getSourceFile(f).statements) {
      if (!ts.isClassDeclaration(n) || !n.name || (n.modifiers ?? []).some((m) => m.kind === ts.SyntaxKind.AbstractKeyword)) continue;
      let t = A.ck.getDeclaredTypeOfSymbol(A.ck.getSymbolAtLocation(n.name)), stack = false;
      for (let i = 0; t && i < 8; i++) { if (t.symbol?.name === "Stack") { stack = true; break; } t = A.ck.getBaseTypes(t)?.[0]; }
      if (stack) out.push({ file: r, name: n.name.text, node: n });
    }
  }
  return out;
}
export function deployed(C) {
  if (cache) return cache;
  const A = apps(), out = [];
  for (const s of stackClasses()) {
    const I = cdk(C, {}, A.P);
    let r;
    try {
      const v = I.single(I.valueOfExport(s.file, s.name));
      const mem = v.node.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
      r = I.run(() => I.construct(v, mem ? I.paramInputs(mem) : [], null));
    } catch (e) { if (process.env.VERIF_DEBUG) console.error(s.file, e); C.undecidedStacks = [...(C.undecidedStacks ?? []), s.file]; continue; }
    out.push({ ...s, app: s.file.split("/").slice(0, 2).join("/"), I, r });
  }
  return (cache = out);
}
export const FN = /aws-lambda#(Docker\w*)?Function$|TriggerFunction$|NodejsFunction$/;
export const text = (I, v) => (v?.alts?.length === 1 && v.alts[0].l.t === "c" && typeof v.alts[0].l.v === "string" ? v.alts[0].l.v : undefined);
// every function of a stack: {e, props, dir, handler, env}
export function functionsOf(S) {
  const I = S.I;
  return made(S.r, FN).map((e) => {
    const props = arg(e, 2), code = field(I, props, "code").v;
    const ac = code.alts.length === 1 ? code.alts[0].l.ev : undefined;
    const asset = ac && /AssetCode$|fromAsset$/.test(ac.name ?? "") ? text(I, arg(ac, 0)) : undefined;
    return { S, I, e, props, docker: /Docker/.test(e.name), asset, handler: text(I, field(I, props, "handler").v), env: field(I, props, "environment").v, name: I.show(field(I, props, "functionName").v) };
  });
}
// ---- where the build puts each lambda source
function lambdaSources(app) {
  const out = [], root = path.join(REPO, app);
  const w = (d) => { if (!fs.existsSync(d)) return; for (const x of fs.readdirSync(d, { withFileTypes: true })) { const p = path.join(d, x.name); if (x.isDirectory()) w(p); else out.push(path.relative(root, p)); } };
  w(path.join(root, "src"));
  return out.sort();
}
const globRe = (g) => new RegExp("^" + g.split(/(\*\*\/|\*)/).map((p) => (p === "**/" ? "(?:[^/]+/)*" : p === "*" ? "[^/]*" : p.replace(/[.+?^${}()|[\]\\]/g, "\\$&"))).join("") + "$");
const lca = (fs_) => { let c = path.dirname(fs_[0]).split("/"); for (const f of fs_) { const d = path.dirname(f).split("/"); let i = 0; while (i < c.length && c[i] === d[i]) i++; c = c.slice(0, i); } return c.join("/"); };
const builds = new Map();
// {output path → source path} of an application, by running the shared build configuration over its file list
export function buildOutputs(C, app) {
  if (builds.has(app)) return builds.get(app);
  const A = apps(), all = lambdaSources(app);
  const I = cdk(C, {}, A.P);
  let globs;
  const lit = (xs) => { const a = I.alloc("array"); for (const x of xs) a.items.push({ g: 1, v: I.c(x) }); return a.val; };
  I.natives.set("globby#globby", (args) => {
    const p = args[0]?.alts?.length === 1 ? args[0].alts[0].l : undefined;
    globs = p?.t === "c" ? [p.v] : p?.t === "o" && p.rec.kind === "array" ? p.rec.items.map((x) => text(I, x.v)) : undefined;
    if (!globs || globs.some((x) => typeof x !== "string")) { globs = undefined; return undefined; }
    const pos = globs.filter((x) => !x.startsWith("!")).map(globRe), neg = globs.filter((x) => x.startsWith("!")).map((x) => globRe(x.slice(1)));
    return lit(all.filter((f) => pos.some((r) => r.test(f)) && !neg.some((r) => r.test(f))));
  });
  const f = I.valueOfExport("tools/esbuild/src/common.ts", "createEsbuildConfig");
  const r = I.run(() => I.call(f, I.UNDEF, [], null));
  const res = { ok: false, map: new Map() };
  builds.set(app, res);
  let v = r.result ?? r.value ?? r.ret;
  if (!v) return res;
  if (v.alts.length === 1 && v.alts[0].l.t === "o" && v.alts[0].l.rec.kind === "promise") v = v.alts[0].l.rec.pv ?? v;
  const outdir = text(I, field(I, v, "outdir").v), ext = text(I, field(I, field(I, v, "outExtension").v, ".js").v) ?? ".js";
  const eps = field(I, v, "entryPoints").v;
  const files = items(I, eps).map((x) => (x.g === 1 && !x.each ? text(I, x.v) : undefined));
  if (!outdir || !files || files.some((x) => x === undefined) || !files.length) return res;
  const base = text(I, field(I, v, "outbase").v) ?? lca(files);
  for (const x of files) res.map.set(path.posix.join(outdir, path.posix.relative(base, x)).replace(/\.[cm]?tsx?$/, ext), x);
  res.ok = true;
  return res;
}
// ---- what a lambda source reads from its environment
const isFn = (n) => ts.isFunctionLike(n);
// nodes evaluated when a module is loaded: top-level expressions outside function bodies (callbacks handed to calls included)
function initNodes(sf, out) {
  const A = apps();
  const v = (n) => {
    if (ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n) || ts.isConstructorDeclaration(n) || ts.isAccessor(n) || ts.isTypeNode(n) || ts.isImportDeclaration(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) return;
    if (ts.isArrowFunction(n) || ts.isFunctionExpression(n)) { const p = n.parent; if (ts.isCallExpression(p) || (ts.isParenthesizedExpression(p) && ts.isCallExpression(p.parent))) out.fns.add(n); return; }
    if (ts.isPropertyDeclaration(n) && !(n.modifiers ?? []).some((m) => m.kind === ts.SyntaxKind.StaticKeyword)) return;
    if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
      out.calls.add(n);
      const f = A.V.callee(n); if (f) out.fns.add(f);
      const d = A.ck.getResolvedSignature(n)?.declaration; if (d && isFn(d) && d.body) out.fns.add(d);
    }
    ts.forEachChild(n, v);
  };
  for (const s of sf.statements) v(s);
}
function modulesOf(sf) {
  const A = apps(), seen = new Set(), st = [sf];
  while (st.length) {
    const f = st.pop();
    if (seen.has(f)) continue;
    seen.add(f);
    for (const s of f.statements) {
      if (!(ts.isImportDeclaration(s) || ts.isExportDeclaration(s)) || !s.moduleSpecifier) continue;
      if (ts.isImportDeclaration(s) && s.importClause) {
        if (s.importClause.isTypeOnly) continue;
        const b = s.importClause.namedBindings;
        if (!s.importClause.name && b && ts.isNamedImports(b) && b.elements.length && b.elements.every((e) => e.isTypeOnly || !valueSym(A, e.name))) continue;
      }
      const m = A.ck.getSymbolAtLocation(s.moduleSpecifier)?.declarations?.[0];
      if (m && ts.isSourceFile(m) && !m.isDeclarationFile && !/node_modules/.test(m.fileName)) st.push(m);
    }
  }
  return seen;
}
const valueSym = (A, id) => { let s = A.ck.getSymbolAtLocation(id); if (s && s.flags & ts.SymbolFlags.Alias) s = A.ck.getAliasedSymbol(s); return !s || (s.flags & ts.SymbolFlags.Value) !== 0 || s.flags === 0 || /unknown/.test(s.escapedName); };
// constant text of an expression, through its type or initializer
export function keyOf(e, seen, depth = 0) {
  const A = apps();
  if (!e || depth > 4) return undefined;
  e = unwrap(e);
  const t = A.ck.getTypeAtLocation(e);
  if (t.isStringLiteral?.()) return [t.value];
  if (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) { const c = A.ck.getConstantValue(e); if (typeof c === "string") return [c]; }
  if (ts.isIdentifier(e) || ts.isPropertyAccessExpression(e)) {
    const d = A.V.decl(ts.isIdentifier(e) ? e : e.name);
    if (d && (ts.isVariableDeclaration(d) || ts.isPropertyAssignment(d)) && d.initializer) return keyOf(d.initializer, seen, depth + 1);
    if (d && ts.isParameter(d)) {
      const i = d.parent.parameters.indexOf(d), out = [];
      for (const c of A.V.sites(d.parent).sites) {
        const enc = enclosing(c);
        if (enc ? !seen.fns.has(enc) : !seen.mods.has(c.getSourceFile())) continue;
        const k = c.arguments[i] ? keyOf(c.arguments[i], seen, depth + 1) : d.initializer ? keyOf(d.initializer, seen, depth + 1) : undefined;
        if (k) out.push(...k);
      }
      return out.length ? out : d.initializer ? keyOf(d.initializer, seen, depth + 1) : undefined;
    }
  }
  return undefined;
}
const throwsIn = (fn) => { let t = false; const w = (n) => { if (ts.isThrowStatement(n)) t = true; ts.forEachChild(n, w); }; if (fn) w(fn); return t; };
const readsCache = new Map();
// {file, handler, reads: Map key → {at, init}, unknown: n, sets: Set} for a source file and the name it exports
export function lambdaReads(file, exportName) {
  const ck_ = `${file}#${exportName}`;
  if (readsCache.has(ck_)) return readsCache.get(ck_);
  const A = apps(), sf = A.prog.getSourceFile(path.join(REPO, file));
  const res = { file, ok: false, exported: false, reads: new Map(), unknown: 0, safe: new Set(), sets: new Set(), fns: 0, sf };
  readsCache.set(ck_, res);
  if (!sf) return res;
  res.ok = true;
  const sym = A.ck.getSymbolAtLocation(sf), ex = sym && A.ck.getExportsOfModule(sym).find((x) => x.name === exportName);
  res.exported = !!ex;
  const out = { calls: new Set(), fns: new Set() };
  const mods = modulesOf(sf);
  for (const m of mods) initNodes(m, out);
  const initFns = new Set(reach(out.fns).keys());
  const roots = new Set(out.fns);
  let s = ex; if (s && s.flags & ts.SymbolFlags.Alias) s = A.ck.getAliasedSymbol(s);
  for (const d of s?.declarations ?? []) roots.add(d);
  const seen = reach(roots);
  res.seen = seen; res.fns = seen.size; res.mods = mods;
  const ctx = { fns: new Set(seen.keys()), mods };
  const look = (n, init) => {
    if (ts.isCallExpression(n)) {
      const f = A.V.callee(n) ?? A.ck.getResolvedSignature(n)?.declaration;
      if (f && /^getEnvVariable(Safe|OrElse)$/.test(nameOf(f) ?? "") && n.arguments[0]) for (const x of keyOf(n.arguments[0], ctx) ?? []) res.safe.add(x);
      if (f && nameOf(f) === "getEnvVariable" && /utils\/utils\.ts$/.test(f.getSourceFile().fileName)) {
        const k = keyOf(n.arguments[0], ctx);
        if (!k) res.unknown++;
        else for (const x of k) { const o = res.reads.get(x); if (!o || (init && !o.init)) res.reads.set(x, { node: n, init: init || o?.init }); }
      }
    }
    // a setting looked up without failing, then used: the function that uses it needs it
    if (ts.isIdentifier(n) && !ts.isVariableDeclaration(n.parent)) {
      const d = A.V.decl(n), c = d && ts.isVariableDeclaration(d) && d.initializer && unwrap(d.initializer);
      if (c && !enclosing(d) && ts.isCallExpression(c) && throwsIn(enclosing(n))) {
        const f = A.V.callee(c);
        if (f && nameOf(f) === "getEnvVariableSafe") for (const x of keyOf(c.arguments[0], ctx) ?? []) if (!res.reads.has(x)) res.reads.set(x, { node: n, init: false });
      }
    }
    if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken) {
      const l = unwrap(n.left);
      if (ts.isElementAccessExpression(l) && /process\.env$/.test(l.expression.getText())) for (const x of keyOf(l.argumentExpression, ctx) ?? []) res.sets.add(x);
      if (ts.isPropertyAccessExpression(l) && /process\.env$/.test(l.expression.getText())) res.sets.add(l.name.text);
    }
  };
  for (const fn of seen.keys()) {
    const w = (n) => { if (n !== fn && isFn(n)) return; look(n, initFns.has(fn)); ts.forEachChild(n, w); };
    w(fn);
  }
  for (const c of out.calls) look(c, true);
  return res;
}
// ---- endpoints
export const leaf1 = (v) => (v?.alts ? (v.alts.length === 1 ? v.alts[0].l : undefined) : v);
// path of a resource value, as far as it is constant: ["api","v1","{id}"]
export function resourcePath(I, v) {
  const out = [];
  for (let i = 0; i < 20; i++) {
    const l = leaf1(v);
    if (l?.op === "res" && /addResource$/.test(l.ev.name ?? "")) { const t = text(I, arg(l.ev, 0)); out.unshift(...(t === undefined ? ["?"] : t.split("/").filter(Boolean))); v = l.ev.recv; continue; }
    return { path: out, root: l ? I.showLeaf(l) : "?" };
  }
  return { path: out, root: "?" };
}
const recOf = (I, v) => { const out = new Map(); const l = leaf1(v); const fs_ = l?.t === "o" ? l.rec.props : l?.t === "s" && l.op === "obj" ? l.fields : undefined; if (!fs_ || (l.rec?.rest ?? l.rest ?? []).length) return fs_ ? undefined : l?.t === "c" && l.v === undefined ? out : undefined; for (const [k, p] of fs_) out.set(k, p.v); return out; };
// names put in the event by a request template: Map name → Set of sources, plus whether unnamed query parameters pass
export function templateEvent(t) {
  const X = runVtl(parseVtl(t));
  const names = new Map(); let all = false, body = false;
  for (const x of X.results) {
    const vals = [];
    const s = x.out.map((p) => { if (typeof p === "string") return p; if (p.k === "set") return ""; if (p.k === "str") return p.parts.map((q) => (typeof q === "string" ? q : (vals.push(q), `@${vals.length - 1}@`))).join(""); vals.push(p); return `@${vals.length - 1}@`; }).join("");
    let j; try { j = JSON.parse(s); } catch { return undefined; }
    for (const [k, v] of Object.entries(j)) {
      if (/^@\d+@$/.test(k)) { all = true; continue; }
      if (!names.has(k)) names.set(k, new Set());
      for (const e of Array.isArray(v) ? v : [v]) { const m = /^@(\d+)@$/.exec(e); if (m) { const n = X.show({ ...vals[m[1]], esc: [] }).replace(/^<item of (.*) #\d>$/, "$1"); names.get(k).add(n); if (/\$input\[body\]/.test(n)) body = true; } }
      if (Array.isArray(v)) names.get(k).array = true;
    }
  }
  return { names, all, body };
}
export function endpoints(S) {
  const I = S.I, out = [];
  for (const e of S.r.events.filter((x) => x.kind === "call" && /addMethod$/.test(x.name ?? ""))) {
    const { path: p, root } = resourcePath(I, e.recv);
    const opts = arg(e, 2), ig = leaf1(arg(e, 1));
    let ie = ig?.op === "res" ? ig.ev : undefined;
    if (!ie && ig?.t === "o") ie = S.r.events.find((x) => x.kind === "super" && /Integration$/.test(x.name ?? "") && leaf1(x.recv) === ig);
    const kind = ie?.name.replace(/.*#/, "");
    const ip = ie && (/LambdaIntegration/.test(kind) ? arg(ie, 1) : arg(ie, 0));
    const io = ip && (/LambdaIntegration|MockIntegration/.test(kind) ? ip : field(I, ip, "options").v);
    const mp = opts ? recOf(I, field(I, opts, "requestParameters").v) : new Map();
    const tp = io ? field(I, field(I, io, "requestTemplates").v, "application/json").v : undefined;
    out.push({ S, I, e, method: text(I, arg(e, 0)), path: p, root, recv: leaf1(e.recv), opts, ie, kind, ip, io, params: mp, template: tp && text(I, tp), proxy: io && field(I, io, "proxy").v, lambda: /LambdaIntegration/.test(kind ?? "") ? leaf1(arg(ie, 0)) : undefined });
  }
  return out;
}
// ---- names a handler reads from its event
export function eventNames(file, exportName) {
  const A = apps(), R = lambdaReads(file, exportName);
  if (!R.exported) return undefined;
  let s = A.ck.getExportsOfModule(A.ck.getSymbolAtLocation(R.sf)).find((x) => x.name === exportName);
  if (s.flags & ts.SymbolFlags.Alias) s = A.ck.getAliasedSymbol(s);
  const d = s.declarations?.[0];
  const fn = d && (ts.isFunctionLike(d) ? d : ts.isVariableDeclaration(d) && d.initializer && ts.isFunctionLike(unwrap(d.initializer)) ? unwrap(d.initializer) : undefined);
  if (!fn) return undefined;
  const names = new Map(); let open = false;
  const seenP = new Set();
  const useOf = (p) => {
    if (seenP.has(p)) return; seenP.add(p);
    if (ts.isObjectBindingPattern(p.name)) { for (const b of p.name.elements) { if (b.dotDotDotToken) open = true; else names.set((b.propertyName ?? b.name).getText().replace(/^["']|["']$/g, ""), b); } return; }
    for (const r of A.V.refs(p)) {
      let n = r; while (ts.isParenthesizedExpression(n.parent) || ts.isAsExpression(n.parent) || ts.isNonNullExpression(n.parent) || ts.isSatisfiesExpression?.(n.parent)) n = n.parent;
      const q = n.parent;
      if (ts.isPropertyAccessExpression(q) && q.expression === n) { names.set(q.name.text, q); continue; }
      if (ts.isElementAccessExpression(q) && q.expression === n) { const k = keyOf(q.argumentExpression, { fns: new Set(), mods: new Set() }); if (k) k.forEach((x) => names.set(x, q)); else open = true; continue; }
      if (ts.isVariableDeclaration(q) && q.initializer === n) { useOf(q); continue; }
      if (ts.isCallExpression(q) && q.arguments.includes(n)) {
        const c = unwrap(q.expression);
        if (ts.isPropertyAccessExpression(c) && /^(safe)?[pP]arse(Async)?$/.test(c.name.text)) { const ks = schemaKeys(c.expression); if (ks) { for (const [k, v] of ks) names.set(k, v); continue; } }
        if (/^(JSON\.stringify|logger\.\w+|console\.\w+)$/.test(c.getText())) continue;
        const f = A.V.callee(q), i = q.arguments.indexOf(n);
        if (f?.parameters?.[i]) { useOf(f.parameters[i]); continue; }
        if (/^(JSON\.stringify|logger\.)/.test(c.getText())) continue;
        open = true; continue;
      }
      if (ts.isTemplateSpan(q) || ts.isPropertyAssignment(q) || ts.isShorthandPropertyAssignment(q)) continue; // logged
      if (ts.isPrefixUnaryExpression(q) || ts.isIfStatement(q) || ts.isBinaryExpression(q) || ts.isConditionalExpression(q)) continue;
      open = true;
    }
  };
  const p0 = fn.parameters[0];
  if (p0) useOf(p0);
  return { names, open, fn };
}
// keys of a schema built with z.object and its refinements
export function schemaKeys(e, depth = 0) {
  const A = apps();
  e = unwrap(e);
  if (!e || depth > 8) return undefined;
  if (ts.isIdentifier(e) || (ts.isPropertyAccessExpression(e) && !ts.isCallExpression(e.parent))) { const d = A.V.decl(ts.isIdentifier(e) ? e : e.name); return d && ts.isVariableDeclaration(d) && d.initializer ? schemaKeys(d.initializer, depth + 1) : undefined; }
  if (!ts.isCallExpression(e)) return undefined;
  const c = unwrap(e.expression);
  if (!ts.isPropertyAccessExpression(c)) return undefined;
  const m = c.name.text;
  const objKeys = (o) => { o = unwrap(o); if (ts.isIdentifier(o)) { const d = A.V.decl(o); o = d && ts.isVariableDeclaration(d) && d.initializer ? unwrap(d.initializer) : o; } if (!ts.isObjectLiteralExpression(o)) return undefined; const out = new Map(); for (const p of o.properties) { if (ts.isSpreadAssignment(p)) { const x = unwrap(p.expression); const k = ts.isPropertyAccessExpression(x) && x.name.text === "shape" ? schemaKeys(x.expression, depth + 1) : objKeys(x); if (!k) return undefined; k.forEach((v, n) => out.set(n, v)); } else out.set(p.name.getText().replace(/^["']|["']$/g, ""), p); } return out; };
  if (/^(object|strictObject|looseObject)$/.test(m)) return e.arguments[0] ? objKeys(e.arguments[0]) : new Map();
  const base = schemaKeys(c.expression, depth + 1);
  if (!base) return undefined;
  if (/^(extend|safeExtend)$/.test(m)) { const k = objKeys(e.arguments[0]); return k ? new Map([...base, ...k]) : undefined; }
  if (m === "merge" || m === "and") { const k = schemaKeys(e.arguments[0], depth + 1); return k ? new Map([...base, ...k]) : undefined; }
  if (/^(strict|readonly|refine|superRefine|transform|passthrough|loose|strip|partial|required|optional|nullable|describe|meta|check|pipe|catchall|default|brand)$/.test(m)) return base;
  return undefined;
}
