// Shared facts about every application in the repository: database statements, units of work, call graph, deployed functions.
import path from "node:path";
import { allProgram, ts, rel, loc, REPO, LIB } from "./kit.mjs";
import { Prov, unwrap, short, NUM, REP } from "../engine/prov.mjs";
export { Prov, unwrap, short, NUM, REP };

let cache;
export function apps() {
  if (cache) return cache;
  const P = allProgram();
  cache = { P, ck: P.checker, V: new Prov(P), prog: P.program };
  return cache;
}
export const appOf = (n) => rel(n.getSourceFile().fileName).split("/").slice(0, 2).join("/");
export function walkAll(f) {
  const A = apps();
  for (const file of A.P.files) { const sf = A.prog.getSourceFile(file); const v = (n) => { f(n); ts.forEachChild(n, v); }; v(sf); }
}
export const enclosing = (n) => { let p = n.parent; while (p && !ts.isFunctionLike(p)) p = p.parent; return p; };
export const nameOf = (fn) => (fn?.name?.getText?.() ?? (fn?.parent?.name && fn.parent.name.getText?.()) ?? "(anonymous)");

// where is the method of this call declared?
export function declFile(call) {
  const A = apps();
  const e = unwrap(call.expression);
  if (!ts.isPropertyAccessExpression(e)) return "";
  const s = A.ck.getSymbolAtLocation(e.name);
  return s?.declarations?.[0]?.getSourceFile().fileName ?? "";
}
const PGQ = /^(query|none|one|many|oneOrNone|manyOrNone|any|result|multiResult|multi|stream|each|map)$/;
// names imported (as values or types) from a module
export function importsFrom(sf, re) { return sf.statements.some((s) => ts.isImportDeclaration(s) && re.test(s.moduleSpecifier.text)); }

// Every place where a statement's text is given to a database
export function sinks() {
  const A = apps();
  if (A.sinks) return A.sinks;
  const out = [];
  walkAll((n) => {
    if (ts.isCallExpression(n)) {
      const e = unwrap(n.expression);
      if (!ts.isPropertyAccessExpression(e)) return;
      const m = e.name.text, df = declFile(n);
      const pg = /pg-promise/.test(df) && PGQ.test(m);
      const my = !df && /^(query|execute)$/.test(m) && importsFrom(n.getSourceFile(), /^mysql/);
      const fmt = /pg-promise/.test(df) && /^(format|formatQuery)$/.test(m);
      if (!pg && !my && !fmt) return;
      out.push({ call: n, kind: my ? "mysql" : fmt ? "format" : "pg", method: m, text: n.arguments[0], values: n.arguments[1], recv: e.expression });
    }
  });
  return (A.sinks = out);
}
export function statements() {
  const A = apps();
  if (A.stmts) return A.stmts;
  const out = [];
  walkAll((n) => {
    if (!ts.isNewExpression(n)) return;
    const t = n.expression.getText();
    if (!/(^|\.)(PreparedStatement|ParameterizedQuery)$/.test(t)) return;
    const o = n.arguments?.[0] && unwrap(n.arguments[0]);
    const g = (k) => { if (!o || !ts.isObjectLiteralExpression(o)) return undefined; const p = o.properties.find((x) => x.name?.text === k); return p && (ts.isPropertyAssignment(p) ? p.initializer : p.name); };
    out.push({ node: n, text: o && ts.isObjectLiteralExpression(o) ? g("text") : o, name: g("name"), values: g("values"), named: /PreparedStatement$/.test(t) });
  });
  return (A.stmts = out);
}
// the statement objects an expression can be: {list, ok}
export function newsOf(e, seen = new Set()) {
  const A = apps();
  e = unwrap(e);
  if (!e || seen.has(e)) return { list: [], ok: true };
  seen = new Set(seen).add(e);
  const all = (xs) => { const r = { list: [], ok: xs.length > 0 }; for (const x of xs) { const y = newsOf(x, seen); r.list.push(...y.list); r.ok &&= y.ok; } return r; };
  if (ts.isNewExpression(e)) return { list: [e], ok: true };
  if (ts.isConditionalExpression(e)) return all([e.whenTrue, e.whenFalse]);
  if (ts.isCallExpression(e)) { const f = A.V.callee(e); if (f) return all(returnsOf(f)); return { list: [], ok: false }; }
  if (ts.isIdentifier(e) || ts.isPropertyAccessExpression(e)) {
    const d = A.V.decl(ts.isIdentifier(e) ? e : e.name);
    if (d && (ts.isVariableDeclaration(d) || ts.isPropertyDeclaration(d) || ts.isPropertyAssignment(d)) && d.initializer) {
      const more = ts.isVariableDeclaration(d) && !(d.parent.flags & ts.NodeFlags.Const) ? A.V.refs(d).filter((w) => ts.isBinaryExpression(w.parent) && w.parent.left === w && w.parent.operatorToken.kind === ts.SyntaxKind.EqualsToken).map((w) => w.parent.right) : [];
      return all([d.initializer, ...more]);
    }
    if (d && ts.isParameter(d)) {
      const i = d.parent.parameters.indexOf(d), s = A.V.sites(d.parent);
      if (s.escapes.length === 0 && s.sites.length) return all(s.sites.map((c) => c.arguments[i]).filter(Boolean));
    }
  }
  return { list: [], ok: false };
}
// the expression a constant local name stands for
export function follow(e, seen = new Set()) {
  e = e && unwrap(e);
  if (!e || !ts.isIdentifier(e) || seen.has(e)) return e;
  seen.add(e);
  const d = apps().V.decl(e);
  return d && ts.isVariableDeclaration(d) && ts.isIdentifier(d.name) && d.initializer && apps().V.isFixed(d) ? follow(d.initializer, seen) : e;
}
// member access of an object, also through a constant name or a destructuring: {name, of}
export function memberOf(e) {
  e = follow(e);
  if (!e) return undefined;
  if (ts.isPropertyAccessExpression(e)) return { name: e.name.text, of: follow(e.expression) };
  if (ts.isIdentifier(e)) {
    const d = apps().V.decl(e);
    if (d && ts.isBindingElement(d) && ts.isObjectBindingPattern(d.parent) && ts.isVariableDeclaration(d.parent.parent) && d.parent.parent.initializer && !d.dotDotDotToken) return { name: (d.propertyName ?? d.name).getText(), of: follow(d.parent.parent.initializer) };
  }
  return undefined;
}
// the expressions a local name, a choice or an awaited name can stand for
export function valuesOf(e, seen = new Set()) {
  const A = apps();
  e = unwrap(e);
  if (!e || seen.has(e)) return [];
  seen.add(e);
  if (ts.isConditionalExpression(e)) return [...valuesOf(e.whenTrue, seen), ...valuesOf(e.whenFalse, seen)];
  if (ts.isIdentifier(e)) {
    const d = A.V.decl(e);
    if (d && ts.isVariableDeclaration(d) && ts.isIdentifier(d.name) && d.parent && ts.isVariableDeclarationList(d.parent)) {
      const more = d.parent.flags & ts.NodeFlags.Const ? [] : A.V.refs(d).filter((w) => ts.isBinaryExpression(w.parent) && w.parent.left === w && w.parent.operatorToken.kind === ts.SyntaxKind.EqualsToken).map((w) => w.parent.right);
      const all = [d.initializer, ...more].filter(Boolean);
      if (all.length) return all.flatMap((x) => valuesOf(x, seen));
    }
  }
  return [e];
}
export function returnsOf(fn) {
  if (!fn.body) return [];
  if (!ts.isBlock(fn.body)) return [fn.body];
  const out = [];
  const v = (n) => { if (ts.isFunctionLike(n)) return; if (ts.isReturnStatement(n) && n.expression) out.push(n.expression); ts.forEachChild(n, v); };
  v(fn.body);
  return out;
}
export const isStmtType = (e) => { const A = apps(); const t = A.ck.getTypeAtLocation(e); const n = t.symbol?.name ?? ""; return /PreparedStatement|ParameterizedQuery|ServerFormatting/.test(n); };

// ------------------------------------------------------------------ call graph
// functions a function may call or pass on, by resolved syntax; interface methods reach every implementation
export function implementations(d) {
  const A = apps();
  if (!A.impl) {
    A.impl = new Map();
    walkAll((n) => {
      if (!ts.isClassDeclaration(n) && !ts.isClassExpression(n)) return;
      for (const h of n.heritageClauses ?? []) for (const t of h.types) {
        const ty = A.ck.getTypeAtLocation(t.expression) ; const sym = A.V.decl(ts.isIdentifier(t.expression) ? t.expression : t.expression.name ?? t.expression) ?? ty.symbol?.declarations?.[0];
        if (!sym) continue;
        let l = A.impl.get(sym); if (!l) A.impl.set(sym, (l = [])); l.push(n);
      }
    });
  }
  const owner = d.parent;
  const out = [];
  const rec = (o) => { for (const c of A.impl.get(o) ?? []) { const m = c.members.find((x) => x.name && d.name && x.name.getText() === d.name.getText()); if (m) out.push(m); rec(c); } };
  rec(owner);
  return out;
}
const isInModuleInit = (n) => !enclosing(n);
export function edges(fn) {
  const A = apps();
  A.edges ??= new Map();
  if (A.edges.has(fn)) return A.edges.get(fn);
  const out = new Set();
  A.edges.set(fn, out);
  const addDecl = (d) => {
    if (!d) return;
    if (ts.isFunctionLike(d)) { if (d.body) out.add(d); for (const m of implementations(d)) { if (m.body) out.add(m); else if (m.initializer && ts.isFunctionLike(unwrap(m.initializer))) out.add(unwrap(m.initializer)); } }
    else if ((ts.isVariableDeclaration(d) || ts.isPropertyAssignment(d) || ts.isPropertyDeclaration(d)) && d.initializer) { const i = unwrap(d.initializer); if (ts.isArrowFunction(i) || ts.isFunctionExpression(i)) out.add(i); }
    else if (ts.isClassDeclaration(d)) for (const m of d.members) if (ts.isConstructorDeclaration(m) && m.body || (ts.isPropertyDeclaration(m) && m.initializer)) out.add(m);
  };
  const v = (n) => {
    if (n !== fn && ts.isFunctionLike(n)) { out.add(n); return; }
    if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
      const sig = A.ck.getResolvedSignature(n);
      if (sig?.declaration) addDecl(sig.declaration);
      const f = A.V.callee(n); if (f) out.add(f);
      if (ts.isNewExpression(n)) addDecl(A.V.decl(ts.isIdentifier(n.expression) ? n.expression : n.expression.name ?? n.expression));
    } else if (ts.isIdentifier(n) && !(ts.isPropertyAccessExpression(n.parent) && n.parent.expression === n && false)) {
      const d = A.V.decl(n);
      if (d && d.name !== n && (ts.isFunctionLike(d) || ts.isVariableDeclaration(d) || ts.isPropertyAssignment(d) || ts.isPropertyDeclaration(d))) addDecl(d);
    }
    ts.forEachChild(n, v);
  };
  if (fn.body) { for (const p of fn.parameters ?? []) if (p.initializer) v(p.initializer); v(fn.body); } else if (fn.initializer) v(fn.initializer);
  else v(fn);
  return out;
}
export function reach(roots, stop) {
  const seen = new Map();
  const st = [...roots].map((r) => [r, undefined]);
  while (st.length) {
    const [f, from] = st.pop();
    if (seen.has(f)) continue;
    seen.set(f, from);
    if (stop?.(f)) continue;
    for (const g of edges(f)) if (!seen.has(g)) st.push([g, f]);
  }
  return seen;
}
export function pathTo(seen, f) { const out = []; while (f) { if (!/anonymous/.test(nameOf(f))) out.unshift(nameOf(f)); f = seen.get(f); } return out.join(" → "); }

// ------------------------------------------------------------------ types
export function isPromiseType(t, arrays = true) {
  const A = apps();
  if (!t) return false;
  if (t.isUnion()) return t.types.some((x) => isPromiseType(x, arrays));
  if (t.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown)) return false;
  if (t.getProperty?.("then") && t.getProperty("catch")) return true;
  if (arrays && A.ck.isArrayType(t)) return isPromiseType(A.ck.getTypeArguments(t)[0], false);
  return false;
}
