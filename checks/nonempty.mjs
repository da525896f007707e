// A10: lists given to statements. A list placeholder is filled with a list, and the list is never empty (`in ()` is no SQL).
import { ts, loc } from "./kit.mjs";
import { apps, sinks, newsOf, isStmtType, statements, enclosing, nameOf, appOf, unwrap, walkAll, follow, memberOf, valuesOf, returnsOf, importsFrom } from "./apps-kit.mjs";
import { instances, builderOf } from "./apps-db.mjs";

const strip = (n) => { n = n && unwrap(n); while (n && ts.isAwaitExpression(n)) n = unwrap(n.expression); return n; };
const ids = new Map();
const idOf = (d) => { if (!ids.has(d)) ids.set(d, ids.size); return ids.get(d); };
// a name for what an expression reads: the declaration it starts at and the properties read from there; names that are reassigned have none
function key(e) {
  e = strip(e);
  if (!e) return undefined;
  const V = apps().V;
  if (ts.isNonNullExpression(e)) return key(e.expression);
  if (e.kind === ts.SyntaxKind.ThisKeyword) return "this";
  if (ts.isPropertyAccessExpression(e)) { const k = key(e.expression); return k && `${k}.${e.name.text}`; }
  if (ts.isIdentifier(e)) {
    const m = memberOf(e);
    if (m && m.of && V.decl(e) && ts.isBindingElement(V.decl(e))) { const k = key(m.of); if (k) return `${k}.${m.name}`; }
    const d = V.decl(e);
    // another name for something
    if (d && ts.isVariableDeclaration(d) && ts.isIdentifier(d.name) && d.initializer && !reassigned(d)) { const i = strip(d.initializer); if (ts.isIdentifier(i) || ts.isPropertyAccessExpression(i)) { const k = key(i); if (k) return k; } }
    return d && !reassigned(d) ? `#${idOf(d)}` : undefined;
  }
  return undefined;
}
const reassigned = (d) => apps().V.refs(d).some((w) => ts.isBinaryExpression(w.parent) && w.parent.left === w && w.parent.operatorToken.kind === ts.SyntaxKind.EqualsToken);
const shrunk = (d) => apps().V.refs(d).some((w) => { const p = w.parent; return ts.isPropertyAccessExpression(p) && p.expression === w && (/^(pop|shift|splice)$/.test(p.name.text) || (p.name.text === "length" && ts.isBinaryExpression(p.parent) && p.parent.left === p && p.parent.operatorToken.kind === ts.SyntaxKind.EqualsToken)); });
// what a length or size is of
function lengthOf(e) {
  e = strip(e);
  const f = follow(e), m = f && ts.isPropertyAccessExpression(f) ? { name: f.name.text, of: f.expression } : memberOf(e);
  return m && /^(length|size)$/.test(m.name) ? keys(m.of, true) : undefined;
}
const number = (e) => { e = follow(strip(e)); return e && ts.isNumericLiteral(e) ? Number(e.text) : undefined; };
// the names of lists that are empty exactly when this one is; with `from`, also of those that it was selected from
function keys(e, from = false, depth = 0) {
  const out = new Set(), k = key(e), f = follow(strip(e));
  if (k) out.add(k);
  if (f && depth < 6) {
    const s = sameLength(f);
    for (const x of s ? keys(s, from, depth + 1) : []) out.add(x);
    // a selection that has something in it was made from something
    if (from && ts.isCallExpression(f) && ts.isPropertyAccessExpression(unwrap(f.expression)) && /^(filter|slice|flatMap)$/.test(unwrap(f.expression).name.text)) for (const x of keys(unwrap(f.expression).expression, true, depth + 1)) out.add(x);
  }
  return out;
}
// the list a list is made from element by element (empty only if that is)
function sameLength(f) {
  f = strip(f);
  if (ts.isCallExpression(f)) {
    const c = unwrap(f.expression);
    if (ts.isPropertyAccessExpression(c)) {
      const m = c.name.text;
      if (/^(map|toSorted|sort|toReversed|reverse|values|keys|entries|with|fill)$/.test(m) && !/^(Object|Promise|Map)$/.test(c.expression.getText())) return c.expression;
      if (m === "slice" && (!f.arguments.length || (f.arguments.length === 1 && number(f.arguments[0]) === 0))) return c.expression;
      if (/^(from|all|allSettled)$/.test(m) && /^(Array|Promise)$/.test(c.expression.getText())) return f.arguments[0];
      if (/^(keys|values|entries)$/.test(m) && c.expression.getText() === "Object") { const g = follow(strip(f.arguments[0])); if (g && ts.isCallExpression(g) && /(^|\.)(groupBy|keyBy|countBy|mapValues)$/.test(g.expression.getText()) && g.arguments.length) return g.arguments[0]; }
    }
    if (/^_?\.?(uniq|uniqBy|sortBy|orderBy|map|reverse|uniqWith)$/.test(c.getText().replace(/^(_|lodash|R)\./, "")) && f.arguments.length && !apps().V.callee(f)) return f.arguments[0];
    return undefined;
  }
  if (ts.isNewExpression(f) && /^(Set|Array)$/.test(f.expression.getText()) && f.arguments?.length === 1) return f.arguments[0];
  if (ts.isArrayLiteralExpression(f) && f.elements.length === 1 && ts.isSpreadElement(f.elements[0])) return f.elements[0].expression;
  return undefined;
}
const inter = (a, b) => new Set([...a].filter((x) => b.has(x)));
const uni = (a, b) => new Set([...a, ...b]);
const NONE = new Set();
const OPS = { ">": (a, b) => a > b, ">=": (a, b) => a >= b, "<": (a, b) => a < b, "<=": (a, b) => a <= b, "===": (a, b) => a === b, "==": (a, b) => a === b, "!==": (a, b) => a !== b, "!=": (a, b) => a !== b };
// the lists that have something in them when an expression is (un)true
function implied(e, truth, depth = 0) {
  e = strip(e);
  if (!e || depth > 8) return NONE;
  const go = (x, t) => implied(x, t, depth + 1);
  if (ts.isPrefixUnaryExpression(e) && e.operator === ts.SyntaxKind.ExclamationToken) return go(e.operand, !truth);
  const l = lengthOf(e);
  if (l) return truth ? l : NONE;
  if (ts.isBinaryExpression(e)) {
    const op = e.operatorToken.getText();
    if (op === "&&") return truth ? uni(go(e.left, true), go(e.right, true)) : inter(go(e.left, false), go(e.right, false));
    if (op === "||") return truth ? inter(go(e.left, true), go(e.right, true)) : uni(go(e.left, false), go(e.right, false));
    if (OPS[op]) {
      const a = lengthOf(e.left), n = number(e.right), b = lengthOf(e.right), m = number(e.left);
      if (a && n !== undefined) return OPS[op](0, n) === truth ? NONE : a;
      if (b && m !== undefined) return OPS[op](m, 0) === truth ? NONE : b;
    }
    return NONE;
  }
  if (ts.isConditionalExpression(e)) return inter(uni(go(e.condition, true), go(e.whenTrue, truth)), uni(go(e.condition, false), go(e.whenFalse, truth)));
  if (ts.isIdentifier(e)) { const f = follow(e); return f !== e ? go(f, truth) : NONE; }
  if (ts.isCallExpression(e)) {
    const c = unwrap(e.expression);
    if (ts.isPropertyAccessExpression(c) && /^(some|includes)$/.test(c.name.text)) return truth ? keys(c.expression, true) : NONE;
    if (c.getText() === "Boolean" && e.arguments[0]) return go(e.arguments[0], truth);
    if (/(^|\.)isEmpty$/.test(c.getText()) && e.arguments[0] && !apps().V.callee(e)) return truth ? NONE : keys(e.arguments[0], true);
    const f = apps().V.callee(e), rs = f?.body ? returnsOf(f) : [];
    if (rs.length === 1) {
      const got = go(rs[0], truth), out = new Set();
      f.parameters.forEach((p, i) => { if (ts.isIdentifier(p.name) && e.arguments[i]) { const k = `#${idOf(p)}`; for (const g of got) if (g === k) for (const x of keys(e.arguments[i], true)) out.add(x); else if (g.startsWith(`${k}.`)) { const b = key(e.arguments[i]); if (b) out.add(b + g.slice(k.length)); } } });
      for (const g of got) if (!f.parameters.some((p) => g === `#${idOf(p)}` || g.startsWith(`#${idOf(p)}.`))) out.add(g);
      return out;
    }
  }
  return NONE;
}
// can control go on after a statement to the next one?
function completes(st) {
  if (!st) return true;
  if (ts.isBlock(st)) return st.statements.every(completes);
  if (ts.isThrowStatement(st) || ts.isReturnStatement(st) || ts.isContinueStatement(st) || ts.isBreakStatement(st)) return false;
  if (ts.isIfStatement(st)) return completes(st.thenStatement) || completes(st.elseStatement);
  if (ts.isTryStatement(st)) return st.finallyBlock && !completes(st.finallyBlock) ? false : completes(st.tryBlock) || (!!st.catchClause && completes(st.catchClause.block));
  if (ts.isExpressionStatement(st)) { const c = strip(st.expression); return !(ts.isCallExpression(c) && apps().ck.getTypeAtLocation(c).flags & ts.TypeFlags.Never); }
  return true;
}
const declOf = (k) => { const m = /^#(\d+)/.exec(k); return m ? [...ids.keys()][Number(m[1])] : undefined; };
const within = (n, f) => { while (n) { if (n === f) return true; n = n.parent; } return false; };
// is a list known to have something in it wherever control reaches a node?
function known(ks, at, depth = 0) {
  if (!ks.size || depth > 6) return false;
  const hit = (s) => [...s].some((x) => ks.has(x));
  for (let n = at, p = n.parent; p; n = p, p = p.parent) {
    if (ts.isIfStatement(p) || ts.isConditionalExpression(p)) {
      const c = ts.isIfStatement(p) ? p.expression : p.condition, yes = ts.isIfStatement(p) ? p.thenStatement : p.whenTrue, no = ts.isIfStatement(p) ? p.elseStatement : p.whenFalse;
      if (n === yes && hit(implied(c, true))) return true;
      if (n === no && hit(implied(c, false))) return true;
    }
    if (ts.isBinaryExpression(p) && n === p.right) { const op = p.operatorToken.kind; if (op === ts.SyntaxKind.AmpersandAmpersandToken && hit(implied(p.left, true))) return true; if (op === ts.SyntaxKind.BarBarToken && hit(implied(p.left, false))) return true; }
    if (ts.isForOfStatement(p) && n === p.statement && hit(keys(p.expression, true))) return true;
    if ((ts.isWhileStatement(p) && n === p.statement && hit(implied(p.expression, true))) || (ts.isForStatement(p) && n === p.statement && p.condition && hit(implied(p.condition, true)))) return true;
    if (p.statements && n.pos !== undefined) for (const s of p.statements) {
      if (s === n) break;
      if (ts.isIfStatement(s)) { if (!completes(s.thenStatement) && hit(implied(s.expression, false))) return true; if (s.elseStatement && !completes(s.elseStatement) && hit(implied(s.expression, true))) return true; }
    }
    if (ts.isFunctionLike(p)) {
      const c = p.parent && ts.isCallExpression(p.parent) && p.parent.arguments.includes(p) ? p.parent : undefined, x = c && unwrap(c.expression);
      if (x && ts.isPropertyAccessExpression(x) && /^(map|forEach|flatMap|filter|reduce|some|every|find)$/.test(x.name.text) && hit(keys(x.expression, true))) return true;
      if (c || (p.parent && ts.isParenthesizedExpression(p.parent))) continue;
      const out = [...ks].filter((k) => { const d = declOf(k); return d && !within(d, p); });
      if (!out.length) return false;
      const s = apps().V.sites(p);
      return s.sites.length > 0 && !s.escapes.length && s.sites.every((c2) => known(new Set(out), c2, depth + 1));
    }
  }
  return false;
}
const busy = new Set();
export function nonEmpty(e, at, depth = 0) {
  e = strip(e);
  const A = apps();
  if (!e || depth > 12) return false;
  const k = `${e.getSourceFile().fileName}:${e.pos}:${e.end}:${e.kind}:${at.pos}`;
  if (busy.has(k)) return true;
  busy.add(k);
  try {
    const t = A.ck.getTypeAtLocation(e), tgt = t.target;
    if (A.ck.isTupleType?.(t) && tgt.minLength > 0) return true;
    if (known(keys(e), at)) return true;
    if (ts.isArrayLiteralExpression(e)) return e.elements.some((x) => !ts.isSpreadElement(x) || nonEmpty(x.expression, at, depth + 1));
    if (ts.isConditionalExpression(e)) return nonEmpty(e.whenTrue, e.whenTrue, depth + 1) && nonEmpty(e.whenFalse, e.whenFalse, depth + 1);
    if (ts.isBinaryExpression(e) && /^(\?\?|\|\|)$/.test(e.operatorToken.getText())) return nonEmpty(e.left, at, depth + 1) && nonEmpty(e.right, at, depth + 1);
    const s = sameLength(e);
    if (s) return nonEmpty(s, at, depth + 1);
    const mo = ts.isPropertyAccessExpression(e) ? { name: e.name.text, of: e.expression } : memberOf(e);
    if (mo?.of && mo.name === "Records" && /^(SQS|SNS|S3|Kinesis\w*|DynamoDBStream)Event$/.test(A.ck.typeToString(A.ck.getTypeAtLocation(mo.of)))) return true;
    if (ts.isCallExpression(e)) {
      const c = unwrap(e.expression), f = A.V.callee(e);
      if (f?.body) { const rs = returnsOf(f); return rs.length > 0 && rs.every((r) => nonEmpty(r, r, depth + 1)); }
      if (ts.isPropertyAccessExpression(c) && c.name.text === "concat") return nonEmpty(c.expression, at, depth + 1) || e.arguments.some((a) => !A.ck.isArrayType(A.ck.getTypeAtLocation(a)) || nonEmpty(a, at, depth + 1));
      return false;
    }
    const m = ts.isPropertyAccessExpression(e) ? A.V.decl(e.name) : undefined;
    if (m && ts.isPropertyAssignment(m)) return nonEmpty(m.initializer, m, depth + 1);
    if (m && ts.isPropertyDeclaration(m) && m.initializer && m.modifiers?.some((x) => x.kind === ts.SyntaxKind.ReadonlyKeyword)) return nonEmpty(m.initializer, m, depth + 1);
    if (ts.isIdentifier(e)) {
      const d = A.V.decl(e);
      if (!d || shrunk(d)) return false;
      if (ts.isVariableDeclaration(d) && ts.isIdentifier(d.name)) {
        // filled one by one before the place where it is used
        if (A.V.refs(d).some((w) => { const x = w.parent; if (!ts.isPropertyAccessExpression(x) || x.expression !== w || x.name.text !== "push") return false; const c = x.parent, st = c?.parent; return c && ts.isCallExpression(c) && c.arguments.some((a) => !ts.isSpreadElement(a)) && ts.isExpressionStatement(st) && st.parent.statements && within(at, st.parent) && st.pos < at.pos; })) return true;
        // or one for each element of a list that has something in it
        if (A.V.refs(d).some((w) => {
          const x = w.parent, c = x?.parent, st = c?.parent;
          if (!ts.isPropertyAccessExpression(x) || x.expression !== w || x.name.text !== "push" || !ts.isCallExpression(c) || !c.arguments.some((a) => !ts.isSpreadElement(a))) return false;
          let body = ts.isExpressionStatement(st) ? (ts.isBlock(st.parent) ? st.parent : st) : c, loop = body.parent, list;
          if (ts.isBlock(body) && body.statements.slice(0, body.statements.indexOf(st)).some((z) => !(ts.isExpressionStatement(z) || ts.isVariableStatement(z)))) return false;
          if (ts.isForOfStatement(loop) && loop.statement === body) list = loop.expression;
          else if (ts.isFunctionLike(loop) && loop.body === body && ts.isCallExpression(loop.parent) && ts.isPropertyAccessExpression(unwrap(loop.parent.expression)) && unwrap(loop.parent.expression).name.text === "forEach") { list = unwrap(loop.parent.expression).expression; loop = loop.parent.parent; }
          return list && ts.isStatement(loop) && loop.parent.statements && within(at, loop.parent) && loop.pos < at.pos && nonEmpty(list, list, depth + 1);
        })) return true;
        const vs = valuesOf(e);
        return vs.length > 0 && vs.every((v) => v !== e && nonEmpty(v, v, depth + 1));
      }
      if (ts.isParameter(d) && ts.isIdentifier(d.name)) {
        const fn = d.parent, i = fn.parameters.indexOf(d), s2 = A.V.sites(fn);
        if (s2.escapes.length || !s2.sites.length || d.dotDotDotToken) return false;
        return s2.sites.every((c) => { const a = (c.arguments ?? [])[i] ?? d.initializer; return a && nonEmpty(a, c, depth + 1); });
      }
    }
    return false;
  } finally { busy.delete(k); }
}
const isList = (t) => { const A = apps(); t = A.ck.getNonNullableType(t); return A.ck.isArrayType(t) || A.ck.isTupleType(t) || (t.isUnion?.() && t.types.every((x) => A.ck.isArrayType(x) || A.ck.isTupleType(x))); };
const vague = (t) => { const A = apps(); return !!(t.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown | ts.TypeFlags.TypeParameter)); };
const element = (t) => { const A = apps(); t = A.ck.getNonNullableType(t); return A.ck.getTypeArguments(t)?.[0]; };
export const lists = {
  A10: {
    explain: "Every list placeholder of every statement text (`$1:list`, `${ids:csv}`) and every `in` of the query builder, against the value given at every place where the statement is run: the value is a list, and at each such place the list is shown to have something in it, from its type, from what it is made of, or from the conditions under which control gets there, through callers.",
    assumptions: ["Lists are not emptied through another name between the check of their length and the statement.", "Events of queues, topics and buckets have at least one record."],
    run(C) {
      const A = apps();
      const give = (v, where, text) => {
        const nm = `${appOf(where)} ${nameOf(enclosing(where))}`;
        const t = A.ck.getTypeAtLocation(v);
        C.ob("is-list", isList(t) || vague(t), where, `${nm}: the value given for ${text} is a list (${A.ck.typeToString(t)})`, `${nm} ${text} list`);
        const ok = nonEmpty(v, v);
        C.ob("not-empty", ok, where, ok ? `${nm}: the list given for ${text} has something in it` : `${nm}: nothing shows that the list given for ${text} has something in it; the statement fails for an empty one`, `${nm} ${text} empty`);
      };
      let und = 0;
      for (const s of sinks().flatMap((x) => (x.text ? instances(x) : []))) {
        if (!s.text || builderOf(s.text)) continue;
        const prepared = isStmtType(s.text);
        const texts = prepared ? newsOf(s.text).list.flatMap((n) => { const st = statements().find((x) => x.node === n); return st?.text ? [...A.V.texts(st.text).texts] : []; }) : [...A.V.texts(s.text).texts];
        C.analysed.add(loc(s.call));
        for (const t of texts) {
          const bare = t.replace(/--[^\n]*/g, " ");
          if (prepared) { const m = /\$\d+:(?!:)[a-z]+/.exec(bare); C.ob("native", !m, s.call, m ? `a prepared statement is sent with ${m[0]}, which the database does not know` : "a prepared statement has only the placeholders of the database", `${appOf(s.call)} ${nameOf(enclosing(s.call))} native`); continue; }
          if (s.kind !== "pg" && s.kind !== "format") continue;
          const vs = valuesOf(s.values).map((x) => strip(x)).filter(Boolean);
          for (const m of bare.matchAll(/\$(\d+):(list|csv)\b/g)) {
            const i = Number(m[1]) - 1;
            for (const v of vs) {
              if (ts.isArrayLiteralExpression(v)) { const x = v.elements.slice(0, i + 1).some(ts.isSpreadElement) ? undefined : v.elements[i]; if (x) give(x, s.call, m[0]); else und++; continue; }
              const ty = A.ck.getTypeAtLocation(v), el = isList(ty) && !A.ck.isTupleType(ty) ? element(ty) : undefined;
              if (el && !isList(el) && !vague(el)) C.ob("is-list", false, s.call, `${appOf(s.call)} ${nameOf(enclosing(s.call))}: ${m[0]} is given one element of a list (${A.ck.typeToString(ty)} is the list of values), the rest is left out`, `${appOf(s.call)} ${nameOf(enclosing(s.call))} ${m[0]} list`);
              else und++;
            }
          }
          for (const m of bare.matchAll(/\$[{(<[/]\s*([\w$]+):(list|csv)\s*[})>\]/]/g)) for (const v of vs) {
            const p = ts.isObjectLiteralExpression(v) ? v.properties.find((x) => x.name?.text === m[1]) : undefined;
            const x = p && (ts.isPropertyAssignment(p) ? p.initializer : ts.isShorthandPropertyAssignment(p) ? p.name : undefined);
            if (x) give(x, s.call, m[0]); else und++;
          }
          // a list in an `in` without a list placeholder is written as an array, which is not what `in` compares with
          for (const m of bare.matchAll(/\bin\s*\(\s*\$(\d+)\s*\)/gi)) for (const v of vs) if (ts.isArrayLiteralExpression(v) && v.elements[Number(m[1]) - 1] && !v.elements.slice(0, Number(m[1])).some(ts.isSpreadElement)) C.ob("is-list", !isList(A.ck.getTypeAtLocation(v.elements[Number(m[1]) - 1])), s.call, `${m[0]} is not given a list`, `${appOf(s.call)} ${nameOf(enclosing(s.call))} ${m[0]}`);
        }
      }
      walkAll((n) => {
        if (!ts.isCallExpression(n) || !ts.isPropertyAccessExpression(unwrap(n.expression)) || !/^(where|having|orWhere|andWhere)$/.test(unwrap(n.expression).name.text) || n.arguments.length !== 3) return;
        const op = follow(strip(n.arguments[1]));
        if (!op || !ts.isStringLiteral(op) || !/^(not )?in$/i.test(op.text) || !/kysely/.test(A.ck.getSymbolAtLocation(unwrap(n.expression).name)?.declarations?.[0]?.getSourceFile().fileName ?? "")) return;
        const t = A.ck.getTypeAtLocation(n.arguments[2]);
        if (isList(t)) give(n.arguments[2], n, `${n.arguments[0].getText()} ${op.text}`);
      });
      C.min("not-empty", 7);
      C.extra = { undecided: und };
    },
  },
};
