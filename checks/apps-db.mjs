// A01-A03: what applications send to their databases.
import { ts, loc } from "./kit.mjs";
import { apps, sinks, statements, newsOf, returnsOf, isStmtType, reach, pathTo, enclosing, nameOf, appOf, unwrap, short, walkAll, follow, memberOf, declFile, importsFrom, NUM, REP } from "./apps-kit.mjs";

const RAW = /\$\d+(\^|#|:(raw|value|open)\b)|\$[{(<[/][^})>\]/]*(\^|#|:(raw|value|open)\b)[})>\]/]/;
// text compiled by the query builder: `<builder chain>.compile()`.sql
export function builderOf(e) {
  const m = memberOf(e);
  if (!m || !/^(sql|parameters)$/.test(m.name)) return undefined;
  const c = m.of;
  if (!ts.isCallExpression(c) || !ts.isPropertyAccessExpression(c.expression) || c.expression.name.text !== "compile") return undefined;
  const roots = chainRoots(c.expression.expression);
  return roots && { compiled: c, roots };
}
// root expressions and verbs of a fluent chain, through local variables and their reassignments
function chainRoots(e, seen = new Set()) {
  const A = apps();
  const verbs = new Set();
  let ok = true, roots = 0;
  const go = (x) => {
    x = unwrap(x);
    if (seen.has(x)) return; seen.add(x);
    if (ts.isCallExpression(x)) {
      if (ts.isPropertyAccessExpression(x.expression)) { verbs.add(x.expression.name.text); return go(x.expression.expression); }
      const f = A.V.callee(x); if (f) { returnsOf(f).forEach(go); return; }
      ok = false; return;
    }
    if (ts.isConditionalExpression(x)) { go(x.whenTrue); go(x.whenFalse); return; }
    if (ts.isNewExpression(x)) { if (/Kysely$/.test(x.expression.getText())) roots++; else ok = false; return; }
    if (ts.isIdentifier(x)) {
      const d = A.V.decl(x);
      if (d && ts.isVariableDeclaration(d) && d.initializer) {
        go(d.initializer);
        for (const w of A.V.refs(d)) if (ts.isBinaryExpression(w.parent) && w.parent.left === w) go(w.parent.right);
        return;
      }
      if (d && ts.isParameter(d)) {
        const i = d.parent.parameters.indexOf(d), s = A.V.sites(d.parent);
        if (!s.escapes.length && s.sites.length) { s.sites.forEach((c) => c.arguments[i] && go(c.arguments[i])); return; }
      }
    }
    ok = false;
  };
  go(e);
  return ok && roots ? verbs : undefined;
}

function textFixed(C, rule, expr, what) {
  const A = apps();
  const r = A.V.texts(expr);
  const b = r.bad[0];
  C.ob(rule, r.bad.length === 0, expr, r.bad.length ? `${what} contains run-time data: ${b.why}${b.node ? ` (${loc(b.node)})` : ""}` : `${what}: ${r.texts.size} constant text(s)`, `${appOf(expr)}:${nameOf(enclosing(expr))}`);
  const raw = [...r.texts].find((t) => RAW.test(t));
  C.ob(`${rule}-escaped`, !raw, expr, raw ? `${what} inserts a value without escaping: ${raw.match(RAW)[0]}` : `${what} escapes every value`, `${appOf(expr)}:raw:${nameOf(enclosing(expr))}`);
  return r;
}

// ------------------------------------------------------------------ values
// shapes of a values argument: {n} positional count, {keys:Set} named, {scalar:true}; undefined when not known
function shapes(e, seen = new Set()) {
  const A = apps();
  e = e && unwrap(e);
  if (!e) return [{ n: 0, none: true }];
  if (seen.has(e)) return [];
  seen = new Set(seen).add(e);
  if (ts.isAwaitExpression(e)) return shapes(e.expression, seen);
  if (ts.isArrayLiteralExpression(e)) {
    let n = 0;
    for (const x of e.elements) {
      if (!ts.isSpreadElement(x)) { n++; continue; }
      const s = shapes(x.expression, seen);
      if (s.length !== 1 || s[0].n === undefined) return [{ unknown: true }];
      n += s[0].n;
    }
    return [{ n, node: e }];
  }
  if (ts.isConditionalExpression(e)) return [...shapes(e.whenTrue, seen), ...shapes(e.whenFalse, seen)];
  if (ts.isObjectLiteralExpression(e)) {
    const keys = new Set();
    for (const p of e.properties) {
      if (ts.isSpreadAssignment(p)) for (const q of A.ck.getPropertiesOfType(A.ck.getTypeAtLocation(p.expression))) keys.add(q.name);
      else keys.add(p.name.text ?? p.name.getText());
    }
    return [{ keys }];
  }
  if (ts.isIdentifier(e) && e.text === "undefined") return [{ n: 0, none: true }];
  if (ts.isIdentifier(e)) {
    const d = A.V.decl(e);
    if (d && ts.isVariableDeclaration(d) && d.initializer && A.V.isFixed(d)) {
      const pushed = A.V.refs(d).some((w) => ts.isPropertyAccessExpression(w.parent) && w.parent.expression === w && /^(push|unshift|splice|pop)$/.test(w.parent.name.text));
      const filled = A.V.refs(d).some((w) => { let x = w; if ((ts.isPropertyAccessExpression(w.parent) || ts.isElementAccessExpression(w.parent)) && w.parent.expression === w) x = w.parent; return x !== w && ts.isBinaryExpression(x.parent) && x.parent.left === x && x.parent.operatorToken.kind === ts.SyntaxKind.EqualsToken; });
      if (!pushed && !filled) return shapes(d.initializer, seen);
      return [{ unknown: true }];
    }
    if (d && ts.isParameter(d)) {
      const i = d.parent.parameters.indexOf(d), s = A.V.sites(d.parent);
      const t = typeShape(e);
      if (t && !t.unknown) return [t];
      if (!s.escapes.length && s.sites.length) return s.sites.flatMap((c) => shapes(c.arguments[i], seen));
    }
  }
  if (ts.isCallExpression(e)) { const f = A.V.callee(e); if (f) { const rs = returnsOf(f); if (rs.length) return rs.flatMap((x) => shapes(x, seen)); } }
  return [typeShape(e) ?? { unknown: true }];
}
function typeShape(e) {
  const A = apps();
  const t = A.ck.getTypeAtLocation(e);
  const one = (u) => {
    if (u.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown)) return { unknown: true };
    if (u.flags & (ts.TypeFlags.StringLike | ts.TypeFlags.NumberLike | ts.TypeFlags.BooleanLike | ts.TypeFlags.BigIntLike)) return { n: 1, scalar: true };
    if (A.ck.isTupleType(u)) return { n: A.ck.getTypeArguments(u).length };
    if (A.ck.isArrayLikeType?.(u) || A.ck.isArrayType(u)) return { unknown: true };
    if (/^(Date|Buffer)$/.test(u.symbol?.name ?? "")) return { n: 1, scalar: true };
    return { keys: new Set(A.ck.getPropertiesOfType(u).map((p) => p.name)) };
  };
  const us = t.isUnion() ? t.types.filter((u) => !(u.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null))) : [t];
  const ss = us.map(one);
  return ss.every((s) => JSON.stringify(s) === JSON.stringify(ss[0])) ? ss[0] : { unknown: true };
}
// a query in a wrapper function, once for every call of the wrapper
export function instances(s, depth = 0) {
  const A = apps();
  const par = (e) => { e = follow(e); const d = e && ts.isIdentifier(e) ? A.V.decl(e) : undefined; return d && ts.isParameter(d) ? d : undefined; };
  const tp = par(s.text), vp = par(s.values);
  if (!tp || depth > 4) return [s];
  const fn = tp.parent, { sites, escapes } = A.V.sites(fn);
  if (escapes.length || !sites.length) return [s];
  const at = (c, d) => { const i = fn.parameters.indexOf(d); return (c.arguments ?? [])[i] ?? d.initializer; };
  return sites.flatMap((c) => instances({ ...s, call: c, text: at(c, tp), values: vp && vp.parent === fn ? at(c, vp) : s.values }, depth + 1));
}
// what a text asks for
function asks(t) {
  const s = t.replace(/--[^\n]*/g, " ");
  const pos = [...s.matchAll(/\$(\d+)/g)].map((m) => Number(m[1]));
  const named = new Set([...s.matchAll(/\$(?:\{\s*([\w$]+)[^}]*\}|\(\s*([\w$]+)[^)]*\)|<\s*([\w$]+)[^>]*>|\[\s*([\w$]+)[^\]]*\]|\/\s*([\w$]+)[^/]*\/)/g)].map((m) => m.slice(1).find(Boolean)));
  return { max: Math.max(0, ...pos), set: new Set(pos), named };
}
// the number of values of each row against the columns named
function insertShape(t) {
  const m = /insert\s+into\s+[\w."]+\s*\(([^()]*)\)\s*(?:overriding\s+\w+\s+value\s*)?values\s*\(/i.exec(t);
  if (!m || t.includes(REP)) return undefined;
  const cols = m[1].split(",").length;
  let i = m.index + m[0].length, depth = 1, n = 1, q = null, any = false;
  for (; i < t.length && depth > 0; i++) {
    const c = t[i];
    if (q) { if (c === q) q = null; continue; }
    if (c === "'" || c === '"') q = c;
    else if (c === "(" || c === "[") depth++;
    else if (c === ")" || c === "]") depth--;
    else if (c === "," && depth === 1) n++;
    if (!/\s/.test(c)) any = true;
  }
  return any ? { cols, vals: n } : undefined;
}

// ------------------------------------------------------------------ reading and writing
const WRITES = /\b(insert\s+into|delete\s+from|update\s+(only\s+)?[\w."$:]+(\s+(as\s+)?\w+)?\s+set\b|merge\s+into|truncate\s|drop\s+\w|alter\s+\w|create\s+(table|index|temp|or|view)|nextval\s*\(|setval\s*\(|for\s+(no\s+key\s+)?update|for\s+share|lock\s+table|refresh\s+materialized)/i;
const strip = (t) => t.replace(/--[^\n]*/g, " ").replace(/\/\*[\s\S]*?\*\//g, " ").replace(/'(?:[^']|'')*'/g, "''");
// does the statement run by this sink write? -> text or undefined
export function writesText(s) {
  const A = apps();
  const b = builderOf(s.text);
  if (b) { const w = [...b.roots].find((v) => /^(insertInto|updateTable|deleteFrom|mergeInto|replaceInto|forUpdate|forShare)$/.test(v)); return w && `query builder ${w}`; }
  let texts = [];
  if (isStmtType(s.text)) for (const n of newsOf(s.text).list) { const st = statements().find((x) => x.node === n); if (st?.text) texts.push(...A.V.texts(st.text).texts); }
  else texts = [...A.V.texts(s.text).texts];
  const w = texts.find((t) => WRITES.test(strip(t)));
  return w && strip(w).match(WRITES)[0].replace(/\s+/g, " ");
}
const isDbType = (t) => {
  const n = t?.symbol?.name ?? "", a = t?.aliasSymbol?.name ?? "";
  if (t?.isUnion?.()) return t.types.some(isDbType);
  return /^(IDatabase|ITask|IBaseProtocol)$/.test(n) || /^(DTDatabase|DTTransaction)$/.test(a);
};
// functions that open a unit of work: name -> kind (resolved to the library's own declarations)
export function opener(call) {
  const A = apps();
  const f = A.V.callee(call);
  if (!f || !ts.isFunctionDeclaration(f)) return undefined;
  if (!/digitraffic-common\/src\/database\/database\.ts$/.test(f.getSourceFile().fileName)) return undefined;
  return /^(inDatabase|inDatabaseReadonly|inTransaction)$/.test(f.name?.text ?? "") ? f.name.text : undefined;
}
// the functions a callback argument can be
export function callbacks(e, seen = new Set()) {
  const A = apps();
  e = unwrap(e);
  if (!e || seen.has(e)) return [];
  seen.add(e);
  if (ts.isArrowFunction(e) || ts.isFunctionExpression(e)) return [e];
  if (ts.isConditionalExpression(e)) return [...callbacks(e.whenTrue, seen), ...callbacks(e.whenFalse, seen)];
  if (ts.isCallExpression(e)) { const f = A.V.callee(e); return f ? returnsOf(f).flatMap((x) => callbacks(x, seen)) : []; }
  const id = ts.isIdentifier(e) ? e : ts.isPropertyAccessExpression(e) ? e.name : undefined;
  const d = id && A.V.decl(id);
  if (!d) return [];
  if (ts.isFunctionLike(d) && d.body) return [d];
  if ((ts.isVariableDeclaration(d) || ts.isPropertyDeclaration(d)) && d.initializer) return callbacks(d.initializer, seen);
  if (ts.isParameter(d)) { const i = d.parent.parameters.indexOf(d); return A.V.sites(d.parent).sites.flatMap((c) => (c.arguments?.[i] ? callbacks(c.arguments[i], seen) : [])); }
  return [];
}

export const appsDb = {
  A01: {
    level: "other", explain: "Provenance of the text of every database statement in the library and all applications.",
    assumptions: ["Deployment settings (environment variables) are trusted.", "The drivers escape the values they format (pg-promise) or send them apart from the text (prepared statements, mysql2 placeholders, query builder parameters).", "A property of an object returned by a schema's parse has its declared type."],
    run(C) {
      const A = apps();
      for (const s of statements()) {
        if (!s.text) { C.ob("statement-text", false, s.node, "the statement's text cannot be found"); continue; }
        textFixed(C, "statement-text", s.text, "prepared statement");
      }
      for (const s of sinks()) {
        const w = s.kind === "mysql" ? "MySQL statement" : "statement";
        if (!s.text) { C.ob("query-text", false, s.call, "a query without a text"); continue; }
        if (isStmtType(s.text)) { C.ob("query-text", true, s.call, "runs a statement object (checked where it is made)"); continue; }
        if (builderOf(s.text)) { C.ob("query-text", true, s.call, "text compiled by the query builder"); continue; }
        textFixed(C, "query-text", s.text, w);
      }
      // the query builder's escape hatches
      walkAll((n) => {
        if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && importsFrom(n.getSourceFile(), /^kysely/) && n.expression.expression.getText() === "sql" && /^(raw|lit|literal|ref|table|id|join)$/.test(n.expression.name.text))
          n.arguments.forEach((a) => textFixed(C, "builder-raw", a, `sql.${n.expression.name.text}`));
      });
      C.min("statement-text", 60); C.min("query-text", 90);
      C.extra = { statements: statements().length, queries: sinks().length, expressions_visited: A.V.visited };
    },
  },
  A02: {
    level: "other", explain: "Placeholders of every statement text against the values given at every call, and uniqueness of prepared statement names.",
    assumptions: ["Values whose length is not statically known are counted but not decided (listed in evidence as undecided)."],
    run(C) {
      const A = apps();
      let undecided = 0;
      const checkTexts = (texts, values, where, exact, declared) => {
        const ss = values === undefined && declared ? shapes(declared) : shapes(values);
        for (const t of texts) {
          const a = asks(t);
          const dyn = t.includes(REP) && /\$/.test(t);
          for (const s of ss) {
            if (s.unknown || dyn) { undecided++; continue; }
            if (a.named.size && s.keys) {
              const missing = [...a.named].filter((k) => !s.keys.has(k) && k !== "this");
              C.ob("named-values", missing.length === 0, where, missing.length ? `the text refers to ${missing.map((m) => `\`${m}\``).join(", ")}, which the values do not have` : `${a.named.size} named values present`, `${appOf(where)}:${nameOf(enclosing(where))}:named`);
            } else if (a.named.size) C.ob("named-values", false, where, `the text refers to ${[...a.named].join(", ")} but the values are not an object`, `${appOf(where)}:${nameOf(enclosing(where))}:named`);
            else if (s.keys && a.max > 0 && exact) C.ob("positional-values", false, where, `the text refers to $1…$${a.max} but the values are an object`, `${appOf(where)}:${nameOf(enclosing(where))}:pos`);
            else if (s.keys && a.max > 1) C.ob("positional-values", false, where, `the text refers to $1…$${a.max} but the values are an object`, `${appOf(where)}:${nameOf(enclosing(where))}:pos`);
            else if (s.keys) { if (a.max === 0 && s.keys.size) C.ob("named-values", false, where, "values are given to a text without placeholders", `${appOf(where)}:${nameOf(enclosing(where))}:named`); }
            else {
              const ok = s.n === a.max;
              C.ob("positional-values", ok, where, ok ? `${s.n} values for $1…$${a.max}` : `${s.n} value(s) are given to a text with ${a.max} placeholder(s)`, `${appOf(where)}:${nameOf(enclosing(where))}:pos`);
              // a placeholder that is never mentioned leaves its type undetermined
              const gap = exact && [...Array(a.max).keys()].map((i) => i + 1).find((i) => !a.set.has(i));
              C.ob("no-gap", !gap, where, gap ? `placeholder $${gap} is missing from the text` : "placeholders are contiguous", `${appOf(where)}:${nameOf(enclosing(where))}:gap`);
            }
          }
          const ins = insertShape(t);
          if (ins) C.ob("insert-columns", ins.cols === ins.vals, where, `${ins.cols} columns, ${ins.vals} values`, `${appOf(where)}:${nameOf(enclosing(where))}:insert`);
        }
      };
      for (const s of sinks().flatMap((x) => (x.text ? instances(x) : []))) {
        if (!s.text) continue;
        const where = s.call;
        if (isStmtType(s.text)) {
          const { list, ok } = newsOf(s.text);
          if (!ok) undecided++;
          for (const n of list) {
            const st = statements().find((x) => x.node === n);
            if (!st?.text) continue;
            checkTexts(A.V.texts(st.text).texts, s.values, where, true, st.values);
          }
        } else if (builderOf(s.text)) {
          const b = builderOf(s.text), v = s.values && unwrap(s.values);
          const same = v && memberOf(v)?.name === "parameters" && builderOf(v)?.compiled === b.compiled;
          C.ob("builder-values", same, where, same ? "the compiled query's own parameters" : "the values are not the compiled query's parameters", `${appOf(where)}:${nameOf(enclosing(where))}:builder`);
        } else if (s.kind === "pg") checkTexts(A.V.texts(s.text).texts, s.values, where, false);
        else if (s.kind === "mysql") {
          for (const t of A.V.texts(s.text).texts) {
            const qm = (strip(t).replace(/"[^"]*"|`[^`]*`/g, "").match(/\?\??/g) ?? []).length;
            const named = new Set([...strip(t).matchAll(/(?<![:\w]):([a-zA-Z_]\w*)/g)].map((m) => m[1]));
            for (const sh of shapes(s.values)) {
              if (sh.unknown) { undecided++; continue; }
              if (named.size && sh.keys) { const missing = [...named].filter((k) => !sh.keys.has(k)); C.ob("named-values", missing.length === 0, where, missing.length ? `the text refers to ${missing.join(", ")}, which the values do not have` : `${named.size} named values present`, `${appOf(where)}:${nameOf(enclosing(where))}:named`); }
              else if (!named.size && sh.n !== undefined) C.ob("positional-values", sh.n === qm, where, `${sh.n} values for ${qm} placeholders`, `${appOf(where)}:${nameOf(enclosing(where))}:pos`);
              else undecided++;
            }
            const ins = insertShape(t);
            if (ins) C.ob("insert-columns", ins.cols === ins.vals, where, `${ins.cols} columns, ${ins.vals} values`, `${appOf(where)}:${nameOf(enclosing(where))}:insert`);
          }
        }
      }
      // prepared statement names
      const byApp = new Map();
      for (const st of statements()) {
        if (!st.named) continue;
        const names = st.name ? A.V.texts(st.name) : { texts: new Set(), bad: [{}] };
        C.ob("named-statement", st.name && names.bad.length === 0 && names.texts.size >= 1, st.node, st.name ? "the prepared statement has a fixed name" : "the prepared statement has no fixed name", `${appOf(st.node)}:name`);
        for (const n of names.texts) {
          const k = `${appOf(st.node)}\0${n}`;
          const text = [...A.V.texts(st.text).texts].sort().join("\0");
          const o = byApp.get(k);
          if (!o) byApp.set(k, { st, text });
          else C.ob("unique-name", o.text === text, st.node, o.text === text ? `same text as ${loc(o.st.node)}` : `prepared statement \`${n}\` has another text at ${loc(o.st.node)}`, `${appOf(st.node)}:${n}`);
        }
      }
      C.ob("unique-name", true, "(all applications)", `${byApp.size} distinct prepared statement names`);
      C.min("positional-values", 60); C.min("insert-columns", 15); C.min("named-statement", 60);
      C.extra = { undecided_value_lists: undecided };
    },
  },
  A03: {
    level: "other", explain: "Statements reachable from every read-only unit of work, and the connection every statement inside a transaction runs on.",
    assumptions: ["Calls are resolved by the type checker; an interface method reaches every class that implements it."],
    run(C) {
      const A = apps();
      const byFn = new Map();
      for (const s of sinks()) { const f = enclosing(s.call); let l = byFn.get(f); if (!l) byFn.set(f, (l = [])); l.push(s); }
      let units = 0;
      walkAll((n) => {
        if (!ts.isCallExpression(n)) return;
        const k = opener(n);
        if (k !== "inDatabaseReadonly") return;
        units++;
        const cbs = callbacks(n.arguments[0]);
        C.ob("read-only-callback", cbs.length > 0 || /digitraffic-common/.test(n.getSourceFile().fileName), n, cbs.length ? "the work is known" : "the work given to a read-only unit cannot be resolved", `${appOf(n)}:cb`);
        // a nested unit of work has its own connection
        const inner = (f) => { let bad = false; const v = (m) => { if (ts.isCallExpression(m) && opener(m)) bad = true; if (!bad) ts.forEachChild(m, v); }; if (f.body) v(f.body); return bad; };
        const seen = reach(cbs, (f) => !cbs.includes(f) && inner(f));
        for (const [f] of seen) for (const s of byFn.get(f) ?? []) {
          if (s.kind !== "pg") continue;
          if (!cbs.includes(f) && inner(f)) continue;
          const w = writesText(s);
          C.ob("read-only", !w, s.call, w ? `\`${w}\` runs in the read-only unit opened at ${loc(n)} (${pathTo(seen, f)})` : `reads, in the read-only unit at ${loc(n)}`, `${appOf(s.call)}:${nameOf(f)}`);
        }
      });
      // inside a transaction, only the transaction's own connection is used
      walkAll((n) => {
        if (!ts.isCallExpression(n)) return;
        const e = unwrap(n.expression);
        const tx = (ts.isPropertyAccessExpression(e) && /^(tx|txIf|task|taskIf)$/.test(e.name.text) && /pg-promise/.test(declFile(n))) || opener(n) === "inTransaction" || opener(n) === "inDatabase" || opener(n) === "inDatabaseReadonly";
        if (!tx || /digitraffic-common\/src\/database\/database\.ts$/.test(n.getSourceFile().fileName)) return;
        for (const a of n.arguments) {
          const f = unwrap(a);
          if (!ts.isArrowFunction(f) && !ts.isFunctionExpression(f)) continue;
          const own = new Set();
          const v = (m) => {
            if (ts.isIdentifier(m) && !(ts.isPropertyAccessExpression(m.parent) && m.parent.name === m) && !(ts.isPropertyAssignment(m.parent) && m.parent.name === m)) {
              const d = A.V.decl(m);
              if (d && d.name !== m && (ts.isParameter(d) || ts.isVariableDeclaration(d)) && isDbType(A.ck.getTypeAtLocation(m)) && !ts.isTypeNode(m.parent)) {
                let p = d; while (p && p !== f) p = p.parent;
                const inside = !!p;
                C.ob("own-connection", inside, m, inside ? `\`${m.text}\` is the unit's own` : `\`${m.text}\` of an outer unit is used inside the unit of work opened at ${loc(n)}`, `${appOf(m)}:${nameOf(enclosing(n))}`);
              }
            }
            ts.forEachChild(m, v);
          };
          v(f.body);
        }
      });
      C.min("read-only", 40); C.min("own-connection", 60);
      C.extra = { read_only_units: units };
    },
  },
};
