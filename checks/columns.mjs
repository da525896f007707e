// Saved rows: every value in the column it belongs to, and a replaced row as a new one would be.
import { ts, loc } from "./kit.mjs";
import { apps, walkAll, sinks, statements, isStmtType, newsOf, enclosing, nameOf, appOf, unwrap, follow, memberOf, returnsOf, valuesOf, importsFrom, REP } from "./apps-kit.mjs";
import { instances } from "./apps-db.mjs";

const norm = (s) => s.toLowerCase().replace(/[^a-z0-9]/g, "");
const clean = (t) => t.replace(/--[^\n]*/g, " ").replace(/\/\*[\s\S]*?\*\//g, " ").replace(/\s+/g, " ").trim();
export function splitTop(s, sep = ",") {
  const out = []; let d = 0, c = "", q = "";
  for (const ch of s) {
    if (q) { c += ch; if (ch === q) q = ""; continue; }
    if (ch === "'") q = ch;
    if ("([".includes(ch)) d++;
    if (")]".includes(ch)) d--;
    if (ch === sep && d === 0) { out.push(c.trim()); c = ""; } else c += ch;
  }
  if (c.trim()) out.push(c.trim());
  return out;
}
const close = (t, i) => { let d = 0, q = ""; for (; i < t.length; i++) { const c = t[i]; if (q) { if (c === q) q = ""; continue; } if (c === "'") q = c; if (c === "(") d++; if (c === ")" && --d === 0) return i; } return -1; };
const bare = (c) => c.replace(/["`]/g, "").replace(/^.*\./, "").trim();
// {table, cols: [{col, expr}], keys, sets: [{col, expr}], nothing, where}
export function insertParts(text) {
  const t = clean(text), m = /insert into ([\w.$:"`?]+) ?\(/i.exec(t);
  if (!m) return undefined;
  const e = close(t, m.index + m[0].length - 1);
  if (e < 0) return undefined;
  const cols = splitTop(t.slice(m.index + m[0].length, e)).map(bare);
  let rest = t.slice(e + 1).trim(), exprs;
  const v = /^(?:overriding \w+ value )?values ?\(/i.exec(rest), s = /^select (?:distinct )?/i.exec(rest);
  if (v) { const z = close(rest, v[0].length - 1); if (z < 0) return undefined; exprs = splitTop(rest.slice(v[0].length, z)); rest = rest.slice(z + 1); }
  else if (s) { const f = splitTop(rest.slice(s[0].length).replace(/\bfrom\b[\s\S]*$/i, "")); exprs = f; }
  if (!exprs || exprs.length !== cols.length) return undefined;
  const out = { table: m[1], cols: cols.map((col, i) => ({ col, expr: exprs[i] })) };
  const c = /on conflict(?: ?\(([^)]*)\))?(?: on constraint \w+)? do (nothing|update set )/i.exec(rest), d = /on duplicate key update /i.exec(rest);
  if (c) { out.keys = c[1] ? splitTop(c[1]).map(bare) : []; out.nothing = /nothing/i.test(c[2]); }
  if (d || (c && !out.nothing)) {
    let tail = rest.slice((c ?? d).index + (c ?? d)[0].length).replace(/ returning .*$/i, "").replace(/;$/, "");
    const w = / where /i.exec(tail); if (w && c) { out.where = tail.slice(w.index + w[0].length); tail = tail.slice(0, w.index); }
    out.sets = splitTop(tail).map((x) => { const k = x.indexOf("="); return { col: bare(x.slice(0, k)), expr: x.slice(k + 1).trim() }; });
  }
  return out;
}
export function updateParts(text) {
  const t = clean(text), m = /^update (?:only )?([\w.$:"`?]+)(?: (?:as )?\w+)? set /i.exec(t);
  if (!m) return undefined;
  let tail = t.slice(m.index + m[0].length).replace(/ returning .*$/i, "").replace(/;$/, ""), where = "";
  const w = / where /i.exec(tail); if (w) { where = tail.slice(w.index + w[0].length); tail = tail.slice(0, w.index); }
  tail = tail.replace(/ from .*$/i, "");
  const cols = splitTop(tail).map((x) => { const k = x.indexOf("="); return { col: bare(x.slice(0, k)), expr: x.slice(k + 1).trim() }; });
  for (const x of where.split(/ and /i)) { const y = /^\(?\s*([\w.]+) ?= ?(\$\d+|\$\(\w+\)|:\w+)\)?$/.exec(x.trim()); if (y) cols.push({ col: bare(y[1]), expr: y[2] }); }
  return { table: m[1], cols };
}
const holes = (x) => [...x.matchAll(/\$(\d+)|\$[({<[/]\s*([\w$]+)|(?<![:\w]):([a-zA-Z_]\w*)/g)].map((m) => m[1] ?? m[2] ?? m[3]);

// the expression given for each placeholder: Map, or undefined
function given(values, depth = 0) {
  if (!values || depth > 4) return undefined;
  const v = follow(values);
  if (ts.isArrayLiteralExpression(v)) { if (v.elements.some(ts.isSpreadElement)) return undefined; return new Map(v.elements.map((e, i) => [String(i + 1), e])); }
  if (ts.isObjectLiteralExpression(v)) { const m = new Map(); for (const p of v.properties) if (ts.isPropertyAssignment(p)) m.set(p.name.text ?? p.name.getText(), p.initializer); else if (ts.isShorthandPropertyAssignment(p)) m.set(p.name.text, p.name); return m; }
  if (ts.isCallExpression(v)) { const f = apps().V.callee(v), rs = f ? returnsOf(f) : []; if (rs.length === 1) return given(rs[0], depth + 1); }
  return undefined;
}
// what a value is called: the last name of the member or variable it is, looking through conversions
export function called(e, depth = 0) {
  if (!e || depth > 8) return undefined;
  e = unwrap(e);
  if (ts.isAwaitExpression(e) || ts.isNonNullExpression(e) || ts.isAsExpression(e)) return called(e.expression, depth + 1);
  if (ts.isPropertyAccessExpression(e)) return e.name.text;
  if (ts.isElementAccessExpression(e) && ts.isStringLiteralLike(e.argumentExpression)) return e.argumentExpression.text;
  if (ts.isIdentifier(e)) { if (e.text === "undefined") return undefined; const m = memberOf(e); return m?.name ?? (follow(e) !== e ? called(follow(e), depth + 1) : undefined) ?? e.text; }
  if (ts.isBinaryExpression(e) && /^(\?\?|\|\|)$/.test(e.operatorToken.getText())) return called(e.left, depth + 1);
  if (ts.isConditionalExpression(e)) return called(e.whenTrue, depth + 1) ?? called(e.whenFalse, depth + 1);
  if (ts.isNewExpression(e) && e.arguments?.length === 1) return called(e.arguments[0], depth + 1);
  if (ts.isCallExpression(e)) { if (ts.isPropertyAccessExpression(unwrap(e.expression)) && /^(toISOString|toString|toUpperCase|toLowerCase|trim|getTime|valueOf|join)$/.test(unwrap(e.expression).name.text)) return called(unwrap(e.expression).expression, depth + 1); if (e.arguments.length === 1) return called(e.arguments[0], depth + 1); }
  return undefined;
}
// the words of the whole path to a value
const words = (s) => s.replace(/([a-z0-9])([A-Z])/g, "$1_$2").split(/[^A-Za-z0-9]+/).filter(Boolean).map((w) => w.toLowerCase());
function path(e, depth = 0) {
  if (!e || depth > 8) return [];
  e = unwrap(e);
  if (ts.isAwaitExpression(e) || ts.isNonNullExpression(e) || ts.isAsExpression(e)) return path(e.expression, depth + 1);
  if (ts.isPropertyAccessExpression(e)) return [...path(e.expression, depth + 1), ...words(e.name.text)];
  if (ts.isIdentifier(e)) { const f = follow(e); return f !== e && !ts.isCallExpression(f) && !ts.isAwaitExpression(f) && !ts.isFunctionLike(f) ? path(f, depth + 1) : words(e.text); }
  if (ts.isCallExpression(e) && e.arguments.length === 1 && !ts.isPropertyAccessExpression(unwrap(e.expression))) return path(e.arguments[0], depth + 1);
  if (ts.isBinaryExpression(e) && /^(\?\?|\|\|)$/.test(e.operatorToken.getText())) return path(e.left, depth + 1);
  return [];
}
const oneApart = (x, y) => { if (x.length !== y.length || !x.length) return -1; let at = -1; for (let i = 0; i < x.length; i++) if (x[i] !== y[i]) { if (at >= 0) return -1; at = i; } return at; };
const initials = (s) => words(s).map((w) => w[0]).join("");
// two columns whose values were exchanged, told by the one word that sets each pair apart or by initials
function exchanged(p, q) {
  if (p.name && q.name && words(p.col).length > 1 && words(q.col).length > 1 && norm(p.name) === initials(q.col) && norm(q.name) === initials(p.col) && initials(p.col) !== initials(q.col)) return true;
  const a = words(p.col), b = words(q.col), i = oneApart(a, b);
  if (i < 0) return false;
  const x = p.node ? path(p.node) : words(p.name ?? ""), y = q.node ? path(q.node) : words(q.name ?? ""), j = oneApart(x, y);
  return j >= 0 && ((x[j] === b[i] && y[j] !== b[i]) || (y[j] === a[i] && x[j] !== a[i])) && x[j] !== a[i] && y[j] !== b[i];
}
// columns that get the value named after another column, which itself gets something else
export function crossed(pairs) {
  const out = [], cols = new Set(pairs.map((p) => norm(p.col)));
  for (const p of pairs) {
    if (!p.name || norm(p.name) === norm(p.col) || !cols.has(norm(p.name))) continue;
    const own = pairs.filter((q) => norm(q.col) === norm(p.name));
    if (own.length && own.every((q) => q.name !== undefined ? norm(q.name) !== norm(p.name) : false)) out.push([p, own[0]]);
  }
  if (!out.length) pairs.forEach((p, i) => pairs.slice(i + 1).forEach((q) => { if (exchanged(p, q)) out.push([{ ...p, name: p.name ?? p.node?.getText() }, { ...q, name: q.name ?? q.node?.getText() }]); }));
  return out;
}
export const columns = {
  A12: {
    level: "other", explain: "Columns, placeholders, values and conflict clauses of every statement that saves rows, read together.",
    assumptions: ["A value that bears the name of a column of the statement belongs to that column.", "Columns that a replacing save leaves alone on purpose (identities, origins, counters of progress) are not decided."],
    run(C) {
      const A = apps();
      const done = new Set();
      const oneText = (t, values, node) => {
        if (!t) return;
        const ins = insertParts(t), upd = ins ? undefined : updateParts(t);
        const S = ins ?? upd;
        if (!S) return;
        const key = `${appOf(node)}:${S.table.replace(REP, "?")}`;
        const vals = given(values);
        if (vals || S.cols.some((c) => { const h = holes(c.expr); return !h.length || h.some((x) => !/^\d+$/.test(x)); })) {
          const pairs = S.cols.map(({ col, expr }) => {
            const h = [...new Set(holes(expr))];
            if (h.length === 0) return { col, name: /^[a-z_][\w.]*$/i.test(expr) && !/^(null|true|false|default|current_\w+)$/i.test(expr) ? bare(expr) : undefined };
            const v = h.length === 1 ? vals?.get(h[0]) : undefined;
            return { col, name: v ? called(v) : h.length === 1 && !/^\d+$/.test(h[0]) ? h[0] : undefined, node: v };
          });
          const bad = crossed(pairs);
          C.ob("own-column", bad.length === 0, bad[0]?.[0].node ?? node, bad.length ? `column \`${bad[0][0].col}\` gets \`${bad[0][0].name}\`, and column \`${bad[0][1].col}\` gets \`${bad[0][1].name}\`` : `${pairs.length} columns`, `${key}:own`);
        }
        if (!ins) return;
        const first = new Map(ins.cols.map((c) => [norm(c.col), c.expr]));
        for (const { col, expr } of ins.sets ?? []) {
          const was = first.get(norm(col)), ex = /^(?:excluded\.["`]?(\w+)["`]?|values ?\( ?["`]?(\w+)["`]? ?\))$/i.exec(expr), same = (x, y) => x.replace(/\s/g, "").toLowerCase() === y.replace(/\s/g, "").toLowerCase();
          if (ex) C.ob("same-as-new", norm(ex[1] ?? ex[2]) === norm(col), node, `\`${col}\` of a row that is there gets what was to be inserted as \`${ex[1] ?? ex[2]}\``, `${key}:${col}`);
          else if (was !== undefined && (holes(expr).length || holes(was).length || /^(true|false|null|'[^']*'|\d+)$/i.test(was))) {
            if (/\b(coalesce|case|greatest|least)\b|[a-z_]+\.[a-z_]+/i.test(expr.replace(/excluded\./gi, ""))) continue; // merged with what is there
            C.ob("same-as-new", same(expr, was), node, `\`${col}\` gets ${was} in a new row and ${expr} in one that is there`, `${key}:${col}`);
          }
        }
        // a mark of deletion is taken off when the object is saved again
        const del = ins.cols.find((c) => norm(c.col) === "deleted" && /^(false|null)$/i.test(c.expr));
        if (del && (ins.sets || ins.nothing)) { const s = ins.sets?.find((x) => norm(x.col) === "deleted"); C.ob("revived", !!s, node, s ? "an object saved again is not deleted" : "an object that was marked as deleted stays so when it is saved again", `${key}:revived`); }
        if (ins.where && ins.sets && !/[<>]=? ?(excluded|\$|:)|\bnow\b/i.test(ins.where) && / is distinct from | <> | != /i.test(` ${ins.where} `)) {
          const left = ins.sets.filter((x) => !new RegExp(`\\b${x.col}\\b`, "i").test(ins.where) && !/updat|modif/i.test(x.col));
          C.ob("every-change", left.length === 0, node, left.length ? `a change of \`${left[0].col}\` alone is not saved` : "a change of any column is saved", `${key}:where`);
        }
      };
      for (const s of sinks().flatMap((x) => (x.text ? instances(x) : []))) {
        if (!s.text || s.kind === "format") continue;
        const st = isStmtType(s.text) ? newsOf(s.text).list.map((n) => statements().find((x) => x.node === n)).filter(Boolean) : [{ text: s.text }];
        for (const q of st) if (q.text) for (const t of A.V.texts(q.text).texts) { const k = `${loc(s.call)}|${t}`; if (done.has(k)) continue; done.add(k); oneText(t, s.values ?? q.values, s.call); }
      }
      // rows given to the query builder, by column name
      walkAll((n) => {
        if (!ts.isCallExpression(n) || !ts.isPropertyAccessExpression(unwrap(n.expression)) || !/^(values|set|doUpdateSet)$/.test(unwrap(n.expression).name.text) || !importsFrom(n.getSourceFile(), /^kysely|\/(db|database|kysely)/)) return;
        for (const a of n.arguments) for (const o of [...valuesOf(a)].flatMap((x) => (ts.isCallExpression(x) && /map$/.test(x.expression.getText()) && x.arguments[0] && ts.isFunctionLike(unwrap(x.arguments[0])) ? (ts.isBlock(unwrap(x.arguments[0]).body) ? returnsOf(unwrap(x.arguments[0])) : [unwrap(x.arguments[0]).body]) : ts.isArrayLiteralExpression(x) ? [...x.elements] : [x])).map((x) => unwrap(x))) {
          if (!ts.isObjectLiteralExpression(o)) continue;
          const pairs = o.properties.filter((p) => ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p)).map((p) => ({ col: p.name.text ?? p.name.getText(), name: ts.isPropertyAssignment(p) ? called(p.initializer) : p.name.text, node: p }));
          const bad = crossed(pairs);
          C.ob("own-column", bad.length === 0, bad[0]?.[0].node ?? o, bad.length ? `column \`${bad[0][0].col}\` gets \`${bad[0][0].name}\`` : `${pairs.length} columns`, `${appOf(n)}:${nameOf(enclosing(n))}:builder`);
        }
      });
      // values handed to a function that saves them: an argument named after another parameter
      const savers = new Set(sinks().map((s) => enclosing(s.call)).filter((f) => f && f.parameters?.length > 2));
      for (const f of savers) for (const c of A.V.sites(f).sites) {
        if (!c.arguments) continue;
        const pairs = f.parameters.map((p, i) => ({ col: p.name.getText(), name: c.arguments[i] ? called(c.arguments[i]) : undefined, node: c.arguments[i] })).filter((p) => p.node);
        const bad = crossed(pairs);
        C.ob("own-parameter", bad.length === 0, bad[0]?.[0].node ?? c, bad.length ? `\`${bad[0][0].name}\` is given as \`${bad[0][0].col}\`, and \`${bad[0][1].name}\` as \`${bad[0][1].col}\`` : `${pairs.length} arguments of ${nameOf(f)}`, `${appOf(c)}:${nameOf(f)}:args`);
      }
      C.min("own-column", 20); C.min("same-as-new", 20);
    },
  },
};
