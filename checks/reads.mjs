// Read rows: only rows that are not marked as deleted, each value under its own name, and all that the reader expects.
import { ts, loc } from "./kit.mjs";
import { apps, walkAll, sinks, statements, isStmtType, newsOf, enclosing, nameOf, appOf, unwrap, REP } from "./apps-kit.mjs";
import { instances } from "./apps-db.mjs";
import { splitTop, called, crossed, insertParts, updateParts } from "./columns.mjs";

const norm = (s) => s.toLowerCase().replace(/[^a-z0-9]/g, "");
const clean = (t) => t.replace(/--[^\n]*/g, " ").replace(/\/\*[\s\S]*?\*\//g, " ").replace(/\s+/g, " ").trim();
const bare = (c) => c.replace(/["`]/g, "").replace(/^.*\./, "").trim();
// every text between matching parentheses is replaced by its number
function flatten(t) {
  const inner = []; let q = "";
  const go = (i) => { let s = ""; for (; i < t.length; i++) { const c = t[i]; if (q) { s += c; if (c === q) q = ""; continue; } if (c === "'") { q = c; s += c; continue; } if (c === "(") { const [x, e] = go(i + 1); s += `(\u0001${inner.push(x) - 1})`; i = e; } else if (c === ")") return [s, i]; else s += c; } return [s, i]; };
  const [top] = go(0); return { top, inner };
}
// each select at any depth: its text with the texts in parentheses folded away, and how to unfold them
function selects(text) {
  const { top, inner } = flatten(clean(text));
  const unfold = (s) => { for (let k = 0; k < 40 && s.includes("\u0001"); k++) s = s.replace(/\u0001(\d+)/g, (_, i) => inner[+i]); return s; };
  const all = [];
  [top, ...inner].forEach((s, k) => s.split(/\bunion(?: all| distinct)?\b|\bintersect\b|\bexcept\b|;/i).forEach((p) => { const m = /(?:^|\s|\))select (?:distinct (?:on \(\S*\) )?)?([\s\S]*)$/i.exec(p); if (m) all.push({ part: m[1], top: k === 0 }); }));
  return { all, unfold, top };
}
const cut = (s, re) => { const m = re.exec(s); return m ? [s.slice(0, m.index), s.slice(m.index + m[0].length)] : [s, undefined]; };
// the names a statement gives its values, in the case the database gives them; undefined when not all are known
export function outputs(text) {
  const { all, unfold, top } = selects(text);
  let list;
  const ret = /\breturning\b ([\s\S]*?);?$/i.exec(top);
  if (ret) list = ret[1];
  else { const s = all.find((x) => x.top); if (!s || /^\s*(insert|update|delete)/i.test(top)) return undefined; list = cut(s.part, /\bfrom\b/i)[0]; }
  const out = [];
  for (const raw of splitTop(list)) {
    const x = raw.replace(/\b(order by|limit|group by|where)\b[\s\S]*$/i, "").trim();
    if (!x || /\*$/.test(x) || x.includes(REP) || /\$\{|\$</.test(x)) return undefined;
    const as = /\bas ("?)([\w]+)\1$/i.exec(x) ?? /[\w)"'] ("?)([a-z_]\w*)\1$/i.exec(x);
    if (as && !/^(end|null|true|false)$/i.test(as[2])) { out.push({ name: as[1] ? as[2] : as[2].toLowerCase(), expr: unfold(x.slice(0, as.index + (/^[\w)"']/.test(as[0]) && !/^as/i.test(as[0]) ? 1 : 0)).trim()), q: as[1] }); continue; }
    const id = /^(?:[\w"`]+\.)*("|`)?([\w]+)\1?$/.exec(x); if (id) { out.push({ name: id[1] ? id[2] : id[2].toLowerCase(), expr: x }); continue; }
    const fn = /^(\w+) ?\(/.exec(x); if (fn && /\)$/.test(x)) { out.push({ name: fn[1].toLowerCase(), expr: x }); continue; }
    return undefined;
  }
  return out;
}
const column = (x) => (/^(?:[a-z_]\w*\.)?["`]?[a-z_]\w*["`]?$/i.test(x.trim()) ? bare(x) : (() => { const m = /^(?:coalesce|date_format|st_asgeojson|to_char|min|max|to_json|array_agg|json_agg|json_unquote|date) ?\( ?((?:[a-z_]\w*\.)?[a-z_]\w*)\b ?[,)]/i.exec(x.trim()); return m ? bare(m[1]) : undefined; })());

export const reads = {
  A13: {
    level: "other", explain: "The tables, conditions, output names and readers of every statement that reads rows, read together.",
    assumptions: ["Rows joined by their own identity, to describe another row, may be deleted ones.", "A statement whose output is not spelled out (all columns, or put together at run time) is not compared with what its reader expects."],
    run(C) {
      const A = apps(), checker = A.P.checker;
      const list = [], seen = new Set();
      for (const s of sinks().flatMap((x) => (x.text ? instances(x) : []))) {
        if (!s.text || s.kind === "format") continue;
        const st = isStmtType(s.text) ? newsOf(s.text).list.map((n) => statements().find((x) => x.node === n)).filter(Boolean) : [{ text: s.text }];
        for (const q of st) if (q.text) for (const t of A.V.texts(q.text).texts) { const k = `${loc(s.call)}|${t}`; if (seen.has(k)) continue; seen.add(k); list.push({ call: s.call, text: t }); }
      }
      // tables that have a mark of deletion, per application
      const marked = new Map();
      for (const { call, text } of list) { const p = insertParts(text); if (p?.cols.some((c) => norm(c.col) === "deleted")) { const a = appOf(call); if (!marked.has(a)) marked.set(a, new Set()); marked.get(a).add(p.table.toLowerCase()); } }
      // members that are used of a value of a type
      const uses = new Map(), key = (t) => t.aliasSymbol ?? t.symbol;
      const note = (t, name) => { for (const x of t.isUnion() ? t.types : [t]) { const k = key(x); if (!k || k.name === "__type") continue; if (!uses.has(k)) uses.set(k, new Set()); uses.get(k).add(name); } };
      walkAll((n) => {
        if (ts.isPropertyAccessExpression(n)) note(checker.getTypeAtLocation(n.expression), n.name.text);
        else if (ts.isBindingElement(n) && ts.isObjectBindingPattern(n.parent)) note(checker.getTypeAtLocation(n.parent), (n.propertyName ?? n.name).getText());
      });
      const used = (t, p) => { const u = uses.get(key(t)); return u ? u.has(p.name) : false; };
      const dated = new Map();
      for (const { call, text } of list) { const p = updateParts(text); if (p?.cols.some((c) => norm(c.col) === "deleted" && /^(now|current_timestamp)\b/i.test(c.expr))) { const a = appOf(call); if (!dated.has(a)) dated.set(a, new Set()); dated.get(a).add(p.table.toLowerCase()); } }
      for (const { call, text } of list) {
        const app = appOf(call), { all, unfold } = selects(text), dead = marked.get(app);
        for (const { part, top } of all) {
          const [, from] = cut(part, /\bfrom\b/i);
          const [tables, tail] = cut(from ?? "", /\b(?:where|group by|order by|limit)\b/i);
          if (dead) {
            const where = unfold(/\bwhere\b/i.test(from ?? "") ? tail : "");
            const conj = (w) => splitTop(w.replace(/\b(group by|order by|limit)\b[\s\S]*$/i, "").replace(/\band\b/gi, "\u0002"), "\u0002").flatMap((x) => (/^\(.*\)$/.test(x) && !/^\([^)]*\).*\(/.test(x) ? conj(x.slice(1, -1)) : [x]));
            const js = tables.split(/\b(?:left |right |full |inner |cross )?(?:outer )?join\b|,/i).map((x) => unfold(x).trim());
            js.forEach((j, i) => {
              const m = /^([\w.]+)(?: (?:as )?(?!on\b|using\b)(\w+))?(?: on ([\s\S]*))?$/i.exec(j);
              if (!m || !dead.has(m[1].toLowerCase())) return;
              const al = m[2] ?? m[1], on = m[3] ?? "";
              if (i > 0 && new RegExp(`\\b${al}\\.id\\b`, "i").test(on)) return;
              // rows already chosen by a named subquery that is joined by their identity
              if (i === 0 && js.slice(1).some((o) => { const y = /^(\w+)\b/.exec(o); return y && new RegExp(`\\b${y[1]} as \\(`, "i").test(clean(text)) && !/left/i.test(tables) && new RegExp(`\\b${al}\\.id\\b`, "i").test(o); })) return;
              if (i === 0 && js.slice(1).length && js.slice(1).some((o) => { const y = /^(\w+)(?: (?:as )?(\w+))? on ([\s\S]*)$/i.exec(o); return y && new RegExp(`\\b${y[1]} as (?:materialized )?\\(`, "i").test(clean(text)) && new RegExp(`\\b${al}\\.id\\b`, "i").test(y[3]) && !new RegExp(`left (?:outer )?join ${y[1]}\\b`, "i").test(tables); })) return;
              const ok = [...conj(where), ...conj(on)].some((c) => new RegExp(`^\\(?\\s*(?:${al}\\.)?deleted\\s*(?:=|is)\\s*false\\s*\\)?$|^not\\s+(?:${al}\\.)?deleted$|^(?:${al}\\.)?deleted\\s+is\\s+not\\s+true$`, "i").test(c.trim()) && (js.length === 1 || /\./.test(c)));
              C.ob("only-live-rows", ok, call, ok ? `${m[1]} without deleted rows` : `rows of ${m[1]} that are marked as deleted are read`, `${app}:${nameOf(enclosing(call))}:${m[1]}:${al}`);
            });
          }
          if (top && dated.get(app)) {
            const m = /^([\w.]+)(?: (?:as )?(?!join\b|left\b|where\b)(\w+))?/i.exec(tables.trim());
            if (m && dated.get(app).has(m[1].toLowerCase())) { const ok = new RegExp(`(?:^|\\band\\b)\\s*(?:${m[2] ?? m[1]}\\.)?deleted is null\\s*(?:$|\\band\\b|\\bgroup\\b|\\border\\b)`, "i").test(tail ?? ""); C.ob("only-live-rows", ok, call, ok ? `${m[1]} without deleted rows` : `rows of ${m[1]} that are marked as deleted are read`, `${app}:${nameOf(enclosing(call))}:${m[1]}:dated`); }
          }
          // names given to columns
          const sel = splitTop(unfold(cut(part, /\bfrom\b/i)[0])).map((x) => { const as = /^([\s\S]*?) as ["`]?(\w+)["`]?$/i.exec(x); return as ? { col: as[2], name: column(as[1]) } : { col: bare(x), name: column(x) }; }).filter((x) => x.name);
          if (sel.length > 1) { const bad = crossed(sel); C.ob("own-name", bad.length === 0, call, bad.length ? `\`${bad[0][0].name}\` is given as \`${bad[0][0].col}\`, and \`${bad[0][1].name}\` as \`${bad[0][1].col}\`` : `${sel.length} columns`, `${app}:${nameOf(enclosing(call))}:select`); }
        }
        for (const m of clean(text).matchAll(/(?:jsonb?_build_object|json_object) ?\(/gi)) {
          const t = clean(text).slice(m.index + m[0].length); let d = 1, e = 0; for (; e < t.length && d; e++) { if (t[e] === "(") d++; if (t[e] === ")") d--; }
          const xs = splitTop(t.slice(0, e - 1)), pairs = [];
          for (let i = 0; i + 1 < xs.length; i += 2) { const n = column(xs[i + 1]); if (n && /^'\w+'$/.test(xs[i])) pairs.push({ col: xs[i].slice(1, -1), name: n }); }
          const bad = crossed(pairs);
          C.ob("own-name", bad.length === 0, call, bad.length ? `\`${bad[0][0].name}\` is given as \`${bad[0][0].col}\`` : `${pairs.length} keys`, `${app}:${nameOf(enclosing(call))}:object`);
          // two things under the names of their kinds: each kind is taken from one place
          const by = new Map(); for (let i = 0; i + 1 < xs.length; i += 2) { const k = /^'([a-z]+)_(\w+)'$/.exec(xs[i]), v = /^(\w+)\.(\w+)$/.exec(xs[i + 1] ?? ""); if (k && v && k[2] === v[2] && k[2] !== "id") { if (!by.has(k[1])) by.set(k[1], new Set()); by.get(k[1]).add(v[1]); } }
          for (const [k, from] of by) C.ob("one-source", from.size === 1, call, from.size === 1 ? `${k} from ${[...from]}` : `values of ${k} are taken from ${[...from].join(" and ")}`, `${app}:${nameOf(enclosing(call))}:${k}`);
        }
        // what the reader expects
        const outs = outputs(text);
        if (!outs?.length) continue;
        let T;
        const cb = call.arguments?.[2] && ts.isFunctionLike(unwrap(call.arguments[2])) ? unwrap(call.arguments[2]) : undefined;
        if (cb) { const p = cb.parameters[0]; T = p && checker.getTypeAtLocation(p); }
        else T = checker.getAwaitedType(checker.getTypeAtLocation(call));
        if (!T) continue;
        const un = (x) => { if (x.isUnion()) { const r = x.types.filter((y) => !(y.flags & (ts.TypeFlags.Null | ts.TypeFlags.Undefined | ts.TypeFlags.Void))); return r.length === 1 ? r[0] : undefined; } return x; };
        T = un(T); if (T && checker.isArrayType(T)) T = un(checker.getTypeArguments(T)[0]);
        if (!T || !(T.flags & ts.TypeFlags.Object || T.isIntersection()) || T.getCallSignatures().length || T.getStringIndexType()) continue;
        const props = T.getProperties(); if (props.length < 2 || props.some((p) => /^(rowCount|rows|then|length)$/.test(p.name))) continue;
        const names = new Set(outs.map((o) => o.name));
        for (const p of props) {
          if (!used(T, p)) continue;
          const has = names.has(p.name), near = has ? undefined : outs.find((o) => norm(o.name) === norm(p.name));
          if (p.flags & ts.SymbolFlags.Optional && !has && !near) continue;
          C.ob("as-expected", has, call, has ? `\`${p.name}\` is read` : `the reader uses \`${p.name}\`, which the statement does not give (${near ? near.name : [...names].slice(0, 6).join(", ")})`, `${app}:${nameOf(enclosing(call))}:${p.name}`);
        }
      }
      // objects made of the members of one other object
      walkAll((o) => {
        if (!ts.isObjectLiteralExpression(o) || o.properties.length < 2) return;
        const bySrc = new Map();
        for (const p of o.properties) { if (!ts.isPropertyAssignment(p)) continue; let v = unwrap(p.initializer); while (ts.isNonNullExpression(v) || ts.isAsExpression(v) || (ts.isBinaryExpression(v) && /^(\?\?|\|\|)$/.test(v.operatorToken.getText()))) v = unwrap(ts.isBinaryExpression(v) ? v.left : v.expression); if (!ts.isPropertyAccessExpression(v)) continue; const k = v.expression.getText(); if (!bySrc.has(k)) bySrc.set(k, []); bySrc.get(k).push({ col: p.name.text ?? p.name.getText(), name: v.name.text, node: v }); }
        for (const [k, pairs] of bySrc) if (pairs.length > 1) { let bad = crossed(pairs);
          // the same member twice, though there is one of the other's name
          if (!bad.length) for (const q of pairs) { if (norm(q.name) === norm(q.col)) continue; const twin = pairs.find((z) => z !== q && norm(z.name) === norm(q.name) && norm(z.col) === norm(q.name)); if (!twin) continue; let v = unwrap(q.node); if (checker.getNonNullableType(checker.getTypeAtLocation(v.expression)).getProperties().some((m) => norm(m.name) === norm(q.col))) bad = [[q, twin]]; } C.ob("own-member", bad.length === 0, bad[0]?.[0].node ?? o, bad.length ? `\`${bad[0][0].col}\` gets \`${k}.${bad[0][0].name}\`, and \`${bad[0][1].col}\` gets \`${k}.${bad[0][1].name}\`` : `${pairs.length} members of ${k}`, `${appOf(o)}:${nameOf(enclosing(o))}:${k}`); }
      });
      C.min("own-name", 10); C.min("as-expected", 10); C.min("only-live-rows", 5); C.min("own-member", 20);
    },
  },
};
