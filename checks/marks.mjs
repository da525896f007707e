// Marks of progress (latest update, version reached, sent at): moved only after the work they stand for, and not when it failed.
import { ts, loc } from "./kit.mjs";
import { apps, walkAll, sinks, enclosing, edges, reach, nameOf, appOf, unwrap, short, declFile, valuesOf, newsOf, statements, isStmtType } from "./apps-kit.mjs";
import { writesText, builderOf, opener, callbacks } from "./apps-db.mjs";
import { completes, rethrown } from "./apps-access.mjs";

// statements that only move a mark: [table, columns that are marks]
const MARKS = [/update\s+camera\s+set\s+last_updated\b/i, /(insert\s+into|update)\s+updated_timestamp\b/i, /(insert\s+into|update)\s+data_updated\b/i, /(insert\s+into|update)\s+wn_data_version\b/i, /update\s+areatraffic\s+set\s+brighten_sent\b/i];
const textsOf = (s) => { const A = apps(); if (isStmtType(s.text)) return newsOf(s.text).list.flatMap((n) => { const st = statements().find((x) => x.node === n); return st?.text ? [...A.V.texts(st.text).texts] : []; }); return [...A.V.texts(s.text).texts]; };
const HTTP = /^(axios|ky|got|needle|superagent|request)$/;
// calls that send something out of the process for others to act on
function sends(n) {
  if (ts.isNewExpression(n)) return /^(SendMessage|SendMessageBatch|Publish|PutObject|PutRecords?|Upload)(Command)?$/.test(n.expression.getText());
  if (ts.isCallExpression(n)) {
    const e = unwrap(n.expression);
    if (ts.isPropertyAccessExpression(e) && /^(post|put|patch|delete)$/.test(e.name.text) && HTTP.test(unwrap(e.expression).getText())) return true;
    if (ts.isPropertyAccessExpression(e) && /^(publish|publishAsync|sendMessage)$/.test(e.name.text)) return true;
    const id = ts.isIdentifier(e) ? e.text : "";
    if (id === "fetch" || HTTP.test(id)) return n.arguments.some((a) => valuesOf(a).some((x) => ts.isObjectLiteralExpression(x) && x.properties.some((p) => ts.isPropertyAssignment(p) && p.name.getText() === "method" && ts.isStringLiteralLike(unwrap(p.initializer)) && /^(post|put|patch|delete)$/i.test(unwrap(p.initializer).text))));
  }
  return false;
}
function facts() {
  const A = apps();
  if (A.marks) return A.marks;
  const mark = new Set(), work = new Set(), leaf = new Set();
  for (const s of sinks()) {
    const f = enclosing(s.call);
    if (!f) continue;
    const w = s.kind === "mysql" ? undefined : writesText(s);
    if (s.kind === "mysql") { if (textsOf(s).some((t) => /\b(insert|update|delete|merge|replace)\b/i.test(t))) work.add(f); continue; }
    if (!w) continue;
    const b = builderOf(s.text);
    if (b ? b.roots.has("updateTable") && /\.set\(\s*["']last_data_timestamp["']|\.set\(\s*\{\s*last_data_timestamp\s*:[^,}]*,?\s*\}/.test(f.getText()) : textsOf(s).length > 0 && textsOf(s).every((t) => MARKS.some((m) => m.test(t.replace(/\s+/g, " "))))) { mark.add(f); leaf.add(s.call); }
    else work.add(f);
  }
  walkAll((n) => { if (sends(n)) { const f = enclosing(n); if (f) work.add(f); } });
  // a function that does both in one statement list is work
  return (A.marks = { mark, work, leaf });
}
const memo = new Map();
function kinds(fn) {
  if (memo.has(fn)) return memo.get(fn);
  const F = facts(), r = { mark: false, work: false };
  memo.set(fn, r);
  for (const [g] of reach([fn])) { if (F.mark.has(g)) r.mark = true; if (F.work.has(g)) r.work = true; }
  return r;
}
export const targets = (c) => {
  const A = apps(), out = [];
  const sig = A.ck.getResolvedSignature(c)?.declaration;
  if (sig?.body && !sig.getSourceFile().isDeclarationFile) out.push(sig);
  const f = A.V.callee(c); if (f) out.push(f);
  if (!out.length) out.push(...callbacks(c.expression));
  return [...new Set(out)];
};
const kcache = new Map();
export const kindOf = (c) => { let k = kcache.get(c); if (!k) kcache.set(c, (k = kindOf0(c))); return k; };
const kindOf0 = (c) => { const r = { mark: false, work: false }; if (ts.isNewExpression(c)) return { ...r, work: sends(c) }; if (facts().leaf.has(c)) return { mark: true, work: false }; for (const t of targets(c)) { const k = kinds(t); r.mark ||= k.mark; r.work ||= k.work; } if (sends(c)) r.work = true; const s = sinks().find((x) => x.call === c); if (s && s.kind !== "mysql" && writesText(s)) r.work = true; return r; };
const isMark = (c) => { const k = kindOf(c); return k.mark && !k.work; };
const isWork = (c) => kindOf(c).work;
// the times of checks say that a check took place, not that its data is stored
function checkOnly(c, seen = new Set()) {
  const A = apps(), F = facts();
  const leaves = [];
  const at = (call, fn) => { if (F.mark.has(fn)) leaves.push(call); else for (const g of reach([fn]).keys()) { const v = (n) => { if (n !== g && ts.isFunctionLike(n)) return; if (ts.isCallExpression(n)) for (const t of targets(n)) if (F.mark.has(t)) leaves.push(n); ts.forEachChild(n, v); }; if (g.body) v(g.body); } };
  for (const t of targets(c)) at(c, t);
  if (!leaves.length) return false;
  return leaves.every((l) => l.arguments?.[1] && /CHECK/.test([...A.V.texts(l.arguments[1]).texts].join(" ")));
}
const callsIn = (n, out = []) => { if (ts.isCallExpression(n) || ts.isNewExpression(n)) out.push(n); ts.forEachChild(n, (x) => { callsIn(x, out); }); return out; };
// a function value that is only made, not called, does no work where it stands
const worksIn = (n) => callsIn(n).filter((c) => isWork(c) && !declared(c, n));
const declared = (c, top) => { let p = c; while (p && p !== top) { if (ts.isFunctionDeclaration(p) || ((ts.isArrowFunction(p) || ts.isFunctionExpression(p)) && ts.isVariableDeclaration(p.parent))) return true; p = p.parent; } return false; };
const leaves = (st) => ts.isReturnStatement(st) || ts.isThrowStatement(st) || ts.isContinueStatement(st) || ts.isBreakStatement(st) || (ts.isBlock(st) && st.statements.some(leaves)) || (ts.isIfStatement(st) && !!st.elseStatement && leaves(st.thenStatement) && leaves(st.elseStatement));
const isTx = (c) => { const e = ts.isCallExpression(c) && unwrap(c.expression); return !!e && ((ts.isPropertyAccessExpression(e) && /^(tx|txIf)$/.test(e.name.text) && /pg-promise/.test(declFile(c))) || opener(c) === "inTransaction"); };
function txAbove(n, depth = 0) {
  let top, fn;
  for (let p = n; p.parent; p = p.parent) {
    if (ts.isFunctionLike(p)) { fn = p; const q = p.parent; if (ts.isCallExpression(q) && q.arguments.includes(p) && isTx(q)) top = q; }
  }
  if (top) return top;
  if (fn && depth < 3) { const f = enclosing(n) && outer(n); const s = f && apps().V.sites(f); if (s && s.sites.length && !s.escapes.length && s.sites.every((c) => txAbove(c, depth + 1))) return f; }
  return undefined;
}
const outer = (n) => { let f; for (let p = n.parent; p; p = p.parent) if (ts.isFunctionLike(p)) { f = p; if (!(ts.isArrowFunction(p) || ts.isFunctionExpression(p)) || !ts.isCallExpression(p.parent)) break; } return f; };
// is a failure of work w seen outside of `top`?
function swallowed(w, top) {
  for (let p = w; p !== top; p = p.parent) {
    const q = p.parent;
    if (!q) return undefined;
    if (ts.isTryStatement(q) && p === q.tryBlock && q.catchClause && completes(q.catchClause.block) && !rethrown(q) && !leaves(q.catchClause.block)) return q.catchClause;
    if (ts.isTryStatement(q) && p === q.tryBlock && q.finallyBlock && leaves(q.finallyBlock)) return q.finallyBlock;
    if (ts.isPropertyAccessExpression(q) && q.expression === p && q.name.text === "catch" && ts.isCallExpression(q.parent) && q.parent.expression === q) {
      const cb = q.parent.arguments[0] && (valuesOf(q.parent.arguments[0])[0] ?? unwrap(q.parent.arguments[0]));
      if (cb && ts.isFunctionLike(cb) && cb.body && (ts.isBlock(cb.body) ? completes(cb.body) : !/Promise\.reject\(/.test(cb.body.getText()))) return q.parent;
    }
    if (ts.isCallExpression(q) && /^Promise\.allSettled$/.test(q.expression.getText()) && q.arguments.includes(p)) { let z = q; while (ts.isAwaitExpression(z.parent) || ts.isParenthesizedExpression(z.parent)) z = z.parent; if (ts.isExpressionStatement(z.parent)) return q; }
  }
  return undefined;
}
// does a function end normally although its own work failed? (its callers cannot tell)
const quiet = new Map();
function hides(fn, depth = 0) {
  if (quiet.has(fn) || depth > 4) return quiet.get(fn);
  quiet.set(fn, undefined);
  let out;
  for (const w of fn.body ? worksIn(fn.body) : []) { out = swallowed(w, fn) ?? targets(w).map((t) => (t === fn ? undefined : hides(t, depth + 1))).find(Boolean); if (out) break; }
  quiet.set(fn, out);
  return out;
}

export const marks = {
  A11: {
    level: "other", explain: "Order and failure flow between every statement that moves a mark of progress and the work around it.",
    assumptions: ["A failed statement of a transaction fails the transaction.", "The times of checks (keys named CHECK) tell that a check took place and are not held to this."],
    run(C) {
      let n = 0;
      const seen = new Set();
      walkAll((c) => {
        if (!ts.isCallExpression(c) || !isMark(c)) return;
        if (facts().leaf.has(c) && facts().mark.has(enclosing(c)) && outer(c) === enclosing(c)) return; // the statement itself: judged where its function is called
        // a wrapper around the mark's call is judged once, at the innermost call that stands among work
        if (checkOnly(c)) return;
        n++;
        // a mark for each thing on a list: a thing is put on the list only after its own work
        const lists = c.arguments.flatMap((a) => { const e = unwrap(a), d = ts.isIdentifier(e) ? apps().V.decl(e) : undefined; return d && ts.isVariableDeclaration(d) && d.initializer && ts.isArrayLiteralExpression(unwrap(d.initializer)) && outer(d) === outer(c) ? [d] : []; });
        const puts = lists.flatMap((d) => apps().V.refs(d).map((r) => r.parent).filter((p) => ts.isPropertyAccessExpression(p) && /^(push|unshift)$/.test(p.name.text) && ts.isCallExpression(p.parent)).map((p) => p.parent));
        if (puts.length) {
          for (const u of puts) {
            let gone = false, worst, before = 0;
            for (let x = u; x.parent && !ts.isFunctionLike(x.parent); x = x.parent) {
              const p = x.parent;
              if (ts.isTryStatement(p) && p.tryBlock !== x && worksIn(p.tryBlock).length) worst ??= [u, `\`${short(u)}\` runs although \`${short(worksIn(p.tryBlock)[0])}\` failed`];
              if (!ts.isBlock(p) && !ts.isCaseOrDefaultClause(p)) continue;
              const i = p.statements.indexOf(x);
              for (const s of p.statements.slice(0, i)) for (const w of worksIn(s)) { before++; const sw = swallowed(w, s) ?? targets(w).map((t) => hides(t)).find(Boolean); if (sw) worst ??= [w, `a failure of \`${short(w)}\` ends at ${loc(sw)}, and \`${short(u)}\` is run all the same`]; }
              for (const s of gone ? [] : p.statements.slice(i + 1)) { const w = worksIn(s).find((y) => !isMark(y)); if (w) worst ??= [w, `\`${short(w)}\` comes after \`${short(u)}\`, which notes it as done`]; if (leaves(s)) { gone = true; break; } }
            }
            C.ob("after-the-work", !worst, worst?.[0] ?? u, worst?.[1] ?? `\`${short(u)}\` notes its work as done after it`, `${appOf(c)}:${nameOf(outer(c))}:list`);
          }
          return;
        }
        const key = `${appOf(c)}:${nameOf(outer(c))}`;
        const bad = (node, t) => { if (seen.has(`${loc(c)}|${loc(node)}`)) return; seen.add(`${loc(c)}|${loc(node)}`); C.ob("after-the-work", false, node, t, key); };
        let tx = txAbove(c), gone = false, here = true;
        const stop = tx && ts.isCallExpression(tx) ? tx : undefined;
        if (tx && !stop) { C.ob("after-the-work", true, c, "in the transaction of its callers", key); return; }
        let count = 0, found = seen.size;
        for (let x = stop ?? c; x.parent; x = x.parent) {
          const p = x.parent;
          if (ts.isFunctionLike(p) && !ts.isCallExpression(p.parent) ) break;
          if (ts.isFunctionLike(p)) { gone = false; const q = p.parent, e = unwrap(q.expression); if (ts.isPropertyAccessExpression(e) && /^(finally|catch)$/.test(e.name.text) && worksIn(e.expression).length) bad(c, `\`${short(c)}\` runs although \`${short(worksIn(e.expression)[0])}\` failed`); if (ts.isPropertyAccessExpression(e) && e.name.text === "then" && q.arguments[1] === p && worksIn(e.expression).length) bad(c, `\`${short(c)}\` runs when the work before it failed`); continue; }
          if (ts.isTryStatement(p) && p.tryBlock !== x && worksIn(p.tryBlock).length && (x === p.finallyBlock || x === p.catchClause)) { bad(c, `\`${short(c)}\` runs although \`${short(worksIn(p.tryBlock)[0])}\` failed`); }
          const list = ts.isBlock(p) || ts.isCaseOrDefaultClause(p) || ts.isSourceFile(p) ? p.statements : undefined;
          if (list) {
            const i = list.indexOf(x);
            if (ts.isReturnStatement(x) || ts.isThrowStatement(x)) gone = true;
            for (const s of list.slice(0, i)) for (const w of worksIn(s)) {
              count++;
              const sw = swallowed(w, s) ?? targets(w).map((t) => hides(t)).find(Boolean);
              if (sw) bad(w, `a failure of \`${short(w)}\` ends at ${loc(sw)}, and \`${short(c)}\` is run all the same`);
            }
            for (const s of gone ? [] : list.slice(i + 1)) {
              const ws = worksIn(s).filter((w) => !isMark(w));
              if (ws.length) bad(ws[0], `\`${short(ws[0])}\` comes after \`${short(c)}\`, which stands for it`);
              if (leaves(s)) { gone = true; break; }
            }
          } else if (ts.isArrayLiteralExpression(p)) {
            const ws = p.elements.filter((e) => e !== x).flatMap((e) => worksIn(e));
            if (ws.length) bad(ws[0], `\`${short(ws[0])}\` is run beside \`${short(c)}\`, which stands for it`);
          } else if (ts.isPropertyAccessExpression(p) && p.expression === x && ts.isCallExpression(p.parent) && /^(then|catch|finally)$/.test(p.name.text)) {
            const ws = p.parent.arguments.flatMap((a) => worksIn(a));
            if (ws.length) bad(ws[0], `\`${short(ws[0])}\` comes after \`${short(c)}\`, which stands for it`);
          } else if (ts.isCallExpression(p) && p.arguments.includes(x) && ts.isPropertyAccessExpression(unwrap(p.expression))) {
            for (const w of worksIn(unwrap(p.expression).expression)) { count++; }
          }
        }
        if (seen.size === found) C.ob("after-the-work", true, c, `\`${short(c)}\` comes after the work it stands for${tx ? ", in one transaction with it" : ""}`, key);
      });
      C.min("after-the-work", 5);
      C.extra = { marks_moved: n };
    },
  },
};
