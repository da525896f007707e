// Promises made by hand: is resolve or reject called on every outcome of the work they stand for?
import { ts, loc } from "./kit.mjs";
import { apps, unwrap, short, follow } from "./apps-kit.mjs";

const QUIET = /^(data|message|readable|progress|open|connect|socket|response|lookup|drain|ready|upgrade|ping|pong)$/;
const isFnNode = (n) => ts.isArrowFunction(n) || ts.isFunctionExpression(n) || ts.isMethodDeclaration(n);

export function settleHoles(executor) {
  const V = apps().V;
  const holes = [], ends = new Map(), errors = new Set(), requests = [], active = new Set();
  const S0 = new Set(executor.parameters.slice(0, 2));
  const fnOf = (e) => { // the function an expression names, when it is known
    e = follow(e);
    if (isFnNode(e)) return e;
    const d = ts.isIdentifier(e) ? V.decl(e) : undefined;
    if (d && ts.isFunctionDeclaration(d)) return d;
    if (d && ts.isVariableDeclaration(d) && d.initializer && isFnNode(unwrap(d.initializer))) return unwrap(d.initializer);
    return undefined;
  };
  const inS = (e, S) => { e = follow(e); return !!e && ts.isIdentifier(e) && S.has(V.decl(e)); };
  const mentions = (n, S) => { let y = false; const w = (x) => { if (y) return; if (ts.isIdentifier(x) && !(ts.isPropertyAccessExpression(x.parent) && x.parent.name === x) && inS(x, S)) y = true; ts.forEachChild(x, w); }; w(n); return y; };
  // root emitter of a chain x.on(..).on(..)
  const emitter = (call) => { let b = unwrap(call.expression.expression); while (ts.isCallExpression(b) && ts.isPropertyAccessExpression(b.expression) && /^(on|once|addListener|setEncoding)$/.test(b.expression.name.text)) b = unwrap(b.expression.expression); const d = ts.isIdentifier(b) ? V.decl(b) : undefined; return d ?? b.getText(); };
  const open = (fn, S, where) => { // does a path through fn end without settling?
    if (active.has(fn)) return true;
    active.add(fn);
    if (!ts.isBlock(fn.body)) { if (!expr(fn.body, S)) holes.push([fn.body, where]); } else { const r = block(fn.body.statements, S, where, fn === executor); if (r === "open") holes.push([fn, where]); }
    active.delete(fn);
    return true;
  };
  function call(e, S) {
    let done = false;
    if (inS(e.expression, S)) return true;
    const args = e.arguments ?? [], callee = ts.isCallExpression(e) ? V.callee(e) : undefined;
    if (callee?.body && !callee.getSourceFile().isDeclarationFile) {
      const Sc = new Set();
      args.forEach((a, i) => { const p = callee.parameters[i]; if (!p) return; const f = fnOf(a); if (inS(a, S)) Sc.add(p); else if (f && mentions(f, S)) { open(f, S, f); Sc.add(p); } });
      const inner = new Set([...Sc, ...S]);
      if (Sc.size || (inner.size && mentions(callee, inner))) { open(callee, inner, callee); return true; }
      return false;
    }
    const name = ts.isPropertyAccessExpression(e.expression) ? e.expression.name.text : "";
    const ev = /^(on|once|addListener|addEventListener)$/.test(name) && args[0] && ts.isStringLiteralLike(follow(args[0])) ? follow(args[0]).text : undefined;
    for (const a of args) {
      const x = follow(a), fs = [];
      if (inS(x, S)) fs.push(null);
      else if (fnOf(x) && mentions(fnOf(x), S)) fs.push(fnOf(x));
      else if (ts.isObjectLiteralExpression(x) && mentions(x, S)) for (const p of x.properties) { if (ts.isMethodDeclaration(p)) fs.push(p); else if (ts.isPropertyAssignment(p)) { const f = fnOf(p.initializer); if (inS(p.initializer, S)) fs.push(null); else if (f) fs.push(f); } else if (ts.isShorthandPropertyAssignment(p) && S.has(V.decl(p.name))) fs.push(null); }
      if (!fs.length) continue;
      if (ev && QUIET.test(ev)) continue;
      for (const f of fs) if (f) open(f, S, f);
      if (ev === "error") errors.add(emitter(e));
      else { done = true; if (/^(end|finish|close)$/.test(ev ?? "")) ends.set(emitter(e), e); }
    }
    return done;
  }
  function expr(e, S) {
    if (!e) return false;
    e = unwrap(e);
    if (ts.isAwaitExpression(e) || ts.isVoidExpression(e)) return expr(e.expression, S);
    if (ts.isConditionalExpression(e)) return expr(e.condition, S) || (expr(e.whenTrue, S) & expr(e.whenFalse, S)) === 1;
    if (ts.isBinaryExpression(e)) { const l = expr(e.left, S), r = expr(e.right, S), k = e.operatorToken.kind; return l || (r && ![ts.SyntaxKind.AmpersandAmpersandToken, ts.SyntaxKind.BarBarToken, ts.SyntaxKind.QuestionQuestionToken].includes(k)); }
    if (ts.isCallExpression(e) || ts.isNewExpression(e)) {
      let y = ts.isPropertyAccessExpression(e.expression) ? expr(e.expression.expression, S) : false;
      if (/^https?\.(request|get)$/.test(e.expression.getText().replace(/\s+/g, "")) && (e.arguments ?? []).some((a) => mentions(a, S))) requests.push(e);
      for (const a of e.arguments ?? []) if (!fnOf(a) && !ts.isObjectLiteralExpression(follow(a))) y = expr(a, S) || y;
      return call(e, S) || y;
    }
    if (ts.isPropertyAccessExpression(e)) return expr(e.expression, S);
    return false;
  }
  // "open": may go on unsettled; "done": settled; "gone": left the function
  function block(stmts, S, where, sync) { let out = "open"; for (const s of stmts) { const n = holes.length, r = step(s, S, where, sync); if (out === "done") holes.length = n; if (out === "open") out = r; if (r === "gone") break; } return out; }
  const join = (...rs) => (rs.includes("open") ? "open" : rs.includes("done") ? "done" : "gone");
  function step(s, S, where, sync) {
    if (ts.isExpressionStatement(s)) return expr(s.expression, S) ? "done" : "open";
    if (ts.isVariableStatement(s)) return s.declarationList.declarations.some((d) => expr(d.initializer, S)) ? "done" : "open";
    if (ts.isReturnStatement(s)) { if (!expr(s.expression, S)) holes.push([s, where]); return "gone"; }
    if (ts.isThrowStatement(s)) { if (!sync) holes.push([s, where]); return "gone"; }
    if (ts.isBlock(s)) return block(s.statements, S, where, sync);
    if (ts.isIfStatement(s)) return expr(s.expression, S) ? "done" : join(step(s.thenStatement, S, where, sync), s.elseStatement ? step(s.elseStatement, S, where, sync) : "open");
    if (ts.isTryStatement(s)) {
      const t = block(s.tryBlock.statements, S, where, sync || !!s.catchClause), c = s.catchClause ? block(s.catchClause.block.statements, S, where, sync) : undefined;
      const f = s.finallyBlock ? block(s.finallyBlock.statements, S, where, sync) : "open";
      return f !== "open" ? f : c ? join(t, c) : t;
    }
    if (ts.isSwitchStatement(s)) { const rs = s.caseBlock.clauses.map((c) => block(c.statements.filter((x) => !ts.isBreakStatement(x)), S, where, sync)); let last = "open"; const eff = rs.map((r, i) => (s.caseBlock.clauses[i].statements.length ? r : undefined)).filter(Boolean); last = s.caseBlock.clauses.some(ts.isDefaultClause) ? join(...eff) : "open"; return last; }
    if (ts.isForStatement(s) || ts.isForOfStatement(s) || ts.isForInStatement(s) || ts.isWhileStatement(s)) { step(s.statement, S, where, sync); return "open"; }
    if (ts.isDoStatement(s)) return step(s.statement, S, where, sync);
    return "open";
  }
  open(executor, S0, executor);
  const out = holes.map(([n]) => [n, `\`${short(n)}\`: here the promise may be left unsettled`]);
  for (const [em, e] of ends) if (!errors.has(em)) out.push([e, `\`${short(e)}\`: when the stream fails instead of ending, the promise is never settled`]);
  for (const q of requests) {
    let top = q, ok = false;
    while (ts.isPropertyAccessExpression(top.parent) && ts.isCallExpression(top.parent.parent)) { top = top.parent.parent; if (/^(on|once)$/.test(top.expression.name.text) && top.arguments[0] && follow(top.arguments[0])?.text === "error") ok = true; }
    if (ts.isVariableDeclaration(top.parent)) ok ||= errors.has(top.parent);
    if (!ok) out.push([q, `\`${short(q)}\`: when the request fails, the promise is never settled`]);
  }
  return out.map(([n, t]) => [loc(n), t]);
}
