// A04: asynchronous work is waited for, and failures stay inside the guard written around them.
import { ts, loc } from "./kit.mjs";
import { settleHoles } from "./settle.mjs";
import { apps, walkAll, unwrap, short, isPromiseType, enclosing, nameOf, appOf, importsFrom, returnsOf, valuesOf } from "./apps-kit.mjs";

const ASYNCISH = /^(send|query|execute|beginTransaction|commit|rollback|publish\w*|put[A-Z]\w*|get[A-Z]\w*|delete[A-Z]\w*|fetch|upload\w*|save\w*)$/;
const isTP = (e) => isPromiseType(apps().ck.getTypeAtLocation(e));
// a call the checker knows nothing about (its package is not installed) whose name is an asynchronous SDK or driver method
function unknownAsync(e) {
  const A = apps();
  if (!ts.isCallExpression(e) || !ts.isPropertyAccessExpression(e.expression)) return false;
  if (!(A.ck.getTypeAtLocation(e).flags & ts.TypeFlags.Any)) return false;
  if (!ASYNCISH.test(e.expression.name.text)) return false;
  if (e.arguments.some((a) => ts.isFunctionLike(unwrap(a)))) return false; // callback style
  const rt = A.ck.typeToString(A.ck.getTypeAtLocation(e.expression.expression));
  if (/WebSocket/.test(rt)) return false;
  const root = e.expression.expression, d = ts.isIdentifier(root) ? A.V.decl(root) : undefined;
  if (d && ts.isVariableDeclaration(d) && d.initializer && /[wW]eb[sS]ocket/.test(d.initializer.getText())) return false;
  return true;
}
// does a statement-level expression start work nobody waits for?
function drops(e) {
  e = unwrap(e);
  if (ts.isAwaitExpression(e)) return undefined;
  if (ts.isVoidExpression(e)) return drops(e.expression);
  if (ts.isBinaryExpression(e)) {
    const k = e.operatorToken.kind;
    if (k >= ts.SyntaxKind.FirstAssignment && k <= ts.SyntaxKind.LastAssignment) return undefined;
    if (k === ts.SyntaxKind.CommaToken) return drops(e.left) ?? drops(e.right);
    if (k === ts.SyntaxKind.AmpersandAmpersandToken || k === ts.SyntaxKind.BarBarToken || k === ts.SyntaxKind.QuestionQuestionToken) return drops(e.right);
  }
  if (ts.isConditionalExpression(e)) return drops(e.whenTrue) ?? drops(e.whenFalse);
  if (isTP(e) || unknownAsync(e)) return e;
  return undefined;
}
// a function whose promise never rejects: everything that can fail is inside a catch that only logs
function neverRejects(fn, seen = new Set()) {
  if (!fn?.body || !ts.isBlock(fn.body) || seen.has(fn)) return false;
  if (!(fn.modifiers ?? []).some((m) => m.kind === ts.SyntaxKind.AsyncKeyword)) return false;
  const log = (e) => { e = unwrap(e); return ts.isCallExpression(e) && /^(logger\.\w+|logException)$/.test(e.expression.getText()); };
  const safe = (s) => {
    if (ts.isTryStatement(s)) return (s.catchClause ? s.catchClause.block.statements.every(safe) : s.tryBlock.statements.every(safe)) && (!s.finallyBlock || s.finallyBlock.statements.every(safe));
    if (ts.isExpressionStatement(s)) return log(s.expression);
    if (ts.isVariableStatement(s)) return s.declarationList.declarations.every((d) => !d.initializer || ts.isNewExpression(d.initializer) || ts.isLiteralExpression(d.initializer) || ts.isTemplateExpression(d.initializer) || ts.isIdentifier(d.initializer) || /^Date\.now\(\)$/.test(d.initializer.getText()));
    if (ts.isReturnStatement(s)) return !s.expression || ts.isLiteralExpression(s.expression) || ts.isIdentifier(s.expression);
    if (ts.isEmptyStatement(s)) return true;
    if (ts.isIfStatement(s)) return safe(s.thenStatement) && (!s.elseStatement || safe(s.elseStatement));
    if (ts.isBlock(s)) return s.statements.every(safe);
    return false;
  };
  return fn.body.statements.every(safe);
}
const settled = (e) => /^Promise\.(resolve|reject)\b/.test(e.getText());
// promise of a chain that ends in a handler for every failure
const handled = (e) => { e = unwrap(e); return ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && ((e.expression.name.text === "catch" && e.arguments.length === 1) || (e.expression.name.text === "then" && e.arguments.length === 2)); };

export const appsAsync = {
  A04: {
    explain: "Every expression of promise type in the library and all applications: awaited, returned or handed on, and awaited where a surrounding try is meant to handle its failure.",
    assumptions: ["Types of packages that are not installed are unknown; calls on them are recognised by the names of asynchronous SDK and driver methods."],
    run(C) {
      const A = apps();
      let awaited = 0, promised = 0;
      walkAll((n) => {
        const key = () => `${appOf(n)}:${nameOf(enclosing(n))}`;
        if (ts.isAwaitExpression(n)) awaited++;
        if (ts.isExpressionStatement(n)) {
          const d = drops(n.expression);
          if (d) C.ob("waited-for", false, d, `\`${short(d)}\` starts work that nothing waits for`, key());
          else if (ts.isAwaitExpression(unwrap(n.expression))) C.ob("waited-for", true, n, "awaited");
        }
        // promises ignored by the function they are returned to
        if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && /^(forEach|filter|some|every|find|findIndex|sort|reduceRight)$/.test(n.expression.name.text)) {
          for (const a of n.arguments) {
            const f = unwrap(a);
            if (!ts.isFunctionLike(f) && !ts.isIdentifier(f)) continue;
            const rt = A.ck.getTypeAtLocation(f).getCallSignatures()[0]?.getReturnType();
            if (rt && ts.isArrowFunction(f) | ts.isFunctionExpression(f) | ts.isIdentifier(f)) {
              const bad = isPromiseType(rt) && !(n.expression.name.text === "forEach" && rt.flags & ts.TypeFlags.Any);
              C.ob("callback-waited-for", !bad, n, bad ? `\`${short(n)}\` ignores the promises of its callback` : `${n.expression.name.text} callback is synchronous`, key());
            }
          }
        }
        if (ts.isNewExpression(n) && n.expression.getText() === "Promise" && n.arguments?.[0] && ts.isFunctionLike(unwrap(n.arguments[0]))) {
          const hs = settleHoles(unwrap(n.arguments[0]));
          for (const [at, text] of hs) C.ob("settled", false, at, text, key());
          if (!hs.length) C.ob("settled", true, n, "settled on every outcome", key());
        }
        // an asynchronous function handed to someone who expects nothing back, or anything: does the receiver wait for it?
        const chained = ts.isCallExpression(n) && ts.isPropertyAccessExpression(unwrap(n.expression)) && /^(then|catch|finally)$/.test(unwrap(n.expression).name.text) && isPromiseType(A.ck.getTypeAtLocation(unwrap(n.expression).expression), false);
        if ((ts.isCallExpression(n) && !chained) || ts.isNewExpression(n)) {
          const sig = A.ck.getResolvedSignature(n), ps = sig?.parameters ?? [];
          (n.arguments ?? []).forEach((a, i) => {
            const ft = A.ck.getTypeAtLocation(a).getCallSignatures();
            if (!ft.length || !isPromiseType(ft[0].getReturnType(), false)) return;
            const pd = ps[Math.min(i, ps.length - 1)], pt = pd && A.ck.getTypeOfSymbolAtLocation(pd, n), pr = pt && A.ck.getNonNullableType(pt).getCallSignatures()[0]?.getReturnType();
            if (!pr || !(pr.flags & (ts.TypeFlags.Void | ts.TypeFlags.Unknown))) return;
            const fn = ts.isCallExpression(n) ? A.V.callee(n) : undefined, par = fn?.parameters?.[i];
            if (par && ts.isIdentifier(par.name)) {
              const lost = A.V.refs(par).filter((w) => ts.isCallExpression(w.parent) && w.parent.expression === w && (() => { let e = w.parent; while (ts.isParenthesizedExpression(e.parent) || ts.isVoidExpression(e.parent)) e = e.parent; return ts.isExpressionStatement(e.parent); })());
              for (const w of lost) C.ob("handed-work-waited-for", false, w.parent, `\`${short(w.parent)}\` starts the asynchronous work handed over at ${loc(n)} and nothing waits for it`, `${appOf(w)}:${nameOf(enclosing(w))}`);
              if (!lost.length) C.ob("handed-work-waited-for", true, n, "the receiver waits");
            } else C.ob("handed-work-waited-for", fn === undefined && neverRejects(A.V.fnOf?.(a) ?? unwrap(a)), n, `\`${short(a)}\` is asynchronous, and its receiver neither waits for it nor sees it fail`, `${appOf(n)}:${nameOf(enclosing(n))}`);
          });
        }
        if (ts.isCallExpression(n) && ts.isIdentifier(n.expression) && /^(setTimeout|setInterval|setImmediate|queueMicrotask)$/.test(n.expression.text) && n.arguments[0]) {
          const rt = A.ck.getTypeAtLocation(n.arguments[0]).getCallSignatures()[0]?.getReturnType();
          C.ob("timer-callback", !isPromiseType(rt), n, isPromiseType(rt) ? "a timer's callback starts work that nothing waits for" : "timer callback is synchronous", key());
        }
        // promise variables
        if (ts.isVariableDeclaration(n) && n.initializer && ts.isIdentifier(n.name) && isTP(n.name)) {
          promised++;
          const exported = ts.getCombinedModifierFlags(n) & ts.ModifierFlags.Export;
          const consumed = exported || A.V.refs(n).some((w) => {
            let e = w;
            while (ts.isParenthesizedExpression(e.parent) || ts.isNonNullExpression(e.parent) || ts.isAsExpression(e.parent)) e = e.parent;
            const p = e.parent;
            if (ts.isPropertyAccessExpression(p) && p.expression === e) return /^(then|catch|finally|map|concat|flat|slice|push|filter|reduce|values|forEach)$/.test(p.name.text);
            if (ts.isExpressionStatement(p) || ts.isTypeOfExpression(p) || ts.isPrefixUnaryExpression(p) || ts.isVoidExpression(p)) return false;
            if (ts.isIfStatement(p) && p.expression === e) return false;
            if (ts.isCallExpression(p) && /^(logger|console)\.|^logException$/.test(p.expression.getText())) return false;
            return true;
          });
          C.ob("promise-used", consumed, n, consumed ? `\`${n.name.text}\` is awaited or handed on` : `nothing waits for \`${n.name.text}\``, key());
        }
        // conditions on promises are always true
        const cond = ts.isIfStatement(n) || ts.isWhileStatement(n) ? n.expression : ts.isConditionalExpression(n) ? n.condition : ts.isPrefixUnaryExpression(n) && n.operator === ts.SyntaxKind.ExclamationToken ? n.operand : undefined;
        if (cond && ts.isCallExpression(unwrap(cond)) && isPromiseType(A.ck.getTypeAtLocation(cond), false)) C.ob("promise-condition", false, cond, `\`${short(cond)}\` is a promise, which is always true`, key());
        // a promise returned from inside a try is not handled by its catch
        if (ts.isReturnStatement(n) && n.expression) {
          const e = unwrap(n.expression);
          const parts = valuesOf(e);
          let c = n, p = n.parent, t;
          while (p && !ts.isFunctionLike(p)) { if (ts.isTryStatement(p) && p.tryBlock === c && (p.catchClause || p.finallyBlock)) { t = p; break; } c = p; p = p.parent; }
          if (t) for (const x of parts) {
            if (ts.isAwaitExpression(x)) { C.ob("guard-covers", true, n, "awaited inside its guard"); continue; }
            if (!isPromiseType(A.ck.getTypeAtLocation(x), false) && !unknownAsync(x)) continue;
            const f = ts.isCallExpression(x) && A.V.callee(x);
            const ok = settled(x) || (handled(x) && !t.finallyBlock) || (f && neverRejects(f) && !t.finallyBlock);
            C.ob("guard-covers", ok, n, ok ? "cannot fail outside its guard" : `the failure of \`${short(x)}\` escapes the ${t.catchClause ? "catch" : "finally"} at ${loc(t.catchClause ?? t.finallyBlock)} because the promise is not awaited inside the try`, key());
          }
        }
      });
      C.min("waited-for", 100); C.min("guard-covers", 10); C.min("settled", 10);
      C.extra = { await_expressions: awaited, promise_variables: promised, files: A.P.files.length };
    },
  },
};
