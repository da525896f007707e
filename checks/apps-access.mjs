// A07–A09: deployed functions may do what their code does, endpoints that change data are guarded, queued messages are not lost.
import { ts, loc, field, or } from "./kit.mjs";
import { apps, unwrap, enclosing, nameOf, appOf, reach, valuesOf, follow, short, returnsOf } from "./apps-kit.mjs";
import { arg, made, calls, items, evalNum } from "./infra-kit.mjs";
import { deployed, functionsOf, lambdaReads, endpoints, text, leaf1 } from "./deploy-kit.mjs";
import { codeOf, isConstruct } from "./apps-deploy.mjs";

const call1 = (v, re) => (v?.alts ?? []).some((a) => re(a.l));
// the same construct: an instance made by the applications or the result of one construct expression
const ident = (l) => (l?.t === "s" && l.op === "res" ? l.ev : l);
const base = (l) => { const x = leaf1(l?.args?.[0]); return l?.op === "get" && x ? x : undefined; };
const member = (l) => (l?.op === "get" ? (typeof l.args[1] === "string" ? l.args[1] : leaf1(l.args[1])?.v) : undefined);
// a function given as itself, its role or its principal
const means = (f) => { const is = isConstruct(f.e); return (l) => is(l) || (/^(role|grantPrincipal|executionRole)$/.test(member(l) ?? "") && is(base(l))); };
// worlds in which every optional setting is given
const given = (I, g) => I.bdd.assign(g, (v) => { const a = I.atoms[v]; if (a?.kind === "eq" && a.k?.t === "c" && (a.k.v === undefined || a.k.v === null || a.k.v === "")) return 0; if (a?.kind === "has") return 1; return undefined; });
// what the code of a function does, by the calls its reachable functions make
const doing = new Map();
export function effectsOf(file, name) {
  const k = `${file}#${name}`;
  if (doing.has(k)) return doing.get(k);
  const R = lambdaReads(file, name), out = new Map();
  doing.set(k, out);
  const add = (x, n) => { if (!out.has(x)) out.set(x, n); };
  for (const fn of R.seen?.keys() ?? []) {
    const w = (n) => {
      if (n !== fn && ts.isFunctionLike(n)) return;
      if (ts.isNewExpression(n)) { const c = n.expression.getText().split(".").pop(); if (/Command$/.test(c)) add(c.replace(/Command$/, ""), n); }
      if (ts.isCallExpression(n)) {
        const c = unwrap(n.expression), m = ts.isPropertyAccessExpression(c) ? c.name.text : ts.isIdentifier(c) ? c.text : "";
        if (ts.isPropertyAccessExpression(c) && /^(sendMessage|sendMessageBatch|getSecretValue|putObject|publish)$/.test(m) && !apps().V.callee(n)) add(m[0].toUpperCase() + m.slice(1), n);
        if (/^(inDatabase|inDatabaseReadonly)$/.test(m) && /database\/database\.ts$/.test(apps().V.callee(n)?.getSourceFile().fileName ?? "")) add("Database", n);
      }
      ts.forEachChild(n, w);
    };
    w(fn);
  }
  return out;
}
const NEED = {
  SendMessage: { res: "queueUrl", grant: /grantSendMessages$/, action: /^sqs:(SendMessage|\*)$/i, what: "send messages to" },
  SendMessageBatch: { res: "queueUrl", grant: /grantSendMessages$/, action: /^sqs:(SendMessage|\*)$/i, what: "send messages to" },
  PutObject: { res: "bucketName", grant: /grant(Write|Put|ReadWrite)$/, action: /^s3:(PutObject|Put\*|\*)$/i, what: "store objects in" },
  GetObject: { res: "bucketName", grant: /grant(Read|ReadWrite)$/, action: /^s3:(GetObject|Get\*|\*)$/i, what: "read objects of" },
  Publish: { res: "topicArn", grant: /grantPublish$/, action: /^sns:(Publish|\*)$/i, what: "publish to" },
  GetSecretValue: { grant: /grantRead$/, action: /^secretsmanager:(GetSecretValue|\*)$/i, what: "read the secret" },
  PutParameter: { action: /^ssm:(PutParameter|Put\*|\*)$/i, grant: /grantWrite$/, what: "write parameters" },
  GetParameter: { action: /^ssm:(GetParameter|Get\*|\*)$/i, grant: /grantRead$/, what: "read parameters" },
};
// policy statements a function has: [{g, actions:[text]|undefined, resources: value[]}]
function statements(f) {
  const I = f.S.I, me = means(f), out = [];
  const role = leaf1(field(I, f.props, "role").v), roleEv = role?.op === "res" ? role.ev : undefined;
  const isRole = (l) => !!role && ident(l) === ident(role);
  let open = role && role.t !== "c" && !roleEv;
  const st = (v, g) => { for (const a of v?.alts ?? []) { const ev = a.l.op === "res" ? a.l.ev : a.l.t === "o" ? f.S.r.events.find((x) => x.kind === "super" && leaf1(x.recv) === a.l) : undefined; const gg = I.bdd.and(g, a.g); if (!ev || !/PolicyStatement$/.test(ev.name ?? "")) { if (!(a.l.t === "c")) open = true; continue; } const p = arg(ev, 0); const xs = (k, re) => [...(p ? items(I, field(I, p, k).v) : []).map((x) => x.v), ...f.S.r.events.filter((c) => c.kind === "call" && re.test(c.name ?? "") && call1(c.recv, (l) => ident(l) === ev)).flatMap((c) => c.args.flatMap((y) => (y.spread ? items(I, y.spread).map((z) => z.v) : [y])))]; out.push({ g: gg, actions: xs("actions", /addActions$/).map((x) => text(I, x)), resources: xs("resources", /addResources$/) }); } };
  const list = (v, g) => { for (const x of items(I, v)) st(x.v, I.bdd.and(g, x.g)); };
  for (const e of f.S.r.events) {
    if (e.kind !== "call") continue;
    if (/addToRolePolicy$/.test(e.name ?? "") && call1(e.recv, me)) st(arg(e, 0), e.g);
    if (/(addToPolicy|addToPrincipalPolicy)$/.test(e.name ?? "") && (call1(e.recv, me) || call1(e.recv, isRole))) st(arg(e, 0), e.g);
    if (/attachInlinePolicy$/.test(e.name ?? "") && (call1(e.recv, me) || call1(e.recv, isRole))) open = true;
    if (/grant\w*$/.test(e.name ?? "") && role && e.args.some((a) => call1(a.spread ?? a, isRole))) out.push({ g: e.g, grant: e });
  }
  list(field(I, f.props, "initialPolicy").v, f.e.g);
  if (roleEv) {
    const ip = leaf1(arg(roleEv, 2) && field(I, arg(roleEv, 2), "inlinePolicies").v);
    const fs_ = ip?.t === "o" ? ip.rec.props : ip?.fields;
    for (const p of fs_?.values?.() ?? []) for (const a of p.v.alts) { const d = a.l.op === "res" ? a.l.ev : undefined; if (d && arg(d, 0)) list(field(I, arg(d, 0), "statements").v, roleEv.g); else open = true; for (const c of d ? calls(f.S.r, /addStatements$/) : []) if (call1(c.recv, (l) => ident(l) === d)) for (const y of c.args) st(y.spread ?? y, c.g); }
    if (/fromRole/.test(roleEv.name ?? "")) open = true;
  }
  return { out, open };
}
const actionsOk = (s, re) => s.actions && (s.actions.length === 0 ? false : s.actions.some((a) => a === undefined || a === "*" || re.test(a)));
// seconds of a Duration value
export function seconds(I, v) {
  const l = leaf1(v);
  const m = /Duration\.(millis|seconds|minutes|hours|days)$/.exec(l?.op === "res" ? l.ev.name ?? "" : l?.op ?? "");
  if (!m) return undefined;
  const n = evalNum(I, l.op === "res" ? arg(l.ev, 0) : l.args[l.args.length - 1], () => undefined);
  return n === undefined ? undefined : n * { millis: 0.001, seconds: 1, minutes: 60, hours: 3600, days: 86400 }[m[1]];
}
const absent = (I, v) => { const l = leaf1(v); return l?.t === "c" && l.v === undefined; };
// the queue an event source or a setting stands for: the event that made it
function queueOf(S, l) {
  if (l?.op === "res") return /aws-sqs#Queue$/.test(l.ev.name ?? "") ? l.ev : undefined;
  return S.r.events.find((x) => x.kind === "super" && /aws-sqs#Queue$/.test(x.name ?? "") && leaf1(x.recv ?? x.self) === l) ?? S.r.events.find((x) => x.kind === "super" && /aws-sqs#Queue$/.test(x.name ?? "") && isConstruct(x)(l));
}
// ---- messages: what a handler does with failures
const FAILURES = /partial-batch-failure|PartialBatch/i;
function handlerShape(file, name) {
  const A = apps(), R = lambdaReads(file, name);
  if (!R.exported) return undefined;
  let s = A.ck.getExportsOfModule(A.ck.getSymbolAtLocation(R.sf)).find((x) => x.name === name);
  if (s.flags & ts.SymbolFlags.Alias) s = A.ck.getAliasedSymbol(s);
  const d = s.declarations?.[0];
  if (!d) return undefined;
  let init = ts.isVariableDeclaration(d) && d.initializer ? unwrap(d.initializer) : d;
  let reports = false;
  const resolve = (n, depth = 0) => {
    if (!n || depth > 6) return undefined;
    n = unwrap(n);
    if (ts.isFunctionLike(n)) return n;
    if (ts.isIdentifier(n)) { const x = A.V.decl(n); return x && (ts.isFunctionLike(x) ? x : ts.isVariableDeclaration(x) && x.initializer ? resolve(x.initializer, depth + 1) : undefined); }
    if (ts.isCallExpression(n)) {
      const c = unwrap(n.expression);
      if (ts.isPropertyAccessExpression(c) && c.name.text === "use") { if (n.arguments.some((a) => fromModule(a))) reports = true; return resolve(c.expression, depth + 1); }
      if (ts.isIdentifier(c) && /^middy$/.test(c.text)) return resolve(n.arguments[0], depth + 1);
      const f = A.V.callee(n);
      if (f?.body) { const rs = returned(f); return rs.length ? resolve(rs[0], depth + 1) : undefined; }
    }
    return undefined;
  };
  const fromModule = (a) => { a = unwrap(a); if (!ts.isCallExpression(a)) return false; const c = unwrap(a.expression); if (!ts.isIdentifier(c)) return false; let found = false; for (const st of c.getSourceFile().statements) if (ts.isImportDeclaration(st) && FAILURES.test(st.moduleSpecifier.getText()) && st.importClause && (st.importClause.name?.text === c.text || st.importClause.namedBindings?.getText().includes(c.text))) found = true; return found; };
  const fn = ts.isFunctionLike(init) ? init : resolve(init);
  return { fn, reports, R };
}
const returned = (f) => { if (!ts.isBlock(f.body)) return [f.body]; const out = []; const w = (n) => { if (n !== f && ts.isFunctionLike(n)) return; if (ts.isReturnStatement(n) && n.expression) out.push(n.expression); ts.forEachChild(n, w); }; w(f.body); return out; };
// can control leave a statement list normally (no throw or rejected return at the end of every path)?
export function completes(st) {
  if (!st) return true;
  if (ts.isBlock(st)) return st.statements.every(completes);
  if (ts.isThrowStatement(st)) return false;
  if (ts.isReturnStatement(st)) return !(st.expression && valuesOf(st.expression).every((x) => ts.isCallExpression(stripAwait(x)) && (/^Promise\.reject$/.test(stripAwait(x).expression.getText()) || failsAlways(stripAwait(x)))));
  if (ts.isIfStatement(st)) return completes(st.thenStatement) || completes(st.elseStatement);
  if (ts.isTryStatement(st)) return st.finallyBlock && !completes(st.finallyBlock) ? false : st.catchClause ? completes(st.tryBlock) || completes(st.catchClause.block) : completes(st.tryBlock);
  if (ts.isExpressionStatement(st)) { const c = stripAwait(st.expression); if (ts.isCallExpression(c)) { const t = apps().ck.getTypeAtLocation(c); if (t.flags & ts.TypeFlags.Never) return false; if (failsAlways(c, st.expression)) return false; } return true; }
  return true;
}
// a call of a function that never completes
const failing = new Set();
function failsAlways(c, at) {
  const f = apps().V.callee(c);
  if (!f?.body || !ts.isBlock(f.body) || failing.has(f) || f.asteriskToken) return false;
  if (at && f.modifiers?.some((m) => m.kind === ts.SyntaxKind.AsyncKeyword) && !ts.isAwaitExpression(unwrap(at))) return false;
  failing.add(f);
  try { return !completes(f.body); } finally { failing.delete(f); }
}
const PROMISE = (n) => { const A = apps(), t = A.ck.getTypeAtLocation(n); return /^Promise(Like)?<|^Promise$/.test(A.ck.typeToString(t)); };
// catches in which a failure of awaited work ends: [{node}]
function swallows(fn) {
  const out = [];
  const awaits = (b) => { let y = false; const w = (n) => { if (ts.isFunctionLike(n)) return; if (ts.isAwaitExpression(n)) y = true; ts.forEachChild(n, w); }; w(b); return y; };
  const w = (n) => {
    if (n !== fn && ts.isFunctionLike(n)) return;
    if (ts.isTryStatement(n) && n.catchClause && awaits(n.tryBlock) && completes(n.catchClause.block) && !rethrown(n)) out.push(n.catchClause);
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(unwrap(n.expression)) && unwrap(n.expression).name.text === "catch" && PROMISE(unwrap(n.expression).expression)) { const cb = n.arguments[0] && (valuesOf(n.arguments[0])[0] ?? unwrap(n.arguments[0])); if (cb && ts.isFunctionLike(cb) && (ts.isBlock(cb.body) ? completes(cb.body) : !/Promise\.reject\(/.test(cb.body.getText()))) out.push(n); }
    ts.forEachChild(n, w);
  };
  w(fn);
  return out;
}
// the caught failure is kept in a variable that is thrown later, or work is tried again inside the catch
export function rethrown(n) {
  const A = apps(); let y = false;
  const names = new Set();
  const w = (x) => { if (ts.isBinaryExpression(x) && x.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isIdentifier(unwrap(x.left))) { const d = A.V.decl(unwrap(x.left)); if (d) names.add(d); } if (ts.isCallExpression(x)) { const c = unwrap(x.expression); if (ts.isPropertyAccessExpression(c) && c.name.text === "push" && ts.isIdentifier(unwrap(c.expression)) && !x.arguments.every(saysFine)) { const d = A.V.decl(unwrap(c.expression)); if (d) names.add(d); } } if (ts.isAwaitExpression(x)) y = true; ts.forEachChild(x, w); };
  w(n.catchClause.block);
  if (y) return true;
  const f = enclosing(n);
  // other names for it
  const al = (x) => { if (ts.isVariableDeclaration(x) && x.initializer && ts.isIdentifier(unwrap(x.initializer)) && names.has(A.V.decl(unwrap(x.initializer)))) names.add(x); ts.forEachChild(x, al); };
  if (f) for (let k = 0, m = -1; k < 4 && m !== names.size; k++) { m = names.size; al(f); }
  const t = (x) => { if (x === n) return; if ((ts.isThrowStatement(x) || ts.isReturnStatement(x) || ts.isIfStatement(x)) && x.expression) { const z = (q) => { if (ts.isIdentifier(q) && names.has(A.V.decl(q))) y = true; ts.forEachChild(q, z); }; z(x.expression); } ts.forEachChild(x, t); };
  if (f && names.size) t(f);
  return y;
}
// an outcome that says that all went well
const saysFine = (e) => { const vs = valuesOf(e); return vs.length > 0 && vs.every((o) => ts.isObjectLiteralExpression(o) && o.properties.some((p) => ts.isPropertyAssignment(p) && p.name.getText().replace(/["']/g, "") === "status" && ts.isStringLiteralLike(unwrap(p.initializer)) && unwrap(p.initializer).text === "fulfilled")); };
// the report is read by position: outcomes that are not one for each record, in their order
function misplaced(fn) {
  const A = apps(), out = [];
  const own = (n, f) => { const w = (x) => { if (x !== n && ts.isFunctionLike(x)) return; f(x); ts.forEachChild(x, w); }; w(n); };
  const settled = (e) => { const t = A.ck.getTypeAtLocation(e); return A.ck.isArrayType(t) && /^PromiseSettledResult</.test(A.ck.typeToString(A.ck.getTypeArguments(t)[0])); };
  const pushTo = (x) => { const c = ts.isCallExpression(x) && unwrap(x.expression); return c && ts.isPropertyAccessExpression(c) && c.name.text === "push" && settled(c.expression); };
  const count = (n) => { let k = 0; if (n) own(n, (x) => { if (pushTo(x)) k += x.arguments.length; }); return k; };
  const add = (s, k) => new Set([...s].map((x) => Math.min(2, x + k)));
  const uni = (...xs) => new Set(xs.flatMap((x) => [...x]));
  const none = new Set();
  let vague = false;
  const seq = (list, s) => { let r = { out: s, cont: none, thrown: none }; for (const x of list) { const y = step(x, r.out); r = { out: y.out, cont: uni(r.cont, y.cont), thrown: uni(r.thrown, y.thrown) }; } return r; };
  const step = (st, s) => {
    if (s.size === 0) return { out: s, cont: none, thrown: none };
    if (ts.isBlock(st)) return seq(st.statements, s);
    if (ts.isIfStatement(st)) { const s0 = add(s, count(st.expression)), a = step(st.thenStatement, s0), b = st.elseStatement ? step(st.elseStatement, s0) : { out: s0, cont: none, thrown: none }; return { out: uni(a.out, b.out), cont: uni(a.cont, b.cont), thrown: uni(s, a.thrown, b.thrown) }; }
    if (ts.isTryStatement(st)) {
      const t = step(st.tryBlock, s), c = st.catchClause ? step(st.catchClause.block, t.thrown) : { out: none, cont: none, thrown: t.thrown }, f = count(st.finallyBlock);
      return { out: add(uni(t.out, c.out), f), cont: add(uni(t.cont, c.cont), f), thrown: add(c.thrown, f) };
    }
    if (ts.isContinueStatement(st)) return { out: none, cont: s, thrown: none };
    if (ts.isBreakStatement(st)) { vague = true; return { out: none, cont: none, thrown: none }; }
    if (ts.isReturnStatement(st)) return { out: none, cont: none, thrown: s };
    if (ts.isThrowStatement(st)) return { out: none, cont: none, thrown: s };
    const k = count(st);
    if (k && !ts.isExpressionStatement(st) && !ts.isVariableStatement(st)) { vague = true; return { out: s, cont: none, thrown: s }; }
    let work = false; own(st, (x) => { if (ts.isAwaitExpression(x) || ts.isNewExpression(x) || (ts.isCallExpression(x) && !pushTo(x) && !/^(logger|console|Date|log[A-Z]\w*)\b/.test(x.expression.getText()))) work = true; });
    return { out: add(s, k), cont: none, thrown: work ? s : none };
  };
  own(fn, (n) => {
    if (ts.isForOfStatement(n) && /\bRecords$/.test((follow(n.expression) ?? n.expression).getText()) && count(n.statement)) {
      vague = false;
      const r = step(n.statement, new Set([0])), all = uni(r.out, r.cont);
      if (!vague && [...all].some((k) => k !== 1)) out.push([n, `the outcomes are read by position, and some record gets ${[...all].includes(0) ? "none" : "more than one"}`]);
    }
    if (ts.isCallExpression(n) && /^Promise\.allSettled$/.test(unwrap(n.expression).getText()) && n.arguments[0]) {
      let e = follow(n.arguments[0]);
      while (e && ts.isCallExpression(e) && ts.isPropertyAccessExpression(unwrap(e.expression))) { const m = unwrap(e.expression); if (/^(filter|slice|flatMap|reverse|sort|toSorted|toReversed|splice|toSpliced|concat)$/.test(m.name.text)) out.push([n, `the outcomes are read by position, and \`${m.name.text}\` makes them others than the records`]); e = follow(m.expression); }
    }
  });
  return out;
}
// one failure among many must count: tests that ask whether all failed, or whether any went well
function allMustFail(fn) {
  const out = [];
  const w = (n) => {
    if (n !== fn && ts.isFunctionLike(n)) return;
    const c = ts.isCallExpression(n) && unwrap(n.expression);
    if (c && ts.isPropertyAccessExpression(c) && /^(every|some)$/.test(c.name.text)) {
      const cb = n.arguments[0] && valuesOf(n.arguments[0])[0], body = cb && ts.isFunctionLike(cb) && (ts.isBlock(cb.body) ? returnsOf(cb)[0] : cb.body), t = body && unwrap(body);
      if (t && ts.isBinaryExpression(t) && /^[=!]==?$/.test(t.operatorToken.getText())) {
        const l = [t.left, t.right].map((x) => unwrap(x)), lit = l.find((x) => ts.isStringLiteralLike(x)), st = l.find((x) => ts.isPropertyAccessExpression(x) && x.name.text === "status");
        if (lit && st && /^(rejected|fulfilled)$/.test(lit.text)) { const failed = (lit.text === "rejected") === /^=/.test(t.operatorToken.getText()); if ((c.name.text === "every") === failed) out.push(n); }
      }
    }
    ts.forEachChild(n, w);
  };
  w(fn);
  return out;
}
// settled results that nobody looks at: allSettled whose value is dropped or only handed back to the runtime
function dropped(fn, top) {
  const A = apps(), out = [];
  const w = (n) => {
    if (n !== fn && ts.isFunctionLike(n)) return;
    if (ts.isCallExpression(n) && /^Promise\.allSettled$/.test(unwrap(n.expression).getText())) {
      let p = n; while (ts.isAwaitExpression(p.parent) || ts.isParenthesizedExpression(p.parent) || ts.isAsExpression(p.parent)) p = p.parent;
      const q = p.parent;
      if (ts.isExpressionStatement(q)) out.push(n);
      else if ((ts.isReturnStatement(q) || q === fn) && top) out.push(n);
      else if (ts.isVariableDeclaration(q) && ts.isIdentifier(q.name) && !A.V.refs(q).some((r) => { let z = r.parent; while (ts.isParenthesizedExpression(z)) z = z.parent; return !(ts.isReturnStatement(z) && top); })) out.push(n);
    }
    ts.forEachChild(n, w);
  };
  w(fn);
  return out;
}
export const appsAccess = {
  A07: {
    explain: "Every application stack is constructed symbolically. What the code of each function does (messages sent, objects stored, secrets and parameters read, database work; by reachable calls) is compared with the grants and policy statements that the stack makes for that function and for the resource whose name it is deployed with.",
    assumptions: ["Policies attached in ways not modelled (imported roles, inline policies) are taken to allow.", "A reachable call is taken to be made."],
    run(C) {
      let und = 0;
      for (const S of deployed(C)) for (const f of functionsOf(S)) {
        const I = S.I, code = codeOf(C, f);
        if (!code?.file) { und++; continue; }
        const R = lambdaReads(code.file, code.name), eff = effectsOf(code.file, code.name), me = means(f), P = statements(f);
        C.analysed.add(code.file);
        const nm = `${S.app} ${code.p}`, need = given(I, f.e.g);
        for (const [k, node] of eff) {
          const N = NEED[k];
          if (k === "Database") {
            for (const [m, ks] of [["vpc", ["vpc"]], ["security group", ["securityGroups", "securityGroup"]]]) { const has = or(I, ks.flatMap((k) => { const x = field(I, f.props, k); return x.v.alts.filter((a) => !(a.l.t === "c" && a.l.v === undefined) && !(a.l.t === "o" && a.l.rec.kind === "array" && !a.l.rec.items.length)).map((a) => I.bdd.and(a.g, x.has)); })); C.ob("database-network", I.bdd.implies(need, given(I, has)), f.e.at, `${nm}: uses the database (${loc(node)}) and is placed in the network (${m})`, `${code.file} ${m}`); }
            continue;
          }
          if (!N) continue;
          if (P.open) { und++; continue; }
          const pol = (res) => P.out.filter((s) => (s.grant ? N.grant.test(s.grant.name ?? "") : actionsOk(s, N.action)) && (!res || s.grant ? !res || !s.grant || call1(s.grant.recv, (l) => ident(l) === res) : s.resources.some((v) => covers(I, v, res)))).map((s) => s.g);
          if (!N.res) {
            const g = [...calls(S.r, N.grant).filter((e) => e.args.some((a) => call1(a.spread ?? a, me)) && (k !== "GetSecretValue" || secretLike(e.recv))).map((e) => e.g), ...pol()];
            C.ob("access", I.bdd.implies(need, given(I, or(I, g))), f.e.at, `${nm}: may ${N.what} (done at ${loc(node)})`, `${code.file} ${k}`);
            continue;
          }
          for (const key of new Set([...R.reads.keys(), ...R.safe])) {
            const v = field(I, f.env, key).v;
            for (const a of v.alts) {
              if (member(a.l) !== N.res) continue;
              const b = base(a.l); if (!b || (b.t === "s" && b.op !== "res")) continue;
              const id = ident(b);
              const g = [...calls(S.r, N.grant).filter((e) => call1(e.recv, (l) => ident(l) === id) && e.args.some((x) => call1(x.spread ?? x, me))).map((e) => e.g), ...pol(id)];
              C.ob("access", I.bdd.implies(I.bdd.and(need, given(I, a.g)), given(I, or(I, g))), f.e.at, `${nm}: may ${N.what} the ${N.res.replace(/Url|Name|Arn/, "")} it is deployed with as ${key} (done at ${loc(node)})`, `${code.file} ${k} ${key}`);
            }
          }
        }
      }
      C.ob("undecided-noted", true, "(summary)", `${und} functions or accesses given in other ways are not decided`, "und");
      C.min("access", 45); C.min("database-network", 50);
    },
  },
  A08: {
    explain: "Every method of every application API (stacks constructed symbolically): methods that can change data need an API key or an authorizer, HEAD asks the same as GET, no method is declared twice, and an API that asks for keys has a usage plan to give them out.",
    assumptions: ["Methods with a name that is not constant are not decided."],
    run(C) {
      for (const S of deployed(C)) {
        const I = S.I, by = new Map(), apis = new Map();
        for (const e of endpoints(S)) {
          if (!e.method) continue;
          const where = `${e.method} /${e.path.join("/")} of ${S.app}`, k = `${S.app} ${e.method} ${e.path.join("/")}`;
          C.analysed.add(e.e.at);
          const f = (n) => (e.opts ? field(I, e.opts, n) : undefined);
          const keyed = f("apiKeyRequired"), auth = f("authorizer"), at_ = f("authorizationType");
          const on = (x) => (x ? or(I, x.v.alts.filter((a) => a.l.t !== "c" || a.l.v === true || (a.l.v && typeof a.l.v !== "boolean")).map((a) => I.bdd.and(I.bdd.and(a.g, x.has), a.l.t === "s" && a.l.op === "get" ? I.truthLeaf(a.l) : 1))) : 0);
          const g = I.bdd.orAll([on(keyed), on(auth)]);
          const iam = at_ && /IAM|COGNITO|CUSTOM/.test(I.show(at_.v)) ? 1 : 0;
          if (!/^(GET|HEAD|OPTIONS)$/.test(e.method)) C.ob("write-guarded", I.bdd.implies(given(I, e.e.g), I.bdd.or(given(I, g), iam)), e.e.at, `${where}: asks for an API key or an authorizer`, k);
          const rid = e.recv?.op === "res" ? `${e.root}/${e.path.join("/")}` : I.showLeaf(e.recv);
          if (!by.has(rid)) by.set(rid, []);
          by.get(rid).push({ ...e, g, where, k });
          if (!apis.has(e.root)) apis.set(e.root, []);
          apis.get(e.root).push({ ...e, k, keyG: on(keyed) });
        }
        const plans = calls(S.r, /addUsagePlan$/);
        for (const [root, list] of apis) {
          const asks = list.filter((e) => e.keyG !== 0);
          if (!asks.length) continue;
          const api = root.replace(/\.root$/, ""), g = I.bdd.orAll(asks.map((e) => I.bdd.and(e.e.g, e.keyG)));
          const its = plans.filter((p) => p.recv && I.show(p.recv) === api), k = `${S.app} ${asks[0].k} plan`;
          const stageOf = (v) => v && v.alts.every((a) => a.l.t === "s" && a.l.op === "get" && I.show(a.l.args[0]) === api && a.l.args[1] === "deploymentStage");
          const on1 = (p, re) => calls(S.r, re).filter((e) => leaf1(e.recv)?.op === "res" && leaf1(e.recv).ev === p);
          const ok = I.bdd.orAll(its.map((p) => {
            const stages = [...on1(p, /addApiStage$/).map((e) => ({ g: e.g, v: arg(e, 0) && field(I, arg(e, 0), "stage").v }))];
            const listed = arg(p, 1) && field(I, arg(p, 1), "apiStages").v;
            const st = listed && !absent(I, listed) && I.show(listed).includes(`${api}.deploymentStage`) ? 1 : I.bdd.orAll(stages.filter((x) => stageOf(x.v)).map((x) => x.g));
            const keys = I.bdd.orAll(on1(p, /addApiKey$/).map((e) => e.g));
            return I.bdd.and(p.g, I.bdd.and(st, keys));
          }));
          C.ob("usage-plan", I.bdd.implies(given(I, g), given(I, ok)), asks[0].e.at, `${S.app}: the API of ${asks[0].k} asks for keys, and has a usage plan for its stage with a key to hand out`, k);
        }
        for (const [rid, list] of by) {
          const seen = [];
          for (const e of list) {
            const o = seen.find((x) => x.method === e.method && I.bdd.and(x.e.g, e.e.g) !== 0);
            if (o) C.ob("once", false, e.e.at, `${e.where}: declared a second time (also at ${o.e.at})`, e.k);
            seen.push(e);
          }
          C.ob("once", true, list[0].e.at, rid, rid);
        }
        for (const list of by.values()) {
          for (const h of list.filter((x) => x.method === "HEAD")) {
            const gets = list.filter((x) => x.method === "GET");
            if (!gets.length) continue;
            C.ob("head-as-get", gets.some((x) => x.ie && x.ie === h.ie || I.show(arg(x.e, 1)) === I.show(arg(h.e, 1))), h.e.at, `${h.where}: is answered by the same integration as GET`, h.k);
            C.ob("head-guard", gets.some((x) => I.bdd.implies(given(I, x.g), given(I, h.g))), h.e.at, `${h.where}: asks for what GET asks for`, `${h.k} guard`);
          }
        }
      }
      C.min("write-guarded", 5); C.min("head-as-get", 20);
    },
  },
  A09: {
    explain: "Every function that a queue triggers (stacks constructed symbolically): the queue hides a message for at least as long as the function may run, per-record failures reported by the handler are asked for by the trigger, and in the handler and what it stores failed messages with, no failure of awaited work ends in a catch or in settled results that nobody examines.",
    assumptions: ["A queue without dead-letter queue that is not one itself is taken to drop failed messages on purpose.", "A malformed message may be dropped by a catch around synchronous parsing."],
    run(C) {
      for (const S of deployed(C)) {
        const I = S.I, fns = functionsOf(S);
        const dlqs = new Set();
        for (const q of made(S.r, /aws-sqs#Queue$/)) { const d = arg(q, 2) && field(I, arg(q, 2), "deadLetterQueue").v; for (const a of d?.alts ?? []) { const x = a.l.t === "c" ? undefined : leaf1(field(I, I.one(a.l), "queue").v); const dq = x && queueOf(S, x); if (dq) dlqs.add(dq); } }
        for (const e of calls(S.r, /addEventSource$/)) {
          const src = leaf1(arg(e, 0)), se = src?.op === "res" ? src.ev : undefined;
          if (!se || !/SqsEventSource$/.test(se.name ?? "")) continue;
          const f = fns.find((x) => call1(e.recv, isConstruct(x.e)));
          const q = queueOf(S, leaf1(arg(se, 0)));
          if (!f || !q) continue;
          const code = codeOf(C, f), nm = `${S.app} ${code?.p ?? f.name}`, qp = arg(q, 2);
          C.analysed.add(se.at);
          const vis = qp && field(I, qp, "visibilityTimeout").v, to = field(I, f.props, "timeout").v;
          const vs = !vis || absent(I, vis) ? 30 : seconds(I, vis), tos = absent(I, to) ? 3 : seconds(I, to);
          if (vs !== undefined && tos !== undefined) C.ob("visibility", vs >= tos, se.at, `${nm}: may run ${tos} s, and its queue hides messages for ${vs} s`, `${nm} visibility`);
          const dl = qp && field(I, qp, "deadLetterQueue").v;
          const kept = dlqs.has(q) || (dl && dl.alts.every((a) => !(a.l.t === "c")));
          for (const a of dl?.alts ?? []) if (a.l.t !== "c") { const n = evalNum(I, field(I, I.one(a.l), "maxReceiveCount").v, () => undefined); if (n !== undefined) C.ob("retries", n >= 1, q.at, `${nm}: messages are tried ${n} times before they are set aside`, `${nm} retries`); }
          if (!code?.file) continue;
          const H = handlerShape(code.file, code.name);
          if (!H?.fn) continue;
          C.analysed.add(code.file);
          const opts = arg(se, 1), rp = opts ? field(I, opts, "reportBatchItemFailures").v : undefined;
          const asked = rp && rp.alts.every((a) => a.l.t === "c" && a.l.v === true);
          const A = apps(), sig = A.ck.getSignatureFromDeclaration(H.fn), rt = sig ? A.ck.typeToString(A.ck.getReturnTypeOfSignature(sig)) : "";
          const reports = H.reports || /batchItemFailures|SQSBatchResponse/.test(rt);
          if (reports) C.ob("report-asked", !!asked, se.at, `${nm}: reports failed records, and its queue asks for the report`, `${nm} report`);
          if (H.reports) C.ob("report-made", /PromiseSettledResult/.test(rt) || rt.includes("any"), loc(H.fn), `${nm}: hands the outcome of every record to the report (${rt})`, `${nm} outcomes`);
          if ((reports && !H.reports) || (!kept && !reports)) continue;
          // what the message says is worked on in every function from here; a message that only says when to work leaves the work to what is stored
          const reads = H.fn.parameters.length > 0, fs_ = new Set([H.fn]);
          for (const [g] of reach(new Set([H.fn]))) if (g.getSourceFile() === H.R.sf || stores(g) || (reads && appOf(g) === appOf(H.fn))) fs_.add(g);
          let n = 0;
          if (H.reports) {
            const near = [...reach(new Set([H.fn])).keys()].filter((g) => g.getSourceFile() === H.fn.getSourceFile());
            const bad = near.flatMap(misplaced);
            C.ob("one-outcome-each", bad.length === 0, loc(bad[0]?.[0] ?? H.fn), `${nm}: ${bad[0]?.[1] ?? "one outcome for each record, in their order"}`, `${nm} outcomes`);
          }
          for (const fn of fs_) {
            for (const c of allMustFail(fn)) { n++; C.ob("failure-kept", false, loc(c), `${nm}: \`${short(c)}\` does not tell that one of the messages failed`, `${nm} all`); }
            for (const c of swallows(fn)) { n++; C.ob("failure-kept", false, loc(c), `${nm}: a failure of the work on a message ends here, and the message is removed from its queue`, `${nm} ${loc(fn).split(":")[0]} swallow`); }
            const top = fn === H.fn || returned(H.fn).some((r) => { const z = stripAwait(r); return ts.isCallExpression(z) && A.V.callee(z) === fn; });
            for (const c of dropped(fn, top && !reports)) { n++; C.ob("failure-kept", false, loc(c), `${nm}: nobody examines the settled results, and failed messages are removed from their queue`, `${nm} ${loc(fn).split(":")[0]} settled`); }
          }
          if (reports) { if (!n) C.ob("failure-kept", true, loc(H.fn), `${nm}: failures of the work on a message reach the report (${fs_.size} functions)`, `${nm} kept`); continue; }
          if (!n && /PromiseSettledResult/.test(rt) && !raises(H.fn)) { n++; C.ob("failure-kept", false, loc(H.fn), `${nm}: hands settled results back to a runtime that does not read them, and failed messages are removed from their queue`, `${nm} handed`); }
          if (!n) C.ob("failure-kept", true, loc(H.fn), `${nm}: failures of the work on a message reach the queue (${fs_.size} functions)`, `${nm} kept`);
        }
      }
      C.min("visibility", 10); C.min("report-asked", 4); C.min("failure-kept", 5);
    },
  },
};
const raises = (fn) => { let y = false; const w = (n) => { if (n !== fn && ts.isFunctionLike(n)) return; if (ts.isThrowStatement(n) || (ts.isCallExpression(n) && /^Promise\.reject$/.test(n.expression.getText()))) y = true; ts.forEachChild(n, w); }; w(fn); return y; };
const stripAwait = (n) => { n = unwrap(n); while (ts.isAwaitExpression(n)) n = unwrap(n.expression); return n; };
const stores = (fn) => { let y = false; const w = (n) => { if (ts.isNewExpression(n) && /PutObjectCommand$/.test(n.expression.getText())) y = true; if (ts.isCallExpression(n) && /^(doUpload|uploadToS3)$/.test(nameOf(apps().V.callee(n)) ?? "")) y = true; ts.forEachChild(n, w); }; w(fn); return y; };
const secretLike = (v) => (v?.alts ?? []).some((a) => /Secret/i.test(a.l.op === "res" ? a.l.ev.name ?? "" : a.l.op ?? "") || a.l.t === "o" || a.l.op === "get" || a.l.op === "in");
// a resource of a statement that may cover the construct: its own arn, everything, or a text that is not decided
function covers(I, v, id) {
  return (v?.alts ?? []).some((a) => {
    const l = a.l;
    if (l.t === "c") return typeof l.v === "string" && (l.v === "*" || /^arn:/.test(l.v));
    let own = false, other = false;
    const w = (x, d) => { if (!x || d > 6) return; if (ident(x) === id) own = true; else if (x.op === "res" || x.t === "o") other = true; for (const y of x.args ?? []) for (const z of y.alts ?? []) w(z.l, d + 1); };
    w(l, 0);
    return own || !other;
  });
}
