// Development aid: behaviour-preserving rewrites of every (non-test) source file of a scratch copy of the repository.
// VERIF_REPO=/tmp/rf node tools/refactor.mjs <rewrite,rewrite,…> [file regexp]
import fs from "node:fs";
import { ts, libProgram, allProgram, isTest, rel, REPO } from "../engine/index.mjs";
if (REPO === "/repo") throw new Error("only on a copy");
const [names, re] = process.argv.slice(2);
const A = allProgram(), ck = A.checker;
const sfs = A.files.filter((f) => !isTest(f) && !/\.d\.ts$|canary-stack-never/.test(f) && (!re || new RegExp(re).test(rel(f)))).map((f) => A.program.getSourceFile(f)).filter(Boolean);
let N = 0;
const isFn = (n) => ts.isFunctionLike(n) && n.body;
const enclosing = (n) => { let p = n.parent; while (p && !isFn(p)) p = p.parent; return p; };
const has = (n, pred, stopFn = true) => { let r = false; const w = (x) => { if (r) return; if (pred(x)) { r = true; return; } if (stopFn && x !== n && isFn(x)) return; ts.forEachChild(x, w); }; w(n); return r; };
const asyncFn = (f) => f.modifiers?.some((m) => m.kind === ts.SyntaxKind.AsyncKeyword);
const simple = (n) => ts.isIdentifier(n) || n.kind === ts.SyntaxKind.ThisKeyword || (ts.isPropertyAccessExpression(n) && !n.questionDotToken && simple(n.expression));
const pure = (n) => simple(n) || ts.isLiteralExpression(n) || [ts.SyntaxKind.TrueKeyword, ts.SyntaxKind.FalseKeyword].includes(n.kind) || (ts.isObjectLiteralExpression(n) && n.properties.every((p) => ts.isPropertyAssignment(p) ? pure(p.initializer) : ts.isShorthandPropertyAssignment(p))) || (ts.isArrayLiteralExpression(n) && n.elements.every(pure)) || ts.isArrowFunction(n);
const isArr = (n) => { const t = ck.getTypeAtLocation(n); return ck.isArrayType(t) || ck.isTupleType(t); };
const ASY = ts.SyntaxKind.AsteriskToken;
const R = {
  noop: (n, T) => ts.isBlock(n) && n.parent && isFn(n.parent) && n.parent.body === n && !ts.isConstructorDeclaration(n.parent) ? "{ void 0; " + T(n).slice(1) : undefined,
  ret: (n, T) => ts.isReturnStatement(n) && n.expression ? `{ const r_ = ${T(n.expression)}; return r_; }` : undefined,
  ifneg: (n, T) => ts.isIfStatement(n) && n.elseStatement && !ts.isIfStatement(n.elseStatement) ? `if (!(${T(n.expression)})) ${T(n.elseStatement)} else ${T(n.thenStatement)}` : undefined,
  early: (n, T) => ts.isIfStatement(n) && n.elseStatement && ts.isBlock(n.elseStatement) && ts.isBlock(n.thenStatement) && ts.isBlock(n.parent) && ts.isReturnStatement(n.thenStatement.statements.at(-1) ?? n) ? `if (${T(n.expression)}) ${T(n.thenStatement)} ${T(n.elseStatement)}` : undefined,
  arrow: (n, T) => ts.isArrowFunction(n) && !ts.isBlock(n.body) ? `${T(n).slice(0, T(n).length - T(n.body).length)}{ return ${T(n.body)}; }` : undefined,
  tmpl: (n, T) => ts.isTemplateExpression(n) && !ts.isTaggedTemplateExpression(n.parent) ? `(${[JSON.stringify(n.head.text), ...n.templateSpans.flatMap((s) => [`(${T(s.expression)})`, JSON.stringify(s.literal.text)])].join(" + ")})` : undefined,
  forof: (n, T) => { if (!ts.isForOfStatement(n) || n.awaitModifier || !ts.isVariableDeclarationList(n.initializer) || !isArr(n.expression)) return; const k = N++; return `{ const a${k}_ = ${T(n.expression)}; for (let i${k}_ = 0; i${k}_ < a${k}_.length; i${k}_++) { const ${T(n.initializer.declarations[0].name)} = a${k}_[i${k}_]!; ${T(n.statement)} } }`; },
  foreach: (n, T) => { if (!ts.isForOfStatement(n) || n.awaitModifier || !ts.isVariableDeclarationList(n.initializer) || !isArr(n.expression) || has(n.statement, (x) => ts.isReturnStatement(x) || ts.isBreakStatement(x) || ts.isContinueStatement(x) || ts.isAwaitExpression(x))) return; return `${T(n.expression)}.forEach((${T(n.initializer.declarations[0].name)}) => { ${T(n.statement)} });`; },
  unforeach: (n, T) => { if (!ts.isExpressionStatement(n)) return; const c = n.expression; if (!ts.isCallExpression(c) || !ts.isPropertyAccessExpression(c.expression) || c.expression.name.text !== "forEach" || c.expression.questionDotToken) return; const f = c.arguments[0]; if (!ts.isArrowFunction(f) || asyncFn(f) || f.parameters.length !== 1 || has(f.body, (x) => ts.isReturnStatement(x)) || !isArr(c.expression.expression)) return; return `for (const ${T(f.parameters[0].name)} of ${T(c.expression.expression)}) { ${ts.isBlock(f.body) ? T(f.body) : T(f.body) + ";"} }`; },
  unmap: (n, T) => { if (!ts.isVariableStatement(n) || n.declarationList.declarations.length !== 1 || n.modifiers?.length) return; const d = n.declarationList.declarations[0], c = d.initializer; if (!c || !ts.isIdentifier(d.name) || !ts.isCallExpression(c) || !ts.isPropertyAccessExpression(c.expression) || c.expression.name.text !== "map") return; const f = c.arguments[0]; if (!f || !ts.isArrowFunction(f) || asyncFn(f) || f.parameters.length !== 1 || ts.isBlock(f.body) || !isArr(c.expression.expression)) return; return `const ${d.name.text}: any[] = []; for (const ${T(f.parameters[0].name)} of ${T(c.expression.expression)}) { ${d.name.text}.push(${T(f.body)}); }`; },
  tern: (n, T) => ts.isReturnStatement(n) && n.expression && ts.isConditionalExpression(n.expression) ? `if (${T(n.expression.condition)}) { return ${T(n.expression.whenTrue)}; } else { return ${T(n.expression.whenFalse)}; }` : undefined,
  tern2: (n, T) => { if (!ts.isVariableStatement(n) || n.declarationList.declarations.length !== 1 || n.modifiers?.length) return; const d = n.declarationList.declarations[0]; if (!d.initializer || !ts.isIdentifier(d.name) || !ts.isConditionalExpression(d.initializer)) return; const c = d.initializer; return `let ${d.name.text}: any; if (${T(c.condition)}) { ${d.name.text} = ${T(c.whenTrue)}; } else { ${d.name.text} = ${T(c.whenFalse)}; }`; },
  iftern: (n, T) => { if (!ts.isIfStatement(n) || !n.elseStatement) return; const one = (s) => (ts.isBlock(s) && s.statements.length === 1 ? s.statements[0] : s), a = one(n.thenStatement), b = one(n.elseStatement); if (!ts.isReturnStatement(a) || !ts.isReturnStatement(b) || !a.expression || !b.expression) return; return `return (${T(n.expression)}) ? ${T(a.expression)} : ${T(b.expression)};`; },
  extract: (n, T) => {
    if (!ts.isFunctionDeclaration(n) || !n.body || !n.name || n.asteriskToken || n.parent.kind !== ts.SyntaxKind.SourceFile || !n.parameters.every((p) => ts.isIdentifier(p.name) && !p.dotDotDotToken) || (n.type && ts.isTypePredicateNode(n.type)) || has(n.body, (x) => x.kind === ts.SyntaxKind.ThisKeyword) || n.modifiers?.some((m) => m.kind === ts.SyntaxKind.DefaultKeyword)) return;
    if (n.type?.getText().startsWith("asserts")) return;
    const t = T(n), b = T(n.body), head = t.slice(0, t.length - b.length), a = n.parameters.map((p) => p.name.text).join(", ");
    const h2 = head.replace(/^export\s+/, "").replace(`function ${n.name.text}`, `function ${n.name.text}Impl_`);
    return `${head}{ return ${n.type?.kind === ts.SyntaxKind.VoidKeyword || true ? "" : ""}${n.name.text}Impl_(${a}); }\n${h2}${b}`;
  },
  extractM: (n, T) => {
    if (!ts.isMethodDeclaration(n) || !n.body || !ts.isClassDeclaration(n.parent) || n.asteriskToken || !ts.isIdentifier(n.name) || !n.parameters.every((p) => ts.isIdentifier(p.name) && !p.dotDotDotToken)) return;
    const st = n.modifiers?.some((m) => m.kind === ts.SyntaxKind.StaticKeyword);
    const t = T(n), b = T(n.body), head = t.slice(0, t.length - b.length), a = n.parameters.map((p) => p.name.text).join(", ");
    const h2 = head.replace(/^(public|protected|private|override|\s)+/, "").replace(n.name.text, `${n.name.text}Impl_`);
    return `${head}{ return ${st ? n.parent.name.text : "this"}.${n.name.text}Impl_(${a}); }\nprivate ${h2}${b}`;
  },
  split: (n, T) => {
    if (!ts.isBlock(n) || !n.parent || !isFn(n.parent) || n.parent.body !== n || n.statements.length < 3 || ts.isConstructorDeclaration(n.parent) || n.parent.asteriskToken || ts.isGetAccessor(n.parent)) return;
    const k = Math.ceil(n.statements.length / 2), pre = n.statements.slice(0, k), post = n.statements.slice(k);
    if (pre.some((s) => ts.isFunctionDeclaration(s)) || post.some((s) => ts.isFunctionDeclaration(s))) return;
    const as = asyncFn(n.parent), id = N++;
    return `{ ${pre.map(T).join("\n")}\n const rest${id}_ = ${as ? "async " : ""}() => { ${post.map(T).join("\n")} };\n return ${as ? "await " : ""}rest${id}_(); }`;
  },
  nullish: (n, T) => ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.QuestionQuestionToken && simple(n.left) ? `(${T(n.left)} !== undefined && ${T(n.left)} !== null ? ${T(n.left)} : ${T(n.right)})` : undefined,
  and: (n, T) => ts.isIfStatement(n) && !n.elseStatement && ts.isBinaryExpression(n.expression) && n.expression.operatorToken.kind === ts.SyntaxKind.AmpersandAmpersandToken ? `if (${T(n.expression.left)}) { if (${T(n.expression.right)}) ${T(n.thenStatement)} }` : undefined,
  eqflip: (n, T) => ts.isBinaryExpression(n) && [ts.SyntaxKind.EqualsEqualsEqualsToken, ts.SyntaxKind.ExclamationEqualsEqualsToken].includes(n.operatorToken.kind) && pure(n.left) && pure(n.right) ? `${T(n.right)} ${n.operatorToken.getText()} ${T(n.left)}` : undefined,
  cmpflip: (n, T) => { const m = { "<": ">", ">": "<", "<=": ">=", ">=": "<=" }[ts.isBinaryExpression(n) ? n.operatorToken.getText() : ""]; return m && pure(n.left) && pure(n.right) ? `${T(n.right)} ${m} ${T(n.left)}` : undefined; },
  reorder: (n, T) => ts.isObjectLiteralExpression(n) && n.properties.length > 1 && n.properties.every((p) => (ts.isPropertyAssignment(p) && !ts.isComputedPropertyName(p.name) && pure(p.initializer)) || ts.isShorthandPropertyAssignment(p)) ? `{ ${[...n.properties].reverse().map(T).join(", ")} }` : undefined,
  destr: (n, T) => { if (!ts.isVariableStatement(n) || n.declarationList.declarations.length !== 1 || n.modifiers?.length) return; const d = n.declarationList.declarations[0]; if (!d.initializer || !ts.isObjectBindingPattern(d.name) || !d.name.elements.every((e) => !e.dotDotDotToken && !e.initializer && ts.isIdentifier(e.name))) return; const k = N++; return `const o${k}_ = ${T(d.initializer)}; ${d.name.elements.map((e) => `const ${e.name.text} = o${k}_.${(e.propertyName ?? e.name).getText()};`).join(" ")}`; },
  hoist: (n, T) => { // literal objects given as arguments of a statement's outermost call are named first
    if (!ts.isExpressionStatement(n) || !ts.isBlock(n.parent)) return; let c = n.expression; const aw = ts.isAwaitExpression(c); if (aw) c = c.expression; if (!(ts.isCallExpression(c) || ts.isNewExpression(c)) || c.expression.kind === ts.SyntaxKind.SuperKeyword || !c.arguments?.length) return;
    const pre = [], as = c.arguments.map((a) => { if (ts.isSpreadElement(a) || ts.isArrowFunction(a) || ts.isFunctionExpression(a)) return T(a); const k = N++; pre.push(`const p${k}_ = ${T(a)};`); return `p${k}_`; });
    const t = T(c); return `${pre.join(" ")} ${aw ? "await " : ""}${ts.isNewExpression(c) ? "new " : ""}${T(c.expression)}(${as.join(", ")});`;
  },
  noawaitret: (n, T) => ts.isReturnStatement(n) && n.expression && ts.isAwaitExpression(n.expression) && !(() => { let p = n.parent; while (p && !isFn(p)) { if (ts.isTryStatement(p)) return true; p = p.parent; } return false; })() ? `return ${T(n.expression.expression)};` : undefined,
  sw: (n, T) => {
    if (!ts.isSwitchStatement(n) || !simple(n.expression)) return;
    const gs = []; let cur = [];
    for (const c of n.caseBlock.clauses) { cur.push(c); if (c.statements.length) { gs.push(cur); cur = []; } }
    if (cur.length) return;
    let out = "", dflt;
    for (const g of gs) {
      const st = [...g.at(-1).statements], flat = st.length === 1 && ts.isBlock(st[0]) ? [...st[0].statements] : st, last = flat.at(-1);
      if (!last || !(ts.isReturnStatement(last) || ts.isThrowStatement(last) || ts.isBreakStatement(last))) { if (g !== gs.at(-1)) return; }
      if (flat.some((s, i) => has(s, (x) => ts.isBreakStatement(x)) && s !== last)) return;
      const body = `{ ${flat.filter((s) => !ts.isBreakStatement(s)).map(T).join("\n")} }`;
      if (g.some((c) => ts.isDefaultClause(c))) { if (g !== gs.at(-1)) return; dflt = body; continue; }
      out += `${out ? " else " : ""}if (${g.map((c) => `${T(n.expression)} === ${T(c.expression)}`).join(" || ")}) ${body}`;
    }
    return out ? out + (dflt ? ` else ${dflt}` : "") : undefined;
  },
  not: (n, T) => ts.isIfStatement(n) && !n.elseStatement && ts.isBlock(n.parent) ? `if (!(${T(n.expression)})) { /* nothing */ } else ${T(n.thenStatement)}` : undefined,
  rename: (n) => {
    if (!ts.isIdentifier(n)) return;
    const ok = (s) => { const d = s?.valueDeclaration; return d && (ts.isParameter(d) || ts.isVariableDeclaration(d)) && ts.isIdentifier(d.name) && (ts.isParameter(d) ? isFn(d.parent) && !d.modifiers?.length : !!enclosing(d)) && !/\.d\.ts$/.test(d.getSourceFile().fileName); };
    if (ts.isShorthandPropertyAssignment(n.parent) && n.parent.name === n) { const s = ck.getShorthandAssignmentValueSymbol(n.parent); return ok(s) ? `${n.text}: ${n.text}_` : undefined; }
    if (ts.isPropertyAccessExpression(n.parent) && n.parent.name === n) return;
    if (ts.isPropertyAssignment(n.parent) && n.parent.name === n) return;
    if (ts.isBindingElement(n.parent) && n.parent.propertyName === n) return;
    if (ts.isImportSpecifier(n.parent) || ts.isExportSpecifier(n.parent)) return;
    const s = ck.getSymbolAtLocation(n);
    return ok(s) ? `${n.text}_` : undefined;
  },
  lit: (n, T, ctx) => { if (!(ts.isStringLiteral(n) || ts.isNumericLiteral(n)) || !enclosing(n) || ts.isImportDeclaration(n.parent) || ts.isLiteralTypeNode(n.parent) || (ts.isPropertyAssignment(n.parent) && n.parent.name === n) || ts.isModuleDeclaration(n.parent) || ts.isExternalModuleReference(n.parent) || ts.isElementAccessExpression(n.parent) || ts.isEnumMember(n.parent) || ts.isTypeNode(n.parent)) return; const k = `LIT${N++}_`; ctx.top.push(`const ${k} = ${n.getText()} as const;`); return ts.isShorthandPropertyAssignment(n.parent) ? undefined : k; },
  then: (n, T) => { if (!ts.isExpressionStatement(n) || !ts.isAwaitExpression(n.expression)) return; return `{ const pr_ = ${T(n.expression.expression)}; await pr_; }`; },
  concise: (n, T) => ts.isArrowFunction(n) && ts.isBlock(n.body) && n.body.statements.length === 1 && ts.isReturnStatement(n.body.statements[0]) && n.body.statements[0].expression ? `${T(n).slice(0, T(n).length - T(n.body).length)}(${T(n.body.statements[0].expression)})` : undefined,
  optional: (n, T) => ts.isPropertyAccessExpression(n) && n.questionDotToken && simple(n.expression) && !(ts.isCallExpression(n.parent) && n.parent.expression === n) && !ts.isPropertyAccessExpression(n.parent) && !ts.isNonNullExpression(n.parent) && !(ts.isElementAccessExpression(n.parent)) ? `(${T(n.expression)} === undefined || ${T(n.expression)} === null ? undefined : ${T(n.expression)}.${n.name.text})` : undefined,
  fnconst: (n, T) => { if (!ts.isFunctionDeclaration(n) || !n.name || !n.body || n.asteriskToken || n.parent.kind !== ts.SyntaxKind.SourceFile || n.modifiers?.some((m) => m.kind === ts.SyntaxKind.ExportKeyword) || has(n.body, (x) => x.kind === ts.SyntaxKind.ThisKeyword)) return; const t = T(n), i = t.indexOf(n.name.text) + n.name.text.length, b = T(n.body); return `const ${n.name.text} = ${asyncFn(n) ? "async " : ""}${t.slice(i, t.length - b.length).trim()} => ${b};`; },
  cond: (n, T) => { if (!ts.isIfStatement(n) || !ts.isBlock(n.parent) || pure(n.expression)) return; const k = N++; return `const c${k}_ = ${T(n.expression)}; if (c${k}_) ${T(n.thenStatement)}${n.elseStatement ? " else " + T(n.elseStatement) : ""}`; },
  condfn: (n, T) => { if (!ts.isIfStatement(n) || !ts.isBlock(n.parent) || pure(n.expression) || has(n.expression, (x) => ts.isAwaitExpression(x))) return; const k = N++; return `const c${k}_ = (): boolean => !!(${T(n.expression)}); if (c${k}_()) ${T(n.thenStatement)}${n.elseStatement ? " else " + T(n.elseStatement) : ""}`; },
  concat: (n, T) => ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.PlusToken && (ts.isStringLiteral(n.left) || ts.isStringLiteral(n.right)) && !n.getText().includes("`") ? "`${" + T(n.left) + "}${" + T(n.right) + "}`" : undefined,
  tryfin: (n, T) => ts.isTryStatement(n) && n.catchClause && n.finallyBlock ? `try { try ${T(n.tryBlock)} ${T(n.catchClause)} } finally ${T(n.finallyBlock)}` : undefined,
  assign: (n, T) => ts.isObjectLiteralExpression(n) && n.properties.length > 1 && ts.isSpreadAssignment(n.properties[0]) && n.properties.slice(1).every((p) => !ts.isSpreadAssignment(p)) && !ts.isBinaryExpression(n.parent) ? `Object.assign({}, ${T(n.properties[0].expression)}, { ${n.properties.slice(1).map(T).join(", ")} })` : undefined,
  defpar: (n, T) => {
    if (!(ts.isFunctionDeclaration(n) || ts.isArrowFunction(n) || ts.isMethodDeclaration(n)) || !n.body || !ts.isBlock(n.body)) return;
    const ps = n.parameters.filter((p) => p.initializer && ts.isIdentifier(p.name) && !p.modifiers?.length);
    if (!ps.length) return;
    let t = T(n);
    const pre = [];
    for (const p of ps) { const src = T(p), nm = p.name.text; if (t.split(src).length !== 2) return; t = t.replace(src, () => `${nm}In_?: ${p.type ? p.type.getText() : ck.typeToString(ck.getTypeAtLocation(p))}`); pre.push(`const ${nm} = ${nm}In_ === undefined ? ${T(p.initializer)} : ${nm}In_;`); }
    const b = T(n.body); return t.slice(0, t.length - b.length) + "{ " + pre.join(" ") + b.slice(1);
  },
  invert: (n, T) => { // guard clause turned into a block
    if (!ts.isBlock(n) || !n.parent || !isFn(n.parent) || n.parent.body !== n || ts.isConstructorDeclaration(n.parent)) return;
    const i = n.statements.findIndex((s) => ts.isIfStatement(s) && !s.elseStatement && ((ts.isBlock(s.thenStatement) && s.thenStatement.statements.length === 1 && ts.isReturnStatement(s.thenStatement.statements[0]) && !s.thenStatement.statements[0].expression) || (ts.isReturnStatement(s.thenStatement) && !s.thenStatement.expression)));
    if (i < 0) return;
    return `{ ${n.statements.slice(0, i).map(T).join("\n")} if (!(${T(n.statements[i].expression)})) { ${n.statements.slice(i + 1).map(T).join("\n")} } }`;
  },
  elseify: (n, T) => { // what follows a guard clause goes into its else
    if (!ts.isBlock(n) || !n.parent || !isFn(n.parent) || n.parent.body !== n || ts.isConstructorDeclaration(n.parent)) return;
    const exits = (s) => ts.isReturnStatement(s) || ts.isThrowStatement(s) || (ts.isBlock(s) && s.statements.length && exits(s.statements.at(-1)));
    const i = n.statements.findIndex((s) => ts.isIfStatement(s) && !s.elseStatement && exits(s.thenStatement));
    if (i < 0 || i === n.statements.length - 1 || n.statements.slice(i + 1).some(ts.isFunctionDeclaration)) return;
    return `{ ${n.statements.slice(0, i).map(T).join("\n")} if (${T(n.statements[i].expression)}) ${T(n.statements[i].thenStatement)} else { ${n.statements.slice(i + 1).map(T).join("\n")} } }`;
  },
  swap: (n, T) => {
    if (!ts.isBlock(n)) return;
    const st = [...n.statements]; let did = false; const out = [];
    const nm = (s) => ts.isVariableStatement(s) && s.declarationList.flags & ts.NodeFlags.Const && s.declarationList.declarations.length === 1 && ts.isIdentifier(s.declarationList.declarations[0].name) ? s.declarationList.declarations[0].name.text : undefined;
    const calm = (s) => !has(s, (x) => ts.isCallExpression(x) || ts.isNewExpression(x) || ts.isAwaitExpression(x), false);
    for (let i = 0; i < st.length; i++) {
      const a = nm(st[i]), b = st[i + 1] && nm(st[i + 1]);
      if (a && b && (calm(st[i]) || calm(st[i + 1])) && !has(st[i + 1], (x) => ts.isIdentifier(x) && x.text === a, false)) { out.push(T(st[i + 1]), T(st[i])); i++; did = true; } else out.push(T(st[i]));
    }
    return did ? `{ ${out.join("\n")} }` : undefined;
  },
  destruct: (n, T) => {
    if (!(ts.isFunctionDeclaration(n) || ts.isArrowFunction(n) || ts.isMethodDeclaration(n)) || !n.body || !ts.isBlock(n.body)) return;
    const pre = []; let b = T(n.body);
    for (const p of n.parameters) {
      if (!ts.isIdentifier(p.name) || p.questionToken || p.initializer || p.dotDotDotToken) continue;
      const t = ck.getTypeAtLocation(p); if (t.isUnion() || !(t.flags & ts.TypeFlags.Object) || t.flags & ts.TypeFlags.Any) continue;
      const props = new Set(), bad = new Set();
      const w = (x) => { if (ts.isPropertyAccessExpression(x) && ts.isIdentifier(x.expression) && x.expression.text === p.name.text && ck.getSymbolAtLocation(x.expression)?.valueDeclaration === p) { const k = x.name.text; const asg = ts.isBinaryExpression(x.parent) && x.parent.left === x; if (asg || (ts.isCallExpression(x.parent) && x.parent.expression === x) || x.questionDotToken || ts.isDeleteExpression(x.parent) || ts.isPostfixUnaryExpression(x.parent) || x.parent.kind === ts.SyntaxKind.PrefixUnaryExpression) bad.add(k); else props.add(k); } ts.forEachChild(x, w); };
      w(n.body);
      const ok = [...props].filter((k) => !bad.has(k) && /^[a-zA-Z_]\w*$/.test(k));
      if (!ok.length || bad.size) continue;
      const k = N++;
      pre.push(`const { ${ok.map((x) => `${x}: d${k}_${x}`).join(", ")} } = ${p.name.text};`);
      for (const x of ok) b = b.replace(new RegExp(`(?<![\\w.$])${p.name.text}\\.${x}(?![\\w(])`, "g"), () => `d${k}_${x}`);
    }
    if (!pre.length) return;
    const t = T(n), b0 = T(n.body);
    return t.slice(0, t.length - b0.length) + "{ " + pre.join(" ") + b.slice(1);
  },
  whileloop: (n, T) => ts.isForStatement(n) && n.initializer && n.condition && n.incrementor && !has(n.statement, (x) => ts.isContinueStatement(x)) ? `{ ${T(n.initializer)}; while (${T(n.condition)}) { ${T(n.statement)} ${T(n.incrementor)}; } }` : undefined,
  letvar: (n, T) => ts.isVariableDeclarationList(n) && n.flags & ts.NodeFlags.Const && enclosing(n) && !ts.isForOfStatement(n.parent) ? T(n).replace(/^const/, "let") : undefined,
  parens: (n, T) => ts.isReturnStatement(n) && n.expression ? `return (${T(n.expression)});` : undefined,
  objvar: (n, T) => { if (!ts.isReturnStatement(n) || !n.expression || !ts.isObjectLiteralExpression(n.expression) || !n.expression.properties.length || n.expression.properties.some((p) => !ts.isPropertyAssignment(p) || ts.isComputedPropertyName(p.name))) return; return `{ const o_: any = {}; ${n.expression.properties.map((p) => `o_[${ts.isIdentifier(p.name) ? JSON.stringify(p.name.text) : p.name.getText()}] = ${T(p.initializer)};`).join(" ")} return o_; }`; },
  trycatchless: (n) => undefined,
};
let total = 0;
for (const f of names.split(",")) if (!R[f]) throw new Error("no rewrite " + f + " of " + Object.keys(R));
const out = new Map();
for (const sf of sfs) {
  const ctx = { top: [] };
  let cnt = 0;
  const T = (n) => {
    const parts = []; let pos = n.getStart(sf);
    ts.forEachChild(n, (c) => { const s = c.getStart(sf); if (s < pos) return; parts.push(sf.text.slice(pos, s)); parts.push(V(c)); pos = c.getEnd(); });
    parts.push(sf.text.slice(pos, n.getEnd()));
    return parts.join("");
  };
  const V = (n) => {
    // a rewritten node's children are rewritten by V through T
    const r = R[names]?.(n, (x) => (x === n ? T(n) : V(x)), ctx);
    if (r !== undefined) { cnt++; return r; }
    return T(n);
  };
  let text = sf.text.slice(0, sf.getStart(sf)) + T(sf);
  if (!cnt) continue;
  total += cnt;
  if (ctx.top.length) { const imps = sf.statements.filter((s) => ts.isImportDeclaration(s)); let at = 0; if (imps.length) { const last = imps.at(-1).getText(sf); at = text.indexOf(last) + last.length; } text = text.slice(0, at) + "\n" + ctx.top.join("\n") + "\n" + text.slice(at); }
  out.set(sf.fileName, text);
}
for (const [f, t] of out) fs.writeFileSync(f, t);
console.log(names, total, "rewrites in", out.size, "files");
