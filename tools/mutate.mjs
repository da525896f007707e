// Development aid: generic syntactic mutants of one library file, each type-checked, then given to the named checks.
// node tools/mutate.mjs <file under lib/digitraffic-common/src> <ID,ID,...> [--lines a-b] [--only op]
import { ts, LIB, libProgram, withOverlay } from "../engine/index.mjs";
import { Check } from "../checks/kit.mjs";
import { CHECKS } from "../checks/index.mjs";
import { fork } from "node:child_process";
import path from "node:path";
const SK = ts.SyntaxKind;
const [file, idl] = process.argv.slice(2);
const opt = (n) => { const i = process.argv.indexOf(n); return i < 0 ? undefined : process.argv[i + 1]; };
const abs = path.join(LIB, "src", file);
const ids = idl.split(",");
const NW = 7;
function mutants(sf) {
  const out = [];
  const text = sf.text;
  const add = (n, rep, op) => out.push({ s: n.getStart(sf), e: n.getEnd(), rep, op, line: sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1, was: n.getText(sf).slice(0, 60) });
  const T = (n) => n.getText(sf);
  const visit = (n) => {
    if (ts.isImportDeclaration(n) || ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) return;
    if (ts.isExpressionStatement(n)) add(n, ";", "delstmt");
    if (ts.isThrowStatement(n)) add(n, ";", "delthrow");
    if (ts.isAwaitExpression(n)) add(n, T(n.expression), "noawait");
    if (ts.isIfStatement(n)) { add(n.expression, `!(${T(n.expression)})`, "negif"); add(n.expression, `true`, "iftrue"); add(n.expression, `false`, "iffalse"); }
    if (ts.isConditionalExpression(n)) { add(n, T(n.whenTrue), "condT"); add(n, T(n.whenFalse), "condF"); }
    if (ts.isBinaryExpression(n)) {
      const k = n.operatorToken.kind;
      const m = { [SK.AmpersandAmpersandToken]: "||", [SK.BarBarToken]: "&&", [SK.LessThanToken]: "<=", [SK.LessThanEqualsToken]: "<", [SK.GreaterThanToken]: ">=", [SK.GreaterThanEqualsToken]: ">", [SK.EqualsEqualsEqualsToken]: "!==", [SK.ExclamationEqualsEqualsToken]: "===", [SK.PlusToken]: "-", [SK.MinusToken]: "+", [SK.AsteriskToken]: "+", [SK.SlashToken]: "*", [SK.QuestionQuestionToken]: "||" }[k];
      if (m) { add(n.operatorToken, m, "binop"); if (k === SK.AmpersandAmpersandToken || k === SK.BarBarToken || k === SK.QuestionQuestionToken) { add(n, T(n.left), "left"); add(n, T(n.right), "right"); } }
    }
    if (n.kind === SK.TrueKeyword) add(n, "false", "true2false");
    if (n.kind === SK.FalseKeyword) add(n, "true", "false2true");
    if (ts.isNumericLiteral(n)) add(n, String(Number(T(n)) + 1), "num+1");
    if (ts.isStringLiteral(n) || n.kind === SK.NoSubstitutionTemplateLiteral) add(n, '"mut"', "str");
    if (ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n) || ts.isSpreadAssignment(n)) { const o = n.parent.properties; const i = o.indexOf(n); out.push({ s: n.getStart(sf), e: i < o.length - 1 ? o[i + 1].getStart(sf) : n.getEnd(), rep: "", op: "delprop", line: sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1, was: T(n).slice(0, 60) }); }
    if (ts.isPrefixUnaryExpression(n) && n.operator === SK.ExclamationToken) add(n, T(n.operand), "nonot");
    if (ts.isReturnStatement(n) && n.expression) add(n, "return undefined as never;", "retundef");
    if (ts.isCallExpression(n) && n.arguments.length >= 2) { const [a, b] = n.arguments; out.push({ s: a.getStart(sf), e: b.getEnd(), rep: `${T(b)}, ${T(a)}`, op: "swapargs", line: sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1, was: T(n).slice(0, 60) }); }
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) add(n, T(n.expression.expression), "dropcall");
    if (ts.isPropertyAccessExpression(n) && ts.isIdentifier(n.expression) && ts.isIdentifier(n.name)) {
      const s = ck.getSymbolAtLocation(n.expression);
      if (s && s.flags & ts.SymbolFlags.Enum || (s && s.flags & ts.SymbolFlags.Alias && ck.getAliasedSymbol(s).flags & ts.SymbolFlags.Enum)) {
        const t = ck.getExportsOfModule(s.flags & ts.SymbolFlags.Alias ? ck.getAliasedSymbol(s) : s).find((m) => m.name !== n.name.text);
        if (t) add(n.name, t.name, "enum");
      }
    }
    if (ts.isBlock(n) && n.parent && ts.isTryStatement(n.parent) && n.parent.finallyBlock === n) add(n, "{}", "delfinally");
    ts.forEachChild(n, visit);
  };
  const ck = libProgram().checker;
  visit(sf);
  const ln = opt("--lines")?.split("-").map(Number);
  return out.filter((m) => (!ln || (m.line >= ln[0] && m.line <= ln[1])) && (!opt("--only") || m.op === opt("--only")));
}
const w = opt("--worker");
if (w === undefined) {
  const kids = []; const res = []; let left = NW;
  for (let i = 0; i < NW; i++) {
    const k = fork(process.argv[1], [...process.argv.slice(2), "--worker", String(i)], { stdio: ["ignore", "ignore", "inherit", "ipc"], execArgv: ["--max-old-space-size=4000"] });
    k.on("message", (m) => res.push(m));
    k.on("exit", () => { if (--left === 0) report(); });
    kids.push(k);
  }
  const report = () => {
    const c = (x) => res.filter((r) => r.st === x).length;
    console.log(`${file}: ${res.length} mutants; ${c("nocompile")} do not compile; ${c("killed")} caught; ${c("survived")} survive; ${c("error")} error`);
    for (const r of res.filter((r) => r.st === "survived" || r.st === "error").sort((a, b) => a.line - b.line)) console.log(`  ${r.st[0]} L${r.line} ${r.op}: ${r.was.replace(/\s+/g, " ")} -> ${r.rep.slice(0, 30).replace(/\s+/g, " ")}${r.err ? " " + r.err : ""}`);
    if (process.argv.includes("--killed")) for (const r of res.filter((r) => r.st === "killed").sort((a, b) => a.line - b.line)) console.log(`  k L${r.line} ${r.op}: ${r.was.replace(/\s+/g, " ")} [${r.by}]`);
  };
} else {
  const base = libProgram();
  const sf = base.program.getSourceFile(abs);
  const ms = mutants(sf).filter((_, i) => i % NW === Number(w));
  if (w === "0") for (const id of ids) { const C = new Check(id); CHECKS[id].run(C); if (C.violations().length) console.log("BASELINE FAILS", id, C.violations()[0].msg); }
  for (const m of ms) {
    const text = sf.text.slice(0, m.s) + m.rep + sf.text.slice(m.e);
    const r = { ...m };
    try {
      withOverlay({ [abs]: text }, (p) => {
        const f = p.program.getSourceFile(abs);
        if (p.program.getSyntacticDiagnostics(f).length || p.program.getSemanticDiagnostics(f).length) { r.st = "nocompile"; return; }
        r.st = "survived";
        for (const id of ids) {
          const C = new Check(id);
          try { CHECKS[id].run(C); } catch (e) { C.ob("anchor", false, "", e.message); if (!/ANCHOR/.test(e.message)) r.err = String(e.stack).slice(0, 300); }
          const v = C.violations();
          if (v.length) { r.st = r.err ? "error" : "killed"; r.by = id + ":" + v[0].rule; break; }
        }
      });
    } catch (e) { r.st = "error"; r.err = String(e.stack).slice(0, 300); }
    process.send(r);
  }
  process.disconnect();
}
