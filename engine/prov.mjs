// Demand-driven, interprocedural provenance of text: which constant texts can an expression be, or which construct brings in run-time data.
// Works on the type-checked syntax of a whole program: local variables, assignments, parameters (through every call site), returns, destructuring, imports.
import { ts } from "./program.mjs";
export const NUM = "\uE000"; // a number computed at run time
export const ENV = "\uE002"; // a deployment setting (environment variable)
export const API = "\uE003"; // a parameter of a library function that nothing in the repository calls
export const REP = "\uE001"; // a repetition of constant parts

const unwrap = (e) => { while (e && (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isSatisfiesExpression?.(e) || ts.isNonNullExpression(e) || ts.isTypeAssertionExpression?.(e))) e = e.expression; return e; };
export { unwrap };

export class Prov {
  constructor(P) { this.P = P; this.ck = P.checker; this.visited = 0; }
  // every reference to each declaration in the analysed files (built once)
  index() {
    if (this.idx) return this.idx;
    this.idx = new Map();
    for (const f of this.P.files) {
      const sf = this.P.program.getSourceFile(f);
      const visit = (n) => {
        if (ts.isIdentifier(n)) {
          const s = this.sym(n);
          const d = s?.valueDeclaration ?? s?.declarations?.[0];
          if (d && d.name !== n) { let l = this.idx.get(d); if (!l) this.idx.set(d, (l = [])); l.push(n); }
        }
        ts.forEachChild(n, visit);
      };
      visit(sf);
    }
    return this.idx;
  }
  refs(d) { return this.index().get(d) ?? []; }
  // a variable that keeps its first value: constant, or never assigned again
  isFixed(d) {
    if (d.parent.flags & ts.NodeFlags.Const) return true;
    return !!d.initializer && !this.refs(d).some((w) => { const p = w.parent; return (ts.isBinaryExpression(p) && p.left === w && p.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && p.operatorToken.kind <= ts.SyntaxKind.LastAssignment) || ((ts.isPrefixUnaryExpression(p) || ts.isPostfixUnaryExpression(p)) && [ts.SyntaxKind.PlusPlusToken, ts.SyntaxKind.MinusMinusToken].includes(p.operator)) || (ts.isForOfStatement(p) && p.initializer === w); });
  }
  sym(n) {
    let s;
    if (n.parent && ts.isShorthandPropertyAssignment(n.parent) && n.parent.name === n) s = this.ck.getShorthandAssignmentValueSymbol(n.parent);
    else s = this.ck.getSymbolAtLocation(n);
    while (s && s.flags & ts.SymbolFlags.Alias) { const t = this.ck.getAliasedSymbol(s); if (t === s || !t.declarations) break; s = t; }
    return s;
  }
  decl(n) { const s = this.sym(n); return s?.valueDeclaration ?? s?.declarations?.[0]; }
  // the function a call reaches, when it is written in the analysed files
  callee(call) {
    const sig = this.ck.getResolvedSignature(call);
    let d = sig?.declaration;
    if (d && (ts.isFunctionLike(d)) && d.body) return d;
    const e = unwrap(call.expression);
    const id = ts.isIdentifier(e) ? e : ts.isPropertyAccessExpression(e) ? e.name : undefined;
    d = id && this.decl(id);
    if (d && ts.isFunctionLike(d) && d.body) return d;
    if (d && ts.isVariableDeclaration(d) && d.initializer) { const i = unwrap(d.initializer); if (ts.isArrowFunction(i) || ts.isFunctionExpression(i)) return i; }
    if (d && ts.isPropertyAssignment(d)) { const i = unwrap(d.initializer); if (ts.isArrowFunction(i) || ts.isFunctionExpression(i)) return i; }
    if (ts.isArrowFunction(e) || ts.isFunctionExpression(e)) return e;
    return undefined;
  }
  // arguments given to a function: {sites: [call], escapes: [node]}
  sites(fn) {
    this.sc ??= new Map();
    if (this.sc.has(fn)) return this.sc.get(fn);
    const r = { sites: [], escapes: [] };
    this.sc.set(fn, r);
    let holder = fn;
    if (fn.kind !== ts.SyntaxKind.Constructor && (!fn.name || ts.isArrowFunction(fn) || ts.isFunctionExpression(fn))) {
      let p = fn.parent, c = fn;
      while (p && (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isSatisfiesExpression?.(p))) { c = p; p = p.parent; }
      if (p && (ts.isVariableDeclaration(p) || ts.isPropertyAssignment(p) || ts.isPropertyDeclaration(p)) && p.initializer === c) holder = p;
      else if (p && ts.isCallExpression(p) && p.expression === c) { r.sites.push(p); return r; }
      else { r.escapes.push(fn); return r; }
    }
    const list = fn.kind === ts.SyntaxKind.Constructor ? this.refs(fn.parent) : this.refs(holder);
    for (const id of list) {
      let e = id;
      if (e.parent && ts.isPropertyAccessExpression(e.parent) && e.parent.name === e) e = e.parent;
      while (e.parent && (ts.isParenthesizedExpression(e.parent) || ts.isNonNullExpression(e.parent) || ts.isAsExpression(e.parent) || ts.isExpressionWithTypeArguments(e.parent))) e = e.parent;
      const p = e.parent;
      if (p && ts.isHeritageClause(p)) {
        const cls = p.parent, k = cls.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
        if (k) { const v = (n) => { if (ts.isCallExpression(n) && n.expression.kind === ts.SyntaxKind.SuperKeyword) r.sites.push(n); ts.forEachChild(n, v); }; v(k.body); }
        else { const y = this.sites({ kind: ts.SyntaxKind.Constructor, parent: cls, name: cls.name, of: cls }); r.sites.push(...y.sites); r.escapes.push(...y.escapes); }
        continue;
      }
      if (p && (ts.isCallExpression(p) || ts.isNewExpression(p)) && p.expression === e) r.sites.push(p);
      else if (ts.isImportSpecifier(p) || ts.isExportSpecifier(p) || ts.isImportClause(p) || ts.isTypeQueryNode(p) || ts.isTypeReferenceNode(p) || ts.isTypeNode(p)) continue;
      else r.escapes.push(e);
    }
    return r;
  }
  // -> {texts:Set<string>, bad:[{node,why}]}
  texts(e, seen = new Set()) {
    this.visited++;
    const out = { texts: new Set(), bad: [] };
    const merge = (r) => { r.texts.forEach((t) => out.texts.add(t)); out.bad.push(...r.bad); return out; };
    const bad = (n, why) => { out.bad.push({ node: n, why }); return out; };
    e = unwrap(e);
    if (!e) return bad(e, "missing text");
    if (ts.isStringLiteralLike(e)) { out.texts.add(e.text); return out; }
    if (ts.isNumericLiteral(e)) { out.texts.add(e.text); return out; }
    if (e.kind === ts.SyntaxKind.TrueKeyword || e.kind === ts.SyntaxKind.FalseKeyword) { out.texts.add(e.getText()); return out; }
    if (e.kind === ts.SyntaxKind.UndefinedKeyword || (ts.isIdentifier(e) && e.text === "undefined") || e.kind === ts.SyntaxKind.NullKeyword) { out.texts.add(""); return out; }
    if (seen.has(e)) return out;
    seen = new Set(seen).add(e);
    const cross = (a, b) => {
      const r = { texts: new Set(), bad: [...a.bad, ...b.bad] };
      for (const x of a.texts) for (const y of b.texts) { if (r.texts.size < 256) r.texts.add(x + y); else r.bad.push({ node: e, why: "too many texts" }); }
      return r;
    };
    if (ts.isTemplateExpression(e)) {
      let acc = { texts: new Set([e.head.text]), bad: [] };
      for (const s of e.templateSpans) { acc = cross(acc, this.texts(s.expression, seen)); acc = cross(acc, { texts: new Set([s.literal.text]), bad: [] }); }
      return acc;
    }
    if (ts.isBinaryExpression(e)) {
      const k = e.operatorToken.kind;
      if (k === ts.SyntaxKind.PlusToken && !this.isNum(e)) return cross(this.texts(e.left, seen), this.texts(e.right, seen));
      if (k === ts.SyntaxKind.QuestionQuestionToken || k === ts.SyntaxKind.BarBarToken || k === ts.SyntaxKind.AmpersandAmpersandToken) { merge(this.texts(e.left, seen)); return merge(this.texts(e.right, seen)); }
      if (k === ts.SyntaxKind.EqualsToken) return this.texts(e.right, seen);
      if (this.isNum(e)) { out.texts.add(NUM); return out; }
    }
    if (ts.isConditionalExpression(e)) { merge(this.texts(e.whenTrue, seen)); return merge(this.texts(e.whenFalse, seen)); }
    if (ts.isAwaitExpression(e)) return this.texts(e.expression, seen);
    if (ts.isPrefixUnaryExpression(e) || ts.isPostfixUnaryExpression(e)) { if (this.isNum(e)) { out.texts.add(NUM); return out; } }
    if (ts.isTypeOfExpression(e)) { out.texts.add("object"); return out; }
    if (ts.isCallExpression(e)) return this.callTexts(e, seen, out, merge, bad, cross);
    if (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) {
      if (/^process\.env\b/.test(e.expression.getText())) { out.texts.add(ENV); return out; }
      if (ts.isPropertyAccessExpression(e) && e.name.text === "length" && this.isNum(e)) { out.texts.add(NUM); return out; }
      const objs = this.objects(e.expression, seen);
      if (objs) {
        const names = ts.isPropertyAccessExpression(e) ? [e.name.text] : [...this.texts(e.argumentExpression, seen).texts];
        let ok = names.length > 0 || ts.isElementAccessExpression(e);
        for (const o of objs) {
          if (ts.isArrayLiteralExpression(o)) { for (const x of o.elements) { if (ts.isSpreadElement(x)) ok = false; else merge(this.texts(x, seen)); } continue; }
          const dyn = ts.isElementAccessExpression(e) && this.texts(e.argumentExpression, seen).bad.length > 0;
          for (const p of o.properties) {
            if (!ts.isPropertyAssignment(p) && !ts.isShorthandPropertyAssignment(p)) { ok = false; continue; }
            if (dyn || names.includes(p.name.text)) merge(this.texts(ts.isPropertyAssignment(p) ? p.initializer : p.name, seen));
          }
        }
        if (ok) return out;
      }
      const d = this.decl(ts.isPropertyAccessExpression(e) ? e.name : e.argumentExpression);
      if (ts.isPropertyAccessExpression(e) && d) {
        if (ts.isEnumMember(d)) { const v = this.ck.getConstantValue(d); out.texts.add(String(v)); return out; }
        if (ts.isPropertyDeclaration(d) || (ts.isParameter(d) && ts.isParameterPropertyDeclaration(d, d.parent))) {
          let any = false;
          if (ts.isParameter(d)) { any = true; merge(this.fromDecl(d, e, seen, (x) => x, (n, why) => ({ texts: new Set(), bad: [{ node: n, why }] }))); }
          else if (d.initializer) { any = true; merge(this.texts(d.initializer, seen)); }
          for (const w of this.refs(d)) {
            let x = w; if (ts.isPropertyAccessExpression(x.parent) && x.parent.name === x) x = x.parent;
            const p = x.parent;
            if (ts.isBinaryExpression(p) && p.left === x && p.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && p.operatorToken.kind <= ts.SyntaxKind.LastAssignment) { any = true; merge(this.texts(p.right, seen)); }
          }
          if (any) return out;
        }
        if (this.parsed(e)) {
          const t = this.ck.getTypeAtLocation(e), us = (t.isUnion() ? t.types : [t]).filter((u) => !(u.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null)));
          if (us.every((u) => u.flags & (ts.TypeFlags.StringLiteral | ts.TypeFlags.EnumLiteral))) { for (const u of us) out.texts.add(String(u.value)); return out; }
          if (us.every((u) => u.flags & ts.TypeFlags.NumberLike)) { out.texts.add(NUM); return out; }
        }
        if (ts.isVariableDeclaration(d)) return this.fromDecl(d, e, seen, merge, bad); // namespace import member
      }
      return bad(e, `\`${short(e)}\` is data`);
    }
    if (ts.isIdentifier(e)) {
      const d = this.decl(e);
      if (!d) return bad(e, `\`${e.text}\` cannot be resolved`);
      return this.fromDecl(d, e, seen, merge, bad);
    }
    return bad(e, `\`${short(e)}\` is not constant text`);
  }
  // a property of an object that a schema validated at run time: its declared type is checked, not assumed
  parsed(e) {
    const d = ts.isIdentifier(e.expression) && this.decl(e.expression);
    const i = d && ts.isVariableDeclaration(d) && d.initializer && unwrap(ts.isAwaitExpression(unwrap(d.initializer)) ? unwrap(d.initializer).expression : d.initializer);
    if (!i || !ts.isCallExpression(i) || !ts.isPropertyAccessExpression(i.expression) || !/^(parse|parseAsync)$/.test(i.expression.name.text)) return false;
    const f = this.ck.getSymbolAtLocation(i.expression.name)?.declarations?.[0]?.getSourceFile().fileName ?? "";
    return /\/zod\//.test(f);
  }
  isNum(e) { const t = this.ck.getTypeAtLocation(e); return !!(t.flags & ts.TypeFlags.NumberLike); }
  fromDecl(d, e, seen, merge, bad) {
    if (ts.isEnumMember(d)) return merge({ texts: new Set([String(this.ck.getConstantValue(d))]), bad: [] });
    if (ts.isVariableDeclaration(d)) {
      if (!d.initializer && ts.isForOfStatement(d.parent.parent)) return merge(this.elems(d.parent.parent.expression, seen) ?? { texts: new Set(), bad: [{ node: e, why: `\`${short(e)}\` iterates over data` }] });
      let r;
      if (d.initializer) r = merge(this.texts(d.initializer, seen));
      if (!(d.parent.flags & ts.NodeFlags.Const)) for (const w of this.refs(d)) {
        const p = w.parent;
        if (ts.isBinaryExpression(p) && p.left === w && p.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && p.operatorToken.kind <= ts.SyntaxKind.LastAssignment) r = merge(this.texts(p.right, seen));
      }
      return r ?? bad(e, `\`${short(e)}\` has no analysable value`);
    }
    if (ts.isParameter(d)) {
      const fn = d.parent, i = fn.parameters.indexOf(d);
      const { sites, escapes } = this.sites(fn);
      let r;
      for (const c of sites) {
        const a = (c.arguments ?? [])[i];
        if ((c.arguments ?? []).some((x, j) => j <= i && ts.isSpreadElement(x))) r = bad(c, "arguments are spread");
        else if (a) r = merge(this.texts(a, seen));
        else if (d.initializer) r = merge(this.texts(d.initializer, seen));
        else r = merge({ texts: new Set([""]), bad: [] });
      }
      for (const x of escapes) {
        // callback of an array method: element or index
        let p = x.parent, c = x;
        while (p && (ts.isParenthesizedExpression(p))) { c = p; p = p.parent; }
        if (p && ts.isCallExpression(p) && p.arguments[0] === c && ts.isPropertyAccessExpression(p.expression) && /^(map|forEach|filter|flatMap|some|every|find)$/.test(p.expression.name.text)) {
          if (i === 1) { r = merge({ texts: new Set([NUM]), bad: [] }); continue; }
          if (i === 0) { const el = this.elems(p.expression.expression, seen); r = el ? merge(el) : bad(e, `\`${short(e)}\` is an element of data`); continue; }
        }
        r = bad(e, `\`${short(e)}\` is a parameter whose values are not known`);
      }
      if (!r && /\/lib\/digitraffic-common\//.test(fn.getSourceFile().fileName)) return merge({ texts: new Set([API]), bad: [] });
      return r ?? bad(e, `\`${short(e)}\` is a parameter of a function without known callers`);
    }
    if (ts.isBindingElement(d)) {
      const pat = d.parent;
      const key = d.propertyName ? d.propertyName.text : ts.isIdentifier(d.name) ? d.name.text : undefined;
      const vd = pat.parent;
      if (ts.isVariableDeclaration(vd) && vd.initializer) {
        const objs = this.objects(vd.initializer, seen);
        if (objs) { let r; for (const o of objs) { if (ts.isArrayLiteralExpression(o)) { const x = o.elements[pat.elements.indexOf(d)]; if (x) r = merge(this.texts(x, seen)); } else for (const p of o.properties) if (p.name?.text === key) r = merge(this.texts(ts.isPropertyAssignment(p) ? p.initializer : p.name, seen)); } if (r) return r; }
      }
      return bad(e, `\`${short(e)}\` is taken apart from data`);
    }
    return bad(e, `\`${short(e)}\` is not constant text`);
  }
  // object/array literals an expression can be; undefined when unknown
  objects(e, seen) {
    e = unwrap(e);
    if (ts.isObjectLiteralExpression(e) || ts.isArrayLiteralExpression(e)) return [e];
    if (ts.isConditionalExpression(e)) { const a = this.objects(e.whenTrue, seen), b = this.objects(e.whenFalse, seen); return a && b && [...a, ...b]; }
    if (ts.isCallExpression(e) && /^Object\.(freeze|values|keys)$/.test(e.expression.getText())) return /freeze/.test(e.expression.getText()) ? this.objects(e.arguments[0], seen) : undefined;
    if (ts.isIdentifier(e) || ts.isPropertyAccessExpression(e)) {
      const d = this.decl(ts.isIdentifier(e) ? e : e.name);
      if (d && ts.isVariableDeclaration(d) && d.initializer && this.isFixed(d)) return this.objects(d.initializer, seen);
      if (d && ts.isPropertyDeclaration(d) && d.initializer && (d.modifiers ?? []).some((m) => m.kind === ts.SyntaxKind.ReadonlyKeyword)) return this.objects(d.initializer, seen);
      if (d && ts.isPropertyAssignment(d)) return this.objects(d.initializer, seen);
    }
    return undefined;
  }
  // texts of the elements of an array expression; undefined when they are data
  elems(e, seen) {
    e = unwrap(e);
    const all = (xs) => { const r = { texts: new Set(), bad: [] }; for (const x of xs) { const y = ts.isSpreadElement(x) ? this.elems(x.expression, seen) ?? { texts: [], bad: [{ node: x, why: "spreads data" }] } : this.texts(x, seen); y.texts.forEach((t) => r.texts.add(t)); r.bad.push(...y.bad); } return r; };
    const objs = this.objects(e, seen);
    if (objs && objs.every((o) => ts.isArrayLiteralExpression(o))) return all(objs.flatMap((o) => [...o.elements]));
    if (ts.isCallExpression(e)) {
      const t = e.expression.getText();
      if (t === "Object.values" || t === "Object.keys") {
        const os = this.objects(e.arguments[0], seen);
        if (os) { const r = { texts: new Set(), bad: [] }; for (const o of os) for (const p of o.properties ?? []) { if (!ts.isPropertyAssignment(p)) return undefined; if (t === "Object.keys") r.texts.add(p.name.text); else { const y = this.texts(p.initializer, seen); y.texts.forEach((x) => r.texts.add(x)); r.bad.push(...y.bad); } } return r; }
        const d = this.decl(e.arguments[0]);
        if (d && ts.isEnumDeclaration(d)) return { texts: new Set(d.members.map((m) => String(this.ck.getConstantValue(m)))), bad: [] };
        return undefined;
      }
      if (ts.isPropertyAccessExpression(e.expression)) {
        const m = e.expression.name.text;
        if (/^(map|flatMap)$/.test(m)) { const f = e.arguments[0] && unwrap(e.arguments[0]); if (f && (ts.isArrowFunction(f) || ts.isFunctionExpression(f))) return this.returns(f, seen); }
        if (/^(filter|slice|reverse|sort|concat|toSorted)$/.test(m)) return this.elems(e.expression.expression, seen);
        if (m === "fill") return this.texts(e.arguments[0], seen);
      }
    }
    if (ts.isIdentifier(e)) {
      const d = this.decl(e);
      if (d && ts.isVariableDeclaration(d) && d.initializer && this.isFixed(d)) {
        const r = this.elems(d.initializer, seen); if (!r) return undefined;
        for (const w of this.refs(d)) { const p = w.parent; if (ts.isPropertyAccessExpression(p) && p.expression === w && /^(push|unshift)$/.test(p.name.text) && ts.isCallExpression(p.parent)) { const y = all(p.parent.arguments); y.texts.forEach((t) => r.texts.add(t)); r.bad.push(...y.bad); } }
        return r;
      }
    }
    return undefined;
  }
  returns(fn, seen) {
    const r = { texts: new Set(), bad: [] };
    const add = (e) => { const y = this.texts(e, seen); y.texts.forEach((t) => r.texts.add(t)); r.bad.push(...y.bad); };
    if (!ts.isBlock(fn.body)) { add(fn.body); return r; }
    const visit = (n) => { if (ts.isFunctionLike(n)) return; if (ts.isReturnStatement(n)) { if (n.expression) add(n.expression); else r.texts.add(""); } ts.forEachChild(n, visit); };
    visit(fn.body);
    return r;
  }
  callTexts(e, seen, out, merge, bad, cross) {
    if (this.isNum(e)) { out.texts.add(NUM); return out; }
    const f = this.callee(e);
    if (f && ts.isFunctionDeclaration(f) && /^getEnvVariable/.test(f.name?.text ?? "") && /digitraffic-common/.test(f.getSourceFile().fileName)) { out.texts.add(ENV); return out; }
    if (f) return merge(this.returns(f, seen));
    const x = unwrap(e.expression);
    if (ts.isPropertyAccessExpression(x)) {
      const m = x.name.text;
      if (/^(trim|trimStart|trimEnd|toLowerCase|toUpperCase|toString|valueOf|normalize)$/.test(m)) {
        const r = this.texts(x.expression, seen);
        return { texts: new Set([...r.texts].map((t) => (/^(trim|toLower|toUpper)/.test(m) ? t[m]() : t))), bad: r.bad };
      }
      if (/^(replace|replaceAll)$/.test(m) && e.arguments.length === 2) {
        const a = this.texts(x.expression, seen), b = this.texts(e.arguments[1], seen);
        return { texts: a.texts, bad: [...a.bad, ...b.bad] };
      }
      if (/^(concat)$/.test(m)) { let acc = this.texts(x.expression, seen); for (const a of e.arguments) acc = cross(acc, this.texts(a, seen)); return acc; }
      if (/^(repeat|slice|substring|padStart|padEnd)$/.test(m)) { const r = this.texts(x.expression, seen); return { texts: new Set([...r.texts].map(() => REP)), bad: r.bad }; }
      if (m === "join") { const el = this.elems(x.expression, seen); const sep = e.arguments[0] ? this.texts(e.arguments[0], seen) : { texts: new Set([","]), bad: [] }; if (el) return { texts: new Set([REP]), bad: [...el.bad, ...sep.bad] }; }
      if (x.expression.getText() === "String" || x.getText() === "String.raw") return bad(e, `\`${short(e)}\``);
    }
    if (ts.isIdentifier(x) && x.text === "String" && e.arguments.length === 1) return this.texts(e.arguments[0], seen);
    return bad(e, `\`${short(e)}\` is the result of a call on data`);
  }
}
export const short = (n, k = 60) => { const t = n.getText().replace(/\s+/g, " "); return t.length > k ? t.slice(0, k) + "…" : t; };
