// Expressions, property access, object construction.
import { Interp } from "./interp.mjs";
import { loc, rel, ts } from "./program.mjs";
const SK = ts.SyntaxKind;
const isChain = (n) => !!(n.flags & ts.NodeFlags.OptionalChain);

Object.assign(Interp.prototype, {
  ev(n, env) {
    if (isChain(n) && !(n.parent && isChain(n.parent) && n.parent.expression === n)) {
      // outermost node of an optional chain
      const fr = { dead: 0 };
      this.chain.push(fr);
      const v = this.ev0(n, env);
      this.chain.pop();
      if (fr.dead === 0) return v;
      const live = this.pc;
      this.pc = this.bdd.or(live, fr.dead);
      return this.at(this.ite(fr.dead, this.UNDEF, v));
    }
    return this.ev0(n, env);
  },
  chainBase(n, v) {
    if (!n.questionDotToken) return v;
    const g = this.bdd.and(this.pc, this.nullish(v));
    if (g === 0) return v;
    const fr = this.chain[this.chain.length - 1];
    if (fr) fr.dead = this.bdd.or(fr.dead, g);
    this.pc = this.bdd.and(this.pc, this.bdd.not(g));
    return this.at(v);
  },
  ev0(n, env) {
    switch (n.kind) {
      case SK.Identifier: return this.idValue(n, env);
      case SK.StringLiteral: case SK.NoSubstitutionTemplateLiteral: return this.c(n.text);
      case SK.NumericLiteral: return this.c(Number(n.text));
      case SK.BigIntLiteral: return this.c(BigInt(n.text.replace(/n$/, "")));
      case SK.TrueKeyword: return this.TRUE;
      case SK.FalseKeyword: return this.FALSE;
      case SK.NullKeyword: return this.NULL;
      case SK.ThisKeyword: return env.thisVal ? this.at(env.thisVal) : this.UNDEF;
      case SK.SuperKeyword: return env.thisVal;
      case SK.ParenthesizedExpression: case SK.AsExpression: case SK.SatisfiesExpression: case SK.TypeAssertionExpression: case SK.NonNullExpression: return this.ev(n.expression, env);
      case SK.TemplateExpression: {
        const parts = [this.c(n.head.text)];
        for (const s of n.templateSpans) {
          parts.push(this.ev(s.expression, env));
          parts.push(this.c(s.literal.text));
        }
        return this.concat(parts);
      }
      case SK.RegularExpressionLiteral: {
        const m = /^\/(.*)\/([a-z]*)$/s.exec(n.text);
        return this.s("regex", [m[1], m[2]]);
      }
      case SK.ArrayLiteralExpression: {
        const r = this.alloc("array");
        for (const e of n.elements) {
          if (ts.isSpreadElement(e)) this.spreadInto(r, this.ev(e.expression, env));
          else this.pushItem(r, { v: ts.isOmittedExpression(e) ? this.UNDEF : this.ev(e, env) });
        }
        return r.val;
      }
      case SK.ObjectLiteralExpression: return this.objLit(n, env);
      case SK.ArrowFunction: case SK.FunctionExpression: return this.one(this.fnLeaf(n, env, undefined, env.home));
      case SK.ClassExpression: return this.one(this.classLeaf(n, env));
      case SK.PropertyAccessExpression: return this.propAccess(n, env);
      case SK.ElementAccessExpression: {
        const cv = this.checker.getConstantValue(n);
        if (cv !== undefined) return this.c(cv);
        const b = this.chainBase(n, this.ev(n.expression, env));
        if (this.pc === 0) return this.UNDEF;
        const k = this.ev(n.argumentExpression, env);
        return this.getProp(b, k, n, this.propTy(n));
      }
      case SK.CallExpression: return this.callExpr(n, env);
      case SK.NewExpression: {
        const cv = this.ev(n.expression, env);
        const args = this.evArgs(n.arguments ?? [], env);
        return this.over(cv, (l) => this.construct(l, args, n));
      }
      case SK.AwaitExpression: {
        const v = this.ev(n.expression, env);
        if (this.pc === 0) return this.UNDEF;
        if (this.opts.shared !== false) this.otherWork();
        return this.over(v, (l) => this.awaitLeaf(l, n));
      }
      case SK.VoidExpression: this.ev(n.expression, env); return this.UNDEF;
      case SK.TypeOfExpression: return this.lift([this.ev(n.expression, env)], (l) => this.typeofLeaf(l)) ?? this.s("typeof", [this.ev(n.expression, env)]);
      case SK.DeleteExpression: {
        const t = n.expression;
        const b = this.ev(t.expression, env);
        const k = ts.isPropertyAccessExpression(t) ? this.c(t.name.text) : this.ev(t.argumentExpression, env);
        this.deleteProp(b, k, n);
        return this.TRUE;
      }
      case SK.PrefixUnaryExpression: return this.prefix(n, env);
      case SK.PostfixUnaryExpression: {
        const old = this.ev(n.operand, env);
        const nv = this.arith(n.operator === SK.PlusPlusToken ? "+" : "-", old, this.c(1));
        this.assignTo(n.operand, nv, env);
        return old;
      }
      case SK.BinaryExpression: return this.binary(n, env);
      case SK.ConditionalExpression: {
        const c = this.truth(this.ev(n.condition, env));
        const pc0 = this.pc;
        this.pc = this.bdd.and(pc0, c);
        const a = this.pc ? this.ev(n.whenTrue, env) : this.UNDEF;
        const p1 = this.pc;
        this.pc = this.bdd.and(pc0, this.bdd.not(c));
        const b = this.pc ? this.ev(n.whenFalse, env) : this.UNDEF;
        const p2 = this.pc;
        this.pc = this.bdd.or(p1, p2);
        return this.at(this.ite(c, a, b));
      }
      case SK.TaggedTemplateExpression: {
        const f = this.ev(n.tag, env);
        const parts = [];
        if (ts.isTemplateExpression(n.template)) for (const s of n.template.templateSpans) parts.push(this.ev(s.expression, env));
        return this.call(f, this.UNDEF, [this.c(n.template.getText()), ...parts], n);
      }
      case SK.MetaProperty: return this.s("meta", [n.getText()]);
      case SK.SpreadElement: return this.ev(n.expression, env);
      case SK.ExpressionWithTypeArguments: return this.ev(n.expression, env);
      case SK.YieldExpression: this.warn(n, "expr"); if (n.expression) this.ev(n.expression, env); return this.s("yield", [loc(n)]);
      case SK.ImportKeyword: return this.s("import", []);
      default:
        this.warn(n, "expr");
        return this.s("unknown", [loc(n)]);
    }
  },
  evArgs(list, env) {
    const out = [];
    for (const a of list) {
      if (this.pc === 0) break;
      if (ts.isSpreadElement(a)) {
        const v = this.ev(a.expression, env);
        const l = this.single(v);
        if (l && l.t === "o" && l.rec.kind === "array" && l.rec.items.every((i) => i.g === 1 && !i.each && !i.spread)) for (const i of l.rec.items) out.push(i.v);
        else out.push({ spread: v });
      } else out.push(this.ev(a, env));
    }
    return out;
  },
  typeofLeaf(l) {
    if (l.t === "c") return this.c(l.v === null ? "object" : typeof l.v);
    if (l.t === "f" || l.t === "k") return this.c("function");
    if (l.t === "o") return this.c("object");
    if (l.t === "s" && (l.op === "concat" || l.op === "json" || l.op === "str")) return this.c("string");
    return this.s("typeof", [this.one(l)]);
  },
  // ------------------------------------------------------------ operators
  prefix(n, env) {
    switch (n.operator) {
      case SK.ExclamationToken: return this.bool(this.bdd.not(this.truth(this.ev(n.operand, env))));
      case SK.MinusToken: {
        const v = this.ev(n.operand, env);
        return this.lift([v], (l) => (l.t === "c" && typeof l.v === "number" ? this.c(-l.v) : this.arithLeaf("-", this.cl(0), l))) ?? this.s("neg", [v]);
      }
      case SK.PlusToken: { const v = this.ev(n.operand, env); return this.lift([v], (l) => (l.t === "c" ? this.c(Number(l.v)) : this.s("Number", [this.one(l)]))) ?? v; }
      case SK.TildeToken: return this.s("~", [this.ev(n.operand, env)]);
      case SK.PlusPlusToken: case SK.MinusMinusToken: {
        const nv = this.arith(n.operator === SK.PlusPlusToken ? "+" : "-", this.ev(n.operand, env), this.c(1));
        this.assignTo(n.operand, nv, env);
        return nv;
      }
    }
    return this.s("prefix", [n.operator]);
  },
  shortCircuit(take, left, rightF) { // value = take ? right : left
    const pc0 = this.pc;
    this.pc = this.bdd.and(pc0, take);
    let r = this.UNDEF;
    if (this.pc !== 0) r = rightF();
    const p1 = this.pc;
    this.pc = this.bdd.or(p1, this.bdd.and(pc0, this.bdd.not(take)));
    return this.at(this.ite(take, r, left));
  },
  binary(n, env) {
    const op = n.operatorToken.kind;
    switch (op) {
      case SK.AmpersandAmpersandToken: { const l = this.ev(n.left, env); if (this.pc === 0) return l; return this.shortCircuit(this.truth(l), l, () => this.ev(n.right, env)); }
      case SK.BarBarToken: { const l = this.ev(n.left, env); if (this.pc === 0) return l; return this.shortCircuit(this.bdd.not(this.truth(l)), l, () => this.ev(n.right, env)); }
      case SK.QuestionQuestionToken: { const l = this.ev(n.left, env); if (this.pc === 0) return l; return this.shortCircuit(this.nullish(l), l, () => this.ev(n.right, env)); }
      case SK.CommaToken: this.ev(n.left, env); return this.ev(n.right, env);
      case SK.EqualsToken: {
        if (ts.isArrayLiteralExpression(n.left) || ts.isObjectLiteralExpression(n.left)) { const v = this.ev(n.right, env); this.destructAssign(n.left, v, env); return v; }
        const ref = this.lref(n.left, env);
        const v = this.ev(n.right, env);
        if (this.pc === 0) return v;
        this.put(ref, v);
        return v;
      }
      case SK.AmpersandAmpersandEqualsToken: case SK.BarBarEqualsToken: case SK.QuestionQuestionEqualsToken: {
        const ref = this.lref(n.left, env);
        const l = this.getRef(ref);
        const take = op === SK.QuestionQuestionEqualsToken ? this.nullish(l) : op === SK.BarBarEqualsToken ? this.bdd.not(this.truth(l)) : this.truth(l);
        return this.shortCircuit(take, l, () => { const v = this.ev(n.right, env); this.put(ref, v); return v; });
      }
    }
    if (op >= SK.FirstCompoundAssignment && op <= SK.LastCompoundAssignment) {
      const ref = this.lref(n.left, env);
      const l = this.getRef(ref);
      const r = this.ev(n.right, env);
      const v = this.arith(n.operatorToken.getText().replace(/=$/, ""), l, r, n);
      this.put(ref, v);
      return v;
    }
    const l = this.ev(n.left, env);
    if (this.pc === 0) return l;
    const r = this.ev(n.right, env);
    if (this.pc === 0) return r;
    switch (op) {
      case SK.EqualsEqualsEqualsToken: return this.bool(this.eq(l, r));
      case SK.ExclamationEqualsEqualsToken: return this.bool(this.bdd.not(this.eq(l, r)));
      case SK.EqualsEqualsToken: case SK.ExclamationEqualsToken: {
        const isN = (v) => { const c = this.constOf(v); return c && (c.v === null || c.v === undefined); };
        const g = isN(r) ? this.nullish(l) : isN(l) ? this.nullish(r) : this.eq(l, r);
        return this.bool(op === SK.EqualsEqualsToken ? g : this.bdd.not(g));
      }
      case SK.LessThanToken: return this.bool(this.cmp("<", l, r));
      case SK.GreaterThanToken: return this.bool(this.cmp("<", r, l));
      case SK.LessThanEqualsToken: return this.bool(this.bdd.not(this.cmp("<", r, l)));
      case SK.GreaterThanEqualsToken: return this.bool(this.bdd.not(this.cmp("<", l, r)));
      case SK.InstanceOfKeyword: return this.bool(this.instOf(l, r));
      case SK.InKeyword: return this.bool(this.hasKey(r, l));
    }
    return this.arith(n.operatorToken.getText(), l, r, n);
  },
  instOf(v, cls) {
    v = this.at(v); cls = this.at(cls);
    let r = 0;
    for (const a of v.alts) for (const b of cls.alts) {
      const g = this.bdd.and(a.g, b.g);
      if (g === 0) continue;
      r = this.bdd.or(r, this.bdd.and(g, this.instLeaf(a.l, b.l)));
    }
    return r;
  },
  instLeaf(a, b) {
    if (a.t === "c" || a.t === "f" || a.t === "k") return 0;
    const bName = b.t === "x" ? b.xkey : b.t === "k" ? loc(b.node) : null;
    if (a.t === "o") {
      const r = a.rec;
      if (r.kind === "array") return bName === "lib#Array" ? 1 : 0;
      if (r.kind === "map") return bName === "lib#Map" ? 1 : 0;
      if (r.kind === "set") return bName === "lib#Set" ? 1 : 0;
      if (r.kind === "promise") return bName === "lib#Promise" ? 1 : 0;
      if (r.kind === "object") return bName === "lib#Object" ? 1 : 0;
      if (r.kind === "inst") {
        for (let c = r.cls; c; ) {
          if (loc(c) === bName) return 1;
          const s = this.superOf(c, null);
          if (s?.t === "k") c = s.node;
          else { if (s?.t === "x") return this.extInst(s.xkey, bName); break; }
        }
        if (r.ext) return this.extInst(r.ext, bName);
        return 0;
      }
    }
    return this.atom(`inst:${a.id}:${b.id}`, { kind: "inst", l: a, k: b, text: `${this.showLeaf(a)} instanceof ${this.showLeaf(b)}` });
  },
  extInst(have, want) {
    if (have === want) return 1;
    if (want === "lib#Error" && /Error$/.test(have)) return 1;
    if (want === "lib#Object") return 1;
    return 0;
  },
  // numeric ordering, canonical linear form: a < b
  lin(l) { // leaf -> {k, m: Map(leaf -> coef)}
    if (l.t === "c") return typeof l.v === "number" ? { k: l.v, m: new Map() } : null;
    if (l.t === "s" && (l.op === "+" || l.op === "-") && l.args.length === 2) {
      const a = this.single(l.args[0]), b = this.single(l.args[1]);
      const la = a && this.lin(a), lb = b && this.lin(b);
      if (la && lb) {
        const s = l.op === "+" ? 1 : -1;
        const m = new Map(la.m);
        for (const [x, c] of lb.m) m.set(x, (m.get(x) ?? 0) + s * c);
        for (const [x, c] of m) if (c === 0) m.delete(x);
        return { k: la.k + s * lb.k, m };
      }
    }
    if (l.t === "s" && l.op === "*" && l.args.length === 2) {
      const a = this.single(l.args[0]), b = this.single(l.args[1]);
      if (a?.t === "c" && typeof a.v === "number") { const x = b && this.lin(b); if (x) return { k: x.k * a.v, m: new Map([...x.m].map(([y, c]) => [y, c * a.v])) }; }
      if (b?.t === "c" && typeof b.v === "number") { const x = a && this.lin(a); if (x) return { k: x.k * b.v, m: new Map([...x.m].map(([y, c]) => [y, c * b.v])) }; }
    }
    return { k: 0, m: new Map([[l, 1]]) };
  },
  isInt(l) { return l.t === "s" && (l.op === "len" || (l.op === "get" && this.argConst(l.args[1]) === "length")); },
  argConst(a) { if (typeof a === "string" || typeof a === "number") return a; return a?.alts ? this.constOf(a)?.v : undefined; },
  cmp(op, x, y) {
    x = this.at(x); y = this.at(y);
    let r = 0;
    for (const a of x.alts) for (const b of y.alts) {
      const g = this.bdd.and(a.g, b.g);
      if (g === 0) continue;
      r = this.bdd.or(r, this.bdd.and(g, this.ltLeaf(a.l, b.l)));
    }
    return this.pc ? this.bdd.restrict(r, this.pc) : r;
  },
  ltLeaf(a, b) {
    if (a.t === "c" && b.t === "c") return a.v < b.v ? 1 : 0;
    if ((a.t === "c" && a.v === undefined) || (b.t === "c" && b.v === undefined)) return 0;
    const la = this.lin(a), lb = this.lin(b);
    if (la && lb) {
      const m = new Map(la.m);
      for (const [x, c] of lb.m) m.set(x, (m.get(x) ?? 0) - c);
      for (const [x, c] of m) if (c === 0) m.delete(x);
      let k = lb.k - la.k; // sum(m) < k
      if (m.size === 0) return 0 < k ? 1 : 0;
      const ent = [...m].sort((p, q) => p[0].id - q[0].id);
      const lead = ent[0][1];
      const s = Math.abs(lead);
      const norm = ent.map(([x, c]) => [x, c / s]);
      k = k / s;
      const int = norm.every(([x, c]) => Number.isInteger(c) && this.isInt(x));
      if (int && norm.length === 1 && norm[0][1] === 1 && k <= 1 && k > 0) {
        // length < 1  <=>  length === 0
        return this.lenZero(norm[0][0]);
      }
      if (norm[0][1] > 0) return this.ltAtom(norm, k, int);
      // -x... < k   <=>  x... > -k  <=>  !(x... <= -k)
      const pos = norm.map(([x, c]) => [x, -c]);
      if (int) {
        const kk = Math.floor(-k) + 1; // x > -k <=> !(x < floor(-k)+1)
        if (pos.length === 1 && pos[0][1] === 1 && kk === 1) return this.bdd.not(this.lenZero(pos[0][0]));
        return this.bdd.not(this.ltAtom(pos, kk, int));
      }
      return this.gtAtom(pos, -k);
    }
    return this.atom(`lt:${a.id}:${b.id}`, { kind: "lt", a, b, text: `${this.showLeaf(a)} < ${this.showLeaf(b)}` });
  },
  // guard under which a structurally known list is empty (undefined: not known)
  lenEmpty(x) {
    if (x.op !== "len") return undefined;
    const a = x.args[0].alts?.[0]?.l;
    if (!a || x.args[0].alts.length !== 1 || a.t !== "s" || a.op !== "arr") return undefined;
    let some = 0;
    for (const it of a.items) {
      if (it.each) some = this.bdd.or(some, this.exists(it.each.key, it.each, it.g));
      else if (it.spread) some = this.bdd.or(some, this.bdd.and(it.g, this.bdd.not(this.atom(`empty:${this.vkey(it.v)}`, { kind: "pred", name: "empty", text: `empty(${this.show(it.v)})` }))));
      else some = this.bdd.or(some, it.g);
    }
    return this.bdd.not(some);
  },
  lenZero(x) { // x is a length leaf
    const e = this.lenEmpty(x);
    if (e !== undefined) return e;
    const base = x.op === "get" ? this.single(x.args[0]) : null;
    if (base && base.t === "s" && base.ty && this.isStr(base.ty)) return this.eqConst(base, this.cl(""));
    return this.eqConst(x, this.cl(0));
  },
  isStr(ty) { return !!(ty.flags & ts.TypeFlags.StringLike); },
  linKey(norm) { return norm.map(([x, c]) => `${c}*${x.id}`).join("+"); },
  linText(norm) { return norm.map(([x, c]) => (c === 1 ? "" : `${c}*`) + this.showLeaf(x)).join(" + "); },
  ltAtom(norm, k, int) {
    if (int) k = Math.ceil(k);
    return this.atom(`lt:${this.linKey(norm)}<${k}`, { kind: "lt", norm, k, text: `${this.linText(norm)} < ${k}` });
  },
  // x > k  is  !(x < k) & !(x === k)
  gtAtom(norm, k) {
    const lt = this.ltAtom(norm, k, false);
    const eq = norm.length === 1 && norm[0][1] === 1 && norm[0][0].t === "s" ? this.eqConst(norm[0][0], this.cl(k)) : this.atom(`eqlin:${this.linKey(norm)}=${k}`, { kind: "eqlin", norm, k, text: `${this.linText(norm)} == ${k}` });
    return this.bdd.and(this.bdd.not(lt), this.bdd.not(this.bdd.and(eq, this.bdd.not(lt))));
  },
  arith(op, a, b, node) {
    if (op === "+") {
      const r = this.lift([a, b], (x, y) => this.plusLeaf(x, y, node));
      return r ?? this.s("+", [a, b]);
    }
    return this.lift([a, b], (x, y) => this.arithLeaf(op, x, y)) ?? this.s(op, [a, b]);
  },
  stringy(l) {
    if (l.t === "c") return typeof l.v === "string";
    if (l.t === "s") {
      if (l.op === "concat" || l.op === "json" || l.op === "str") return true;
      if (l.ty) { const F = ts.TypeFlags; const t = l.ty; return !!(t.flags & F.StringLike) || (t.isUnion?.() && t.types.every((x) => x.flags & (F.StringLike | F.Undefined | F.Null)) && t.types.some((x) => x.flags & F.StringLike)); }
    }
    return false;
  },
  plusLeaf(x, y, node) {
    if (x.t === "c" && y.t === "c") return this.c(x.v + y.v);
    if (this.stringy(x) || this.stringy(y)) return this.concat([this.one(x), this.one(y)]);
    const tn = node && this.tyOf(node);
    if (tn && tn.flags & ts.TypeFlags.StringLike) return this.concat([this.one(x), this.one(y)]);
    return this.arithLeaf("+", x, y);
  },
  arithLeaf(op, x, y) {
    if (x.t === "c" && y.t === "c") {
      const a = x.v, b = y.v;
      try {
        switch (op) {
          case "+": return this.c(a + b);
          case "-": return this.c(a - b);
          case "*": return this.c(a * b);
          case "/": return this.c(a / b);
          case "%": return this.c(a % b);
          case "**": return this.c(a ** b);
          case "<<": return this.c(a << b);
          case ">>": return this.c(a >> b);
          case ">>>": return this.c(a >>> b);
          case "&": return this.c(a & b);
          case "|": return this.c(a | b);
          case "^": return this.c(a ^ b);
        }
      } catch { /* mixed types */ }
    }
    if (op === "+" && x.t === "c" && x.v === 0) return this.one(y);
    if ((op === "+" || op === "-") && y.t === "c" && y.v === 0) return this.one(x);
    if ((op === "*" || op === "/") && y.t === "c" && y.v === 1) return this.one(x);
    if ((op === "+" || op === "*") && x.id > y.id) [x, y] = [y, x];
    // linear canonicalisation of sums
    if (op === "+" || op === "-") {
      const t = this.sl(op, [this.one(x), this.one(y)]);
      const L = this.lin(t);
      if (L) {
        const ent = [...L.m].sort((p, q) => p[0].id - q[0].id);
        if (!ent.length) return this.c(L.k);
        if (ent.length === 1 && ent[0][1] === 1 && L.k === 0) return this.one(ent[0][0]);
        let acc = null;
        for (const [lf, c] of ent) {
          const term = Math.abs(c) === 1 ? this.one(lf) : this.s("*", [this.c(Math.abs(c)), this.one(lf)]);
          if (!acc) acc = c > 0 ? term : this.s("-", [this.c(0), term]);
          else acc = this.s(c > 0 ? "+" : "-", [acc, term]);
        }
        if (L.k > 0) acc = this.s("+", [acc, this.c(L.k)]);
        else if (L.k < 0) acc = this.s("-", [acc, this.c(-L.k)]);
        return acc;
      }
    }
    return this.s(op, [this.one(x), this.one(y)]);
  },
  concat(parts) {
    const r = this.lift(parts, (...ls) => this.concatLeaves(ls));
    return r ?? this.s("concat", parts);
  },
  concatLeaves(ls) {
    const out = [];
    const add = (l) => {
      if (l.t === "s" && l.op === "concat") { for (const a of l.args) for (const x of [a]) { const s = this.single(x); if (s) add(s); else out.push(x); } return; }
      if (l.t === "s" && l.op === "str") { const s = this.single(l.args[0]); if (s) { add(s); return; } }
      if (l.t === "c") {
        const s = String(l.v);
        if (s === "") return;
        const last = out[out.length - 1];
        if (typeof last === "string") out[out.length - 1] = last + s;
        else out.push(s);
        return;
      }
      if (l.t === "o" && l.rec.kind === "array") { out.push(this.freeze(this.one(l))); return; }
      out.push(this.one(l));
    };
    ls.forEach(add);
    if (out.length === 0) return this.c("");
    if (out.length === 1 && typeof out[0] === "string") return this.c(out[0]);
    if (out.length === 1 && typeof out[0] !== "string") { const s = this.single(out[0]); return s && this.stringy(s) ? out[0] : this.s("str", [out[0]]); }
    return this.s("concat", out.map((x) => (typeof x === "string" ? this.c(x) : x)));
  },
  // ------------------------------------------------------------ references
  lref(n, env) {
    while (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n) || ts.isSatisfiesExpression(n)) n = n.expression;
    if (ts.isIdentifier(n)) return { k: "id", n, env };
    if (ts.isPropertyAccessExpression(n)) return { k: "prop", b: this.ev(n.expression, env), key: this.c(n.name.text), n };
    if (ts.isElementAccessExpression(n)) return { k: "prop", b: this.ev(n.expression, env), key: this.ev(n.argumentExpression, env), n };
    this.warn(n, "lref");
    return { k: "none" };
  },
  getRef(r) {
    if (r.k === "id") return this.idValue(r.n, r.env);
    if (r.k === "prop") return this.getProp(r.b, r.key, r.n, this.propTy(r.n));
    return this.UNDEF;
  },
  put(r, v) {
    if (r.k === "id") return this.assignSym(this.checker.getSymbolAtLocation(r.n), v, r.env, r.n);
    if (r.k === "prop") return this.setMember(r.b, r.key, v, r.n);
  },
  assignTo(n, v, env) { this.put(this.lref(n, env), v); },
  destructAssign(pat, v, env) {
    if (ts.isArrayLiteralExpression(pat)) {
      pat.elements.forEach((e, i) => {
        if (ts.isOmittedExpression(e)) return;
        if (ts.isSpreadElement(e)) this.assignTo(e.expression, this.arraySlice(v, i), env);
        else this.assignTo(e, this.getProp(v, this.c(i), e, this.tyOf(e)), env);
      });
      return;
    }
    for (const p of pat.properties) {
      if (ts.isShorthandPropertyAssignment(p)) this.assignSym(this.checker.getShorthandAssignmentValueSymbol(p), this.getProp(v, this.c(p.name.text), p), env, p);
      else if (ts.isPropertyAssignment(p)) this.assignTo(p.initializer, this.getProp(v, this.propName(p.name, env), p), env);
    }
  },
  propName(nm, env) {
    if (ts.isComputedPropertyName(nm)) return this.ev(nm.expression, env);
    if (ts.isNumericLiteral(nm)) return this.c(String(Number(nm.text)));
    return this.c(nm.text);
  },
  setMember(base, key, v, node) {
    base = this.at(base);
    const pc0 = this.pc;
    for (const a of base.alts) {
      this.pc = this.bdd.and(pc0, a.g);
      if (this.pc === 0) continue;
      this.setMemberLeaf(a.l, key, v, node);
    }
    this.pc = pc0;
  },
  setMemberLeaf(l, key, v, node) {
    const ck = this.constOf(key);
    if (l.t === "o" && l.rec.kind !== "promise") {
      const r = l.rec;
      if (ck) {
        if (r.kind === "inst" && r.cls) {
          const m = this.findMember(r.cls, String(ck.v), (x) => ts.isSetAccessorDeclaration(x));
          if (m?.node) { this.invoke(this.fnLeaf(m.node, m.env ?? null, undefined, m.cls), this.one(l), [v], node); return; }
        }
        if (r.kind === "array" && /^\d+$/.test(String(ck.v)) && r.items.every((i) => i.g === 1 && !i.each && !i.spread)) {
          const i = Number(ck.v);
          if (i < r.items.length) { const it = r.items[i]; this.note({ kind: "prop", rec: r, key: `#${i}` }); this.set(it, "v", this.ite(this.bdd.restrict(this.pc, r.g), v, it.v)); }
          else this.pushItem(r, { v });
          return;
        }
        this.setProp(r, String(ck.v), v);
        if (r.input) this.event("set", { name: String(ck.v), recv: this.one(l), args: [v], fargs: [this.freeze(v)] }, node);
        return;
      }
      // unknown key
      const keys = this.at(key);
      if (keys.alts.length > 1 && keys.alts.every((k) => k.l.t === "c")) {
        const pc0 = this.pc;
        for (const k of keys.alts) { this.pc = this.bdd.and(pc0, k.g); if (this.pc) this.setProp(r, String(k.l.v), v); }
        this.pc = pc0;
        return;
      }
      const item = { key: this.freeze(key), v, g: this.bdd.restrict(this.pc, r.g) };
      this.push(r.dyn, item);
      if (this.arrTrack) this.arrTrack.added.push({ rec: r, item });
      return;
    }
    // write to an opaque object: keep an overlay and record the effect
    this.event("set", { name: ck ? String(ck.v) : "[dynamic]", recv: this.one(l), key: this.freeze(key), args: [v], fargs: [this.freeze(v)] }, node);
    const o = this.overlay(l);
    if (ck) this.setProp(o, String(ck.v), v);
    else this.push(o.dyn, { key: this.freeze(key), v, g: this.pc });
  },
  overlay(l) {
    if (!l.ov) {
      const pc = this.pc; this.pc = 1;
      l.ov = this.alloc("object");
      this.pc = pc;
    }
    return l.ov;
  },
  // number of different keys among guarded entries
  distinctCount(es) {
    const b = this.bdd;
    let counts = new Map([[0, 1]]);
    for (let i = 0; i < es.length; i++) {
      let isNew = es[i].g;
      for (let j = 0; j < i && isNew !== 0; j++) isNew = b.and(isNew, b.not(b.and(es[j].g, this.eq(es[i].key, es[j].key))));
      const next = new Map();
      for (const [n, g] of counts) for (const [m, h] of [[n + 1, b.and(g, isNew)], [n, b.and(g, b.not(isNew))]]) if (h !== 0) next.set(m, b.or(next.get(m) ?? 0, h));
      counts = next;
      if (counts.size > 12) return null;
    }
    return this.mkVal([...counts].map(([n, g]) => ({ l: this.cl(n), g })));
  },
  deleteProp(base, key, node) {
    for (const a of this.at(base).alts) {
      const ck = this.constOf(key);
      if (a.l.t === "o" && ck) {
        const r = a.l.rec;
        const old = r.props.get(String(ck.v));
        const g = this.bdd.and(this.bdd.restrict(this.pc, r.g), a.g);
        this.note({ kind: "prop", rec: r, key: String(ck.v) });
        if (old) this.mset(r.props, String(ck.v), { v: old.v, has: this.bdd.and(old.has, this.bdd.not(g)) });
        if (r.rest.length) this.mset(r.props, String(ck.v), { v: this.UNDEF, has: 1 });
      } else this.event("delete", { name: ck ? String(ck.v) : "[dynamic]", recv: this.one(a.l), args: [], fargs: [] }, node);
    }
  },
  // ------------------------------------------------------------ property reads
  propAccess(n, env) {
    const cv = this.checker.getConstantValue(n);
    if (cv !== undefined) return this.c(cv);
    if (n.expression.kind === SK.SuperKeyword) return this.superMember(n, env, n.name.text);
    const b0 = this.ev(n.expression, env);
    if (this.pc === 0) return this.UNDEF;
    const b = this.chainBase(n, b0);
    if (this.pc === 0) return this.UNDEF;
    return this.getProp(b, this.c(n.name.text), n, this.propTy(n));
  },
  getProp(base, key, node, ty) {
    return this.over(base, (l) => {
      const k = this.at(key);
      if (k.alts.length === 1) return this.getLeaf(l, k.alts[0].l, node, ty);
      return this.over(k, (kl) => this.getLeaf(l, kl, node, ty));
    });
  },
  getLeaf(l, kl, node, ty) {
    if (kl.t !== "c") return this.getDyn(l, kl, node, ty);
    const key = String(kl.v);
    switch (l.t) {
      case "c":
        if (l.v === undefined || l.v === null) { this.typeError(node, `read ${key} of ${l.v}`); return this.UNDEF; }
        if (typeof l.v === "string") {
          if (key === "length") return this.c(l.v.length);
          if (/^\d+$/.test(key)) return this.c(l.v[Number(key)]);
        }
        return this.native(`${key}`, (args, th, nd) => this.method(th ?? this.one(l), key, args, nd));
      case "f":
        if (key === "name") return this.c(l.name ?? "");
        if (key === "length" && l.node) return this.c(l.node.parameters.length);
        if (l.ov?.props.has(key)) return l.ov.props.get(key).v;
        return this.native(key, (args, th, nd) => this.method(this.one(l), key, args, nd));
      case "k": {
        if (key === "name") return this.c(l.name);
        if (key === "prototype") return this.s("prototype", [this.one(l)]);
        const v = this.staticMember(l, key, node);
        return v ?? this.UNDEF;
      }
      case "x": {
        if (l.ns) {
          const e = this.checker.getExportsOfModule(l.ns).find((s) => s.name === key);
          if (e) return this.symbolValue(e, node);
        }
        if (l.ov?.props.has(key)) return this.at(l.ov.props.get(key).v);
        if (node && ts.isPropertyAccessExpression(node)) {
          let s = this.checker.getSymbolAtLocation(node.name);
          if (s) {
            s = this.unalias(s);
            const d = s.valueDeclaration || s.declarations?.[0];
            if (d && !this.isProject(d) && (ts.isClassDeclaration(d) || ts.isFunctionDeclaration(d) || ts.isEnumDeclaration(d) || ts.isModuleDeclaration(d) || (ts.isVariableDeclaration(d) && /\*|default/.test(l.xkey)))) return this.one(this.ext(this.extKey(d, s.name), s));
            if (d && ts.isSourceFile(d)) return this.one(this.ext(this.extKey(d, "*"), s));
          }
        }
        if (/#(\*|default)$/.test(l.xkey) && (!l.sym || !l.sym.declarations?.length || !this.extResolved(l))) return this.one(this.ext(l.xkey.replace(/#.*/, `#${key}`)));
        return this.s("get", [this.one(l), key], ty);
      }
      case "o": return this.getRec(l, key, node, ty);
      case "s": {
        if (l.ov) {
          const p = l.ov.props.get(key);
          if (p) { if (p.has === 1) return this.at(p.v); return this.at(this.ite(p.has, p.v, this.symGet(l, key, node, ty))); }
        }
        return this.symGet(l, key, node, ty);
      }
    }
    return this.UNDEF;
  },
  extResolved(l) {
    try { const s = l.sym && this.unalias(l.sym); return !!s?.declarations?.length && !ts.isImportSpecifier(s.declarations[0]) && !ts.isImportClause(s.declarations[0]) && !ts.isNamespaceImport(s.declarations[0]); } catch { return false; }
  },
  symGet(l, key, node, ty) {
    if (l.op === "obj") { // frozen object
      const f = l.fields?.get(key);
      if (f) return f.has === 1 ? f.v : this.ite(f.has, f.v, this.UNDEF);
      if (!l.rest.length && !l.dyn.length) return this.UNDEF;
    }
    if (l.op === "arr" && /^\d+$/.test(key) && l.items.every((i) => i.g === 1 && !i.each && !i.spread)) return l.items[Number(key)]?.v ?? this.UNDEF;
    if (l.op === "arr" && key === "length" && l.items.every((i) => i.g === 1 && !i.each && !i.spread)) return this.c(l.items.length);
    if (l.op === "regex" && (key === "source" || key === "flags")) return this.c(l.args[key === "source" ? 0 : 1]);
    // getter of a project class?
    if (node) {
      const s = ts.isPropertyAccessExpression(node) ? this.checker.getSymbolAtLocation(node.name) : null;
      const d = s?.declarations?.find((x) => ts.isGetAccessorDeclaration(x));
      if (d?.body && this.isProject(d)) return this.invoke(this.fnLeaf(d, null), this.one(l), [], node);
      const md = s?.declarations?.find((x) => ts.isMethodDeclaration(x) && x.body);
      if (md && this.isProject(md)) return this.one(this.fnLeaf(md, null));
      const pd = s?.valueDeclaration;
      if (pd && ts.isPropertyDeclaration(pd) && pd.initializer && this.isProject(pd) && (ts.getCombinedModifierFlags(pd) & ts.ModifierFlags.Readonly)) {
        const pv = this.initModule(pd, () => this.ev(pd.initializer, { ...this.modEnv(pd) }));
        if (this.constOf(pv)) return pv;
      }
    }
    return this.s("get", [this.one(l), key], ty);
  },
  getDyn(l, kl, node, ty) {
    if (l.t === "o") {
      const r = l.rec;
      if (kl.t === "s" && kl.op === "idx" && r.kind === "array") {
        const it = r.items[kl.args[1]];
        if (this.single(kl.args[0]) === l && it) return it.v;
      }
      if (kl.t === "s" && kl.op === "eidx" && r.kind === "array") {
        const src = this.single(kl.args[0]);
        if (src === this.freezeLeaf(l, 0)) return this.s("elem", [kl.args[0], kl.args[1]], ty);
      }
      if ((r.kind === "object" || r.kind === "array") && (r.rest.length === 0)) {
        // table lookup by a symbolic key
        const alts = [];
        let used = 0;
        const ent = r.kind === "object" ? [...r.props].map(([k, p]) => [k, p.v, p.has]) : r.items.map((i, k) => [k, i.v, i.g]);
        if (ent.length <= 40 && !(r.kind === "array" && r.items.some((i) => i.each || i.spread))) {
          for (const [k, v, has] of ent) {
            let g = this.eqLeaf(kl, this.cl(k));
            if (r.kind === "array") g = this.bdd.or(g, 0);
            g = this.bdd.and(g, has);
            for (const a of v.alts) alts.push({ l: a.l, g: this.bdd.and(a.g, g) });
            used = this.bdd.or(used, g);
          }
          const none = this.bdd.not(used);
          const dflt = r.dyn.length ? this.sl("dyn", [this.freeze(this.one(l)), this.one(kl)], ty) : this.cl(undefined);
          alts.push({ l: dflt, g: none });
          return this.at(this.mkVal(alts));
        }
      }
      return this.s("get", [this.freeze(this.one(l)), this.one(kl)], ty);
    }
    if (l.t === "c" && (l.v === undefined || l.v === null)) { this.typeError(node, "read of nullish"); return this.UNDEF; }
    if (l.t === "k" || l.t === "f") return this.s("get", [this.one(l), this.one(kl)], ty);
    if (kl.t === "s" && kl.op === "eidx" && this.single(kl.args[0]) === l) return this.s("elem", [kl.args[0], kl.args[1]], this.elemType(l.ty) ?? ty);
    if (l.t === "s" && l.ov) for (const d of [...l.ov.dyn].reverse()) if (this.single(d.key) === kl && d.g === 1) return d.v;
    return this.s("get", [this.one(l), this.one(kl)], ty);
  },
  getRec(l, key, node, ty) {
    const r = l.rec;
    const p = r.props.get(key);
    if (r.kind === "array") {
      if (key === "length") {
        const n = r.items.every((i) => i.g === 1 && !i.each && !i.spread);
        return n ? this.c(r.items.length) : this.arrLen(l);
      }
      if (/^-?\d+$/.test(key)) {
        const i = Number(key);
        if (r.items.every((x) => x.g === 1 && !x.each && !x.spread)) return r.items[i]?.v ?? this.UNDEF;
        if (i >= 0 && r.items.length > i && r.items.slice(0, i + 1).every((x) => x.g === 1 && !x.each && !x.spread)) return r.items[i].v;
        return this.s("get", [this.freeze(this.one(l)), key], ty);
      }
    }
    if ((r.kind === "map" || r.kind === "set") && key === "size") return (r.open || r.entries.length > 40 || r.entries.some((i) => i.each) ? null : this.distinctCount(r.entries)) ?? this.s("size", [this.one(l), r.entries.length]);
    if (p && p.has === 1) return this.at(p.v);
    const other = () => {
      if (r.rest.length) {
        let acc = this.UNDEF;
        for (const x of r.rest) {
          const v = this.getProp(x.v, this.c(key), null, ty);
          acc = this.ite(x.g, v, acc);
        }
        return acc;
      }
      if (r.dyn.length) {
        for (const d of [...r.dyn].reverse()) if (d.g === 1 && !d.each && this.constOf(d.key)?.v === key) return d.v;
        return this.s("dyn", [this.freeze(this.one(l)), key], ty);
      }
      if (r.kind === "inst" && r.cls) return this.instMember(l, key, node, ty);
      if (r.kind === "inst" && r.ext) return this.s("get", [this.one(l), key], ty);
      if (r.kind === "object" && r.input) return this.s("get", [this.one(l), key], ty);
      return this.UNDEF;
    };
    if (p) {
      if (p.has === 0) return other();
      const o = other();
      return this.at(this.ite(p.has, p.v, o));
    }
    if (["array", "map", "set", "promise"].includes(r.kind)) return this.native(key, (args, th, nd) => this.method(this.one(l), key, args, nd));
    return other();
  },
  arrLen(l) {
    const its = l.rec.items;
    if (its.length <= 6 && its.every((i) => !i.each && !i.spread)) {
      let cnt = [1]; // cnt[k]: guard under which k items are present
      for (const it of its) {
        const g = this.pc ? this.bdd.restrict(it.g, this.pc) : it.g;
        const nx = new Array(cnt.length + 1).fill(0);
        cnt.forEach((c, k) => { nx[k] = this.bdd.or(nx[k], this.bdd.and(c, this.bdd.not(g))); nx[k + 1] = this.bdd.or(nx[k + 1], this.bdd.and(c, g)); });
        cnt = nx;
      }
      return this.at(this.mkVal(cnt.map((g, k) => ({ l: this.cl(k), g }))));
    }
    return this.s("len", [this.freeze(this.one(l))]); },
  instMember(l, key, node, ty) {
    const r = l.rec;
    const m = this.findMember(r.cls, key);
    if (m?.node) {
      if (ts.isGetAccessorDeclaration(m.node)) return this.invoke(this.fnLeaf(m.node, m.env ?? null, undefined, m.cls), this.one(l), [], node);
      if (ts.isMethodDeclaration(m.node)) return this.one(this.leaf(`bm:${l.id}:${loc(m.node)}`, () => ({ t: "f", name: key, bound: null, node: m.node, env: m.env ?? null, home: m.cls, unboundOf: l })));
      if (ts.isSetAccessorDeclaration(m.node)) return this.UNDEF;
    }
    // a field declared by a class of the program and never assigned is undefined, whatever the external base has
    if ((m?.ext || r.ext) && this.ownField(r.cls, key)) return this.UNDEF;
    if (m?.ext || r.ext) return this.s("get", [this.one(l), key], ty);
    return this.UNDEF;
  },
  ownField(cls, key) {
    for (let c = cls, d = 0; c && d < 12; d++) {
      if (c.members.some((m) => ts.isPropertyDeclaration(m) && !(ts.getCombinedModifierFlags(m) & (ts.ModifierFlags.Ambient | ts.ModifierFlags.Static)) && m.name.text === key)) return true;
      const s = this.superCache?.get(c) ?? this.superOf(c);
      if (s?.t !== "k") return false;
      c = s.node;
    }
    return false;
  },
  superOf(cls, env) {
    if (cls.__super !== undefined && !env) return cls.__super;
    const h = cls.heritageClauses?.find((x) => x.token === SK.ExtendsKeyword);
    let r = null;
    if (h) r = this.single(this.initModule(cls, () => this.ev(h.types[0].expression, env ?? this.modEnv(cls)))) ?? null;
    if (!this.superCache) this.superCache = new Map();
    this.superCache.set(cls, r);
    return r;
  },
  // find an instance member in the class chain
  findMember(cls, name, pred = (x) => !ts.isSetAccessorDeclaration(x)) {
    for (let c = cls, d = 0; c && d < 12; d++) {
      for (const m of c.members) {
        if (!m.name || ts.isConstructorDeclaration(m)) continue;
        if (ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Static) continue;
        const nm = m.name.text ?? (ts.isComputedPropertyName(m.name) ? null : m.name.getText());
        if (nm === name && pred(m) && (ts.isMethodDeclaration(m) || ts.isAccessor(m))) {
          if (ts.isMethodDeclaration(m) && !m.body) continue;
          return { node: m, cls: c };
        }
      }
      const s = this.superCache?.get(c) ?? this.superOf(c);
      if (!s) return null;
      if (s.t === "k") c = s.node;
      else return { ext: s };
    }
    return null;
  },
  staticMember(kl, key, node) {
    for (let k = kl, d = 0; k && d < 12; d++) {
      for (const m of k.node.members) {
        if (!(ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Static) || !m.name) continue;
        const nm = m.name.text ?? m.name.getText();
        if (ts.isMethodDeclaration(m) && !m.body) continue;
        if (nm !== key) continue;
        if (ts.isMethodDeclaration(m)) return this.one(this.leaf(`sm:${kl.id}:${loc(m)}`, () => ({ t: "f", node: m, env: k.env ?? null, home: k.node, name: key, staticOf: kl })));
        if (ts.isGetAccessorDeclaration(m)) return this.invoke(this.fnLeaf(m, k.env ?? null), this.one(kl), [], node);
        if (ts.isPropertyDeclaration(m)) {
          if (kl.ov?.props.has(key)) return this.at(kl.ov.props.get(key).v);
          const ck = `static:${loc(m)}`;
          let c = this.modCells.get(ck);
          if (!c) {
            c = { v: this.UNDEF };
            this.modCells.set(ck, c);
            const ro = ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Readonly;
            if (m.initializer && (ro || !this.staticWritten(m))) c.v = this.initModule(m, () => this.ev(m.initializer, { ...this.modEnv(m), thisVal: this.one(kl) }));
            else c.v = this.s("glob", [`${rel(m.getSourceFile().fileName)}#${kl.name}.${key}`], this.checker.getTypeAtLocation(m));
          }
          return c.v;
        }
      }
      const s = this.superCache?.get(k.node) ?? this.superOf(k.node);
      if (!s) return null;
      if (s.t === "k") k = s;
      else return this.s("get", [this.one(s), key]);
    }
    return null;
  },
  staticWritten(m) {
    const sym = this.checker.getSymbolAtLocation(m.name);
    let w = false;
    const visit = (x) => {
      if (w) return;
      if (ts.isPropertyAccessExpression(x) && x.name.text === m.name.text && this.checker.getSymbolAtLocation(x.name) === sym) {
        const p = x.parent;
        if (ts.isBinaryExpression(p) && p.left === x && p.operatorToken.kind >= SK.FirstAssignment && p.operatorToken.kind <= SK.LastAssignment) w = true;
      }
      ts.forEachChild(x, visit);
    };
    visit(m.getSourceFile());
    return w;
  },
  superMember(n, env, key) {
    const s = this.superCache?.get(env.home) ?? (env.home && this.superOf(env.home));
    if (s?.t === "k") {
      const m = this.findMember(s.node, key);
      if (m?.node) return this.one(this.fnLeaf(m.node, m.env ?? null, env.thisVal, m.cls));
    }
    return this.s("super", [key]);
  },
  hasKey(obj, key) {
    obj = this.at(obj);
    let r = 0;
    for (const a of obj.alts) {
      const kk = this.at(key);
      for (const k of kk.alts) {
        const g = this.bdd.and(a.g, k.g);
        let h;
        if (a.l.t === "o" && k.l.t === "c" && ["object", "inst"].includes(a.l.rec.kind) && !a.l.rec.dyn.length) {
          h = a.l.rec.props.get(String(k.l.v))?.has ?? 0;
          for (const x of a.l.rec.rest) h = this.bdd.or(h, this.bdd.and(x.g, this.hasKey(x.v, this.one(k.l))));
          if (a.l.rec.kind === "inst" && a.l.rec.cls && this.findMember(a.l.rec.cls, String(k.l.v))) h = 1;
        } else if (a.l.t === "o" && a.l.rec.kind === "object" && !a.l.rec.rest.length && !a.l.rec.dyn.length) {
          h = 0;
          for (const [nm, p] of a.l.rec.props) h = this.bdd.or(h, this.bdd.and(p.has, this.eqLeaf(k.l, this.cl(nm))));
        } else if (a.l.t === "s" && a.l.op === "obj" && k.l.t === "c" && !a.l.rest.length && !a.l.dyn.length) {
          h = a.l.fields.get(String(k.l.v))?.has ?? 0;
        } else h = this.atom(`has:${this.freezeLeaf(a.l, 0).id}:${k.l.id}`, { kind: "has", l: a.l, k: k.l, text: `has(${this.showLeaf(a.l)}, ${this.showLeaf(k.l)})` });
        r = this.bdd.or(r, this.bdd.and(g, h));
      }
    }
    return r;
  },
  // ------------------------------------------------------------ object literals
  objLit(n, env) {
    const r = this.alloc("object");
    for (const p of n.properties) {
      if (this.pc === 0) break;
      if (ts.isPropertyAssignment(p)) {
        const k = this.propName(p.name, env);
        const v = this.ev(p.initializer, env);
        if (this.pc !== 0) this.setMemberLeaf(r.leaf, k, v, p);
      } else if (ts.isShorthandPropertyAssignment(p)) this.setProp(r, p.name.text, this.idValue(p.name, env));
      else if (ts.isSpreadAssignment(p)) this.spreadObj(r, this.ev(p.expression, env));
      else if (ts.isMethodDeclaration(p)) this.setMemberLeaf(r.leaf, this.propName(p.name, env), this.one(this.fnLeaf(p, env, r.val)), p);
      else this.warn(p, "objprop");
    }
    return r.val;
  },
  spreadObj(r, v) {
    v = this.at(v);
    const pc0 = this.pc;
    for (const a of v.alts) {
      this.pc = this.bdd.and(pc0, a.g);
      if (this.pc === 0) continue;
      const l = a.l;
      if (l.t === "c") continue;
      if (l.t === "o" && (l.rec.kind === "object" || l.rec.kind === "inst")) {
        for (const x of l.rec.rest) this.spreadObj(r, x.v);
        for (const [k, p] of [...l.rec.props]) this.setProp(r, k, p.v, p.has);
        for (const d of l.rec.dyn) this.push(r.dyn, { ...d, g: this.bdd.and(d.g, this.bdd.restrict(this.pc, r.g)) });
        if (l.rec.input) this.spreadOpaque(r, l);
      } else if (l.t === "s" && l.op === "obj" && l.fields) {
        for (const x of l.rest) this.spreadObj(r, x.v);
        for (const [k, p] of l.fields) this.setProp(r, k, p.v, p.has);
      } else this.spreadOpaque(r, l);
    }
    this.pc = pc0;
  },
  spreadOpaque(r, l) {
    const one = this.one(l);
    const g = this.bdd.restrict(this.pc, r.g);
    // keys that may be overridden
    for (const [k, p] of [...r.props]) {
      const h = this.hasKey(one, this.c(k));
      const hg = this.bdd.and(g, h);
      if (hg === 0) continue;
      this.note({ kind: "prop", rec: r, key: k });
      this.mset(r.props, k, { v: this.ite(hg, this.getProp(one, this.c(k), null, this.propTypeOf(l, k)), p.v), has: this.bdd.or(p.has, hg) });
    }
    this.push(r.rest, { v: one, g });
  },
  propTypeOf(l, k) {
    try { const s = l.ty && this.checker.getPropertyOfType(this.checker.getNonNullableType(l.ty), k); return s ? this.checker.getTypeOfSymbol(s) : undefined; } catch { return undefined; }
  },
  omit(v, keys) {
    return this.over(v, (l) => {
      if (l.t === "o" && (l.rec.kind === "object" || l.rec.kind === "inst")) {
        const r = this.alloc("object");
        this.spreadObj(r, this.one(l));
        for (const k of keys) this.deleteProp(r.val, k, null);
        return r.val;
      }
      if (l.t === "c") return this.one(l);
      return this.s("omit", [this.one(l), ...keys]);
    });
  },
  // ------------------------------------------------------------ calls
  callExpr(n, env) {
    const callee = n.expression;
    if (callee.kind === SK.SuperKeyword) return this.superCall(n, env);
    if (callee.kind === SK.ImportKeyword) { const a = this.evArgs(n.arguments, env); return this.opaque("call", { name: "import" }, a, n); }
    let inner = callee;
    while (ts.isParenthesizedExpression(inner) || ts.isNonNullExpression(inner) || ts.isAsExpression(inner)) inner = inner.expression;
    if (ts.isPropertyAccessExpression(inner) || ts.isElementAccessExpression(inner)) {
      if (inner.expression.kind === SK.SuperKeyword) {
        const f = this.superMember(inner, env, inner.name.text);
        const args = this.evArgs(n.arguments, env);
        const l = this.single(f);
        if (l?.t === "f") return this.invoke(l, env.thisVal, args, n);
        return this.opaque("call", { name: inner.name.text, owner: "super", recv: env.thisVal, viaSuper: true }, args, n);
      }
      const b0 = this.ev(inner.expression, env);
      if (this.pc === 0) return this.UNDEF;
      const b = this.chainBase(inner, b0);
      if (this.pc === 0) return this.UNDEF;
      const key = ts.isPropertyAccessExpression(inner) ? this.c(inner.name.text) : this.ev(inner.argumentExpression, env);
      if (n.questionDotToken) {
        const fv = this.getProp(b, key, inner, this.propTy(inner));
        this.chainBase(n, fv);
        if (this.pc === 0) return this.UNDEF;
      }
      const args = this.evArgs(n.arguments, env);
      if (this.pc === 0) return this.UNDEF;
      return this.over(b, (l) => {
        const k = this.single(key);
        if (k?.t === "c") return this.callMember(l, String(k.v), args, n, inner);
        const f = this.getProp(this.one(l), key, inner, this.propTy(inner));
        return this.call(f, this.one(l), args, n);
      });
    }
    const f0 = this.ev(callee, env);
    if (this.pc === 0) return this.UNDEF;
    const f = this.chainBase(n, f0);
    if (this.pc === 0) return this.UNDEF;
    const args = this.evArgs(n.arguments, env);
    if (this.pc === 0) return this.UNDEF;
    return this.call(f, this.UNDEF, args, n);
  },
  method(base, key, args, node) { return this.over(base, (l) => this.callMember(l, key, args, node, null)); },
  callMember(l, key, args, node, acc) {
    const self = this.one(l);
    if (l.t === "c" && (l.v === undefined || l.v === null)) { this.typeError(node, `call ${key} of ${l.v}`); return this.UNDEF; }
    const b = this.builtinMethod(l, key, args, node);
    if (b !== undefined) return b;
    if (l.t === "o") {
      const r = l.rec;
      if (r.props.has(key) || r.rest.length) {
        const f = this.getRec(l, key, acc, undefined);
        return this.call(f, self, args, node);
      }
      if (r.kind === "inst" && r.cls) {
        const m = this.findMember(r.cls, key);
        if (m?.node) {
          if (ts.isGetAccessorDeclaration(m.node)) return this.call(this.invoke(this.fnLeaf(m.node, m.env ?? null, undefined, m.cls), self, [], node), self, args, node);
          return this.invoke(this.fnLeaf(m.node, r.clsEnv ?? null, undefined, m.cls), self, args, node);
        }
        return this.opaque("call", { name: key, owner: this.ownerOf(node) ?? (m?.ext ? m.ext.xkey : ""), recv: self, extBase: m?.ext?.xkey }, args, node, this.pureOwner(node, key));
      }
      if (r.dyn.length && r.kind === "object") return this.opaque("call", { name: key, recv: self, owner: "" }, args, node);
      return this.opaque("call", { name: key, owner: this.ownerOf(node) ?? r.ext ?? "", recv: self }, args, node, this.pureOwner(node, key));
    }
    if (l.t === "k") {
      const f = this.staticMember(l, key, node);
      if (f) return this.call(f, self, args, node);
      return this.opaque("call", { name: key, owner: l.name, recv: self }, args, node);
    }
    if (l.t === "x") {
      const nat = this.natives.get(`${l.xkey}.${key}`);
      if (nat) return nat(args, node);
      const f = l.ns ? this.getLeaf(l, this.cl(key), acc) : null;
      if (f && !(this.single(f)?.t === "s")) return this.call(f, self, args, node);
      if (acc && ts.isPropertyAccessExpression(acc)) {
        const v = this.getLeaf(l, this.cl(key), acc);
        const vl = this.single(v);
        if (vl?.t === "x") return this.callLeaf(vl, self, args, node);
      }
      const full = `${l.xkey}.${key}`;
      const pure = this.purePattern.test(full);
      return this.opaque("call", { name: full, owner: l.xkey, recv: self, callee: l }, args, node, pure ? { pure: true, noThrow: !this.throwingPure.test(full) } : {});
    }
    // overlay function on a symbolic object
    if (l.ov?.props.has(key)) return this.call(this.getLeaf(l, this.cl(key), acc), self, args, node);
    // symbolic receiver: resolve by declared type
    const d = node && (ts.isCallExpression(node) ? this.resolvedDecl(node) : null);
    if (d && this.isProject(d) && d.body && (ts.isMethodDeclaration(d) || ts.isFunctionDeclaration(d))) return this.invoke(this.fnLeaf(d, null, undefined, ts.isClassLike(d.parent) ? d.parent : undefined), self, args, node);
    if (d && this.isProject(d) && ts.isMethodDeclaration(d) && ts.isClassLike(d.parent)) { /* abstract */ }
    if (l.op === "obj" && l.fields?.has(key)) return this.call(l.fields.get(key).v, self, args, node);
    return this.opaque("call", { name: key, owner: d ? this.declOwner(d) : "", recv: self, decl: d }, args, node, this.pureOwner(node, key));
  },
  ownerOf(node) {
    const d = node && ts.isCallExpression(node) ? this.resolvedDecl(node) : null;
    return d ? this.declOwner(d) : undefined;
  },
  pureOwner(node, key) {
    const o = this.ownerOf(node);
    if (!o) return {};
    const full = `${o}.${key}`;
    if (this.purePattern.test(full)) return { pure: true, noThrow: !this.throwingPure.test(full) };
    return {};
  },
  superCall(n, env) {
    const args = this.evArgs(n.arguments, env);
    const self = this.single(env.thisVal);
    const cls = env.home;
    const s = this.superCache?.get(cls) ?? this.superOf(cls);
    if (!s) return this.UNDEF;
    this.constructInto(self, s, args, n);
    this.initFields(self, cls, env.ctorEnv ?? env);
    return env.thisVal;
  },
  construct(l, args, node) {
    if (l.t === "k") {
      const st = this.opts.stubClass?.(l.node, l, this);
      if (st) return this.opaque("new", { name: l.name, owner: "stub", callee: l, stub: true }, args, node, { noCallbacks: true, noThrow: true, promise: false, ...st });
      this.stats.inlined++;
      const r = this.alloc("inst", { cls: l.node, clsEnv: l.env });
      this.constructInto(r.leaf, l, args, node);
      return r.val;
    }
    if (l.t === "x") {
      const nat = this.natives.get(`new ${l.xkey}`);
      if (nat) return nat(args, node);
      if (/Error$/.test(l.xkey)) return this.errorObj(l.xkey, args);
      const pure = this.purePattern.test(`new ${l.xkey}`);
      return this.opaque("new", { name: l.xkey, owner: l.xkey, callee: l }, args, node, { promise: false, ...(pure ? { pure: true } : {}) });
    }
    return this.opaque("new", { name: "new", owner: "", callee: l }, args, node, { promise: false });
  },
  errorObj(xkey, args) {
    const r = this.alloc("inst", { ext: xkey });
    if (args[0]) this.setProp(r, "message", args[0]);
    if (args[1]) { const c = this.getProp(args[1], this.c("cause")); this.setProp(r, "cause", c); }
    return r.val;
  },
  initFields(self, cls, env) {
    for (const m of cls.members) {
      if (!ts.isPropertyDeclaration(m) || ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Static) continue;
      if (ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Ambient) continue;
      const e = { vars: new Map(), parent: env, thisVal: this.one(self), home: cls };
      const k = this.propName(m.name, e);
      if (m.initializer) this.setMemberField(self, k, this.ev(m.initializer, e));
    }
    // parameter properties
    if (env.ctorParams) for (const [k, v] of env.ctorParams) this.setProp(self.rec, k, v);
  },
  setMemberField(self, k, v) { const c = this.constOf(k); if (c) this.setProp(self.rec, String(c.v), v); },
  constructInto(self, l, args, node) {
    if (l.t === "x") {
      if (/Error$/.test(l.xkey) && l.xkey.startsWith("lib#")) {
        self.rec.ext = l.xkey;
        if (args[0]) this.setProp(self.rec, "message", args[0]);
        return;
      }
      self.rec.ext = l.xkey;
      this.opaque("super", { name: l.xkey, owner: l.xkey, self, callee: l }, args, node, { promise: false });
      return;
    }
    if (l.t !== "k") { this.opaque("super", { name: "?", owner: "", self }, args, node, { promise: false }); return; }
    const cls = l.node;
    let ctor = cls.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
    const sup = this.superCache?.get(cls) ?? this.superOf(cls, l.env ?? undefined);
    if (!ctor) {
      const env = { vars: new Map(), parent: l.env, thisVal: this.one(self), home: cls };
      if (sup) this.constructInto(self, sup, args, node);
      if (this.pc !== 0) this.initFields(self, cls, env);
      return;
    }
    const env = { vars: new Map(), parent: l.env, thisVal: this.one(self), home: cls };
    env.ctorEnv = env;
    this.stats.fns.add(loc(ctor));
    const frame = { node: ctor, name: `${cls.name?.text}.constructor`, ret: { g: 0, v: this.UNDEF }, callNode: node, env };
    if (this.frames.filter((f) => f.node === ctor).length >= 3) { this.warn(ctor, "ctor recursion"); return; }
    const saveLabels = this.labels, saveChain = this.chain;
    this.labels = []; this.chain = [];
    this.frames.push(frame);
    this.bindParams(ctor, args, { ...env, thisVal: undefined, vars: env.vars });
    env.ctorParams = ctor.parameters.filter((p) => ts.isParameterPropertyDeclaration(p, ctor)).map((p) => [p.name.text, env.vars.get(this.checker.getSymbolAtLocation(p.name))?.v ?? this.UNDEF]);
    if (!sup) this.initFields(self, cls, env);
    this.hoist(ctor.body.statements, env);
    this.block(ctor.body.statements, env);
    this.frames.pop();
    this.labels = saveLabels; this.chain = saveChain;
    this.pc = this.bdd.or(this.pc, frame.ret.g);
  },
});
