// Statements and loops.
import { Interp } from "./interp.mjs";
import { loc, ts } from "./program.mjs";
const SK = ts.SyntaxKind;

Object.assign(Interp.prototype, {
  block(stmts, env) {
    for (const s of stmts) {
      if (this.pc === 0) return;
      this.stmt(s, env);
    }
  },
  child(env) { return { vars: new Map(), parent: env, thisVal: env.thisVal, home: env.home }; },
  stmt(n, env) {
    switch (n.kind) {
      case SK.VariableStatement:
        for (const d of n.declarationList.declarations) this.varDecl(d, env, n.declarationList);
        return;
      case SK.ExpressionStatement: this.ev(n.expression, env); return;
      case SK.Block: {
        const e = this.child(env);
        this.hoist(n.statements, e);
        this.block(n.statements, e);
        return;
      }
      case SK.ReturnStatement: {
        const v = n.expression ? this.ev(n.expression, env) : this.UNDEF;
        const f = this.frames[this.frames.length - 1];
        if (this.pc === 0) return;
        this.set(f, "ret", { g: this.bdd.or(f.ret.g, this.pc), v: f.ret.g === 0 ? v : this.ite(this.pc, v, f.ret.v) });
        this.pc = 0;
        return;
      }
      case SK.IfStatement: {
        const c = this.truth(this.ev(n.expression, env));
        const pc0 = this.pc;
        this.pc = this.bdd.and(pc0, c);
        if (this.pc !== 0) this.stmt(n.thenStatement, env);
        const p1 = this.pc;
        this.pc = this.bdd.and(pc0, this.bdd.not(c));
        if (this.pc !== 0 && n.elseStatement) this.stmt(n.elseStatement, env);
        this.pc = this.bdd.or(p1, this.pc);
        return;
      }
      case SK.ThrowStatement: {
        const v = this.ev(n.expression, env);
        if (this.pc === 0) return;
        this.event("throw", { name: "throw", args: [v], fargs: [this.freeze(v)] }, n);
        this.throwUnder(1, v);
        this.pc = 0;
        return;
      }
      case SK.TryStatement: return this.tryStmt(n, env);
      case SK.SwitchStatement: return this.switchStmt(n, env);
      case SK.ForOfStatement: return this.forOf(n, env);
      case SK.ForInStatement: return this.forIn(n, env);
      case SK.ForStatement: return this.forStmt(n, env);
      case SK.WhileStatement: return this.whileStmt(n, n.expression, n.statement, null, env);
      case SK.DoStatement: return this.doStmt(n, env);
      case SK.LabeledStatement: {
        this.nextLabel = n.label.text;
        return this.stmt(n.statement, env);
      }
      case SK.BreakStatement: {
        const name = n.label?.text;
        const L = [...this.labels].reverse().find((x) => (name ? x.name === name : true));
        if (!L) { this.warn(n, "break"); return; }
        this.set(L, "brk", this.bdd.or(L.brk, this.pc));
        this.pc = 0;
        return;
      }
      case SK.ContinueStatement: {
        const name = n.label?.text;
        const L = [...this.labels].reverse().find((x) => x.loop && (name ? x.name === name : true));
        if (!L) { this.warn(n, "continue"); return; }
        this.set(L, "cont", this.bdd.or(L.cont, this.pc));
        this.pc = 0;
        return;
      }
      case SK.FunctionDeclaration: case SK.InterfaceDeclaration: case SK.TypeAliasDeclaration: case SK.EmptyStatement: case SK.EnumDeclaration: return;
      case SK.ClassDeclaration: {
        const sym = n.name && this.checker.getSymbolAtLocation(n.name);
        if (sym) env.vars.set(sym, { v: this.one(this.classLeaf(n, env)), g: this.pc });
        return;
      }
      default: this.warn(n, "stmt");
    }
  },
  varDecl(d, env) {
    const v = d.initializer ? this.ev(d.initializer, env) : this.UNDEF;
    this.bind(d.name, v, env, true);
  },
  tryStmt(n, env) {
    const f = this.frames[this.frames.length - 1];
    const snapRet = f.ret;
    const lab = this.labels.map((L) => ({ L, brk: L.brk, cont: L.cont }));
    const h = { g: 0, v: this.UNDEF };
    this.handlers.push(h);
    this.stmt(n.tryBlock, env);
    this.handlers.pop();
    let normal = this.pc;
    let exc = { g: h.g, v: h.v };
    if (n.catchClause && h.g !== 0) {
      const h2 = { g: 0, v: this.UNDEF };
      this.handlers.push(h2);
      this.pc = h.g;
      const e = this.child(env);
      if (n.catchClause.variableDeclaration) this.bind(n.catchClause.variableDeclaration.name, this.at(h.v), e, true);
      this.stmt(n.catchClause.block, e);
      this.handlers.pop();
      normal = this.bdd.or(normal, this.pc);
      exc = { g: h2.g, v: h2.v };
    }
    if (n.finallyBlock) {
      const b = this.bdd;
      const retNew = b.and(f.ret.g, b.not(snapRet.g));
      const jumps = lab.map(({ L, brk, cont }) => ({ L, brk: b.and(L.brk, b.not(brk)), cont: b.and(L.cont, b.not(cont)) }));
      const savedRet = f.ret;
      const enter = b.orAll([normal, exc.g, retNew, ...jumps.flatMap((j) => [j.brk, j.cont])]);
      this.pc = enter;
      this.stmt(n.finallyBlock, env);
      const out = this.pc; // survived the finally block normally
      const lost = b.and(enter, b.not(out));
      if (lost !== 0) {
        // overridden completions: the earlier return/jump no longer happens under `lost`
        const own = b.and(f.ret.g, b.not(savedRet.g)); // returns made by the finally block
        this.set(f, "ret", { g: b.or(b.and(savedRet.g, b.not(b.and(lost, retNew))), b.or(own, b.and(lost, b.and(f.ret.g, b.not(retNew))))), v: f.ret.v });
        for (const j of jumps) {
          if (b.and(j.brk, lost) !== 0) this.set(j.L, "brk", b.and(j.L.brk, b.not(b.and(lost, j.brk))));
          if (b.and(j.cont, lost) !== 0) this.set(j.L, "cont", b.and(j.L.cont, b.not(b.and(lost, j.cont))));
        }
      }
      this.pc = b.and(exc.g, out);
      if (this.pc !== 0) this.throwUnder(1, exc.v);
      this.pc = b.and(normal, out);
    } else {
      this.pc = exc.g;
      if (exc.g !== 0) this.throwUnder(1, exc.v);
      this.pc = normal;
    }
  },
  switchStmt(n, env) {
    const v = this.ev(n.expression, env);
    const L = { brk: 0, cont: 0, name: this.takeLabel() };
    this.labels.push(L);
    const e = this.child(env);
    const pc0 = this.pc;
    // which clause is entered
    let rem = pc0;
    const entry = new Map();
    let def = null;
    for (const c of n.caseBlock.clauses) {
      if (ts.isDefaultClause(c)) { def = c; continue; }
      this.pc = rem;
      if (rem === 0) { entry.set(c, 0); continue; }
      const g = this.eq(v, this.ev(c.expression, env));
      entry.set(c, this.bdd.and(rem, g));
      rem = this.bdd.and(rem, this.bdd.not(g));
    }
    if (def) entry.set(def, rem);
    this.pc = 0;
    for (const c of n.caseBlock.clauses) {
      this.pc = this.bdd.or(this.pc, entry.get(c) ?? 0);
      if (this.pc !== 0) { this.hoist(c.statements, e); this.block(c.statements, e); }
    }
    this.labels.pop();
    this.pc = this.bdd.orAll([this.pc, L.brk, def ? 0 : rem]);
  },
  takeLabel() { const x = this.nextLabel; this.nextLabel = undefined; return x; },
  // run one loop body instance with its own continue handling; returns nothing, pc = fallthrough|continue
  bodyOnce(L, f) {
    L.cont = 0;
    f();
    this.pc = this.bdd.or(this.pc, L.cont);
    this.set(L, "cont", 0);
  },
  forOf(n, env) {
    const src = this.ev(n.expression, env);
    const L = { brk: 0, cont: 0, loop: true, name: this.takeLabel() };
    this.labels.push(L);
    const isAwait = !!n.awaitModifier;
    this.iterate(src, n, (elem) => {
      const e = this.child(env);
      let el = elem;
      if (isAwait) el = this.settle(el);
      if (ts.isVariableDeclarationList(n.initializer)) this.bind(n.initializer.declarations[0].name, el, e, true);
      else this.assignTo(n.initializer, el, env);
      this.bodyOnce(L, () => this.stmt(n.statement, e));
    }, this.tyOf(ts.isVariableDeclarationList(n.initializer) ? n.initializer.declarations[0].name : n.initializer));
    this.labels.pop();
    this.pc = this.bdd.or(this.pc, L.brk);
  },
  forIn(n, env) {
    const o = this.ev(n.expression, env);
    const keys = this.objKeys(o, n);
    const L = { brk: 0, cont: 0, loop: true, name: this.takeLabel() };
    this.labels.push(L);
    this.iterate(keys, n, (elem) => {
      const e = this.child(env);
      if (ts.isVariableDeclarationList(n.initializer)) this.bind(n.initializer.declarations[0].name, elem, e, true);
      else this.assignTo(n.initializer, elem, env);
      this.bodyOnce(L, () => this.stmt(n.statement, e));
    });
    this.labels.pop();
    this.pc = this.bdd.or(this.pc, L.brk);
  },
  // index loop over an array expression?
  indexPattern(cond, incr, body, env, varSym) {
    if (!cond || !ts.isBinaryExpression(cond)) return null;
    let l = cond.left, r = cond.right, op = cond.operatorToken.kind;
    if (op === SK.GreaterThanToken) { [l, r] = [r, l]; op = SK.LessThanToken; }
    if (op !== SK.LessThanToken && op !== SK.ExclamationEqualsEqualsToken) return null;
    if (!ts.isIdentifier(l)) return null;
    const sym = this.checker.getSymbolAtLocation(l);
    if (varSym && sym !== varSym) return null;
    let arr = null;
    if (ts.isPropertyAccessExpression(r) && r.name.text === "length") arr = r.expression;
    else if (ts.isIdentifier(r)) {
      const s = this.checker.getSymbolAtLocation(r);
      const d = s?.valueDeclaration;
      if (d && ts.isVariableDeclaration(d) && d.initializer && ts.isPropertyAccessExpression(d.initializer) && d.initializer.name.text === "length") arr = d.initializer.expression;
    }
    if (!arr) return null;
    let e = incr;
    if (!e) return null;
    const isInc = (ts.isPostfixUnaryExpression(e) || ts.isPrefixUnaryExpression(e)) && e.operator === SK.PlusPlusToken ? e.operand
      : ts.isBinaryExpression(e) && e.operatorToken.kind === SK.PlusEqualsToken && e.right.getText() === "1" ? e.left
        : ts.isBinaryExpression(e) && e.operatorToken.kind === SK.EqualsToken && /^\w+ \+ 1$/.test(e.right.getText()) ? e.left : null;
    if (!isInc || !ts.isIdentifier(isInc) || this.checker.getSymbolAtLocation(isInc) !== sym) return null;
    // index not assigned in the body
    let bad = false;
    const scan = (x) => {
      if (x === e) return;
      if (ts.isIdentifier(x) && this.checker.getSymbolAtLocation(x) === sym) {
        const p = x.parent;
        if ((ts.isPrefixUnaryExpression(p) || ts.isPostfixUnaryExpression(p)) && (p.operator === SK.PlusPlusToken || p.operator === SK.MinusMinusToken)) bad = true;
        if (ts.isBinaryExpression(p) && p.left === x && p.operatorToken.kind >= SK.FirstAssignment && p.operatorToken.kind <= SK.LastAssignment) bad = true;
      }
      ts.forEachChild(x, scan);
    };
    for (const b of body) scan(b);
    if (bad) return null;
    return { arr, sym };
  },
  forStmt(n, env) {
    const e = this.child(env);
    if (n.initializer) {
      if (ts.isVariableDeclarationList(n.initializer)) for (const d of n.initializer.declarations) this.varDecl(d, e);
      else this.ev(n.initializer, e);
    }
    const idx = this.indexPattern(n.condition, n.incrementor, [n.statement], e);
    if (idx) {
      const c = this.lookupCell(idx.sym, e);
      const k = c && this.constOf(c.v);
      if (k && k.v === 0) {
        const L = { brk: 0, cont: 0, loop: true, name: this.takeLabel() };
        this.labels.push(L);
        const src = this.ev(idx.arr, e);
        this.iterate(src, n, (elem, index) => {
          const e2 = this.child(e);
          e2.vars.set(idx.sym, { v: index, g: this.pc, name: idx.sym.name, born: ++this.heapN });
          this.bodyOnce(L, () => this.stmt(n.statement, e2));
        });
        this.labels.pop();
        this.pc = this.bdd.or(this.pc, L.brk);
        return;
      }
    }
    this.whileStmt(n, n.condition, n.statement, n.incrementor, e);
  },
  whileStmt(n, cond, body, incr, env) {
    const L = { brk: 0, cont: 0, loop: true, name: this.takeLabel() };
    if (!incr && cond && ts.isBlock(body)) {
      const last = body.statements[body.statements.length - 1];
      const lastE = last && ts.isExpressionStatement(last) ? last.expression : null;
      const idx = lastE && !/\bcontinue\b/.test(body.getText()) ? this.indexPattern(cond, lastE, body.statements.slice(0, -1), env) : null;
      const c = idx && this.lookupCell(idx.sym, env);
      const k = c && c.v && this.constOf(c.v);
      if (k && k.v === 0) {
        this.labels.push(L);
        const src = this.ev(idx.arr, env);
        this.iterate(src, n, (elem, index) => {
          const e2 = this.child(env);
          e2.vars.set(idx.sym, { v: index, g: this.pc, name: idx.sym.name, born: ++this.heapN });
          this.bodyOnce(L, () => { const e3 = this.child(e2); this.block(body.statements.slice(0, -1), e3); });
        });
        this.labels.pop();
        this.setCell(c, this.s("len", [this.freeze(src)]));
        this.pc = this.bdd.or(this.pc, L.brk);
        return;
      }
    }
    this.labels.push(L);
    // bounded unrolling while the condition stays decided or the path dies
    const evCond = () => (cond ? this.truth(this.ev(cond, env)) : 1);
    let done = false;
    const max = this.opts.unroll ?? 16;
    if (!this.noUnroll?.has(n)) {
      const j = [];
      const outer = this.journal;
      this.journal = j;
      const evLen = this.events.length, pc0 = this.pc, evN = this.evN;
      let exit = 0;
      let i = 0;
      let ok = true;
      for (; i < max; i++) {
        const c = evCond();
        if (i === 0 && c !== 1) { ok = c === 0; if (ok) { exit = this.pc; this.pc = 0; } break; }
        exit = this.bdd.or(exit, this.bdd.and(this.pc, this.bdd.not(c)));
        this.pc = this.bdd.and(this.pc, c);
        if (this.pc === 0) break;
        this.bodyOnce(L, () => this.stmt(body, this.child(env)));
        if (this.pc === 0) { break; }
        if (incr) this.ev(incr, env);
      }
      if (i === max) ok = false;
      this.journal = outer;
      if (ok) {
        if (outer) for (const u of j) outer.push(u);
        this.pc = this.bdd.or(exit, L.brk);
        done = true;
      } else {
        for (let k = j.length - 1; k >= 0; k--) j[k]();
        this.events.length = evLen;
        this.evN = evN;
        this.pc = pc0;
        L.brk = 0; L.cont = 0;
      }
    }
    if (!done) {
      let exitG = 0;
      this.generic(`while:${loc(n)}:${this.frames.length}`, n, "while", null, () => {
        const c = evCond();
        exitG = this.bdd.not(c);
        this.pc = this.bdd.and(this.pc, c);
        if (this.pc !== 0) this.bodyOnce(L, () => this.stmt(body, this.child(env)));
        if (this.pc !== 0 && incr) this.ev(incr, env);
      }, { infinite: !cond || cond.kind === SK.TrueKeyword, L });
    }
    this.labels.pop();
  },
  doStmt(n, env) {
    const L = { brk: 0, cont: 0, loop: true, name: this.takeLabel() };
    this.labels.push(L);
    const max = this.opts.unroll ?? 16;
    const j = [];
    const outer = this.journal;
    this.journal = j;
    const evLen = this.events.length, pc0 = this.pc, evN = this.evN;
    let exit = 0, i = 0;
    for (; i < max; i++) {
      this.bodyOnce(L, () => this.stmt(n.statement, this.child(env)));
      if (this.pc === 0) break;
      const c = this.truth(this.ev(n.expression, env));
      exit = this.bdd.or(exit, this.bdd.and(this.pc, this.bdd.not(c)));
      this.pc = this.bdd.and(this.pc, c);
      if (this.pc === 0) break;
    }
    this.journal = outer;
    if (i < max) {
      if (outer) for (const u of j) outer.push(u);
      this.pc = this.bdd.or(exit, L.brk);
    } else {
      for (let k = j.length - 1; k >= 0; k--) j[k]();
      this.events.length = evLen;
      this.evN = evN;
      this.pc = pc0;
      L.brk = 0; L.cont = 0;
      this.generic(`do:${loc(n)}:${this.frames.length}`, n, "do", null, () => {
        this.bodyOnce(L, () => this.stmt(n.statement, this.child(env)));
        if (this.pc !== 0) this.ev(n.expression, env);
      }, { L, atLeastOnce: true });
    }
    this.labels.pop();
  },
  // ---- iteration over a collection value. f(elem, index)
  iterate(src, node, f, ty) {
    src = this.at(src);
    const pc0 = this.pc;
    let out = 0;
    const b = this.bdd;
    for (const a of src.alts) {
      this.pc = b.and(pc0, a.g);
      if (this.pc === 0) continue;
      this.iterateLeaf(a.l, node, f, ty);
      out = b.or(out, this.pc);
    }
    this.pc = out;
  },
  iterateLeaf(l, node, f, ty) {
    const b = this.bdd;
    if (l.t === "c") {
      if (typeof l.v === "string") { [...l.v].forEach((ch, i) => { if (this.pc) f(this.c(ch), this.c(i)); }); return; }
      this.typeError(node, "iterate non-iterable");
      return;
    }
    if (l.t === "o" && (l.rec.kind === "array" || l.rec.kind === "set" || l.rec.kind === "map")) {
      const items = l.rec.kind === "array" ? [...l.rec.items] : l.rec.entries.map((e) => (l.rec.kind === "set" ? { g: e.g, v: e.key, each: e.each } : { g: e.g, v: this.tuple([e.key, e.v]), each: e.each }));
      const simple = items.every((i) => i.g === 1 && !i.each && !i.spread);
      items.forEach((it, i) => {
        if (this.pc === 0) return;
        const pc0 = this.pc;
        this.pc = b.and(pc0, it.g);
        if (this.pc === 0) { this.pc = pc0; return; }
        const rest = b.and(pc0, b.not(it.g));
        const index = simple ? this.c(i) : this.s("idx", [this.one(l), i]);
        if (it.spread) this.iterate(it.v, node, (el) => f(el, index), ty);
        else if (it.each) this.generic(it.each.key, node, "each", it.each, () => f(it.v, index), {});
        else f(it.v, index);
        this.pc = b.or(this.pc, rest);
      });
      if (l.rec.open) this.genericOver(l, node, f, ty);
      return;
    }
    this.genericOver(l, node, f, ty);
  },
  genericOver(l, node, f, ty) {
    const fr = this.freezeLeaf(l, 0);
    const depth = this.regions.filter((r) => r.kind === "loop" && r.src === fr).length;
    const key = `each:${fr.id}:${depth}`;
    const elTy = ty ?? this.elemType(l.ty);
    const each = { key, src: this.one(fr), srcLeaf: fr };
    this.generic(key, node, "each", each, () => {
      const elem = this.s("elem", [this.one(fr), depth], elTy);
      const idx = this.s("eidx", [this.one(fr), depth]);
      f(elem, idx);
    }, {});
  },
  elemType(ty) {
    if (!ty) return undefined;
    try { return this.checker.getIndexTypeOfType(ty, ts.IndexKind.Number) ?? undefined; } catch { return undefined; }
  },
  // Generic loop: one abstract iteration with loop-carried state.
  generic(key, node, kind, each, body, o) {
    this.stats.loops++;
    const b = this.bdd;
    const pc0 = this.pc;
    const f = this.frames[this.frames.length - 1];
    const nonEmpty = o.infinite || o.atLeastOnce ? 1 : this.atom(`iter:${key}`, { kind: "iter", each, text: `iterates(${each ? this.show(each.src) : key})` });
    const region = { kind: "loop", key, each, src: each?.srcLeaf, node };
    // pass 1: find the loop-carried locations
    const outerJ = this.journal, outerW = this.writes;
    const heap0 = this.heapN;
    let carried = [], leaves = false;
    for (let round = 0; round < 3; round++) {
      const r0 = f.ret.g, br0 = this.labels.map((L) => [L, L.brk]);
      const j = (this.journal = []);
      const w = (this.writes = []);
      const evLen = this.events.length, evN = this.evN, warnStats = { ...this.stats };
      this.havoc(carried, key, pc0);
      this.pc = b.and(pc0, nonEmpty);
      this.regions.push(region);
      body();
      this.regions.pop();
      // a loop that may be left before its last element: elements after that are never reached
      leaves = f.ret.g !== r0 || br0.some(([L, g]) => L.brk !== g);
      for (let k = j.length - 1; k >= 0; k--) j[k]();
      this.events.length = evLen;
      this.evN = evN;
      this.stats = { ...warnStats };
      const fresh = [];
      for (const x of w) {
        if (x.kind === "prop" && x.rec.hid > heap0) continue;
        if (x.kind === "cell" && x.cell.born && x.cell.born > heap0) continue;
        if ([...carried, ...fresh].some((y) => y.kind === x.kind && y.cell === x.cell && y.rec === x.rec && y.key === x.key)) continue;
        if (x.kind === "cell" && !this.cellAlive(x.cell, pc0)) continue;
        fresh.push(x);
      }
      if (!fresh.length) break;
      carried = [...carried, ...fresh];
    }
    this.journal = outerJ; this.writes = outerW;
    // pass 2: the real iteration
    const pre = carried.map((x) => (x.kind === "cell" ? x.cell.v : x.rec.props.get(x.key)));
    this.pc = pc0;
    this.havoc(carried, key, pc0);
    const vars = carried.map((x) => (x.kind === "cell" ? x.cell.v : x.rec.props.get(x.key)?.v));
    const h = this.handlers[this.handlers.length - 1];
    const snap = { ret: f.ret, hg: h.g, hv: h.v, labs: this.labels.map((L) => ({ L, brk: L.brk, cont: L.cont })) };
    const early = each && leaves && b.and(pc0, nonEmpty) !== 0 ? (this.atom(`reached:${key}:${loc(node)}`, { kind: "reached", each, loopKey: key, text: `reached(${this.show(each.src)})` }), this.atomTab.get(`reached:${key}:${loc(node)}`)) : undefined;
    this.pc = early === undefined ? b.and(pc0, nonEmpty) : b.andAll([pc0, nonEmpty, b.varNode(early)]);
    const there = (g) => (early === undefined ? g : b.assign(g, (v) => (v === early ? 1 : undefined)));
    this.regions.push(region);
    const arrays = this.trackArrays();
    body();
    this.markEach(arrays, { ...(each ?? { key, src: this.s("loop", [key]) }) }, heap0, nonEmpty, pc0);
    this.regions.pop();
    const endPc = this.pc;
    // exits out of the loop become existential
    const EX = (g) => {
      if (g === 0) return 0;
      const r = there(b.restrict(g, pc0));
      return b.and(pc0, r === 1 ? 1 : this.exists(key, each, r));
    };
    let exits = 0;
    const retNew = b.and(f.ret.g, b.not(snap.ret.g));
    if (retNew !== 0) {
      const alts = f.ret.v.alts.map((a) => ({ l: a.l, g: b.and(a.g, retNew) })).filter((a) => a.g !== 0);
      const g = EX(retNew);
      let v = this.mkVal(alts.length === 1 ? [{ l: alts[0].l, g: 1 }] : alts.map((a) => ({ l: a.l, g: EX(a.g) })));
      this.set(f, "ret", { g: b.or(snap.ret.g, g), v: snap.ret.g === 0 ? v : this.ite(g, v, snap.ret.v) });
      exits = b.or(exits, g);
    }
    const thNew = b.and(h.g, b.not(snap.hg));
    if (thNew !== 0) {
      const alts = h.v.alts.map((a) => ({ l: a.l, g: b.and(a.g, thNew) })).filter((a) => a.g !== 0);
      const g = EX(thNew);
      const v = this.mkVal(alts.length === 1 ? [{ l: alts[0].l, g: 1 }] : alts.map((a) => ({ l: a.l, g: EX(a.g) })));
      this.set(h, "g", b.or(snap.hg, g));
      this.set(h, "v", snap.hg === 0 ? v : this.ite(g, v, snap.hv));
      exits = b.or(exits, g);
    }
    let ownBrk = 0;
    for (const { L, brk, cont } of snap.labs) {
      const nb = b.and(L.brk, b.not(brk));
      if (nb !== 0) {
        const g = EX(nb);
        if (L === o.L || L === this.labels[this.labels.length - 1]) { ownBrk = b.or(ownBrk, g); this.set(L, "brk", brk); }
        else { this.set(L, "brk", b.or(brk, g)); exits = b.or(exits, g); }
      }
      if (L !== o.L) {
        const nc = b.and(L.cont, b.not(cont));
        if (nc !== 0 && L !== this.labels[this.labels.length - 1]) { const g = EX(nc); this.set(L, "cont", b.or(cont, g)); exits = b.or(exits, g); }
      }
    }
    this.pc = o.infinite ? b.and(ownBrk, pc0) : b.and(pc0, b.not(exits));
    // loop-carried results
    const gone = there(b.and(b.and(pc0, nonEmpty), b.not(endPc)));
    carried.forEach((x, i) => {
      const cur = x.kind === "cell" ? x.cell.v : x.rec.props.get(x.key)?.v;
      if (cur === undefined) return;
      const p = x.kind === "cell" ? pre[i] : pre[i]?.v;
      const res = this.foldVal(key, each, i, p, vars[i], cur, pc0, nonEmpty, (g) => (early !== undefined && b.and(there(g), b.not(gone)) === 0 ? there(g) : g));
      if (x.kind === "cell") this.set(x.cell, "v", res);
      else this.mset(x.rec.props, x.key, { v: res, has: x.rec.props.get(x.key).has === 1 || pre[i]?.has === 1 ? 1 : this.exists(key, each, b.restrict(x.rec.props.get(x.key).has, pc0)) });
    });
  },
  cellAlive(cell) { return cell.v !== undefined; },
  havoc(carried, key, pc0) {
    carried.forEach((x, i) => {
      const v = this.s("loopvar", [key, i]);
      if (x.kind === "cell") this.set(x.cell, "v", v);
      else { const o = x.rec.props.get(x.key); this.mset(x.rec.props, x.key, { v, has: o ? 1 : 1 }); }
    });
  },
  foldVal(key, each, i, pre, lv, cur, pc0, nonEmpty, last = (g) => g) {
    const b = this.bdd;
    cur = this.mkVal(cur.alts.map((a) => ({ l: a.l, g: b.restrict(a.g, pc0) })));
    const lvLeaf = lv.alts[0].l;
    const other = cur.alts.filter((a) => a.l !== lvLeaf);
    if (!other.length) return pre ?? this.UNDEF;
    const dependsOnLv = (l, seen = new Set()) => {
      if (l === lvLeaf) return true;
      if (l.t !== "s" || seen.has(l)) return false;
      seen.add(l);
      return l.args.some((x) => x && typeof x === "object" && (x.alts ? x.alts.some((y) => dependsOnLv(y.l, seen)) : dependsOnLv(x, seen)));
    };
    if (other.length >= 1 && other.every((a) => !dependsOnLv(a.l)) && pre) {
      // flag pattern: constants (or loop-invariant / element values) assigned under a condition
      const alts = [];
      let used = 0;
      for (const a of other) {
        const g = this.exists(key, each, last(b.and(a.g, nonEmpty)));
        alts.push({ l: a.l, g });
        used = b.or(used, g);
      }
      for (const a of pre.alts) alts.push({ l: a.l, g: b.and(a.g, b.not(used)) });
      return this.mkVal(alts);
    }
    return this.s("fold", [each ? each.src : key, i, pre ?? this.UNDEF, cur], undefined, { lv: lvLeaf, each, loopKey: key });
  },
  exists(key, each, g) {
    if (g === 0) return 0;
    if (g === 1) return 1;
    const it = this.atomTab.get(`iter:${key}`);
    if (it !== undefined && g === this.bdd.varNode(it)) return g;
    return this.atom(`ex:${key}:${g}`, { kind: "exists", each, loopKey: key, g, text: `exists(${each ? this.show(each.src) : key}: ${this.showG(g, 2)})` });
  },
  // arrays/maps that existed before the loop and get entries added inside it
  trackArrays() { return (this.arrTrack = { prev: this.arrTrack, added: [] }); },
  markEach(t, each, heap0, nonEmpty, pc0) {
    this.arrTrack = t.prev;
    for (const it of t.added) {
      if (it.rec.hid > heap0) continue;
      it.item.each = it.item.each ? { ...it.item.each, outer: each } : each;
      it.item.g = this.bdd.restrict(it.item.g, pc0);
      if (t.prev) t.prev.added.push(it);
    }
  },
  pushItem(rec, item) {
    const g = this.bdd.restrict(this.pc, rec.g);
    const it = { ...item, g: this.bdd.and(item.g ?? 1, g) };
    this.push(rec.items, it);
    if (this.arrTrack) this.arrTrack.added.push({ rec, item: it });
    return it;
  },
  pushEntry(rec, item) {
    const g = this.bdd.restrict(this.pc, rec.g);
    const it = { ...item, g: this.bdd.and(item.g ?? 1, g) };
    this.push(rec.entries, it);
    if (this.arrTrack) this.arrTrack.added.push({ rec, item: it });
    return it;
  },
});
