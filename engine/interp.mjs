// Abstract interpreter: gated value-graph construction over the type-checked syntax tree.
// One abstract store; every statement is evaluated once per calling context under a path
// condition (guard). No path enumeration, no solver, nothing is executed.
import { Core } from "./core.mjs";
import { loc, rel, REPO, ts } from "./program.mjs";
import { installBuiltins } from "./builtins.mjs";
const SK = ts.SyntaxKind;

export class Interp extends Core {
  constructor(prog, opts = {}) {
    super();
    this.prog = prog.program;
    this.checker = prog.checker;
    this.opts = opts;
    this.events = [];
    this.initEvents = [];
    this.handlers = [];
    this.frames = [];
    this.labels = [];
    this.regions = [];
    this.chain = [];
    this.modCells = new Map();
    this.classLeaves = new Map();
    this.fnLeaves = new Map();
    this.unsupported = new Map();
    this.stats = { inlined: 0, opaque: 0, loops: 0, fns: new Set() };
    this.maxDepth = opts.maxDepth ?? 70;
    installBuiltins(this);
  }
  warn(node, what) {
    const k = `${what} ${SK[node.kind]}`;
    if (!this.unsupported.has(k)) this.unsupported.set(k, loc(node));
  }
  // ------------------------------------------------------------ program lookup
  file(relPath) {
    const f = this.prog.getSourceFile(`${REPO}/${relPath}`);
    if (!f) throw new Error(`ANCHOR missing file ${relPath}`);
    return f;
  }
  exported(relPath, name) {
    const sf = this.file(relPath);
    const ms = this.checker.getSymbolAtLocation(sf);
    const s = ms && this.checker.getExportsOfModule(ms).find((e) => e.name === name);
    if (!s) throw new Error(`ANCHOR missing export ${name} in ${relPath}`);
    return this.unalias(s);
  }
  unalias(s) {
    return s.flags & ts.SymbolFlags.Alias ? this.checker.getAliasedSymbol(s) : s;
  }
  valueOfExport(relPath, name) {
    return this.symbolValue(this.exported(relPath, name), null);
  }
  isProject(node) {
    const f = node.getSourceFile().fileName;
    return f.startsWith(REPO + "/") && !f.includes("/node_modules/") && !f.endsWith(".d.ts");
  }
  extKey(decl, name) {
    const f = decl.getSourceFile().fileName;
    const i = f.lastIndexOf("/node_modules/");
    if (i < 0) return f.endsWith(".d.ts") && f.startsWith(REPO) ? `${rel(f)}#${name}` : `lib#${name}`;
    let p = f.slice(i + 14);
    if (p.startsWith("typescript/lib/")) return `lib#${name}`;
    if (p.startsWith("@types/node/")) {
      const m = p.slice(12).replace(/\.d\.ts$/, "");
      if (m.startsWith("globals") || m.startsWith("web-globals")) return `lib#${name}`;
      if (["process", "console", "buffer"].includes(m)) return `lib#${name}`;
      if (m === "url" && (name === "URL" || name === "URLSearchParams")) return `lib#${name}`;
      if (m === "timers" && /^(set|clear)/.test(name)) return `lib#${name}`;
      return `node:${m}#${name}`;
    }
    if (p.startsWith("undici-types/")) return `lib#${name}`;
    const parts = p.split("/");
    let pkg = parts[0].startsWith("@") ? parts.slice(0, 2).join("/") : parts[0];
    if (pkg === "aws-cdk-lib" && parts[1]?.startsWith("aws-")) pkg += "/" + parts[1];
    if (pkg.startsWith("@types/")) pkg = pkg.slice(7);
    return `${pkg}#${name}`;
  }
  ext(key, sym, ty) {
    const l = this.leaf(`x:${key}`, () => ({ t: "x", xkey: key, name: key.replace(/^lib#/, ""), sym }));
    if (!l.ty && ty) l.ty = ty;
    return l;
  }
  // ------------------------------------------------------------ symbols -> values
  symbolValue(sym, node) {
    sym = this.unalias(sym);
    const d = sym.valueDeclaration || sym.declarations?.[0];
    if (!d) {
      return this.one(this.ext(`unresolved#${sym.escapedName}`, sym));
    }
    if (!this.isProject(d)) {
      const key = ts.isSourceFile(d) ? this.extKey(d, "*") : this.extKey(d, sym.name);
      return this.one(this.ext(key, sym));
    }
    if (ts.isFunctionDeclaration(d)) return this.one(this.fnLeaf(this.bodyDecl(sym, d), null));
    if (ts.isClassDeclaration(d)) return this.one(this.classLeaf(d, null));
    if (ts.isEnumDeclaration(d)) return this.enumVal(d);
    if (ts.isVariableDeclaration(d) || ts.isBindingElement(d)) return this.moduleVar(sym, d);
    if (ts.isExportAssignment(d)) return this.initModule(d, () => this.ev(d.expression, this.modEnv(d)));
    if (ts.isSourceFile(d) || ts.isModuleDeclaration(d)) return this.one(this.leaf(`ns:${rel(d.getSourceFile().fileName)}`, () => ({ t: "x", ns: sym, xkey: `ns#${rel(d.getSourceFile().fileName)}`, name: "ns" })));
    this.warn(d, "symbol");
    return this.s("sym", [sym.name + "@" + loc(d)]);
  }
  bodyDecl(sym, d) {
    return sym.declarations.find((x) => ts.isFunctionDeclaration(x) && x.body) || d;
  }
  modEnv(node) {
    const sf = node.getSourceFile();
    return { vars: new Map(), parent: null, sf, thisVal: this.UNDEF };
  }
  fnLeaf(node, env, thisVal, home) {
    if (!env && !home) {
      let l = this.fnLeaves.get(node);
      if (!l) {
        l = this.leaf(`f:${loc(node)}`, () => ({ t: "f", node, env: null, name: node.name?.text }));
        this.fnLeaves.set(node, l);
      }
      return l;
    }
    const n = ++this.heapN;
    return this.leaf(`f:${loc(node)}:${n}`, () => ({ t: "f", node, env, thisVal, home, name: node.name?.getText?.() }));
  }
  native(name, fn) {
    const n = ++this.heapN;
    return this.one(this.leaf(`n:${name}:${n}`, () => ({ t: "f", nat: fn, name })));
  }
  classLeaf(node, env) {
    let l = env ? null : this.classLeaves.get(node);
    if (!l) {
      l = this.leaf(`k:${loc(node)}${env ? ++this.heapN : ""}`, () => ({ t: "k", node, env, name: node.name?.text, statics: null }));
      if (!env) this.classLeaves.set(node, l);
    }
    return l;
  }
  enumVal(d) {
    const key = `enum:${loc(d)}`;
    let c = this.modCells.get(key);
    if (!c) {
      const pc = this.pc; this.pc = 1;
      const j = this.journal; this.journal = null;
      const w = this.writes; this.writes = null;
      c = this.alloc("object", { frozenEnum: true });
      for (const m of d.members) {
        const v = this.checker.getConstantValue(m);
        const n = m.name.text ?? m.name.getText();
        this.setProp(c, n, v === undefined ? this.s("enum", [d.name.text + "." + n]) : this.c(v));
        if (typeof v === "number") this.setProp(c, String(v), this.c(n));
      }
      this.pc = pc; this.journal = j; this.writes = w;
      this.modCells.set(key, c);
    }
    return c.val;
  }
  initModule(node, f) {
    const save = { pc: this.pc, j: this.journal, w: this.writes, ev: this.events, h: this.handlers, fr: this.frames, lb: this.labels, rg: this.regions, ch: this.chain, fu: this.futs };
    this.pc = 1; this.journal = null; this.writes = null; this.events = this.initEvents;
    this.handlers = [{ g: 0, v: this.UNDEF }]; this.frames = [{ node: null, name: `<init ${rel(node.getSourceFile().fileName)}>`, ret: { g: 0, v: this.UNDEF } }]; this.labels = []; this.regions = []; this.chain = []; this.futs = [{ sink: true, cons: [] }];
    try {
      return f();
    } finally {
      this.pc = save.pc; this.journal = save.j; this.writes = save.w; this.events = save.ev; this.handlers = save.h; this.frames = save.fr; this.labels = save.lb; this.regions = save.rg; this.chain = save.ch; this.futs = save.fu;
    }
  }
  moduleVar(sym, d) {
    let c = this.modCells.get(sym);
    if (c) return c.v ?? this.UNDEF;
    c = { v: undefined, g: 1, name: sym.name, mod: true };
    this.modCells.set(sym, c);
    let vd = d;
    while (!ts.isVariableDeclaration(vd)) vd = vd.parent;
    const isConst = (ts.getCombinedNodeFlags(vd) & ts.NodeFlags.Const) !== 0;
    const ty = this.checker.getTypeOfSymbol(sym);
    const ov = this.opts.globals?.(sym, d, this);
    if (ov) { c.v = ov; c.fixed = true; return ov; }
    if (!isConst) {
      c.v = this.s("glob", [`${rel(d.getSourceFile().fileName)}#${sym.name}`], ty);
      return c.v;
    }
    if (!vd.initializer) { c.v = this.s("glob", [`${rel(d.getSourceFile().fileName)}#${sym.name}`], ty); return c.v; }
    if (ts.isBindingElement(d)) {
      this.initModule(d, () => {
        const env = this.modEnv(d);
        this.bind(vd.name, this.ev(vd.initializer, env), env, true, (s2, v) => {
          let c2 = this.modCells.get(s2);
          if (!c2) this.modCells.set(s2, (c2 = { g: 1, name: s2.name, mod: true }));
          c2.v = v;
        });
      });
      return c.v ?? this.UNDEF;
    }
    c.v = this.initModule(d, () => this.ev(vd.initializer, this.modEnv(d)));
    return c.v;
  }
  // while this work waits, other work may write the variables of a module that can be reassigned (unless option `shared` is false)
  otherWork() {
    for (const [sym, c] of this.modCells) {
      const d = sym.valueDeclaration;
      if (c.v === undefined || c.fixed || !d || !ts.isVariableDeclaration(d) || (ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const)) continue;
      this.setCell(c, this.s("shared", [sym.name, `w${(this.waitN = (this.waitN ?? 0) + 1)}`], this.checker.getTypeOfSymbol(sym)));
    }
  }
  lookupCell(sym, env) {
    for (let e = env; e; e = e.parent) {
      const c = e.vars.get(sym);
      if (c) return c;
    }
    return undefined;
  }
  idValue(node, env) {
    if (node.text === "undefined") return this.UNDEF;
    let sym = ts.isShorthandPropertyAssignment(node.parent) && node.parent.name === node ? this.checker.getShorthandAssignmentValueSymbol(node.parent) : this.checker.getSymbolAtLocation(node);
    if (!sym) {
      this.warn(node, "nosym");
      return this.one(this.ext(`unresolved#${node.text}`));
    }
    const c = this.lookupCell(sym, env);
    if (c) return this.at(c.v ?? this.UNDEF);
    if (sym.flags & ts.SymbolFlags.Alias) {
      const imp = sym;
      const a = this.checker.getAliasedSymbol(sym);
      if (!a.declarations?.length) return this.one(this.ext(this.importKey(imp), imp));
      sym = a;
    }
    if (node.text === "NaN") return this.c(NaN);
    if (node.text === "Infinity") return this.c(Infinity);
    const d = sym.valueDeclaration || sym.declarations?.[0];
    if (d && this.isProject(d)) {
      if (ts.isFunctionDeclaration(d) && !ts.isSourceFile(d.parent)) {
        const fenv = env;
        return this.one(this.fnLeaf(this.bodyDecl(sym, d), fenv, env?.thisVal));
      }
      if (ts.isParameter(d)) return this.s("freeparam", [loc(d)], this.checker.getTypeOfSymbol(sym));
    }
    return this.symbolValue(sym, node);
  }
  importKey(sym) {
    const d = sym.declarations?.[0];
    let n = d;
    while (n && !ts.isImportDeclaration(n) && !ts.isImportEqualsDeclaration(n) && !ts.isExportDeclaration(n)) n = n.parent;
    const spec = n?.moduleSpecifier?.text ?? n?.moduleReference?.expression?.text ?? "unresolved";
    let name = sym.name;
    if (d && ts.isImportSpecifier(d)) name = (d.propertyName ?? d.name).text;
    else if (d && ts.isImportClause(d)) name = "default";
    else if (d && ts.isNamespaceImport(d)) name = "*";
    return `${spec}#${name}`;
  }
  tyOf(node) {
    try { return this.checker.getTypeAtLocation(node); } catch { return undefined; }
  }
  propTy(node) { // declared (un-narrowed) type of a property access
    try {
      const s = this.checker.getSymbolAtLocation(ts.isPropertyAccessExpression(node) ? node.name : node);
      if (s && s.flags & (ts.SymbolFlags.Property | ts.SymbolFlags.Accessor)) return this.checker.getTypeOfSymbol(s);
      return this.checker.getTypeAtLocation(node);
    } catch { return undefined; }
  }
  // ------------------------------------------------------------ entry points
  top() {
    this.pc = 1;
    this.events = [];
    this.handlers = [{ g: 0, v: this.UNDEF }];
    this.frames = [{ node: null, name: "<entry>", ret: { g: 0, v: this.UNDEF } }];
    this.labels = []; this.regions = []; this.chain = [];
    this.futs = [{ sink: true, cons: [] }];
  }
  // promise consumption: which future waits for promise p (so that a floating promise can be told apart)
  consume(p) {
    p.used = true;
    this.push((p.cons ??= []), { g: this.pc, q: this.futs[this.futs.length - 1], at: this.events.length });
  }
  waited(p, seen = new Set()) {
    if (p.sink) return 1;
    if (seen.has(p)) return 0;
    seen.add(p);
    let r = 0;
    for (const c of p.cons ?? []) r = this.bdd.or(r, this.bdd.and(c.g, this.waited(c.q, seen)));
    seen.delete(p);
    return r;
  }
  // guard under which promise p has settled by the time event e happens
  settledBefore(p, e, idx = this.events.indexOf(e), seen = new Set()) {
    if (seen.has(p)) return 0;
    seen.add(p);
    let r = 0;
    for (const c of p.cons ?? []) {
      if (c.at === undefined || c.at > idx) continue;
      r = this.bdd.or(r, e.futs.includes(c.q) ? c.g : this.bdd.and(c.g, this.settledBefore(c.q, e, idx, seen)));
    }
    seen.delete(p);
    return r;
  }
  input(name, ty) { return this.s("in", [name], ty); }
  paramInputs(node, prefix = "", names = []) {
    return node.parameters.map((p, i) => {
      const nm = names[i] ?? (ts.isIdentifier(p.name) ? p.name.text : `arg${i}`);
      let ty = this.checker.getTypeAtLocation(p);
      if (p.questionToken || p.initializer) ty = this.checker.getUnionType ? this.checker.getUnionType([ty, this.checker.getUndefinedType()]) : undefined;
      if (p.dotDotDotToken) return { spread: this.input(prefix + nm, ty) };
      return this.input(prefix + nm, ty);
    });
  }
  run(f) {
    this.top();
    const v = f();
    const h = this.handlers[0];
    return this.finishRun(v, h);
  }
  finishRun(v, h) {
    return { value: this.at(v), events: this.events, retG: this.pc, throwG: h.g, throwV: h.v };
  }
  // Run a function value; if it is async (returns a promise) report its settlement.
  runFn(fnVal, args, thisVal = this.UNDEF) {
    return this.run(() => {
      const r = this.call(fnVal, thisVal, args, null);
      return this.settle(r);
    });
  }
  settle(v) {
    v = this.at(v);
    return this.over(v, (l) => (l.t === "o" && l.rec.kind === "promise" ? this.awaitLeaf(l, null) : this.one(l)));
  }
  // ------------------------------------------------------------ exceptions and events
  throwUnder(g, val) {
    g = this.bdd.and(g, this.pc);
    if (g === 0) return;
    const h = this.handlers[this.handlers.length - 1];
    this.set(h, "v", h.g === 0 ? val : this.ite(g, val, h.v));
    this.set(h, "g", this.bdd.or(h.g, g));
    this.pc = this.bdd.and(this.pc, this.bdd.not(g));
  }
  fnName() { return this.frames.map((f) => f.name).filter(Boolean); }
  event(kind, props, node) {
    const e = { id: `e${(this.evN = (this.evN ?? 0) + 1)}`, kind, g: this.pc, node, at: node ? loc(node) : "?", stack: this.fnName(), regions: [...this.regions], futs: [...this.futs], cbs: [], ...props };
    e.label = `${e.name ?? kind}@${e.at.split("/").pop().replace(/:\d+$/, "")}`;
    this.push(this.events, e);
    return e;
  }
  // opaque (external) call
  opaque(kind, props, args, node, o = {}) {
    this.stats.opaque++;
    const fargs = args.map((a) => (a.spread ? this.s("spread", [this.freeze(a.spread)]) : this.freeze(a)));
    const ty = o.ty ?? (node ? this.tyOf(node) : undefined);
    const e = this.event(kind, { ...props, args, fargs }, node);
    for (const a of args) for (const x of this.at(a.spread ?? a).alts) if (x.l.t === "o" && x.l.rec.kind === "promise") this.push((x.l.rec.cons ??= []), { g: this.pc, q: { sink: true } });
    const ov = this.opts.onOpaque?.(e, this);
    if (o.pure || ov?.pure) e.pure = true;
    // callbacks handed to external code may be invoked by it
    if (!o.noCallbacks && !ov?.noCallbacks) args.forEach((a, i) => this.callbacks(e, a.spread ?? a, String(i)));
    const noThrow = o.noThrow || ov?.noThrow || this.noThrowDefault(e);
    const isPromise = o.promise ?? ov?.promise ?? (ty && this.isPromiseType(ty));
    let res = ov?.value;
    if (res) { /* given */ }
    else if (o.pure) res = this.s(`ext:${props.name}`, [...(props.recv ? [this.freeze(props.recv)] : []), ...fargs], ty, { ev: e });
    else res = this.s("res", [e.id], isPromise ? this.awaitedType(ty) : ty, { ev: e });
    e.res = res;
    if (!noThrow) {
      const T = this.atom(`throw:${e.id}`, { kind: "throw", ev: e });
      e.T = T;
      const err = this.s("err", [e.id], undefined, { ev: e });
      e.err = err;
      if (!isPromise) this.throwUnder(T, err);
    }
    if (isPromise) {
      const p = this.alloc("promise", { pv: res, rejG: e.T ?? 0, rejV: e.err ?? this.UNDEF, ev: e });
      e.promise = p;
      return p.val;
    }
    return res;
  }
  noThrowDefault(e) {
    const k = e.owner ?? "";
    if (this.opts.noThrow?.(e)) return true;
    if (/^(aws-cdk-lib|constructs)/.test(k) || /^(aws-cdk-lib|constructs)/.test(e.name ?? "")) return true;
    if (/^lib#(Console|console|Math|Array|String|Date|Number|Object|Map|Set|NodeJS|process|Promise)/.test(k)) return true;
    return false;
  }
  callbacks(e, val, path, depth = 0) {
    for (const a of this.at(val).alts) {
      const l = a.l;
      if (l.t === "f" && (l.nat ? l.settler : l.node?.body || l.bound)) {
        const i = e.cbs.length;
        const A = this.atom(`cb:${e.id}:${path}:${l.id}`, { kind: "cb", ev: e, text: `callback ${path} of ${e.label} runs` });
        const pc0 = this.pc;
        this.pc = this.bdd.andAll([pc0, a.g, A]);
        if (this.pc === 0) { this.pc = pc0; continue; }
        const cb = { path, leaf: l, atom: A, params: [] };
        this.push(e.cbs, cb);
        this.handlers.push({ g: 0, v: this.UNDEF });
        this.futs.push({ sink: true, cons: [] });
        this.regions.push({ kind: "cb", ev: e, path });
        const sl = this.labels; this.labels = [];
        const node = l.node;
        const n = node ? node.parameters.length : 0;
        const cargs = [];
        for (let k = 0; k < n; k++) {
          const p = node.parameters[k];
          const v = this.s("cbparam", [e.id, path, k], this.checker.getTypeAtLocation(p), { ev: e });
          cargs.push(p.dotDotDotToken ? { spread: v } : v);
        }
        if (l.nat && !/lib#timers/.test(e.owner ?? "")) cargs.push(this.s("cbparam", [e.id, path, 0], undefined, { ev: e }));
        cb.params = cargs;
        cb.ret = l.nat ? l.nat(cargs, this.UNDEF, e.node ?? null) : this.invoke(l, this.UNDEF, cargs, node);
        cb.endG = this.pc;
        const h = this.handlers.pop();
        cb.throwG = h.g; cb.throwV = h.v;
        if (cb.endG) { for (const x of this.at(cb.ret, cb.endG).alts) if (x.l.t === "o" && x.l.rec.kind === "promise") this.consume(x.l.rec); }
        this.regions.pop();
        this.futs.pop();
        this.labels = sl;
        this.pc = pc0;
      } else if (l.t === "o" && depth < 2 && l.rec.kind === "object") {
        for (const [k, p] of l.rec.props) this.callbacks(e, p.v, `${path}.${k}`, depth + 1);
      } else if (l.t === "o" && depth < 2 && l.rec.kind === "array") {
        l.rec.items.forEach((it, k) => this.callbacks(e, it.v, `${path}.${k}`, depth + 1));
      }
    }
  }
  isPromiseType(ty) {
    if (ty.isUnion?.() || ty.isIntersection?.()) return ty.types.some((t) => this.isPromiseType(t));
    const n = ty.symbol?.name;
    if (n === "Promise" || n === "PromiseLike" || n === "ResponsePromise" || n === "ITask") return true;
    if (n === "Request" || !ty.symbol) return false;
    const bases = ty.getBaseTypes?.();
    return !!bases && bases.some((b) => this.isPromiseType(b));
  }
  awaitedType(ty) {
    try { return this.checker.getAwaitedType(ty) ?? ty; } catch { return ty; }
  }
  // structural snapshot of a value
  freeze(v, d = 0) {
    v = this.at(v);
    if (v.alts.length === 1) return this.one(this.freezeLeaf(v.alts[0].l, d));
    return this.mkVal(v.alts.map((a) => ({ l: this.freezeLeaf(a.l, d), g: a.g })));
  }
  freezeLeaf(l, d) {
    if (l.t !== "o" || d > 8) return l;
    const r = l.rec;
    if (r.kind === "object") {
      const rest = r.rest.map((x) => ({ v: this.freeze(x.v, d + 1), g: x.g }));
      const fields = new Map([...r.props].map(([k, p]) => [k, { v: this.freeze(p.v, d + 1), has: this.pc ? this.bdd.restrict(p.has, this.pc) : p.has }]));
      const dyn = r.dyn.map((x) => ({ key: this.freeze(x.key, d + 1), v: this.freeze(x.v, d + 1), g: x.g, each: x.each }));
      const args = [];
      for (const x of rest) args.push("...", x.v, x.g);
      for (const k of [...fields.keys()].sort()) { const f = fields.get(k); if (f.has !== 0) args.push(k, f.v, f.has); else fields.delete(k); }
      for (const x of dyn) args.push("[]", x.key, x.v, x.g);
      return this.sl("obj", args, undefined, { fields, rest, dyn, src: l });
    }
    if (r.kind === "array") {
      const items = r.items.map((i) => ({ ...i, v: this.freeze(i.v, d + 1), g: this.pc ? this.bdd.restrict(i.g, this.pc) : i.g })).filter((i) => i.g !== 0);
      const args = [];
      for (const i of items) args.push(i.spread ? "..." : "", i.each ? i.each.key : "", i.v, i.g);
      return this.sl("arr", args, undefined, { items, src: l });
    }
    return l;
  }
  // ------------------------------------------------------------ calls
  call(fv, thisVal, args, node) {
    return this.over(fv, (l) => this.callLeaf(l, thisVal, args, node));
  }
  callLeaf(l, thisVal, args, node) {
    if (l.t === "f") return this.invoke(l, thisVal, args, node);
    if (l.t === "k") return this.opaque("call", { name: l.name, callee: l }, args, node);
    if (l.t === "x") {
      const nat = this.natives.get(l.xkey);
      if (nat) return nat(args, node);
      const pure = this.purePattern.test(l.xkey);
      return this.opaque("call", { name: l.xkey, owner: l.xkey, callee: l }, args, node, pure ? { pure: true, noThrow: true } : {});
    }
    if (l.t === "c") { this.typeError(node, "call of non-function"); return this.UNDEF; }
    if (l.t === "s") {
      const d = node && this.resolvedDecl(node);
      if (d && d.body && this.isProject(d) && !ts.isMethodSignature(d) && !this.isDynamicFn(d)) {
        return this.invoke(this.fnLeaf(d, null), thisVal, args, node);
      }
      if (l.op === "get" && l.args[1] && typeof l.args[1] === "string") return this.opaque("call", { name: l.args[1], owner: "", recv: l.args[0], callee: l }, args, node);
      return this.opaque("call", { name: "call", callee: l, owner: "", recv: this.one(l) }, args, node);
    }
    return this.opaque("call", { name: "call", callee: l, owner: "" }, args, node);
  }
  isDynamicFn(d) { // function expressions/arrow params have no fixed target
    return ts.isArrowFunction(d) || ts.isFunctionExpression(d);
  }
  resolvedDecl(node) {
    try { return this.checker.getResolvedSignature(node)?.declaration; } catch { return undefined; }
  }
  typeError(node, what) {
    if (this.opts.strictTypes) this.event("typeerror", { name: what }, node);
    const r = this.alloc("inst", { ext: "lib#TypeError" });
    this.setProp(r, "message", this.c(what));
    this.throwUnder(1, r.val);
  }
  declOwner(d) {
    const p = d?.parent;
    if (!p) return "";
    if (ts.isClassLike(p) || ts.isInterfaceDeclaration(p)) return this.extKeyAny(d, p.name?.text ?? "");
    return this.extKeyAny(d, d.name?.getText?.() ?? "");
  }
  extKeyAny(d, name) {
    return this.isProject(d) ? `${rel(d.getSourceFile().fileName)}#${name}` : this.extKey(d, name);
  }
  invoke(l, thisVal, args, callNode) {
    if (l.bound) return this.invoke(l.bound.f, l.bound.thisVal, [...l.bound.args, ...args], callNode);
    if (l.nat) return l.nat(args, thisVal, callNode);
    const node = l.node;
    const stub = this.opts.stub?.(node, l, this);
    if (stub) {
      if (stub.model) return stub.model(args, thisVal, callNode ?? node, this);
      return this.opaque("call", { name: stub.name, owner: "stub", callee: l, recv: thisVal, stub: true }, args, callNode ?? node, { noCallbacks: true, ...stub, ty: this.retType(node) });
    }
    if (!node.body) return this.opaque("call", { name: node.name?.getText?.() ?? "anon", owner: this.declOwner(node), recv: thisVal }, args, callNode ?? node);
    const depth = this.frames.filter((f) => f.node === node).length;
    if (depth >= (this.opts.maxRec ?? 1) || this.frames.length > this.maxDepth) {
      return this.opaque("rec", { name: node.name?.getText?.() ?? "anon", owner: "recursion", fn: node, recv: thisVal, callee: l }, args, callNode ?? node, { noCallbacks: true, ty: this.retType(node) });
    }
    this.stats.inlined++;
    this.stats.fns.add(loc(node));
    const isAsync = !!(ts.getCombinedModifierFlags(node) & ts.ModifierFlags.Async);
    if (node.asteriskToken) this.warn(node, "generator");
    const isArrow = ts.isArrowFunction(node);
    const env = { vars: new Map(), parent: l.env, thisVal: isArrow ? l.env?.thisVal ?? this.UNDEF : l.thisVal && !thisVal ? l.thisVal : thisVal, home: l.home ?? l.env?.home };
    if (isArrow) { env.thisVal = l.env?.thisVal ?? this.UNDEF; env.home = l.env?.home; }
    const frame = { node, name: this.nodeName(node), ret: { g: 0, v: this.UNDEF }, callNode, env };
    const pc0 = this.pc;
    const saveLabels = this.labels, saveChain = this.chain;
    this.labels = []; this.chain = [];
    this.frames.push(frame);
    const fut = isAsync ? { cons: [] } : null;
    if (isAsync) { this.handlers.push({ g: 0, v: this.UNDEF }); this.futs.push(fut); }
    this.bindParams(node, args, env);
    if (ts.isBlock(node.body)) {
      this.hoist(node.body.statements, env);
      this.block(node.body.statements, env);
    } else {
      const v = this.ev(node.body, env);
      frame.ret = { g: this.bdd.or(frame.ret.g, this.pc), v: frame.ret.g === 0 ? v : this.ite(this.pc, v, frame.ret.v) };
      this.pc = 0;
    }
    this.frames.pop();
    this.labels = saveLabels; this.chain = saveChain;
    let rv = frame.ret.v;
    if (this.pc !== 0 && frame.ret.g !== 0) rv = this.ite(this.pc, this.UNDEF, rv);
    else if (frame.ret.g === 0) rv = this.UNDEF;
    const endG = this.bdd.or(this.pc, frame.ret.g);
    if (!isAsync) {
      this.pc = endG;
      return this.at(rv);
    }
    const h = this.handlers.pop();
    this.pc = endG;
    if (endG) for (const x of this.at(rv).alts) if (x.l.t === "o" && x.l.rec.kind === "promise") this.consume(x.l.rec);
    this.futs.pop();
    this.pc = pc0;
    const res = this.makePromise(rv, endG, h.g, h.v);
    this.single(res).rec.cons = fut.cons;
    return res;
  }
  // promise with completion guards relative to the present path condition
  makePromise(rv, okG, rejG, rejV) {
    const pc0 = this.pc;
    let pend = this.bdd.and(pc0, this.bdd.not(this.bdd.or(okG, rejG)));
    // flatten promise results
    let val = rv, rg = rejG, rvv = rejV;
    if (rv.alts.some((a) => a.l.t === "o" && a.l.rec.kind === "promise")) {
      const out = [];
      for (const a of rv.alts) {
        if (a.l.t === "o" && a.l.rec.kind === "promise") {
          const p = a.l.rec;
          const ag = this.bdd.and(okG, a.g);
          const rj = this.bdd.and(ag, p.rejG);
          if (rj !== 0) { rvv = rg === 0 ? p.rejV : this.ite(rj, p.rejV, rvv); rg = this.bdd.or(rg, rj); }
          if (p.pendG) { const pg = this.bdd.and(ag, p.pendG); pend = this.bdd.or(pend, pg); }
          for (const b of p.pv.alts) out.push({ l: b.l, g: this.bdd.and(a.g, b.g) });
        } else out.push(a);
      }
      val = this.mkVal(out);
    }
    const R = (g) => (pc0 ? this.bdd.restrict(g, pc0) : g);
    const p = this.alloc("promise", { pv: this.at(val), rejG: R(rg), rejV: rvv, pendG: R(pend) });
    return p.val;
  }
  resolvedPromise(v) { return this.makePromise(v, this.pc, 0, this.UNDEF); }
  awaitLeaf(l, node) {
    if (l.t === "o" && l.rec.kind === "promise") {
      const p = l.rec;
      this.consume(p);
      if (p.pendG) this.pc = this.bdd.and(this.pc, this.bdd.not(p.pendG));
      if (p.rejG) this.throwUnder(p.rejG, p.rejV);
      if (p.ev && !p.ev.awaited) p.ev.awaited = true;
      return this.at(p.pv);
    }
    if (l.t === "s" && l.ty && this.isPromiseType(l.ty)) {
      const T = this.atom(`rej:${l.id}`, { kind: "rej", l, text: `rejects(${this.showLeaf(l)})` });
      this.throwUnder(T, this.s("rejection", [this.one(l)]));
      return this.s("awaited", [this.one(l)], this.awaitedType(l.ty));
    }
    return this.one(l);
  }
  retType(node) {
    try { return this.checker.getReturnTypeOfSignature(this.checker.getSignatureFromDeclaration(node)); } catch { return undefined; }
  }
  nodeName(node) {
    const cls = node.parent && ts.isClassLike(node.parent) ? node.parent.name?.text + "." : "";
    if (ts.isConstructorDeclaration(node)) return cls + "constructor";
    if (node.name) return cls + node.name.getText();
    const p = node.parent;
    if (p && ts.isVariableDeclaration(p)) return p.name.getText();
    return "<fn>";
  }
  bindParams(node, args, env) {
    let flat = null;
    node.parameters.forEach((p, i) => {
      let v;
      if (p.dotDotDotToken) {
        const arr = this.alloc("array");
        for (const a of args.slice(i)) this.push(arr.items, a.spread ? this.spreadItem(a.spread) : { g: 1, v: a });
        this.flattenSpreads(arr);
        v = arr.val;
      } else {
        const a = args[i];
        const sp = args.findIndex((x) => x?.spread);
        if (sp >= 0 && sp <= i) v = this.getProp(args[sp].spread, this.c(i - sp), node, this.checker.getTypeAtLocation(p));
        else v = a ?? this.UNDEF;
        if (p.initializer) v = this.withDefault(v, p.initializer, env);
      }
      this.bind(p.name, v, env, true);
      if (ts.isParameterPropertyDeclaration(p, p.parent) && env.thisVal) {
        const self = this.single(env.thisVal);
        if (self?.t === "o") this.setProp(self.rec, p.name.text, v);
      }
    });
    return flat;
  }
  withDefault(v, init, env) {
    const isU = this.eq(v, this.UNDEF);
    if (isU === 0) return v;
    const pc0 = this.pc;
    this.pc = this.bdd.and(pc0, isU);
    const dv = this.ev(init, env);
    const pcD = this.pc;
    this.pc = this.bdd.or(pcD, this.bdd.and(pc0, this.bdd.not(isU)));
    return this.at(this.ite(isU, dv, v));
  }
  bind(name, v, env, declare, setter) {
    if (ts.isIdentifier(name)) {
      const sym = this.checker.getSymbolAtLocation(name);
      if (!sym) return;
      if (setter) return setter(sym, v);
      if (declare) env.vars.set(sym, { v, g: this.pc, name: name.text, born: ++this.heapN });
      else this.assignSym(sym, v, env, name);
      return;
    }
    if (ts.isObjectBindingPattern(name)) {
      const used = [];
      for (const el of name.elements) {
        if (el.dotDotDotToken) { this.bind(el.name, this.omit(v, used), env, declare, setter); continue; }
        const pn = el.propertyName ?? el.name;
        let key;
        if (ts.isIdentifier(pn) || ts.isStringLiteral(pn) || ts.isNumericLiteral(pn)) key = this.c(pn.text);
        else if (ts.isComputedPropertyName(pn)) key = this.ev(pn.expression, env);
        used.push(key);
        let ty;
        try { const t = this.checker.getTypeAtLocation(name); const ps = this.constOf(key) && t.getProperty?.(String(this.constOf(key).v)); ty = ps ? this.checker.getTypeOfSymbol(ps) : undefined; } catch { /* none */ }
        let x = this.getProp(v, key, el, ty);
        if (el.initializer) x = this.withDefault(x, el.initializer, env);
        this.bind(el.name, x, env, declare, setter);
      }
      return;
    }
    name.elements.forEach((el, i) => {
      if (ts.isOmittedExpression(el)) return;
      if (el.dotDotDotToken) { this.bind(el.name, this.arraySlice(v, i), env, declare, setter); return; }
      let x = this.getProp(v, this.c(i), el, this.tyOf(el.name));
      if (el.initializer) x = this.withDefault(x, el.initializer, env);
      this.bind(el.name, x, env, declare, setter);
    });
  }
  assignSym(sym, v, env, node) {
    let c = this.lookupCell(sym, env);
    if (!c) {
      const s = this.unalias(sym);
      this.symbolValue(s);
      c = this.modCells.get(s);
      if (!c) { this.warn(node, "assign"); return; }
      this.event("globwrite", { name: s.name, args: [v], fargs: [this.freeze(v)] }, node);
    }
    this.setCell(c, v);
  }
  hoist(stmts, env) {
    for (const s of stmts) if (ts.isFunctionDeclaration(s) && s.name) {
      const sym = this.checker.getSymbolAtLocation(s.name);
      if (sym && s.body) env.vars.set(sym, { v: this.one(this.fnLeaf(s, env, env.thisVal)), g: this.pc, name: s.name.text });
    }
  }
}
