import { L, imp, calm, or, alts, isRes, reach, mentions, envLeaf, named, field, constVal, attempt, obj, method, ts, eqC } from "./kit.mjs";

const FILE = L("aws/runtime/dt-logger.ts");
const LOGGING = L("utils/logging.ts");
const LEVELS = { debug: "DEBUG", info: "INFO", warn: "WARN", error: "ERROR" };

// run one logger method on a symbolic message
function runMethod(C, name, opts = {}, cfg = []) {
  const I = C.interp({ rawLog: true, ...opts });
  const cls = I.single(I.valueOfExport(FILE, "DtLogger"));
  let p;
  const r = I.run(() => {
    const lg = I.construct(cls, cfg, null);
    const f = I.getProp(lg, I.c(name), null);
    p = I.paramInputs(I.single(f).node)[0];
    return I.call(f, lg, [p], null);
  });
  return { I, r, p, msg: p.alts[0].l };
}
const writes = (I, r) => r.events.filter((e) => e.kind === "call" && e.name === "write" && !e.pure);
// the serialized values making up a written text: [json argument values], and the literal parts
function written(I, v) {
  const out = { json: [], lits: [], other: [] };
  const leaf = (l, g) => {
    if (l.t === "c") out.lits.push({ v: String(l.v), g });
    else if (l.op === "concat") for (const a of l.args) part(a, g);
    else if (l.op === "str") part(l.args[0], g);
    else if (l.op === "json") out.json.push({ v: l.args[0].alts ? l.args[0] : I.one(l.args[0]), leaf: l, g });
    else out.other.push({ l, g });
  };
  const part = (x, g) => { if (!x || typeof x !== "object") { out.lits.push({ v: String(x), g }); return; } if (x.alts) for (const a of x.alts) { const h = I.bdd.and(g, a.g); if (h) leaf(a.l, h); } else leaf(x, g); };
  part(v, 1);
  return out;
}
// Look up a key through spreads and through key-renaming maps (mapKeys) of the message.
function deepField(I, v, key, seen = 0) {
  const out = [];
  if (seen > 6) return out;
  for (const a of v.alts) {
    const l = a.l.t === "o" ? I.freezeLeaf(a.l, 0) : a.l;
    if (l.t === "s" && l.op === "obj") {
      const f = l.fields.get(key);
      let covered = 0;
      if (f) { for (const x of f.v.alts) out.push({ l: x.l, g: I.bdd.andAll([a.g, x.g, f.has]) }); covered = f.has; }
      const rem = I.bdd.and(a.g, I.bdd.not(covered));
      if (rem !== 0) for (const r of l.rest) for (const x of deepField(I, r.v, key, seen + 1)) out.push({ l: x.l, g: I.bdd.andAll([rem, r.g, x.g]) });
    } else if (l.t === "s" && /mapKeys$/.test(l.op) && l.args[0]) {
      for (const x of deepField(I, l.args[0].alts ? l.args[0] : I.one(l.args[0]), key, seen + 1)) out.push({ l: x.l, g: I.bdd.and(a.g, x.g) });
    } else out.push({ l: I.s("get", [I.one(l), key]), g: a.g });
  }
  return out;
}

export const logging = {
  G01: {
    explain: "DtLogger.info, warn, error and debug are analysed on fully symbolic messages: exactly one line per call, the level, lambda name and runtime fixed by the logger, the method in the message, the error rendered, the caller's object untouched.",
    run(C) {
      for (const [name, level] of Object.entries(LEVELS)) {
        const { I, r, msg } = runMethod(C, name);
        const b = I.bdd;
        const ws = writes(I, r);
        const okw = (g) => calm(I, g);
        C.ob("one-line-per-call", imp(I, okw(1), or(I, ws.map((e) => e.g))) && ws.every((e, i) => ws.every((f, j) => j <= i || b.and(e.g, f.g) === 0)) && ws.length > 0, ws[0]?.at ?? FILE, `${name}: exactly one write on every path`, name);
        for (const e of ws) {
          const w = written(I, I.at(e.args[0].spread ?? e.args[0], e.g));
          C.ob("newline-terminated", w.lits.map((x) => x.v).join("") === "\n" && w.other.length === 0 && w.json.length > 0 && endsWithNl(I, e.args[0], e.g), e.at, `${name}: the text written is one JSON document followed by one newline`, name);
          C.ob("single-line-json", w.json.every((j) => j.leaf.args[2] === undefined || [undefined, null, 0, ""].includes(constVal(I, j.leaf.args[2]))), e.at, `${name}: the JSON is not indented over several lines`, name);
          for (const j of w.json) {
            C.ob("level", alts(I, { alts: deepField(I, j.v, "level") }, b.and(e.g, j.g)).every((a) => a.l.t === "c" && a.l.v === level) || !deepField(I, j.v, "level").length, e.at, `${name}: the level is ${level} whatever the message contains`, name);
            C.ob("level", mentions(I, j.v, (l) => l.t === "c" && l.v === level) && !mentions(I, j.v, (l) => l.t === "c" && Object.values(LEVELS).includes(l.v) && l.v !== level), e.at, `${name}: the line carries level ${level} and no other`, name);
            for (const [f, env] of [["lambdaName", "AWS_LAMBDA_FUNCTION_NAME"], ["runtime", "AWS_EXECUTION_ENV"]]) {
              const x = field(I, j.v, f);
              C.ob("identity-fields", imp(I, b.and(e.g, j.g), x.has) && x.v.alts.every((a) => b.andAll([a.g, e.g, j.g]) === 0 || !mentions(I, I.one(a.l), (l) => l === msg)) && mentions(I, x.v, (l) => envLeaf(l, env)), e.at, `${name}: ${f} comes from the logger (default ${env}), never from the message`, `${name}.${f}`);
            }
            C.ob("content-logged", mentions(I, j.v, (l) => l === msg), e.at, `${name}: the message given is in the line`, name);
          }
          if (name === "debug") continue;
          for (const j of w.json) {
            const m = field(I, j.v, "message");
            const meth = (l) => l.t === "s" && l.op === "get" && l.args[1] === "method" && isLeaf(l.args[0], msg);
            const mm = [...I.leaves].find((l) => l.op === "get" && l.args[1] === "message" && isLeaf(l.args[0], msg));
            const inc = I.atoms.map((a, i) => [a, i]).filter(([a, i]) => a && /includes/.test(a.key + (a.text ?? "")) && /\.message/.test(I.showAtom(i)) && /\.method/.test(I.showAtom(i))).map(([, i]) => b.varNode(i));
            const w0 = b.and(e.g, j.g);
            C.ob("method-in-message", alts(I, m.v, w0).every((a) => { const g = b.and(a.g, w0); return g === 0 || mentions(I, I.one(a.l), meth) && !inc.some((x) => imp(I, g, x)) || okInc(I, a.l, g, inc, meth); }), e.at, `${name}: the message names the logging method unless it already does`, name);
            C.ob("message-text-kept", !!mm && alts(I, m.v, w0).every((a) => { const g = b.and(a.g, w0); return g === 0 || mentions(I, I.one(a.l), (l) => l === mm) || imp(I, g, I.eqConst(mm, I.cl(undefined))) || imp(I, g, b.not(I.truthLeaf(mm))) || inc.some((x) => imp(I, g, x)); }) && alts(I, m.v, w0).some((a) => mentions(I, I.one(a.l), (l) => l === mm)), e.at, `${name}: the given message text is kept`, name);
            // error rendering
            const er = field(I, j.v, "error").v;
            const src = [...I.leaves].find((l) => l.op === "get" && l.args[1] === "error" && isLeaf(l.args[0], msg));
            C.ob("anchor", !!src, e.at, `${name}: the error property is read`);
            if (!src) continue;
            const inst = I.atoms.map((a, i) => [a, i]).filter(([a]) => a?.kind === "inst" && a.l === src).map(([, i]) => b.varNode(i));
            C.ob("error-rendered", inst.length > 0 && alts(I, er, w0).every((a) => {
              const g = b.andAll([a.g, w0, inst[0], I.truthLeaf(src)]);
              return g === 0 || ["name", "message"].every((k) => mentions(I, I.one(a.l), (l) => l.op === "get" && l.args[1] === k && isLeaf(l.args[0], src)));
            }), e.at, `${name}: an Error is rendered with its name and message`, name);
            C.ob("error-rendered", alts(I, er, w0).every((a) => { const g = calm(I, b.andAll([a.g, w0, I.truthLeaf(src)])); return g === 0 || mentions(I, I.one(a.l), (l) => l === src); }), e.at, `${name}: any other error value is rendered too`, name);
            const st = field(I, j.v, "stack").v;
            const given = [...I.leaves].find((l) => l.op === "get" && l.args[1] === "stack" && isLeaf(l.args[0], msg));
            C.ob("stack", !!given && alts(I, st, b.and(w0, I.truthLeaf(given))).every((a) => b.andAll([a.g, w0, I.truthLeaf(given)]) === 0 || a.l === given), e.at, `${name}: a given stack is logged`, name);
            if (given && inst.length) C.ob("stack", alts(I, st, w0).every((a) => b.andAll([a.g, w0, b.not(I.truthLeaf(given)), inst[0], I.truthLeaf(src)]) === 0 || (a.l.op === "get" && a.l.args[1] === "stack" && isLeaf(a.l.args[0], src))), e.at, `${name}: an Error's own stack is logged when none is given`, name);
          }
        }
        C.ob("caller-object-untouched", r.events.filter((e) => e.kind === "set" && e.recv?.alts.some((a) => a.l === msg)).length === 0 && !r.events.some((e) => e.mutates && e.recv?.alts.some((a) => a.l === msg)), FILE, `${name}: the caller's object is not modified`, name);
      }
      // custom prefix
      const I = C.interp({ rawLog: true });
      const cls = I.single(I.valueOfExport(FILE, "DtLogger"));
      const r = I.run(() => { const lg = I.construct(cls, [], null); return method(I, lg, "info", [obj(I, { method: I.c("a.b"), customFooCount: I.c(3), customNote: I.c("a=b"), stack: I.c("at x") })]); });
      for (const e of writes(I, r)) {
        const w = written(I, I.at(e.args[0], e.g));
        const keys = new Set();
        for (const j of w.json) for (const l of reach(I, j.v)) if (l.op === "obj") for (const [k, f] of l.fields) if (f.v.alts.some((a) => a.l.t === "c" && a.l.v === 3)) keys.add(k);
        const renamed = I.events.some((x) => /lowerFirst$/.test(x.name ?? "")) || keys.has("fooCount");
        const text = w.json.flatMap((j) => alts(I, field(I, j.v, "message").v).map((a) => (a.l.t === "c" ? a.l.v : I.showLeaf(a.l))));
        C.ob("fields-in-message", text.length > 0 && text.every((t) => /a\.b/.test(t) && /fooCount=(3|\$\{json\(3)/.test(t) && /note=/.test(t) && !/level=|method=|stack=/.test(t)), e.at, `every further field of the message is shown in its text, and nothing twice (${text[0]})`);
        C.ob("custom-prefix-removed", renamed, e.at, "custom fields are logged without their prefix");
      }
      // configuration wins over the environment
      {
        const I2 = C.interp({ rawLog: true });
        const cls2 = I2.single(I2.valueOfExport(FILE, "DtLogger"));
        const st = I2.input("stream");
        const r2 = I2.run(() => { const lg = I2.construct(cls2, [obj(I2, { lambdaName: I2.c("LN"), runTime: I2.c("RT"), writeStream: st })], null); return method(I2, lg, "debug", [I2.input("m")]); });
        const ws = writes(I2, r2);
        C.ob("configured-stream", ws.length > 0 && ws.every((e) => e.recv.alts.every((a) => a.l === st.alts[0].l || imp(I2, I2.bdd.and(a.g, e.g), I2.bdd.not(I2.truthLeaf(st.alts[0].l))))), FILE, "lines go to the configured stream only");
        for (const e of ws) for (const j of written(I2, e.args[0]).json) C.ob("configured-identity", constVal(I2, field(I2, j.v, "lambdaName").v) === "LN" && constVal(I2, field(I2, j.v, "runtime").v) === "RT", e.at, "configured lambda name and runtime are logged");
      }
      C.min("one-line-per-call", 4); C.min("level", 8); C.min("identity-fields", 8); C.min("configured-identity", 1);
    },
  },
  G02: {
    explain: "Every logging entry point is analysed with serialization and date formatting able to throw; the only failure that may leave it is the output stream's own.",
    run(C) {
      const check = (I, r, what, where) => {
        const ws = r.events.filter((e) => e.kind === "call" && e.name === "write");
        const g = calm(I, r.throwG, (a) => !ws.includes(a.ev));
        const who = r.events.filter((e) => e.T && I.bdd.and(e.T, g) !== 0 && !ws.includes(e));
        C.ob("never-throws", g === 0, who[0]?.at ?? where, `${what}: logging cannot throw${g ? `; it can when ${I.showG(g, 1).slice(0, 200)}` : ""}`, what);
        const okAll = or(I, ws.map((e) => e.g));
        C.ob("always-writes", imp(I, 1, okAll), where, `${what}: a line is written even when a value cannot be serialized`, what);
      };
      for (const name of Object.keys(LEVELS)) {
        const { I, r } = runMethod(C, name, { jsonThrows: true });
        check(I, r, name, FILE);
      }
      {
        const { I, r } = runMethod(C, "info", { jsonThrows: true });
        for (const e of writes(I, r)) {
          const w = written(I, I.at(e.args[0].spread ?? e.args[0], e.g));
          C.ob("always-a-line", w.other.length === 0 && w.lits.every((x) => ["\n"].includes(x.v) || isJson(x.v)) && w.json.length > 0, e.at, "info: whatever fails to serialize, the line stays one JSON value");
        }
        // the replacer given to the serializer turns a bigint into something serializable
        const sers = r.events.filter((e) => e.name === "JSON.stringify" && e.T);
        const big = I.c(10n);
        for (const e of sers) {
          if (e.fargs[0].alts.every((a) => I.stringy(a.l))) continue;
          const rp = e.args[1];
          const fl = rp && I.single(rp);
          const v = fl?.t === "f" ? I.runFn(rp, [I.c("k"), big]).value : null;
          if (fl?.t === "f" || !/symbolic string/.test(I.show(e.fargs[0]))) {
            const strOnly = alts(I, e.fargs[0], I.bdd.and(e.g, e.T)).length === 0 || I.bdd.and(e.g, e.T) === 0;
            C.ob("bigint-serializable", strOnly || (!!v && v.alts.every((a) => !(a.l.t === "c" && typeof a.l.v === "bigint"))), e.at, "a bigint in the message is written, not turned into an unserializable line");
          }
        }
        C.min("bigint-serializable", 1);
      }
      const mk = (I) => I.construct(I.single(I.valueOfExport(FILE, "DtLogger")), [], null);
      {
        const I = C.interp({ rawLog: true, jsonThrows: true });
        const f = I.valueOfExport(LOGGING, "logException");
        const ps = I.paramInputs(I.single(f).node);
        let err, r = I.run(() => { err = ps[1]; return I.call(f, I.UNDEF, [mk(I), ps[1], ps[2]], null); });
        check(I, r, "logException", LOGGING);
        content(C, I, r, err.alts[0].l, ps[2], "logException");
      }
      {
        const I = C.interp({ rawLog: true });
        const r = I.run(() => I.call(I.call(I.valueOfExport(LOGGING, "createExceptionLogger"), I.UNDEF, [], null), I.UNDEF, [I.input("error", I.checker.getAnyType?.())], null));
        const r2 = I.run(() => I.call(I.valueOfExport(LOGGING, "logException"), I.UNDEF, [mk(I), I.input("error", I.checker.getAnyType?.())], null));
        for (const x of [r, r2]) for (const e of writes(I, x)) for (const j of written(I, I.at(e.args[0], e.g)).json) C.ob("stack-only-on-request", alts(I, field(I, j.v, "stack").v, e.g).every((a) => a.l.t === "c" && a.l.v === undefined), e.at, "without being asked for, stacks are not logged by the exception loggers");
      }
      for (const given of [true, false]) {
        const I = C.interp({ rawLog: true, jsonThrows: true });
        const f = I.valueOfExport(LOGGING, "createExceptionLogger");
        const err = I.input("error", I.checker.getAnyType?.());
        const inc = I.input("includeStack", I.boolTy());
        const r = I.run(() => I.call(I.call(f, I.UNDEF, given ? [mk(I), inc] : [I.UNDEF, inc], null), I.UNDEF, [err], null));
        check(I, r, `createExceptionLogger${given ? "(logger)" : "()"}`, LOGGING);
        content(C, I, r, err.alts[0].l, inc, "createExceptionLogger");
      }
      C.min("never-throws", 7); C.min("exception-content", 3);
    },
  },
};
// the error's message is in the line; the stack only when asked for
function content(C, I, r, err, inc, what) {
  const b = I.bdd;
  const ws = r.events.filter((e) => e.kind === "call" && e.name === "write");
  const inst = I.atoms.map((a, i) => [a, i]).filter(([a]) => a?.kind === "inst" && a.l === err).map(([, i]) => b.varNode(i));
  for (const e of ws) for (const j of written(I, I.at(e.args[0], e.g)).json) {
    const w = calm(I, b.and(e.g, j.g));
    if (w === 0) continue;
    C.ob("exception-level", mentions(I, j.v, (l) => l.t === "c" && l.v === "ERROR"), e.at, `${what}: exceptions are logged with level ERROR`, what);
    const m = field(I, j.v, "message").v;
    C.ob("exception-content", alts(I, m, w).every((a) => { const g = b.andAll([a.g, w, inst[0] ?? 1]); return g === 0 || mentions(I, I.one(a.l), (l) => l.op === "get" && l.args[1] === "message" && isLeaf(l.args[0], err)); }), e.at, `${what}: an Error's message is in the line`, what);
    C.ob("exception-content", alts(I, m, w).every((a) => b.and(a.g, w) === 0 || mentions(I, I.one(a.l), (l) => l === err)), e.at, `${what}: any other thrown value is in the line`, what);
    const st = field(I, j.v, "stack").v;
    const incT = I.truth(inc);
    C.ob("stack-only-on-request", alts(I, st, b.and(w, b.not(incT))).every((a) => b.andAll([a.g, w, b.not(incT)]) === 0 || (a.l.t === "c" && a.l.v === undefined)) && (inst.length === 0 || alts(I, st, b.andAll([w, incT, inst[0]])).every((a) => b.andAll([a.g, w, incT, inst[0], I.truthLeaf(a.l)]) === 0 || (a.l.op === "get" && a.l.args[1] === "stack"))), e.at, `${what}: the stack is logged exactly when asked for`, what);
  }
}
function isLeaf(x, l) { return x === l || (x?.alts?.length >= 1 && x.alts.every((a) => a.l === l)); }
function okInc(I, l, g, inc, meth) { return inc.some((x) => imp(I, g, x)) || mentions(I, I.one(l), meth); }
function endsWithNl(I, v, g) {
  return alts(I, v.spread ?? v, g).every((a) => {
    if (a.l.t === "c") return String(a.l.v).endsWith("\n");
    if (a.l.op !== "concat") return false;
    const last = a.l.args[a.l.args.length - 1];
    const c = last.alts ? constVal(I, last) : last.v;
    return typeof c === "string" && c === "\n";
  });
}
function isJson(x) { try { JSON.parse(x); return true; } catch { return false; } }
