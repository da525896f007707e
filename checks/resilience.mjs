import { L, imp, calm, or, alts, isRes, reach, mentions, envLeaf, named, field, constVal, attempt, obj, method, ts, eqC } from "./kit.mjs";

const RETRY = L("utils/retry.ts");
const FACTORY = L("aws/infra/api/handler-factory.ts");
const isTimer = (a) => a?.kind === "cb" && /setTimeout|setInterval/.test(a.ev?.name ?? a.text ?? "");
// worlds where no timer of the attempt limit fires
const noTimer = (I, g) => I.bdd.assign(g, (v) => { const a = I.atoms[v]; if (!isTimer(a)) return undefined; const ms = a.ev?.args[1] && constVal(I, a.ev.args[1].spread ?? a.ev.args[1]); return ms >= 6e5 ? 0 : 1; });

function retryRun(C, args, opts = {}) {
  const I = C.interp({ maxRec: 9, unroll: 20, ...opts });
  const f = I.valueOfExport(RETRY, "retry");
  const ps = I.paramInputs(I.single(f).node);
  const names = ["fn", "n", "log", "delay", "pred"];
  const a = {};
  names.forEach((k, i) => { a[k] = k in args ? args[k](I) : ps[i]; });
  let nn = 1; // function arguments are given
  for (const k of ["fn", "delay", "pred"]) if (!(k in args)) for (const x of a[k].alts) if (x.l.t === "s") { nn = I.bdd.and(nn, I.bdd.not(I.eqConst(x.l, I.cl(undefined)))); nn = I.bdd.and(nn, I.bdd.not(I.eqConst(x.l, I.cl(null)))); }
  const r = I.run(() => { I.pc = I.bdd.and(I.pc, nn); return I.settle(I.call(f, I.UNDEF, names.map((k) => a[k]), null)); });
  const is = (k) => (e) => a[k].alts.some((x) => e.callee === x.l && x.l.t === "s");
  return { I, r, a, nn, uses: r.events.filter(is("fn")), preds: r.events.filter(is("pred")), delays: r.events.filter(is("delay")) };
}

const noLimit = (I, g) => I.bdd.assign(g, (v) => { const a = I.atoms[v]; if (!isTimer(a)) return undefined; const ms = a.ev?.args[1] && constVal(I, a.ev.args[1].spread ?? a.ev.args[1]); return ms >= 6e5 ? 0 : undefined; });
const nimp = (I, a, b) => imp(I, noTimer(I, a), noTimer(I, b));
export const resilience = {
  R01: {
    explain: "retry is unrolled for retry counts 0 to 4 with a symbolic operation, predicate, delay function and logging mode; the guard of every attempt is decided against the outcome of the one before it.",
    run(C) {
      const K = C.tier === "thorough" ? 6 : 3;
      for (let n = -1; n <= K; n++) {
        const { I, r, uses, preds, delays, nn } = retryRun(C, { n: (J) => J.c(n) });
        const b = I.bdd;
        const N = Math.max(n, 0);
        C.ob("anchor", uses.length > 0, RETRY, `retries=${n}: ${uses.length} attempts found`);
        C.ob("attempt-limit", uses.length === N + 1 && !r.events.some((e) => e.kind === "rec") && !I.regionsOf?.(uses), uses[uses.length - 1]?.at ?? RETRY, `retries=${n}: at most ${N + 1} attempts (found ${uses.length})`, "limit");
        C.ob("attempt-limit", uses.every((u) => !u.regions.some((x) => x.kind === "loop" || x.kind === "while" || x.kind === "each")), RETRY, `retries=${n}: no attempt lies in an unbounded loop`, "limit");
        let W = nn; // all previous failed, predicate agreed
        for (let k = 0; k < uses.length; k++) {
          const u = uses[k];
          const g = noTimer(I, calm(I, u.g, (a) => uses.includes(a.ev)));
          const want = noTimer(I, calm(I, W, (a) => uses.includes(a.ev)));
          C.ob("all-attempts-made", nimp(I, want, g), u.at, `retries=${n}: attempt ${k + 1} is made when the earlier ones failed and the predicate agreed`, "made");
          if (k > 0) {
            const p = uses[k - 1];
            C.ob("retry-only-after-failure", nimp(I, noTimer(I, u.g), b.and(p.g, p.T)), u.at, `retries=${n}: attempt ${k + 1} follows only a failure of attempt ${k}`, "after");
            const ok = or(I, preds.filter((e) => mentionsErr(I, e.args[0], p)).map((e) => b.andAll([e.g, b.not(e.T ?? 0), I.truth(e.res)])));
            C.ob("predicate-decides", nimp(I, noTimer(I, u.g), noTimer(I, ok)), u.at, `retries=${n}: attempt ${k + 1} only when the predicate accepted the error of attempt ${k}`, "pred");
            // delay
            const ds = delays.filter((e) => e.args[0] && constVal(I, e.args[0]) === k && r.events.indexOf(e) < r.events.indexOf(u));
            C.ob("delay-asked", nimp(I, noTimer(I, u.g), or(I, ds.map((e) => e.g))), u.at, `retries=${n}: the delay for retry ${k} is asked before it`, "delay");
            for (const d of ds) {
              const slept = or(I, r.events.filter((e) => e.name === "setTimeout" && e.args[1] && mentions(I, e.args[1], (l) => isRes(l, d))).map((e) => b.and(e.g, or(I, e.cbs.map((c) => c.atom)))));
              C.ob("delay-waited", imp(I, b.and(noLimit(I, u.g), positive(I, d.res)), noLimit(I, slept)), d.at, `retries=${n}: a positive delay is waited before retry ${k}`, "delay");
            }
          }
          W = b.andAll([W, u.T]);
          const pk = preds.filter((e) => mentionsErr(I, e.args[0], u));
          if (pk.length) W = b.and(W, or(I, pk.map((e) => b.and(b.not(e.T ?? 0), I.truth(e.res)))));
        }
        // outcome
        const okG = noTimer(I, r.retG);
        C.ob("success-needs-success", nimp(I, okG, or(I, uses.map((u) => b.and(u.g, b.not(u.T))))), RETRY, `retries=${n}: fulfils only when an attempt succeeded`, "outcome");
        for (const u of uses) {
          const w = noTimer(I, calm(I, b.and(u.g, b.not(u.T)), (a) => uses.includes(a.ev)));
          C.ob("result-of-success", nimp(I, w, noTimer(I, calm(I, r.retG, (a) => uses.includes(a.ev)))) && alts(I, r.value, w).every((a) => b.and(noTimer(I, a.g), w) === 0 || isRes(a.l, u)), u.at, `retries=${n}: the caller gets the successful attempt's value`, "outcome");
        }
        const allFail = noTimer(I, calm(I, b.andAll([nn, ...uses.map((u) => b.or(b.not(u.g), u.T))]), (a) => uses.includes(a.ev)));
        C.ob("exhaustion-rejects", b.and(allFail, okG) === 0, RETRY, `retries=${n}: when every attempt failed the caller's promise rejects`, "outcome");
        for (const p of preds) {
          const no = noTimer(I, b.andAll([p.g, b.not(p.T ?? 0), b.not(I.truth(p.res))]));
          C.ob("predicate-refusal-rejects", b.and(no, okG) === 0, p.at, `retries=${n}: when the predicate refuses, the caller's promise rejects`, "pred");
        }
      }
      // logging modes (RetryLogError: all as errors, last as error, none)
      for (const [mode, name] of [[0, "every failure as an error"], [1, "the last failure as an error"], [2, "no failure as an error"]]) {
        const { I, r, uses } = retryRun(C, { n: (J) => J.c(2), log: (J) => J.c(mode) });
        const b = I.bdd;
        uses.forEach((u, k) => {
          const f = noTimer(I, calm(I, b.and(u.g, u.T), (a) => uses.includes(a.ev)));
          const want0 = mode === 0 || (mode === 1 && k === uses.length - 1);
          const next = uses[k + 1] ? r.events.indexOf(uses[k + 1]) : Infinity;
          const lg = or(I, r.events.filter((e, i) => e.name === "log.error" && i > r.events.indexOf(u) && i < next).map((e) => b.and(e.g, want0 ? saysWhy(I, e, u) : 1)));
          const lastOne = k === uses.length - 1;
          const want = mode === 0 || (mode === 1 && lastOne);
          C.ob("failure-logging", want ? nimp(I, f, lg) : b.and(f, noTimer(I, lg)) === 0, u.at, `logging ${name}: attempt ${k + 1}`, "logging");
        });
      }
      // rejected configurations, and the limit of 100
      for (const [v, bad] of [[NaN, true], [Infinity, true], [-Infinity, true], [101, true], [1e9, true], [100, false], [0, false]]) {
        const { I, r, uses } = retryRun(C, { n: (J) => J.c(v) }, { maxRec: 1, unroll: 2 });
        C.ob("retry-count-checked", bad ? uses.length === 0 && r.retG === 0 : uses.length > 0, RETRY, `retries=${v} is ${bad ? "rejected before the first attempt" : "accepted"}`, "count");
      }
      // defaults
      {
        const I = C.interp({ maxRec: 9, unroll: 20 });
        const fn = I.input("fn");
        const r = C.fn(I, RETRY, "retry", [fn]);
        const uses = r.events.filter((e) => e.callee === fn.alts[0].l);
        C.ob("default-retries", uses.length === 4, RETRY, `by default three retries are made (found ${uses.length - 1})`);
        const sleeps = r.events.filter((e) => e.name === "setTimeout" && r.events.some((x) => x === e) && e.args[1] && constVal(I, e.args[1], e.g) !== 1800000 && e.g !== 0);
        C.ob("default-no-delay", sleeps.length === 0, sleeps[0]?.at ?? RETRY, "by default retries are not delayed");
      }
      { // requests: five retries, exponential, only for 403 and 429
        const I = C.interp({ maxRec: 9, unroll: 20 });
        const fn = I.input("request");
        const x = I.input("x");
        const r = C.fn(I, RETRY, "retryRequest", [fn, x]);
        const uses = r.events.filter((e) => e.callee === fn.alts[0].l);
        C.ob("request-retries", uses.length === 6, RETRY, `requests are retried five times (found ${uses.length - 1})`);
        C.ob("request-arguments", uses.every((u) => u.args[0] && alts(I, u.args[0].spread ?? u.args[0], u.g).every((a) => a.l === x.alts[0].l || mentions(I, I.one(a.l), (l) => l === x.alts[0].l))), RETRY, "every attempt gets the caller's arguments");
        for (let k = 1; k < uses.length; k++) {
          const p = uses[k - 1];
          const g = noTimer(I, uses[k].g);
          const sc = [...I.leaves].find((l) => l.op === "get" && l.args[1] === "statusCode" && mentions(I, I.one(l), (z) => z.op === "err" && z.ev === p));
          const ok = sc ? I.bdd.or(I.eqConst(sc, I.cl(403)), I.eqConst(sc, I.cl(429))) : 0;
          C.ob("request-status-filter", !!sc && nimp(I, g, ok), uses[k].at, `a request is retried only after status 403 or 429 (retry ${k})`, "status");
          const inst = I.atoms.map((a, i) => [a, i]).filter(([a]) => a?.kind === "inst" && a.l.op === "err" && a.l.ev === p).map(([, i]) => I.bdd.varNode(i));
          for (const s of sc ? [403, 429] : []) {
            const w = noTimer(I, calm(I, I.bdd.andAll([p.g, p.T, I.eqConst(sc, I.cl(s)), ...inst]), (a) => uses.includes(a.ev)));
            C.ob("request-status-filter", w !== 0 && nimp(I, w, uses[k].g), uses[k].at, `a request is retried after status ${s} (retry ${k})`, "status");
          }
          const sl = r.events.filter((e, i) => e.name === "setTimeout" && i > r.events.indexOf(p) && i < r.events.indexOf(uses[k]) && constVal(I, e.args[1], e.g) !== 1800000);
          C.ob("request-backoff", sl.length > 0 && nimp(I, g, or(I, sl.map((e) => e.g))) && sl.every((e) => constVal(I, e.args[1], e.g) === 2 ** k * 1000), uses[k].at, `request retry ${k} waits ${2 ** k} s first`, "backoff");
        }
      }
      C.min("attempt-limit", 8); C.min("predicate-decides", 6); C.min("retry-count-checked", 7); C.min("request-backoff", 5);
    },
  },
  R02: {
    explain: "A handler made by HandlerFactory is analysed with the default and with custom logging and error handlers: the lambda's handler runs once per event, its failure (thrown or rejected) goes to the error handler, its duration is logged on every exit.",
    run(C) {
      const run = (opts) => {
        const I = C.interp();
        const cls = I.single(I.valueOfExport(FACTORY, "HandlerFactory"));
        const h = I.input("handler"), ev = I.input("event"), lg = I.input("logger"), eh = I.input("errorHandler"), lh = I.input("loggingHandler");
        const r = I.run(() => {
          let f = I.construct(cls, [], null);
          if (opts.err) f = method(I, f, "withErrorHandler", [eh]);
          if (opts.log) f = method(I, f, "withLoggingHandler", [opts.log === "json" ? I.call(I.valueOfExport(FACTORY, "createJsonLoggingHandler"), I.UNDEF, [], null) : lh]);
          const g = method(I, f, "createEventHandler", [h, lg]);
          return I.settle(I.call(g, I.UNDEF, [ev], null));
        });
        const by = (v) => r.events.filter((e) => e.callee === v.alts[0].l);
        return { I, r, h: by(h), eh: by(eh), lh: by(lh), ev, lg };
      };
      const hold = (I, e) => (a) => a.ev === e;
      for (const opts of [{}, { err: 1 }, { log: "json" }, { log: "json", err: 1 }]) {
        const name = `${opts.log ? "JSON logging" : "default logging"}, ${opts.err ? "custom" : "default"} error handler`;
        const { I, r, h, eh, ev, lg } = run(opts);
        const b = I.bdd;
        C.ob("runs-once", h.length === 1 && imp(I, 1, h[0].g) && h[0].regions.length === 0, h[0]?.at ?? FACTORY, `${name}: the handler runs exactly once per event`, name);
        if (!h.length) continue;
        const u = h[0];
        C.ob("event-passed", u.args.length >= 1 && alts(I, u.args[0].spread ?? u.args[0]).every((a) => a.l === ev.alts[0].l), u.at, `${name}: the handler gets the event`, name);
        const okG = calm(I, b.and(u.g, b.not(u.T)), hold(I, u));
        C.ob("result-returned", imp(I, okG, calm(I, r.retG, hold(I, u))) && alts(I, r.value, okG).every((a) => isRes(a.l, u)), u.at, `${name}: the handler's response is returned unchanged`, name);
        const failG = calm(I, b.and(u.g, u.T), hold(I, u));
        if (opts.err) {
          const cs = eh.filter((e) => e.args[0] && alts(I, e.args[0].spread ?? e.args[0], e.g).every((a) => a.l === u.err.alts[0].l));
          C.ob("error-handled", cs.length === eh.length && imp(I, failG, calm(I, or(I, cs.map((e) => e.g)), hold(I, u))) && eh.every((e) => imp(I, e.g, u.T)), u.at, `${name}: a failure, thrown or rejected, goes to the error handler and only a failure does`, name);
          C.ob("error-response", imp(I, failG, calm(I, r.retG, hold(I, u))) && alts(I, r.value, failG).every((a) => b.and(a.g, failG) === 0 || eh.some((e) => isRes(a.l, e))), u.at, `${name}: the error handler's response is returned`, name);
          for (const e of eh) {
            C.ob("error-logger", e.args[1] && alts(I, e.args[1].spread ?? e.args[1], e.g).every((a) => a.l === lg.alts[0].l), e.at, `${name}: the error handler gets the lambda's logger`, name);
            const f2 = calm(I, b.andAll([u.T, e.g, e.T]), (a) => a.ev === u || a.ev === e);
            C.ob("error-handler-failure", b.and(f2, r.retG) === 0, e.at, `${name}: a failing error handler fails the invocation`, name);
          }
        } else {
          C.ob("failure-propagates", imp(I, failG, calm(I, r.throwG, hold(I, u))) && alts(I, r.throwV, failG).every((a) => b.and(a.g, failG) === 0 || a.l === u.err.alts[0].l), u.at, `${name}: without an error handler the failure reaches the runtime`, name);
        }
        const logs = r.events.filter((e) => (/^log\.info$/.test(e.name ?? "") || (e.name === "info" && mentions(I, e.recv ?? I.UNDEF, (l) => l === lg.alts[0].l))) && e.args[0] && field(I, e.args[0].spread ?? e.args[0], "tookMs").has !== 0);
        for (const [w, what] of [[okG, "success"], [failG, "failure"]]) C.ob("duration-logged", imp(I, w, calm(I, or(I, logs.map((e) => e.g)), hold(I, u))), u.at, `${name}: the duration is logged after ${what}`, name);
        for (const e of logs) {
          const t = field(I, e.args[0].spread ?? e.args[0], "tookMs").v;
          const nows = r.events.filter((x) => /now$/.test(x.name ?? "")).map((x) => [x, r.events.indexOf(x)]);
          const start = nows.filter(([, i]) => i < r.events.indexOf(u)), end = nows.filter(([, i]) => i > r.events.indexOf(u));
          if (u.promise) C.ob("duration-measured", imp(I, b.and(e.g, b.not(u.T ?? 0)), I.settledBefore(u.promise, e)), e.at, `${name}: the duration is logged after the handler's promise has settled`, name);
          const of = (xs) => (l) => xs.some(([x]) => x.res.alts[0].l === l);
          C.ob("duration-measured", t.alts.every((a) => { const x = I.lin(a.l); return !!x && x.k === 0 && x.m.size === 2 && [...x.m].every(([l, c]) => (c === 1 ? of(end)(l) : c === -1 && of(start)(l))); }), e.at, `${name}: the duration is the time from before the handler to after it`, name);
        }
      }
      { // a custom logging handler wraps the call
        const { I, r, h, lh } = run({ log: "custom" });
        C.ob("logging-handler", lh.length === 1 && h.length === 1 && h[0].regions.some((x) => x.kind === "cb" && x.ev === lh[0]), lh[0]?.at ?? FACTORY, "a custom logging handler is given the handler's execution");
        C.ob("logging-handler", alts(I, r.value, r.retG).every((a) => lh.some((e) => isRes(a.l, e))), FACTORY, "what the logging handler returns is the response");
      }
      C.min("runs-once", 4); C.min("duration-logged", 8); C.min("error-handled", 2); C.min("failure-propagates", 2);
    },
  },
};
function mentionsErr(I, v, u) { return !!v && mentions(I, v.spread ?? v, (l) => l.op === "err" && l.ev === u); }
function saysWhy(I, e, u) { // the logged entry carries an Error's message
  const inst = I.atoms.map((a, i) => [a, i]).filter(([a]) => a?.kind === "inst" && a.l.op === "err" && a.l.ev === u).map(([, i]) => I.bdd.varNode(i));
  const m = field(I, e.args[0].spread ?? e.args[0], "message").v;
  return I.bdd.or(inst.length ? I.bdd.not(inst[0]) : 0, or(I, alts(I, m).filter((a) => mentions(I, I.one(a.l), (l) => l.op === "err" && l.ev === u)).map((a) => a.g)));
}
function positive(I, v) { // guard: v > 0
  const c = constVal(I, v);
  if (c !== undefined) return c > 0 ? 1 : 0;
  const l = I.single(v);
  let g = 1;
  for (let i = 0; i < I.atoms.length; i++) {
    const a = I.atoms[i];
    if (!a) continue;
    if (a.kind === "lt" && a.norm?.length === 1 && a.norm[0][0] === l) { const [, c1] = a.norm[0]; g = I.bdd.and(g, 1 * c1 * 5 < a.k && c1 > 0 ? 1 : 1); g = I.bdd.and(g, (c1 * 5e5 < a.k) ? I.bdd.varNode(i) : I.bdd.not(I.bdd.varNode(i))); }
    else if (a.kind === "eq" && a.l === l) g = I.bdd.and(g, I.bdd.not(I.bdd.varNode(i)));
  }
  return g;
}
