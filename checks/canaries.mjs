import { L, imp, calm, or, alts, isRes, reach, mentions, named, field, dig, path_, constVal, attempt, obj, arr, method, ts, eqC, atNums, paramOf } from "./kit.mjs";

const DBC = L("aws/infra/canaries/database-checker.ts");
const URLC = L("aws/infra/canaries/url-checker.ts");
const idx = (r, e) => r.events.indexOf(e);
const arg = (e, i) => e.args[i] && (e.args[i].spread ?? e.args[i]);
const same = (I, v, l, pc = 1) => alts(I, v, pc).every((a) => a.l === l);
// worlds where synthetics runs the step functions it is given
// the response does not break off: the callbacks of its "error" event do not run
const unbroken = (I, g) => I.bdd.assign(g, (v) => { const a = I.atoms[v]; if (a?.kind !== "cb") return undefined; const x = a.ev?.args?.[0]; return x && constVal(I, x.spread ?? x) === "error" ? 0 : undefined; });
const stepsRun = (I, g, evs) => I.bdd.assign(g, (v) => { const a = I.atoms[v]; return a?.kind === "cb" && evs.includes(a.ev) ? 1 : undefined; });

export const canaries = {
  R08: {
    explain: "The database canary is evaluated for every kind of expectation and every sequence of two; the count read is a symbolic number decided at the values around every threshold.",
    run(C) {
      const kinds = [["expectOne", (n) => n === 1], ["expectZero", (n) => n === 0], ["expectOneOrMore", (n) => n >= 1]];
      for (const holder of ["createForProxy", "createForRds"]) for (const [k1, p1] of kinds) for (const [k2, p2] of kinds) {
        const I = C.interp();
        const b = I.bdd;
        const cls = I.valueOfExport(DBC, "DatabaseCountChecker");
        const S = [I.c("select count(*) from a"), I.c("SELECT COUNT(*) FROM b")];
        let outs = [];
        const r = I.run(() => { let x = method(I, cls, holder, []); x = method(I, x, k1, [I.c("first"), S[0]]); x = method(I, x, k2, [I.c("second"), S[1]]); const v = attempt(I, () => I.settle(method(I, x, "expect", []))); const st = I.events.filter((e) => /executeStep$/.test(e.name ?? "")); outs = st.map((e) => { const pc0 = I.pc; I.pc = b.and(e.g, calm(I, e.g)); const o = attempt(I, () => I.settle(I.call(arg(e, 1), I.UNDEF, [], null))); I.pc = pc0; return o; }); if (v.throwG) I.handlers[I.handlers.length - 1].g = v.throwG; I.pc = v.okG; return v.v; });
        const nm = `${k1} then ${k2}`;
        const steps = named(r, /executeStep$/);
        const qs = r.events.filter((e) => ["one", "oneOrNone", "any", "manyOrNone", "many", "query"].includes(e.name) && e.args.length);
        C.ob("steps", steps.length === 2 && qs.length === 2, DBC, `${nm}: every check runs its sql and reports a step (${qs.length} queries, ${steps.length} steps)`, "steps");
        if (steps.length !== 2 || qs.length !== 2) continue;
        qs.forEach((q, i) => C.ob("sql", constVal(I, arg(q, 0)) === S[i].alts[0].l.v, q.at, `${nm}: check ${i + 1} runs the sql given`, "sql"));
        steps.forEach((s, i) => C.ob("step-name", constVal(I, arg(s, 0)) === ["first", "second"][i], s.at, `${nm}: step ${i + 1} has the name given`, "step"));
        steps.forEach((s, i) => C.ob("continue", constVal(I, field(I, arg(s, 2), "continueOnStepFailure").v) === true, s.at, `${nm}: a failed step does not stop the others`, "continue"));
        const count = qs.map((q) => (l) => l.t === "s" && l.op === "get" && l.args[1] === "count" && mentions(I, I.one(l), (x) => isRes(x, q)));
        const hasCount = (g, i, v) => b.assign(g, (x) => { const a = I.atoms[x]; return a?.kind === "has" && mentions(I, I.one(a.l), (z) => isRes(z, qs[i])) ? v : undefined; });
        const holdR = calm(I, r.retG), holdT = calm(I, r.throwG);
        const set = (g, x, y) => atNums(I, stepsRun(I, hasCount(hasCount(g, 0, 1), 1, 1), steps), (l) => (count[0](l) ? x : count[1](l) ? y : undefined));
        for (const x of [0, 1, 2, 7]) for (const y of [0, 1, 2, 7]) {
          const ok = p1(x) && p2(y);
          const W = set(calm(I, steps[0].g), x, y);
          const g = ok ? set(holdT, x, y) : set(holdR, x, y);
          C.ob("verdict", W !== 0 && b.and(W, g) === 0, DBC, `${nm}: counts ${x} and ${y} ${ok ? "pass" : "fail"} the canary`, `${k1}/${k2}`);
        }
        for (const i of [0, 1]) {
          const W = stepsRun(I, hasCount(calm(I, steps[i].g), i, 0), steps);
          C.ob("no-count", b.and(W, stepsRun(I, hasCount(holdR, i, 0), steps)) === 0, DBC, `${nm}: a result without a count fails the canary`, "no-count");
          const lost = b.and(qs[i].g, qs[i].T);
          C.ob("query-failure", b.and(lost, r.retG) === 0, qs[i].at, `${nm}: a failing query fails the canary`, "query");
        }
        C.ob("success-value", alts(I, r.value, r.retG).every((a) => a.l.t === "c" && a.l.v === "OK"), DBC, `${nm}: a passing canary says OK`, "ok");
        // credentials first connection, decision after the last step
        const sec = r.events.find((e) => /getSecretValue/.test(e.name ?? ""));
        if (sec) C.ob("credentials-failure", b.and(b.and(sec.g, sec.T), b.or(r.retG, qs[0].g)) === 0, sec.at, `${nm}: without credentials the canary fails and no query runs`, "cred");
        const end = r.events.filter((e) => e.name === "end");
        steps.forEach((s, i) => {
          C.ob("step-failure", b.and(b.and(s.g, s.T), r.retG) === 0, s.at, `${nm}: a step that fails to run fails the canary`, "step-failure");
          for (const n of i === 0 ? [qs[1]] : end) if (s.promise) C.ob("step-awaited", imp(I, b.and(n.g, b.and(s.g, b.not(s.T ?? 0))), I.settledBefore(s.promise, n)), s.at, `${nm}: step ${i + 1} has finished before ${i === 0 ? "the next query" : "the connection is closed"}`, "await");
          for (const x of [0, 1, 2, 7]) {
            const o = outs[i]; const ok = (i ? p2 : p1)(x);
            const f = (g) => atNums(I, hasCount(hasCount(calm(I, g), 0, 1), 1, 1), (l) => (count[i](l) ? x : undefined));
            C.ob("step-verdict", o && (ok ? f(o.okG) !== 0 && f(o.throwG) === 0 : f(o.okG) === 0 && f(o.throwG) !== 0), s.at, `${nm}: step ${i + 1} ${ok ? "passes" : "fails"} for count ${x}`, "verdict");
          }
        });
        const met = named(r, /withFailedCanaryMetric$/);
        C.ob("failure-metric", met.length > 0 && met.every((e) => constVal(I, arg(e, 0)) === true) && imp(I, calm(I, 1), or(I, met.map((e) => e.g))), DBC, `${nm}: failures are counted by the canary's metric`, "metric");
        C.ob("credentials-first", !!sec && idx(r, sec) < idx(r, qs[0]), qs[0].at, `${nm}: credentials are fetched before the database is used`, "cred");
      }
      { // construction
        const I = C.interp();
        const cls = I.valueOfExport(DBC, "DatabaseCountChecker");
        const none = I.run(() => I.settle(method(I, method(I, cls, "createForProxy", []), "expect", [])));
        C.ob("no-checks", none.retG === 0, DBC, "a canary without checks fails");
        for (const [k] of kinds) for (const [sql, ok] of [["select 1", false], ["update count set x=1", false], ["count(*)", false], ["select count(*) from x", true], ["SELECT COUNT(*) FROM x", true]]) {
          const r = I.run(() => method(I, method(I, cls, "createForProxy", []), k, [I.c("n"), I.c(sql)]));
          C.ob("count-sql", ok ? calm(I, r.throwG) === 0 : calm(I, r.retG) === 0, DBC, `${k} ${ok ? "accepts" : "refuses"} "${sql}"`, k);
        }
      }
      C.min("verdict", 200); C.min("count-sql", 15);
    },
  },
  R09: {
    explain: "Each expectation of the url canary is evaluated; the response callback handed to synthetics is then called with symbolic responses, and the guard of its rejection is decided against status, content type, headers and the callbacks' outcomes.",
    run(C) {
      const mk = (I, key) => { const cls = I.valueOfExport(URLC, "UrlChecker"); return I.construct(I.single(cls), key === undefined ? [I.c("host.example")] : [I.c("host.example"), key], null); };
      const CT = "content-type", HDR = ["access-control-allow-origin", "content-encoding", CT];
      const resp = (I) => { const P = { status: I.input("status", I.checker.getNumberType()), msg: I.input("msg", I.checker.getStringType()), headers: {} }; const h = {}; for (const k of HDR) { P.headers[k] = I.input(k); h[k] = P.headers[k]; } P.on = I.input("on"); P.v = obj(I, { statusCode: P.status, statusMessage: P.msg, headers: obj(I, h), on: P.on }); return P; };
      const run = (f, opts = {}) => {
        const I = C.interp(opts);
        const key = I.input("key", I.checker.getStringType());
        const cbs = [I.input("cb1"), I.input("cb2")];
        let P, step, out, urlv;
        const r = I.run(() => {
          I.pc = I.bdd.and(I.pc, I.truth(key)); for (const c of cbs) I.pc = I.bdd.and(I.pc, I.bdd.not(I.nullish(c)));
          const x = mk(I, key);
          const p = I.settle(f(I, x, cbs));
          step = I.events.filter((e) => /executeHttpStep$/.test(e.name ?? ""))[0];
          if (!step) return p;
          P = resp(I);
          const cb = arg(step, 2);
          out = attempt(I, () => I.settle(I.call(cb, I.UNDEF, [P.v], null)));
          return p;
        });
        return { I, r, step, P, out, key, cbs };
      };
      const list = [
        ["expectStatus 404", (I, x, c) => method(I, x, "expectStatus", [I.c(404), I.c("/p"), c[0]]), 404, null, true, 1],
        ["expectStatus 200", (I, x, c) => method(I, x, "expectStatus", [I.c(200), I.c("/p"), c[0]]), 200, null, true, 1],
        ["expect200", (I, x, c) => method(I, x, "expect200", [I.c("/p"), ...c]), 200, null, true, 2],
        ["expect200 without callbacks", (I, x) => method(I, x, "expect200", [I.c("/p")]), 200, null, true, 0],
        ["expect404", (I, x) => method(I, x, "expect404", [I.c("/p")]), 404, "text/plain", true, 0],
        ["expect400", (I, x) => method(I, x, "expect400", [I.c("/p")]), 400, "text/plain", true, 0],
        ["expect403WithoutApiKey", (I, x) => method(I, x, "expect403WithoutApiKey", [I.c("/p")]), 403, "application/json", false, 0],
        ["expect403WithoutApiKey text/html", (I, x) => method(I, x, "expect403WithoutApiKey", [I.c("/p"), I.c("text/html")]), 403, "text/html", false, 0],
      ];
      for (const [nm, f, status, type, withKey, ncb] of list) {
        const { I, r, step, P, out, key, cbs } = run(f);
        const b = I.bdd;
        C.ob("step-made", !!step && named(r, /executeHttpStep$/).length === 1, URLC, `${nm}: one http step is run`, nm);
        if (!step) continue;
        const o = arg(step, 1);
        C.ob("request", constVal(I, field(I, o, "path").v) === "/p" && constVal(I, field(I, o, "hostname").v) === "host.example" && constVal(I, field(I, o, "method").v) === "GET" && constVal(I, field(I, o, "protocol").v) === "https:", step.at, `${nm}: a GET over https to the host and path given`, nm);
        const kv = path_(I, o, ["headers", "x-api-key"]);
        C.ob("api-key", withKey ? alts(I, kv, step.g).every((a) => a.l === key.alts[0].l) : !mentions(I, o, (l) => l === key.alts[0].l), step.at, `${nm}: the request is made ${withKey ? "with" : "without"} the api key`, nm);
        C.ob("user-header", constVal(I, path_(I, o, ["headers", "Digitraffic-User"])) === "internal-digitraffic-canary", step.at, `${nm}: the request identifies itself`, nm);
        const name = arg(step, 0);
        C.ob("step-name", !mentions(I, name, (l) => l === key.alts[0].l) && (constVal(I, name) === undefined || /^[\w\-. ]*$/.test(constVal(I, name)) && constVal(I, name).includes(String(status))), step.at, `${nm}: the step is named by status and url, without forbidden characters or key`, nm);
        // verdict
        const used = out.events.filter((e) => cbs.some((c) => e.callee === c.alts[0].l));
        const isS = I.eqConst(P.status.alts[0].l, I.cl(status));
        const okRet = calm(I, out.okG), bad = calm(I, out.throwG);
        const tl = P.headers[CT].alts[0].l;
        const good = type ? b.and(isS, I.eqConst(tl, I.cl(type))) : isS;
        C.ob("verdict", b.and(okRet, b.not(good)) === 0, step.at, `${nm}: any other status${type ? " or content type" : ""} fails the step`, nm);
        C.ob("verdict", okRet !== 0 && b.and(bad, good) === 0, step.at, `${nm}: a response with status ${status}${type ? ` and ${type}` : ""} passes`, nm);
        C.ob("callbacks-called", used.length === ncb, step.at, `${nm}: every callback is called (${used.length} of ${ncb})`, nm);
        for (const u of used) {
          C.ob("callbacks-called", imp(I, calm(I, b.and(good, out.okG)), u.g) && u.args.some((a) => same(I, a.spread ?? a, P.v.alts[0].l)), u.at, `${nm}: the callback sees the response`, nm);
          C.ob("callback-failure", b.and(b.and(u.g, u.T), out.okG) === 0, u.at, `${nm}: a failing callback, thrown or rejected, fails the step`, nm);
        }
        const w = calm(I, b.and(step.g, step.T), (a) => a.ev === step);
        C.ob("step-failure", w !== 0 && b.and(w, r.retG) === 0, step.at, `${nm}: a failing step fails the expectation`, nm);
      }
      { // step names lose secrets and odd characters
        const { I, step } = run((I, x, c) => method(I, x, "expect404", [I.c("/a?b=1&auth=topsecret/ä")]));
        const n = step && constVal(I, arg(step, 0));
        C.ob("step-name", typeof n === "string" && !/topsecret/.test(n) && /^[\w\-. ]*$/.test(n), step?.at ?? URLC, "authentication in a url is not shown and only allowed characters are used", "sanitize");
        const { I: I2, step: s2 } = run((J, x, c) => method(J, x, "expect200", [J.c("/a?b=1&auth=topsecret")]));
        const n2 = s2 && constVal(I2, arg(s2, 0));
        C.ob("step-name", typeof n2 === "string" && !/topsecret/.test(n2), s2?.at ?? URLC, "authentication in a url is not shown in a step name", "sanitize");
      }
      { // without an api key nothing is sent as one
        const I = C.interp();
        let step;
        const r = I.run(() => { const x = mk(I); const v = I.settle(method(I, x, "expect404", [I.c("/p")])); step = I.events.find((e) => /executeHttpStep$/.test(e.name ?? "")); return v; });
        C.ob("api-key", step && field(I, field(I, arg(step, 1), "headers").v, "x-api-key").has === 0, URLC, "without an api key no key header is sent", "nokey");
        // one checker's key stays its own
        let st;
        const r2 = I.run(() => { const k = I.input("key", I.checker.getStringType()); mk(I, k); const y = mk(I); I.settle(method(I, y, "expect404", [I.c("/p")])); st = I.events.find((e) => /executeHttpStep$/.test(e.name ?? "")); return I.UNDEF; });
        C.ob("api-key", st && field(I, field(I, arg(st, 1), "headers").v, "x-api-key").has === 0, URLC, "one checker's api key is never sent by another", "shared");
        const conf = named(r, /withInclude(Request|Response)(Headers|Body)$/);
        C.ob("no-recording", conf.length === 4 && conf.every((e) => constVal(I, arg(e, 0)) === false && imp(I, calm(I, 1), e.g)), URLC, "synthetics records neither headers nor bodies", "record");
      }
      { // the key is looked up by its id
        const I = C.interp();
        const id = I.input("id"), host = I.input("host");
        const r = I.run(() => I.settle(method(I, I.valueOfExport(URLC, "UrlChecker"), "create", [host, id])));
        const cmd = named(r, /GetApiKeyCommand$/)[0];
        C.ob("key-lookup", !!cmd && same(I, field(I, arg(cmd, 0), "apiKey").v, id.alts[0].l) && constVal(I, field(I, arg(cmd, 0), "includeValue").v) === true, URLC, "the api key is the one with the id given", "lookup");
        const send = named(r, /(^|\.|#)send$/)[0];
        C.ob("key-lookup", !!send && I.bdd.and(I.bdd.and(send.g, send.T), r.retG) === 0, URLC, "a failing lookup fails the canary", "lookup");
      }
      // checkers
      const geo = (() => { const I = C.interp(); let v; I.run(() => (v = I.getProp(I.valueOfExport(L("aws/types/mediatypes.ts"), "MediaType"), I.c("APPLICATION_GEOJSON"), null))); return constVal(I, v); })();
      C.ob("geojson-type", /^application\/geo\+json/.test(geo ?? ""), L("aws/types/mediatypes.ts"), "the GeoJSON media type is application/geo+json");
      const checker = (build, opts = {}) => {
        const I = C.interp(opts);
        const fn = I.input("fn");
        let P, out, body;
        const r = I.run(() => {
          I.pc = I.bdd.and(I.pc, I.truth(fn));
          P = resp(I);
          const f = build(I, fn);
          out = attempt(I, () => I.settle(I.call(f, I.UNDEF, [P.v], null)));
          return out.v;
        });
        return { I, r, P, out, fn, uses: out.events.filter((e) => e.callee === fn.alts[0].l) };
      };
      const range = (I, P, g, n) => atNums(I, g, (l) => (l === P.status.alts[0].l ? n : undefined));
      for (const [nm, m, type] of [["forJson", "forJson", "application/json"], ["forCSV", "forCSV", "text/csv"], ["forGeojson", "forGeojson", geo], ["forJpeg", "forJpeg", "image/jpeg"], ["checkContentType", null, "text/html"]]) for (const mode of m ? ["check", "checkJson"] : ["type"]) {
        const { I, P, out, uses, r } = checker((J, fn) => (m ? method(J, method(J, J.valueOfExport(URLC, "ResponseChecker"), m, []), mode, mode === "check" ? [] : [fn]) : method(J, J.valueOfExport(URLC, "ContentTypeChecker"), "checkContentType", [J.c(type)])));
        const b = I.bdd;
        const cors = I.truth(P.headers["access-control-allow-origin"]);
        const ct = I.eqConst(P.headers[CT].alts[0].l, I.cl(type));
        const R = calm(I, out.okG), T = calm(I, out.throwG);
        for (const n of [100, 199, 200, 204, 299, 300, 404, 500]) {
          const ok = n >= 200 && n <= 299;
          const rr = range(I, P, R, n), tt = range(I, P, T, n);
          C.ob("response-status", ok ? rr !== 0 || mode === "check" : rr === 0, URLC, `${nm}.${mode}: status ${n} ${ok ? "can pass" : "fails"}`, nm);
          if (ok) {
            C.ob("response-type", b.and(rr, b.not(ct)) === 0, URLC, `${nm}.${mode}: another content type than ${type} fails`, nm);
            C.ob("response-cors", b.and(rr, b.not(cors)) === 0, URLC, `${nm}.${mode}: a response without CORS fails`, nm);
            if (mode !== "checkJson") C.ob("response-passes", unbroken(I, b.andAll([tt, ct, cors, noUndef(I, P)])) === 0, URLC, `${nm}.${mode}: a right response passes`, nm);
          }
        }
      }
      { // header checks
        for (const [m, want] of [["checkHeaderExists", true], ["checkHeaderMissing", false]]) for (const name of [CT, "Content-Type"]) {
          const { I, P, out } = checker((J) => method(J, J.valueOfExport(URLC, "HeaderChecker"), m, [J.c(name)]));
          const h = I.truth(P.headers[CT]);
          C.ob("header-check", calm(I, out.okG) !== 0 && calm(I, out.throwG) !== 0 && imp(I, calm(I, out.okG), want ? h : I.bdd.not(h)) && imp(I, calm(I, out.throwG), want ? I.bdd.not(h) : h), URLC, `${m}("${name}") passes exactly when the header is ${want ? "present" : "missing"}`, m);
        }
      }
      { // GeoJSON
        const { I, P, out, uses } = checker((J, fn) => method(J, J.valueOfExport(URLC, "GeoJsonChecker"), "validFeatureCollection", [fn]));
        const b = I.bdd;
        const W = calm(I, out.okG);
        C.ob("geojson", uses.length === 1 && imp(I, W, uses[0].g) && b.and(b.and(uses[0].g, uses[0].T), out.okG) === 0, URLC, "the check given sees the collection and its failure fails the step", "fn");
        const ty = [...I.leaves].find((l) => l.t === "s" && l.op === "get" && l.args[1] === "type" && mentions(I, I.one(l), (x) => /JSON\.parse/.test((x.op ?? "") + (x.ev?.name ?? ""))));
        C.ob("geojson", !!ty && imp(I, W, I.eqConst(ty, I.cl("FeatureCollection"))), URLC, "only a FeatureCollection passes", "type");
        const val = out.events.filter((e) => /geojson-validation|isValid|valid/.test(e.name ?? "") && e.args.some((a) => mentions(I, a.spread ?? a, (x) => /JSON\.parse/.test((x.op ?? "") + (x.ev?.name ?? "")))));
        C.ob("geojson", val.length > 0 && val.some((e) => imp(I, W, b.and(e.g, I.truth(e.res)))), URLC, "only valid GeoJSON passes", "valid");
      }
      { // bodies
        for (const [m, json] of [["checkJson", true], ["checkResponse", false]]) {
          const { I, P, out, uses, r } = checker((J, fn) => method(J, J.valueOfExport(URLC, "ContentChecker"), m, [fn]), {});
          C.ob("body-checked", uses.length === 1, URLC, `ContentChecker.${m} gives the body to the check`, m);
          for (const u of uses) {
            C.ob("check-failure", I.bdd.and(I.bdd.and(u.g, u.T), out.okG) === 0, u.at, `ContentChecker.${m}: a failing check fails the step`, m);
            const on = out.events.filter((e) => e.name === "on" || e.callee === P.on.alts[0].l);
            const ons = on.map((e) => [e, constVal(I, arg(e, 0))]);
            for (const w of ["data", "end"]) C.ob("body-complete", ons.some(([, k]) => k === w), u.at, `ContentChecker.${m}: the body is collected from "${w}" events`, m);
            const cat = out.events.filter((e) => /Buffer\.concat$/.test(e.name ?? ""));
            for (const e of cat) C.ob("body-complete", e.regions.some((x) => x.kind === "cb" && ons.some(([o, k]) => o === x.ev && k === "end")) || e.regions.length === 0, e.at, `ContentChecker.${m}: the body is put together when the response ends`, m);
            if (json) C.ob("json-parsed", alts(I, arg(u, 0), u.g).every((a) => mentions(I, I.one(a.l), (l) => /JSON\.parse$/.test((l.op ?? "") + (l.ev?.name ?? "")))), u.at, `ContentChecker.${m}: the check gets the parsed JSON`, m);
            const bodyV = arg(u, json ? 1 : 0);
            const gz = I.eqConst(P.headers["content-encoding"].alts[0].l, I.cl("gzip"));
            const concat = (l) => /Buffer\.concat$/.test(l.op ?? "") || (l.t === "s" && l.op === "res" && /Buffer\.concat$/.test(l.ev?.name ?? ""));
            for (const a of alts(I, bodyV, u.g)) {
              const un = mentions(I, I.one(a.l), (l) => /gunzip/.test((l.op ?? "") + (l.ev?.name ?? "")), { throughRes: true });
              C.ob("body-decoded", mentions(I, I.one(a.l), concat, { throughRes: true }) || mentions(I, I.one(a.l), (l) => l.op === "cbarg"), u.at, `ContentChecker.${m}: the body is all the data received`, m);
              if (un) C.ob("body-decoded", imp(I, I.bdd.and(a.g, u.g), gz), u.at, `ContentChecker.${m}: only a gzipped body is unzipped`, m);
            }
            const w = calm(I, I.bdd.and(u.g, gz));
            C.ob("body-decoded", w === 0 || alts(I, bodyV, w).every((a) => mentions(I, I.one(a.l), (l) => /gunzip/.test((l.op ?? "") + (l.ev?.name ?? "")), { throughRes: true })), u.at, `ContentChecker.${m}: a gzipped body is unzipped before it is checked`, m);
          }
        }
      }
      C.min("verdict", 16); C.min("callback-failure", 4); C.min("response-status", 50); C.min("body-decoded", 2);
    },
  },
};
const noUndef = (I, P) => 1;
