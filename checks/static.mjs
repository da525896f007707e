// Answers given by the gateway itself: static integrations and the older integration responses.
import { L, field, imp, constVal, eqC, method } from "./kit.mjs";
import { cdk, lit, arg, made, calls, items, enumName, showsAs } from "./infra-kit.mjs";
const SI = L("aws/infra/api/static-integration.ts"), RS = L("aws/infra/api/responses.ts"), ER = L("aws/types/errors.ts");
const P = (I, v, ...ks) => ks.reduce((x, k) => field(I, x, k).v, v);
const shows = (I, v, t) => v !== undefined && showsAs(I, v, t) === 1;
const keysOf = (I, v) => { const l = v?.alts?.length === 1 ? v.alts[0].l : undefined; const m = l?.t === "o" ? l.rec.props : l?.t === "s" && l.op === "obj" ? l.fields : undefined; return m ? [...m].filter(([, p]) => p.has !== 0).map(([k, p]) => ({ k, v: p.v, has: p.has })) : undefined; };
const HDR = "method.response.header.";

function statics(C) {
  const sets = { "no headers": {}, "own headers": { "X-A": "1", "Cache-Control": "max-age=5" }, "an own CORS header": { "Access-Control-Allow-Origin": "https://x" } };
  for (const way of ["class", "json"]) for (const [hn, hs] of Object.entries(sets)) for (const cors of [undefined, true, false]) for (const key of [undefined, true, false]) {
    const I = cdk(C), cls = I.single(I.valueOfExport(SI, "DigitrafficStaticIntegration"));
    const mt = way === "json" ? "application/json" : "text/plain", nm = `${way}, ${hn}, CORS ${cors}, key ${key}`;
    const headers = lit(I, Object.fromEntries(Object.entries(hs).map(([k]) => [k, I.input(`h:${k}`, I.checker.getStringType())])));
    const opt = [cors === undefined ? I.UNDEF : I.c(cors), key === undefined ? I.UNDEF : I.c(key), headers];
    const r = I.run(() => (way === "class" ? I.construct(cls, [I.input("resource"), I.c(mt), I.input("response", I.checker.getStringType()), I.input("model"), ...opt], null) : method(I, I.one(cls), "json", [I.input("resource"), I.input("response"), I.input("model"), ...opt])));
    const mock = made(r, /MockIntegration$/), adds = calls(r, /^addMethod$/);
    C.ob("one-integration", mock.length === 1 && mock[0].g === 1 && r.throwG === 0, SI, `${nm}: one static integration`, nm);
    if (mock.length !== 1) continue;
    const conf = arg(mock[0], 0), irs = items(I, P(I, conf, "integrationResponses"));
    const verbs = adds.map((e) => constVal(I, arg(e, 0))).sort().join();
    C.ob("verbs", verbs === "GET,HEAD" && adds.every((e) => e.g === 1 && I.show(e.recv) === "$resource"), SI, `${nm}: the resource answers to GET and HEAD (${verbs})`, nm);
    C.ob("answer-status", irs.length === 1 && constVal(I, P(I, irs[0].v, "statusCode")) === "200", SI, `${nm}: the one answer is 200`, nm);
    const tpl = irs[0] && P(I, irs[0].v, "responseTemplates"), tk = keysOf(I, tpl);
    const want = way === "json" ? (t) => /JSON\.stringify\(\$response\)|^json\(\$response\)/.test(t) || (/json/i.test(t) && t.includes("$response")) : (t) => t === "$response";
    C.ob("answer-body", tk?.length === 1 && tk[0].k === mt && tk[0].v.alts.every((a) => want(I.showLeaf(a.l))), SI, `${nm}: the body is the response given, as ${mt} (${tk && I.show(tk[0]?.v ?? I.UNDEF)})`, nm);
    C.ob("request-other", ["WHEN_NO_TEMPLATES", "NEVER"].includes(enumName(I, P(I, conf, "passthroughBehavior"))), SI, `${nm}: a body of another type is refused, not passed on`, nm);
    const req = keysOf(I, P(I, conf, "requestTemplates"));
    C.ob("request-accepted", !!req?.length && req.every((x) => { try { return JSON.parse(constVal(I, x.v)).statusCode === 200; } catch { return false; } }), SI, `${nm}: the request is answered with status 200`, nm);
    C.ob("request-type", !!req?.some((x) => x.k === mt || x.k === "application/json"), SI, `${nm}: requests of the response's type are accepted`, nm);
    // headers: value in the answer and declared in the method, the same ones
    const exp = new Map(Object.keys(hs).map((k) => [k, `\`'\${$h:${k}}'\``]));
    if (cors !== false) exp.set("Access-Control-Allow-Origin", `"'*'"`);
    const given = keysOf(I, irs[0] && P(I, irs[0].v, "responseParameters"));
    C.ob("headers", !!given && given.length === exp.size && given.every((x) => x.has === 1 && exp.get(x.k.slice(HDR.length)) === I.show(x.v) && x.k.startsWith(HDR)), SI, `${nm}: the answer has its headers, quoted (${given?.map((x) => x.k.slice(23) + "=" + I.show(x.v))})`, nm);
    for (const e of adds) {
      const o = arg(e, 2), mrs = items(I, P(I, o, "methodResponses"));
      const dec = keysOf(I, mrs[0] && P(I, mrs[0].v, "responseParameters"));
      C.ob("declared", mrs.length === 1 && constVal(I, P(I, mrs[0].v, "statusCode")) === "200" && JSON.stringify(dec?.map((x) => x.k).sort()) === JSON.stringify([...exp.keys()].map((k) => HDR + k).sort()) && dec.every((x) => constVal(I, x.v) === true), e.at, `${nm}: the method lets just those headers out`, nm);
      const mm = keysOf(I, mrs[0] && P(I, mrs[0].v, "responseModels"));
      C.ob("model", mm?.length === 1 && mm[0].k === mt && shows(I, mm[0].v, "$model"), e.at, `${nm}: the method documents its model`, nm);
      C.ob("key", constVal(I, P(I, o, "apiKeyRequired")) === (key ?? true), e.at, `${nm}: an API key is ${key === false ? "not needed" : "needed"}`, nm);
      C.ob("integrated", arg(e, 1).alts.every((a) => a.l.t === "o" && /StaticIntegration|MockIntegration/.test(I.showLeaf(a.l))), e.at, `${nm}: the method uses the static answer`, nm);
    }
    C.ob("headers-kept", JSON.stringify(keysOf(I, headers)?.map((x) => x.k)) === JSON.stringify(Object.keys(hs)), SI, `${nm}: the headers given stay as they were`, nm);
  }
}
function older(C) {
  { const I = cdk(C), c = Object.fromEntries(["NOT_FOUND_MESSAGE", "ERROR_MESSAGE", "BAD_REQUEST_MESSAGE", "OK_MESSAGE"].map((k) => [k, constVal(I, I.valueOfExport(ER, k))]));
    const ps = Object.values(c);
    C.ob("patterns-apart", ps.every((p, i) => typeof p === "string" && ps.every((q, j) => i === j || !new RegExp(`^(?:${p})$`).test(q))), ER, `no outcome's message is taken for another (${ps})`, "patterns"); }
  for (const xml of [undefined, true, false]) for (const off of [undefined, true, false]) {
    const I = cdk(C), nm = `XML ${xml}, CORS off ${off}`;
    const r = C.fn(I, RS, "defaultIntegration", [I.input("f"), ...(xml === undefined && off === undefined ? [] : [lit(I, { ...(xml === undefined ? {} : { xml }), ...(off === undefined ? {} : { disableCors: off }) })])]);
    const e = made(r, /LambdaIntegration$/)[0];
    C.ob("lambda", !!e && e.g === 1 && shows(I, arg(e, 0), "$f") && constVal(I, P(I, arg(e, 1), "proxy")) === false, RS, `${nm}: the function given is integrated, not proxied`, nm);
    if (!e) continue;
    const rs = items(I, P(I, arg(e, 1), "integrationResponses"));
    C.ob("older-passthrough", enumName(I, P(I, arg(e, 1), "passthroughBehavior")) === "WHEN_NO_MATCH", e.at, `${nm}: requests of any type reach the function`, nm);
    const want = { 200: undefined, 400: "BAD_REQUEST_MESSAGE", 404: "NOT_FOUND_MESSAGE", 500: "ERROR_MESSAGE" };
    C.ob("outcomes", rs.map((x) => constVal(I, P(I, x.v, "statusCode"))).sort().join() === "200,400,404,500", e.at, `${nm}: success and three failures are told apart`, nm);
    for (const x of rs) {
      const s = constVal(I, P(I, x.v, "statusCode")), p = P(I, x.v, "selectionPattern"), pat = want[s] && constVal(I, I.valueOfExport(ER, want[s]));
      C.ob("selected", I.show(p) === (pat === undefined ? "undefined" : JSON.stringify(pat)), e.at, `${nm}: ${s} is chosen by its own message (${I.show(p)})`, `${nm}-${s}`);
      const cors = P(I, x.v, "responseParameters", `${HDR}Access-Control-Allow-Origin`);
      C.ob("older-cors", off ? I.show(cors) === "undefined" : constVal(I, cors) === "'*'", e.at, `${nm}: ${s} has ${off ? "no" : "the"} CORS header`, `${nm}-${s}`);
      const t = keysOf(I, P(I, x.v, "responseTemplates"));
      if (xml) C.ob("older-xml", t?.length === 1 && t[0].k === "application/xml" && /body/.test(constVal(I, t[0].v) ?? ""), e.at, `${nm}: ${s} gives the body as XML`, `${nm}-${s}`);
      else if (s !== "200") C.ob("older-message", t?.length === 1 && t[0].k === "application/json" && (() => { try { return new RegExp({ 400: "bad request", 404: "not found", 500: "error" }[s], "i").test(JSON.parse(constVal(I, t[0].v)).message); } catch { return false; } })(), e.at, `${nm}: ${s} tells what failed`, `${nm}-${s}`);
      else C.ob("older-message", t === undefined || t.length === 0, e.at, `${nm}: success gives what the function gave`, `${nm}-${s}`);
    }
  }
  const own = ["requestParameters", "requestTemplates", "responses", "passthroughBehavior"];
  for (const k of own) {
    const I = cdk(C), r = C.fn(I, RS, "defaultIntegration", [I.input("f"), lit(I, { [k]: I.input("own", I.checker.getESSymbolType?.() ?? undefined) })]);
    const e = made(r, /LambdaIntegration$/)[0], v = e && P(I, arg(e, 1), k === "responses" ? "integrationResponses" : k);
    C.ob("older-own", !!e && v.alts.some((a) => I.showLeaf(a.l) === "$own"), e?.at ?? RS, `own ${k} are used`, k);
    for (const o of own.filter((x) => x !== k && x !== "responses" && x !== "passthroughBehavior")) C.ob("older-own-only", e && keysOf(I, P(I, arg(e, 1), o))?.length === 0, e?.at ?? RS, `own ${k} leave ${o} empty`, `${k}-${o}`);
  }
  { const I = cdk(C), r = C.fn(I, RS, "methodResponse", [I.input("status"), I.c("text/plain"), I.input("model"), I.input("parameters", I.checker.getESSymbolType?.())]);
    const mm = keysOf(I, P(I, r.value, "responseModels"));
    C.ob("method-response", shows(I, P(I, r.value, "statusCode"), "$status") && mm?.length === 1 && mm[0].k === "text/plain" && shows(I, mm[0].v, "$model") && P(I, r.value, "responseParameters").alts.some((a) => I.showLeaf(a.l) === "$parameters"), RS, "a method response has its status, model and parameters", "method"); }
}
export const statik = { I11: { explain: "Static integrations are constructed with every flag and header set; both header lists, templates, methods and older responses are compared.", run(C) { statics(C); older(C); C.min("headers", 50); C.min("selected", 30); } } };
