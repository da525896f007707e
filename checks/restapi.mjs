import { L, imp, or, constVal, method, field, path_, mentions, eqC } from "./kit.mjs";
import { cdk, stackInput, lit, made, calls, arg, items, tree, showsAs, isResult, enumName, members, typeNamed } from "./infra-kit.mjs";
const RA = L("aws/infra/stack/rest-api.ts"), UP = L("aws/infra/usage-plans.ts"), BP = L("aws/infra/bucket-policy.ts"), DO = L("aws/infra/documentation.ts");
const P = (I, v, k) => field(I, v, k).v;
const shows = (I, v, t) => v !== undefined && showsAs(I, v, t) === 1;
const single = (x) => (x.length === 1 ? x[0] : undefined);
const json = (t) => { try { return JSON.parse(t); } catch { return undefined; } };
const world = (I, f) => { const b = I.bdd; const [nul, und] = [I.eqConst(f, I.cl(null)), I.eqConst(f, I.cl(undefined))]; return { undefined: und, null: b.and(nul, b.not(und)), given: b.not(b.or(nul, und)) }; };

// the two ways of making an API
const WAYS = {
  class: (I, st, ips, conf) => I.construct(I.single(I.valueOfExport(RA, "DigitrafficRestApi")), [st, I.c("id"), I.c("MyApi"), ips, ...(conf ? [conf] : [])], null),
  function: (I, st, ips) => I.call(I.valueOfExport(RA, "createRestApi"), I.UNDEF, [st, I.c("id"), I.c("MyApi"), ips]),
};
const isApi = /aws-apigateway#RestApi$/;

// Statements of the policy documents v may be, as [guard, statement construct]
function statements(I, r, v) {
  const out = [];
  for (const d of made(r, /PolicyDocument$/)) {
    const g = isResult(I, v, d);
    if (g === 0) continue;
    const list = [...items(I, P(I, arg(d, 0), "statements") ?? I.UNDEF)];
    for (const e of calls(r, /^addStatements$/)) if (e.recv && isResult(I, e.recv, d) !== 0) for (const a of e.args) list.push({ v: a.spread ?? a, g: e.g });
    for (const s of made(r, /PolicyStatement$/)) { const sg = or(I, list.map((x) => I.bdd.and(x.g, isResult(I, x.v, s)))); if (sg !== 0) out.push([I.bdd.and(g, sg), s]); }
  }
  return out;
}
// Is a request from an address allowed? (inList: is the address in the list given)
function allowed(I, sts, w, inList) {
  let allow = 0, deny = 0;
  for (const [g, s] of sts) {
    const p = arg(s, 0);
    const cond = tree(I, P(I, p, "conditions"));
    let m = true;
    for (const [op, kv] of Object.entries(cond ?? {})) for (const [k, x] of Object.entries(kv)) {
      const given = k === "aws:SourceIp" && JSON.stringify(x).includes("$ips");
      if (!given || !["IpAddress", "NotIpAddress"].includes(op)) return undefined;
      if ((op === "IpAddress") !== inList) m = false;
    }
    if (!m) continue;
    if (enumName(I, P(I, p, "effect")) === "DENY") deny = I.bdd.or(deny, g); else allow = I.bdd.or(allow, g);
  }
  const a = I.bdd.and(allow, I.bdd.not(deny));
  return imp(I, w, a) ? true : I.bdd.and(w, a) === 0 ? false : undefined;
}

export const restapi = {
  I05: {
    explain: "Both ways of making an API, its keys, models, documentation and bucket grants are evaluated on symbolic stacks and lists; the policy built is decided for addresses inside and outside the list given.",
    run(C) { apis(C); keys(C); exported(C); models(C); docs(C); cors(C); buckets(C); C.min("address", 12); C.min("export", 6); C.min("documented", 6); },
  },
};

function apis(C) {
  for (const [way, make] of Object.entries(WAYS)) {
    const I = cdk(C), st = stackInput(I), ips = I.input("ips");
    const r = I.run(() => make(I, st, ips));
    const api = single(made(r, isApi));
    C.ob("one-api", !!api && imp(I, r.retG, api.g) && r.throwG === 0, RA, `${way}: one API is created`, way);
    if (!api) continue;
    const conf = arg(api, 2), pol = P(I, conf, "policy"), sts = statements(I, r, pol);
    for (const [w, g] of Object.entries(world(I, ips.alts[0].l))) for (const inList of [true, false]) {
      const want = w === "given" ? inList : true;
      C.ob("address", allowed(I, sts, g, inList) === want, api.at, `${way}: with the list ${w}, an address ${inList ? "in" : "outside"} it is ${want ? "let in" : "refused"}`, `${way}-${w}`);
    }
    for (const [, s] of sts) {
      const p = arg(s, 0);
      C.ob("invoke-only", JSON.stringify(tree(I, P(I, p, "actions"))) === '["execute-api:Invoke"]', s.at, `${way}: the policy covers invoking the API`, way);
      C.ob("anyone", items(I, P(I, p, "principals")).some((x) => made(r, /AnyPrincipal$|StarPrincipal$/).some((e) => isResult(I, x.v, e) !== 0)) && (JSON.stringify(tree(I, P(I, p, "resources"))) ?? "").includes("*"), s.at, `${way}: the policy covers every caller and method`, way);
    }
    C.ob("regional", items(I, P(I, conf, "endpointTypes")).length === 1 && enumName(I, items(I, P(I, conf, "endpointTypes"))[0].v) === "REGIONAL", api.at, `${way}: the API is regional`, way);
    C.ob("logging", ["ERROR", "INFO"].includes(enumName(I, path_(I, conf, ["deployOptions", "loggingLevel"]))), api.at, `${way}: errors are logged`, way);
    C.ob("api-name", constVal(I, P(I, conf, "restApiName")) === "MyApi" && constVal(I, arg(api, 1)) === "id" && shows(I, arg(api, 0), "$stack"), api.at, `${way}: the API has its name, in its stack`, way);
    notFound(C, I, r, way, r.value, "404");
  }
  { // own settings win, the rest of the defaults stay
    const own = { restApiName: "own", policy: "own", endpointTypes: "own", deployOptions: "own", description: "own", binaryMediaTypes: "own" };
    for (const k of Object.keys(own)) {
      const I = cdk(C), st = stackInput(I), ips = I.input("ips");
      const r = I.run(() => WAYS.class(I, st, ips, lit(I, { [k]: I.input("own") })));
      const api = single(made(r, isApi));
      C.ob("own-setting", !!api && shows(I, P(I, arg(api, 2), k), "$own"), api?.at ?? RA, `an own ${k} is used`, k);
      if (api && k !== "policy") C.ob("own-setting-only", allowed(I, statements(I, r, P(I, arg(api, 2), "policy")), world(I, ips.alts[0].l).given, false) === false, api.at, `an own ${k} leaves the address restriction in place`, k);
    }
  }
  // 404, 401 and other answers on their own
  const api = (I, n = "api") => I.input(n, typeNamed(I, "aws-apigateway/lib/restapi.d.ts", "RestApi"));
  { const I = cdk(C), a = api(I); const r = I.run(() => I.call(I.valueOfExport(RA, "add404Support"), I.UNDEF, [a, I.input("scope")])); notFound(C, I, r, "404", a, "404"); }
  { const I = cdk(C), a = api(I); const r = I.run(() => I.call(I.valueOfExport(RA, "setReturnCodeForMissingAuthenticationToken"), I.UNDEF, [I.c(418), I.c('"m"'), a, I.input("scope")])); notFound(C, I, r, "other code", a, "418"); }
  { const I = cdk(C), a = api(I);
    const r = I.run(() => I.call(I.valueOfExport(RA, "add401Support"), I.UNDEF, [a, I.input("scope")]));
    const e = single(made(r, /GatewayResponse$/)), p = e && arg(e, 2);
    C.ob("unauthorized", !!e && imp(I, r.retG, e.g) && shows(I, P(I, p, "restApi"), "$api") && enumName(I, P(I, p, "type")) === "UNAUTHORIZED" && constVal(I, P(I, p, "statusCode")) === "401" && /^'Basic.*'$/.test(constVal(I, field(I, P(I, p, "responseHeaders"), "WWW-Authenticate").v) ?? ""), e?.at ?? RA, "a failed authentication answers 401 and asks for credentials", "401"); }
}
function notFound(C, I, r, way, api, code) {
  const e = single(made(r, /GatewayResponse$/)), p = e && arg(e, 2);
  const id = e ? I.show(arg(e, 1)) : "";
  C.ob("not-found", !!e && imp(I, r.retG, e.g) && I.show(P(I, p, "restApi")) === I.show(api) && enumName(I, P(I, p, "type")) === "MISSING_AUTHENTICATION_TOKEN" && constVal(I, P(I, p, "statusCode")) === code, e?.at ?? RA, `${way}: on this API a path that does not exist answers ${code}`, way);
  const body = p && constVal(I, field(I, P(I, p, "templates"), "application/json").v);
  C.ob("not-found-body", typeof json(body)?.message === "string", e?.at ?? RA, `${way}: the answer's body is JSON with a message`, way);
  C.ob("not-found-own", /restApiName/.test(id) || /MyApi/.test(id), e?.at ?? RA, `${way}: two APIs of a stack can have an answer each`, way);
}

function keys(C) {
  const apiTy = (I) => typeNamed(I, "aws-apigateway/lib/restapi.d.ts", "RestApi");
  const plan = (I, r, w, recv, nm, at) => {
    const key = single(calls(r, /^addApiKey$/).filter((e) => showsAs(I, e.recv, recv) === 1)), up = single(calls(r, /^addUsagePlan$/).filter((e) => showsAs(I, e.recv, recv) === 1));
    const extra = made(r, /#ApiKey$|#UsagePlan$/).length;
    C.ob("one-key", !!key && !!up && !extra && imp(I, w, I.bdd.and(key.g, up.g)), at, `${nm}: one key and one plan are made on the API`, nm);
    if (!key || !up) return {};
    const stageIn = calls(r, /^addApiStage$/).filter((e) => isResult(I, e.recv, up) === 1);
    const given = items(I, P(I, arg(up, 1), "apiStages") ?? I.UNDEF);
    const stages = [...stageIn.map((e) => [e.g, P(I, arg(e, 0), "stage")]), ...given.map((x) => [x.g, P(I, x.v, "stage")])];
    C.ob("plan-stage", stages.length > 0 && stages.every(([g, v]) => imp(I, w, g) && I.show(v) === `${recv}.deploymentStage`), up.at, `${nm}: the plan covers the API's own stage`, nm);
    const ks = calls(r, /^addApiKey$/).filter((e) => isResult(I, e.recv, up) === 1);
    C.ob("plan-key", ks.length > 0 && ks.every((e) => imp(I, w, e.g) && isResult(I, arg(e, 0), key) === 1), up.at, `${nm}: the key belongs to the plan`, nm);
    return { key, up };
  };
  for (const [f, nm] of [["createUsagePlan", "older plan"], ["createDefaultUsagePlan", "default plan"]]) {
    const I = cdk(C), a = I.input("api", apiTy(I));
    const r = I.run(() => I.call(I.valueOfExport(UP, f), I.UNDEF, [a, I.c("Thing"), I.input("value")]));
    const { key, up } = plan(I, r, r.retG, "$api", nm, UP);
    if (!key) continue;
    C.ob("key-returned", isResult(I, r.value, key) === 1, key.at, `${nm}: the key itself is returned`, nm);
    if (f === "createDefaultUsagePlan") {
      C.ob("key-value", shows(I, P(I, arg(key, 1), "value"), "$value") && constVal(I, P(I, arg(key, 1), "apiKeyName")) === "Thing API Key", key.at, `${nm}: the key has the name and value given`, nm);
      C.ob("plan-name", constVal(I, P(I, arg(up, 1), "name")) === "Thing API Usage Plan", up.at, `${nm}: the plan is named after the API`, nm);
    }
  }
  for (const [m, args, value] of [["createUsagePlan", (I) => [I.c("Kid"), I.c("Kname")]], ["createUsagePlanV2", (I) => [I.c("Thing"), I.input("value")], true]]) {
    const I = cdk(C), st = stackInput(I), cls = I.single(I.valueOfExport(RA, "DigitrafficRestApi"));
    let a, b, ids0;
    const r = I.run(() => { a = I.construct(cls, [st, I.c("a"), I.c("A")], null); b = I.construct(cls, [st, I.c("b"), I.c("B")], null); ids0 = I.freeze(P(I, a, "apiKeyIds")); return method(I, a, m, args(I)); });
    const own = I.show(a);
    const { key } = plan(I, r, r.retG, own, m, RA);
    if (!key) continue;
    const idOf = (v) => showsAs(I, v, (t, l) => l.t === "s" && l.op === "get" && /keyId/.test(t) && isResult(I, l.args[0].alts ? l.args[0] : I.one(l.args[0]), key) === 1);
    C.ob("key-id", idOf(r.value) === 1, key.at, `${m}: the id of the key made is returned`, m);
    if (value) C.ob("key-value", shows(I, P(I, arg(key, 1), "value"), "$value"), key.at, `${m}: the value given becomes the key's`, m);
    const ids = items(I, P(I, a, "apiKeyIds"));
    C.ob("key-recorded", ids.length === 1 && ids[0].g === 1 && idOf(ids[0].v) === 1 && items(I, P(I, b, "apiKeyIds")).length === 0, key.at, `${m}: the key is recorded once, on its own API only`, m);
  }
}

function exported(C) {
  const one = (n, params, conf) => {
    const I = cdk(C), st = stackInput(I, conf), cls = I.single(I.valueOfExport(RA, "DigitrafficRestApi"));
    let a;
    const keys = [...Array(n).keys()];
    const r = I.run(() => { a = I.construct(cls, [st, I.c("a"), I.c("A")], null); for (const i of keys) method(I, a, i % 2 ? "createUsagePlanV2" : "createUsagePlan", [I.c(`k${i}`), I.c(`v${i}`)]); return method(I, a, "exportEndpoint", params ? [params(I)] : []); });
    const ids = calls(r, /^addApiKey$/).filter((e) => showsAs(I, e.recv, I.show(a)) === 1);
    return { I, r, a, ids, sps: made(r, /StringParameter$/) };
  };
  const nonEmpty = (I, g) => I.bdd.assign(g, (v) => (I.atoms[v]?.kind === "eq" && I.atoms[v].k.v === "" && /keyId$/.test(I.showLeaf(I.atoms[v].l)) ? 0 : I.atoms[v]?.kind === "truthy" && /keyId$/.test(I.showLeaf(I.atoms[v].l)) ? 1 : undefined));
  const check = (x, want, name, nm) => {
    const { I, r, a, sps } = x;
    C.ob("export", nonEmpty(I, r.throwG) === 0 && sps.length === 2 && sps.every((e) => nonEmpty(I, I.bdd.not(e.g)) === 0), RA, `${nm}: the endpoint and a key are exported`, nm);
    if (sps.length !== 2) return;
    const by = (t) => sps.find((e) => constVal(I, P(I, arg(e, 2), "parameterName")) === t);
    const u = by(`/digitraffic/${name}/endpointUrl`), k = by(`/digitraffic/${name}/apiKeyId`);
    C.ob("export-url", !!u && I.show(P(I, arg(u, 2), "stringValue")) === `${I.show(a)}.url`, RA, `${nm}: the address exported is the API's own`, nm);
    C.ob("export-key", !!k && want(I, P(I, arg(k, 2), "stringValue")), RA, `${nm}: the key exported is the right one`, nm);
    C.ob("export-ids", u && k && constVal(I, arg(u, 1)) !== constVal(I, arg(k, 1)) && [u, k].every((e) => new RegExp(name).test(constVal(I, arg(e, 1)))), RA, `${nm}: exports of different names do not clash`, nm);
    const res = items(I, r.value);
    C.ob("export-result", res.length === 2 && isResult(I, res[0].v, u ?? {}) !== 0 && isResult(I, res[1].v, k ?? {}) !== 0, RA, `${nm}: address and key are returned in that order`, nm);
  };
  const isKey = (x, i) => (I, v) => showsAs(I, v, (t, l) => l.t === "s" && l.op === "get" && /keyId/.test(t) && isResult(I, l.args[0].alts ? l.args[0] : I.one(l.args[0]), x.ids[i]) === 1) === 1;
  { const x = one(1); check(x, isKey(x, 0), "ST", "only key"); }
  { const x = one(1, (I) => lit(I, { exportName: "other" })); check(x, isKey(x, 0), "other", "only key, own name"); }
  for (const n of [0, 1, 2, 3]) check(one(n, (I) => lit(I, { apiKeyId: "chosen" })), (I, v) => constVal(I, v) === "chosen", "ST", `chosen key among ${n}`);
  check(one(2, (I) => lit(I, { apiKeyId: "chosen", exportName: "other" })), (I, v) => constVal(I, v) === "chosen", "other", "chosen key, own name");
  for (const n of [0, 2, 3]) for (const p of [undefined, (I) => lit(I, { exportName: "other" })]) { const { r, sps } = one(n, p); C.ob("export-refused", r.retG === 0 && sps.every((e) => e.g === 0), RA, `${n} keys and none chosen: nothing is exported`, `refused-${n}`); }
}

function models(C) {
  for (const [m, type, schema] of [["addJsonModel", "application/json", true], ["addCSVModel", "text/csv", false]]) {
    const I = cdk(C), st = stackInput(I), cls = I.single(I.valueOfExport(RA, "DigitrafficRestApi"));
    let a;
    const r = I.run(() => { a = I.construct(cls, [st, I.c("a"), I.c("A")], null); return method(I, a, m, [I.c("Mod"), I.input("schema")]); });
    const e = single(calls(r, /^addModel$/).filter((x) => showsAs(I, x.recv, I.show(a)) === 1));
    C.ob("model", !!e && constVal(I, P(I, arg(e, 1), "contentType")) === type && constVal(I, P(I, arg(e, 1), "modelName")) === "Mod" && constVal(I, arg(e, 0)) === "Mod" && (!schema || shows(I, P(I, arg(e, 1), "schema"), "$schema")), e?.at ?? RA, `${m}: the model has its name, type and schema`, m);
    if (!e) continue;
    const set = single(calls(r, /#set$/).filter((x) => isResult(I, arg(x, 0), e) === 1 && constVal(I, arg(x, 1)) === "modelReference"));
    const ref = set ? arg(set, 2) : P(I, r.value, "modelReference");
    const t = ref ? I.show(ref) : "";
    C.ob("model-reference", t.includes(`${I.show(a)}.restApiId`) && /addModel@[^)]*\)\.modelId/.test(t) && /^`https:\/\/apigateway\.amazonaws\.com\/restapis\/\$\{[^}]*restApiId\}\/models\/\$\{[^}]*modelId\}`$/.test(t), e.at, `${m}: the reference names the model and its API`, m);
    C.ob("model-returned", set ? isResult(I, r.value, set) === 1 || isResult(I, r.value, e) === 1 || I.show(r.value).startsWith(`ext:es-toolkit#set(${I.show(arg(set, 0))}, "modelReference"`) : /modelReference/.test(I.show(r.value)), e.at, `${m}: the model with its reference is returned`, m);
  }
}

// A documentation part describes exactly the place named
function part(C, I, r, e, { api, path, type, name, props, nm, scope }) {
  const p = arg(e, 2), locn = tree(I, P(I, p, "location")) ?? {};
  C.ob("documented", I.show(P(I, p, "restApiId")) === api && locn.path?.$ === path && locn.type === type && (name === undefined ? locn.name === undefined : locn.name === name), e.at, `${nm}: the documentation is on that API, path and ${type === "METHOD" ? "method" : "parameter"}`, nm);
  const body = P(I, p, "properties");
  C.ob("documentation-text", docText(I, body, props), e.at, `${nm}: the documentation is the one given`, nm);
}
// the value serialised to JSON shows the wanted members
function docText(I, v, want) {
  const l = v.alts.length === 1 ? v.alts[0].l : undefined;
  if (!l) return false;
  if (l.t === "c") return JSON.stringify(sorted(json(l.v))) === JSON.stringify(sorted(want));
  if (!(l.t === "s" && /^json$|stringify$/.test(l.op))) return false;
  const o = tree(I, l.args[0].alts ? l.args[0] : I.one(l.args[0]));
  return JSON.stringify(sorted(o)) === JSON.stringify(sorted(want));
}
const sorted = (o) => (o && typeof o === "object" && !Array.isArray(o) ? Object.fromEntries(Object.keys(o).sort().map((k) => [k, sorted(o[k])])) : o);

function docs(C) {
  const resTy = (I) => typeNamed(I, "aws-apigateway/lib/resource.d.ts", "Resource");
  const parts = { queryParameter: { type: "QUERY_PARAMETER", args: (I) => [I.c("q"), I.input("desc")], name: "q", props: { description: { $: "$desc" } } }, pathParameter: { type: "PATH_PARAMETER", args: (I) => [I.c("p"), I.input("desc")], name: "p", props: { description: { $: "$desc" } } }, method: { type: "METHOD", args: (I) => [lit(I, ["t1"]), I.c("nm"), I.input("sum")], name: undefined, props: { tags: ["t1"], summary: { $: "$sum" } } } };
  for (const [feat, on] of [[undefined, true], [{}, true], [{ enableDocumentation: true }, true], [{ enableDocumentation: false }, false], [{ enableCanaries: false }, true]]) {
    const I = cdk(C), st = stackInput(I, { stackFeatures: feat }), cls = I.single(I.valueOfExport(RA, "DigitrafficRestApi")), dp = I.valueOfExport(DO, "DocumentationPart"), res = I.input("res", resTy(I));
    const r = I.run(() => { const a = I.construct(cls, [st, I.c("a"), I.c("A")], null); return method(I, a, "documentResource", [res, ...Object.entries(parts).map(([m, d]) => method(I, dp, m, d.args(I)))]); });
    const es = made(r, /CfnDocumentationPart$/), nm = JSON.stringify(feat) ?? "default";
    C.ob("documentation-switch", on ? es.length === 3 && es.every((e) => imp(I, r.retG, e.g)) : es.every((e) => e.g === 0), RA, `${nm}: documentation is ${on ? "added for every part" : "left out"}`, nm);
    if (!on || es.length !== 3) continue;
    Object.entries(parts).forEach(([m, d], i) => part(C, I, r, es[i], { api: "$res.api.restApiId", path: "$res.path", ...d, nm: m }));
    C.ob("documentation-ids", new Set(es.map((e) => I.show(arg(e, 1)))).size === 3 && es.every((e) => I.show(arg(e, 1)).includes("$res.path")), RA, "documentation of different resources and parts does not clash", "ids");
  }
  { // several parts of a kind
    const I = cdk(C), st = stackInput(I, { stackFeatures: undefined }), cls = I.single(I.valueOfExport(RA, "DigitrafficRestApi")), dp = I.valueOfExport(DO, "DocumentationPart"), res = I.input("res", resTy(I));
    const r = I.run(() => { const a = I.construct(cls, [st, I.c("a"), I.c("A")], null); return method(I, a, "documentResource", [res, ...["from", "to", "page"].map((n) => method(I, dp, "queryParameter", [I.c(n), I.c(`about ${n}`)]))]); });
    const es = made(r, /CfnDocumentationPart$/);
    C.ob("documentation-switch", es.length === 3 && es.every((e) => imp(I, r.retG, e.g)), RA, "three query parameters get a part each", "same kind");
    es.forEach((e, i) => part(C, I, r, e, { ...parts.queryParameter, api: "$res.api.restApiId", path: "$res.path", name: ["from", "to", "page"][i], props: { description: `about ${["from", "to", "page"][i]}` }, nm: "same kind" }));
    C.ob("documentation-ids", new Set(es.map((e) => I.show(arg(e, 1)))).size === es.length, RA, "documentation of parameters of one kind does not clash", "ids");
  }
  const old = { addQueryParameterDescription: [(I) => [I.c("q"), I.input("desc")], { type: "QUERY_PARAMETER", name: "q", props: { description: { $: "$desc" } } }], addDocumentation: [(I) => [I.c("d"), lit(I, { x: "y" })], { type: "METHOD", props: { x: "y" } }], addTags: [(I) => [I.c("d"), lit(I, ["t1", "t2"])], { type: "METHOD", props: { tags: ["t1", "t2"] } }], addTagsAndSummary: [(I) => [I.c("d"), lit(I, ["t1"]), I.input("sum")], { type: "METHOD", props: { tags: ["t1"], summary: { $: "$sum" } } }] };
  for (const [f, [args, d]] of Object.entries(old)) {
    const I = cdk(C), res = I.input("res", resTy(I));
    const r = I.run(() => I.call(I.valueOfExport(DO, f), I.UNDEF, [...args(I), res, I.input("scope")]));
    const e = single(made(r, /CfnDocumentationPart$/));
    C.ob("documentation-one", !!e && imp(I, r.retG, e.g), DO, `${f}: one part is added`, f);
    if (e) part(C, I, r, e, { api: "$res.api.restApiId", path: "$res.path", name: undefined, ...d, nm: f });
  }
  { // deprecation keeps the summary
    const I = cdk(C), dp = I.valueOfExport(DO, "DocumentationPart");
    let before;
    const r = I.run(() => { before = method(I, dp, "method", [lit(I, ["t"]), I.c("n"), I.c("Sum")]); return method(I, before, "deprecated", [I.c("gone soon")]); });
    const t = tree(I, P(I, r.value, "documentationProperties"));
    C.ob("deprecated", t?.deprecated === true && /^Sum\b.*gone soon$/.test(t?.summary) && JSON.stringify(t?.tags) === '["t"]' && I.show(r.value) === I.show(before), DO, "a deprecated method says so after its summary", "deprecated");
  }
}

function cors(C) {
  const resTy = (I) => typeNamed(I, "aws-apigateway/lib/resource.d.ts", "Resource");
  const okCors = (I, v) => { const t = tree(I, v); return !!t && /ALL_ORIGINS$/.test(t.allowOrigins?.$ ?? "") || JSON.stringify(t?.allowOrigins) === '["*"]' ? ["GET", "HEAD", "OPTIONS"].every((x) => t.allowMethods.includes(x)) && t.allowMethods.every((x) => ["GET", "HEAD", "OPTIONS"].includes(x)) && ["Digitraffic-User", "X-Api-Key", "Content-Type"].every((h) => t.allowHeaders.includes(h)) : false; };
  const run = (m, args) => { const I = cdk(C), st = stackInput(I), cls = I.single(I.valueOfExport(RA, "DigitrafficRestApi")), res = I.input("res", resTy(I)); const r = I.run(() => method(I, I.construct(cls, [st, I.c("a"), I.c("A")], null), m, [res, ...args(I)])); return { I, r }; };
  { const { I, r } = run("addResourceWithCorsOptionsSubTree", (J) => [J.c("sub")]); const e = single(calls(r, /^addResource$/));
    C.ob("cors", !!e && imp(I, r.retG, e.g) && shows(I, e.recv, "$res") && constVal(I, arg(e, 0)) === "sub" && okCors(I, path_(I, arg(e, 1), ["defaultCorsPreflightOptions"])) && isResult(I, r.value, e) === 1, e?.at ?? RA, "a sub-resource lets browsers of every origin read it, naming themselves", "sub"); }
  { const { I, r } = run("addResourceWithCorsOptionsSubTree", (J) => [J.c("sub"), lit(J, { defaultMethodOptions: J.input("mo") })]); const e = single(calls(r, /^addResource$/));
    C.ob("cors", !!e && okCors(I, path_(I, arg(e, 1), ["defaultCorsPreflightOptions"])) && shows(I, P(I, arg(e, 1), "defaultMethodOptions"), "$mo"), e?.at ?? RA, "own settings are added to the browser access", "sub-config"); }
  { const { I, r } = run("addResourceWithCorsOptionsSubTree", (J) => [J.c("sub"), lit(J, { defaultCorsPreflightOptions: J.input("co") })]); const e = single(calls(r, /^addResource$/));
    C.ob("cors", !!e && shows(I, P(I, arg(e, 1), "defaultCorsPreflightOptions"), "$co"), e?.at ?? RA, "own browser access settings win", "sub-own"); }
  { const { I, r } = run("addCorsOptions", () => []); const e = single(calls(r, /^addCorsPreflight$/));
    C.ob("cors", !!e && imp(I, r.retG, e.g) && shows(I, e.recv, "$res") && okCors(I, arg(e, 0)), e?.at ?? RA, "browser access can be added to a resource", "options"); }
  { const I = cdk(C), st = stackInput(I), cls = I.single(I.valueOfExport(RA, "DigitrafficRestApi")); let a; const r = I.run(() => { a = I.construct(cls, [st, I.c("a"), I.c("A")], null); return method(I, a, "hostname", []); });
    const t = I.show(r.value), n = I.show(a);
    C.ob("hostname", t === `\`\${${n}.restApiId}.execute-api.\${${n}.stack.region}.amazonaws.com\`` || t === `\`\${${n}.restApiId}.execute-api.\${$stack.region}.amazonaws.com\``, RA, "the host name is the API's own", "hostname"); }
}

function buckets(C) {
  for (const f of ["grantOACRights", "grantOAIRights"]) {
    const oac = f === "grantOACRights";
    const run = (own) => { const I = cdk(C); const r = I.run(() => I.call(I.valueOfExport(BP, f), I.UNDEF, [lit(I, { bucket: I.input("bucket", typeNamed(I, "aws-s3/lib/bucket.d.ts", "Bucket")), ...(oac ? { distributionArn: I.input("arn") } : { canonicalUserId: I.input("user") }), ...(own ? own(I) : {}) })])); return { I, r, e: single(calls(r, /^addToResourcePolicy$/)), s: single(made(r, /PolicyStatement$/)) }; };
    { const { I, r, e, s } = run();
      C.ob("bucket-own", !!e && !!s && imp(I, r.retG, e.g) && shows(I, e.recv, "$bucket") && isResult(I, arg(e, 0), s) === 1, BP, `${f}: the grant is on the bucket given`, f);
      if (!s) continue;
      const p = arg(s, 0);
      const rs = items(I, P(I, p, "resources")).map((x) => I.show(x.v));
      C.ob("bucket-objects", rs.length === 1 && rs[0] === "`${$bucket.bucketArn}/*`", s.at, `${f}: by default it covers the bucket's objects only`, f);
      C.ob("bucket-read", JSON.stringify(tree(I, P(I, p, "actions"))) === '["s3:GetObject"]' && enumName(I, P(I, p, "effect")) === "ALLOW", s.at, `${f}: by default it allows reading only`, f);
      const pr = items(I, P(I, p, "principals"));
      const who = single(made(r, oac ? /ServicePrincipal$/ : /CanonicalUserPrincipal$/));
      C.ob("bucket-who", pr.length === 1 && !!who && isResult(I, pr[0].v, who) === 1 && (oac ? constVal(I, arg(who, 0)) === "cloudfront.amazonaws.com" : shows(I, arg(who, 0), "$user")), s.at, `${f}: it is for ${oac ? "the distribution service" : "the user given"}`, f);
      if (oac) { const c = tree(I, P(I, p, "conditions")); const cs = Object.entries(c ?? {}); C.ob("bucket-distribution", cs.length === 1 && ["StringEquals", "ArnEquals"].includes(cs[0][0]) && Object.entries(cs[0][1]).length === 1 && Object.entries(cs[0][1]).every(([k, v]) => k.toLowerCase() === "aws:sourcearn" && v?.$ === "$arn"), s.at, `${f}: only the distribution given may use it`, f); } }
    for (const k of ["resources", "actions", "effect"]) { const { I, s } = run((J) => ({ [k]: J.input("own") })); 
      const v = s && P(I, arg(s, 0), k);
      const und = v && I.eqConst(I.input("own").alts[0].l, I.cl(undefined)), nul = v && I.eqConst(I.input("own").alts[0].l, I.cl(null));
      C.ob("bucket-settings", !!s && imp(I, I.bdd.not(I.bdd.or(und, nul)), showsAs(I, v, "$own")), s?.at ?? BP, `${f}: own ${k} are used`, k); }
  }
}
