import { L, imp, or, constVal, method, field, path_, mentions, envLeaf, isEnv, constKey, reach } from "./kit.mjs";
import { cdk, withProps, stackInput, lit, made, calls, arg, items, tree, showsAs, isResult, enumName, typeNamed, members, ALARM_OPS } from "./infra-kit.mjs";
const CN = (f) => L(`aws/infra/canaries/${f}.ts`);
const SC = L("aws/infra/scheduler.ts"), SR = L("aws/infra/security-rule.ts"), SU = L("aws/infra/stack/subscription.ts");
const P = (I, v, k) => field(I, v, k).v;
const single = (x) => (x.length === 1 ? x[0] : undefined);
const shows = (I, v, t) => v !== undefined && showsAs(I, v, t) === 1;
const isCanary = /aws-synthetics#Canary$/;
const nullish = (I, l) => I.bdd.or(I.eqConst(l, I.cl(undefined)), I.eqConst(l, I.cl(null)));
// length in minutes of a rate, from the schedule's construction
function minutes(I, r, v) {
  const e = calls(r, /Schedule\.rate$/).find((x) => isResult(I, v, x) === 1);
  const m = e && I.show(arg(e, 0)).match(/Duration\.(seconds|minutes|hours|days)\([^,]*, ([^)]*)\)$/);
  if (!m) return undefined;
  const k = { seconds: 1 / 60, minutes: 1, hours: 60, days: 1440 }[m[1]];
  return m[2].startsWith("$") ? (k === 1 ? m[2] : undefined) : Number(m[2]) * k;
}

export const watch = {
  I09: {
    explain: "Schedulers, log subscriptions and the security rule are evaluated on symbolic functions, topics and destinations; rates are compared in minutes and the security rule's pattern is decided for findings of every status and severity.",
    run(C) { schedules(C); subscriptions(C); security(C); C.min("rate", 5); C.min("finding", 20); },
  },
  I10: {
    explain: "Every way of making a canary is evaluated on a symbolic stack, role, API and settings; its run role, network, environment, schedule and alarm are read from the constructs made.",
    run(C) { canaries(C); canaryKeys(C); roles(C); envNames(C); C.min("canary", 6); },
  },
};

function schedules(C) {
  const ways = { everyMinute: [1], everyMinutes: ["$minutes", (I) => [I.input("minutes", I.checker.getNumberType())]], everyHour: [60], everyDay: [1440], every: ["$given", (I) => [I.input("given")]] };
  for (const [m, [want, extra]] of Object.entries(ways)) for (const withFn of [true, false]) {
    const I = cdk(C), cls = I.valueOfExport(SC, "Scheduler");
    const fn = I.input("fn", typeNamed(I, "aws-lambda/lib/function.d.ts", "Function"));
    const r = I.run(() => method(I, cls, m, [I.input("stack"), I.c("Rule"), ...(extra ? extra(I) : []), ...(withFn ? [fn] : [])]));
    const e = single(made(r, /aws-events#Rule$/)), nm = `${m}${withFn ? "" : " without a function"}`;
    C.ob("rule", !!e && imp(I, r.retG, e.g) && r.throwG === 0 && constVal(I, P(I, arg(e, 2), "ruleName")) === "Rule" && shows(I, arg(e, 0), "$stack"), SC, `${nm}: one rule of that name is made in the stack`, nm);
    if (!e) continue;
    const sch = P(I, arg(e, 2), "schedule"), rate = calls(r, /Schedule\.rate$/).find((x) => isResult(I, sch, x) === 1);
    C.ob("rate", want === "$given" ? !!rate && shows(I, arg(rate, 0), "$given") : minutes(I, r, sch) === want, e.at, `${nm}: it runs at the rate named`, m);
    C.ob("enabled", field(I, arg(e, 2), "enabled").has === 0 || constVal(I, P(I, arg(e, 2), "enabled")) === true, e.at, `${nm}: it runs`, m);
    target(C, I, r, e, withFn ? "$fn" : undefined, nm);
  }
  { const I = cdk(C), cls = I.valueOfExport(SC, "Scheduler"), fn = I.input("fn", typeNamed(I, "aws-lambda/lib/function.d.ts", "Function"));
    const r = I.run(() => I.construct(I.single(cls), [I.input("stack"), I.c("Rule"), I.input("schedule"), fn], null));
    const e = single(made(r, /aws-events#Rule$/));
    C.ob("rule", !!e && shows(I, P(I, arg(e, 2), "schedule"), "$schedule"), SC, "a schedule given is used", "schedule");
    if (e) target(C, I, r, e, "$fn", "schedule"); }
}
function target(C, I, r, e, fn, nm) {
  const ts = [...calls(r, /^addTarget$/).map((x) => ({ v: arg(x, 0), g: x.g })), ...items(I, P(I, arg(e, 2), "targets"))];
  if (!fn) { C.ob("no-target", ts.every((t) => t.g === 0), SC, `${nm}: nothing is started`, nm); return; }
  const fs = made(r, /aws-events-targets#LambdaFunction$/).filter((x) => shows(I, arg(x, 0), fn));
  C.ob("target", ts.length === 1 && imp(I, r.retG, ts[0].g) && fs.some((x) => isResult(I, ts[0].v, x) === 1), SC, `${nm}: it starts that function, once`, nm);
}

function subscriptions(C) {
  const filter = (I, r, e, dest, lambda, nm, w) => {
    const p = arg(e, 2);
    C.ob("subscribed", imp(I, w, e.g), e.at, `${nm}: the function's log is sent on whenever there is a destination`, nm);
    C.ob("subscribed-log", I.show(P(I, p, "logGroupName")) === `${lambda}.logGroup.logGroupName`, e.at, `${nm}: it is the function's own log`, nm);
    C.ob("subscribed-all", constVal(I, P(I, p, "filterPattern")) === "", e.at, `${nm}: nothing is filtered out`, nm);
    C.ob("subscribed-to", or(I, P(I, p, "destinationArn").alts.filter((a) => I.showLeaf(a.l) === dest).map((a) => a.g)) !== 0 && imp(I, e.g, showsAs(I, P(I, p, "destinationArn"), dest)), e.at, `${nm}: it is sent to the destination`, nm);
    C.ob("subscribed-after", calls(r, /addDependency$/).some((x) => imp(I, e.g, x.g) && I.show(arg(x, 0)) === lambda), e.at, `${nm}: the function is made first`, nm);
  };
  { const I = cdk(C), dest = I.input("dest"), fn = I.input("fn", typeNamed(I, "aws-lambda/lib/function.d.ts", "Function"));
    const r = I.run(() => I.call(I.valueOfExport(SU, "createSubscription"), I.UNDEF, [fn, I.c("my-lambda"), dest, I.input("stack")]));
    const e = single(made(r, /CfnSubscriptionFilter$/)), has = I.bdd.not(nullish(I, dest.alts[0].l));
    C.ob("one-filter", !!e && I.bdd.and(e.g, I.bdd.not(has)) === 0, SU, "without a destination nothing is subscribed", "one");
    if (e) { filter(I, r, e, "$dest", "$fn", "one function", I.bdd.and(has, I.bdd.not(I.eqConst(dest.alts[0].l, I.cl(""))))); C.ob("filter-returned", imp(I, e.g, isResult(I, r.value, e)) && /my-lambda/.test(I.show(arg(e, 1))), SU, "the subscription is returned", "one"); } }
  for (const n of [0, 1, 3]) {
    const I = cdk(C), st = stackInput(I), ty = typeNamed(I, "stack/monitoredfunction.ts", "MonitoredFunction");
    const r = I.run(() => I.construct(I.single(I.valueOfExport(SU, "DigitrafficLogSubscriptions")), [st, ...[...Array(n).keys()].map((i) => I.input(`fn${i}`, ty))], null));
    const es = made(r, /CfnSubscriptionFilter$/), d = path_(I, I.one(I.single(st)), ["configuration", "logsDestinationArn"]).alts[0].l;
    const has = I.bdd.not(I.bdd.or(nullish(I, d), I.eqConst(d, I.cl(""))));
    C.ob("one-filter", es.length === n && es.every((e) => I.bdd.and(e.g, nullish(I, d)) === 0), SU, `${n} functions: one subscription each, none without a destination`, `n${n}`);
    es.forEach((e, i) => filter(I, r, e, "$conf.logsDestinationArn", `$fn${i}`, `function ${i + 1} of ${n}`, has));
    C.ob("filter-ids", new Set(es.map((e) => I.show(arg(e, 1)))).size === n && es.every((e, i) => I.show(arg(e, 1)).includes(`$fn${i}.givenName`)), SU, `${n} functions: subscriptions do not clash`, `ids${n}`);
  }
}

// does an event pattern match an event? (arrays list alternatives, objects nest)
function matches(pat, ev) {
  if (Array.isArray(pat)) return pat.some((x) => (Array.isArray(ev) ? ev.some((y) => x === y) : x === ev));
  if (pat && typeof pat === "object") { const one = (o) => o !== undefined && o !== null && Object.entries(pat).every(([k, x]) => matches(x, o[k])); return Array.isArray(ev) ? ev.some(one) : one(ev); }
  return undefined;
}
function security(C) {
  const I = cdk(C);
  const r = I.run(() => I.construct(I.single(I.valueOfExport(SR, "DigitrafficSecurityRule")), [I.input("scope"), I.input("topic")], null));
  const e = single(made(r, /aws-events#Rule$/));
  C.ob("rule", !!e && imp(I, r.retG, e.g), SR, "one security rule is made", "security");
  if (!e) return;
  const pat = tree(I, P(I, arg(e, 2), "eventPattern")) ?? {};
  const ev = (source, detailType, Status, Wf, Label) => ({ source, detailType, detail: { findings: [{ Compliance: { Status }, Workflow: { Status: Wf }, Severity: { Label } }] } });
  for (const status of ["FAILED", "PASSED", "WARNING", "NOT_AVAILABLE"]) for (const wf of ["NEW", "NOTIFIED", "SUPPRESSED", "RESOLVED"]) for (const sev of ["CRITICAL", "HIGH", "MEDIUM", "LOW", "INFORMATIONAL"]) {
    const want = status === "FAILED" && wf === "NEW" && ["CRITICAL", "HIGH"].includes(sev);
    C.ob("finding", matches(pat, ev("aws.securityhub", "Security Hub Findings - Imported", status, wf, sev)) === want, e.at, `a ${status} ${wf} finding of severity ${sev} is ${want ? "" : "not "}notified`, `${want}-${status}-${wf}-${sev}`);
  }
  C.ob("finding", !matches(pat, ev("aws.ec2", "Security Hub Findings - Imported", "FAILED", "NEW", "HIGH")) && !matches(pat, ev("aws.securityhub", "Security Hub Insight Results", "FAILED", "NEW", "HIGH")), e.at, "only imported findings are notified", "source");
  const tp = made(r, /aws-events-targets#SnsTopic$/).filter((x) => shows(I, arg(x, 0), "$topic"));
  const ts = [...calls(r, /^addTarget$/).map((x) => ({ v: arg(x, 0), g: x.g })), ...items(I, P(I, arg(e, 2), "targets"))];
  C.ob("target", ts.length === 1 && imp(I, r.retG, ts[0].g) && tp.some((x) => isResult(I, ts[0].v, x) === 1), SR, "findings are sent to the topic given", "security");
}

function canaries(C) {
  const made1 = (what, I, r) => { const e = single(made(r, isCanary)); C.ob("canary", !!e && imp(I, r.retG, e.g), e?.at ?? CN("canary"), `${what}: one canary is made`, what); return e; };
  const api = (I) => I.input("api", typeNamed(I, "stack/rest-api.ts", "DigitrafficRestApi"));
  const role = (I) => I.input("role", typeNamed(I, "canary-role.ts", "DigitrafficCanaryRole"));
  const U = (I) => I.valueOfExport(CN("url-canary"), "UrlCanary"), D = (I) => I.valueOfExport(CN("database-canary"), "DatabaseCanary");
  const al = (I) => lit(I, { alarmName: "al", description: I.input("desc"), topicArn: I.input("arn"), threshold: I.input("thr"), evalutionPeriods: I.input("per") });
  const ways = {
    "url": { mk: (I, st) => method(I, U(I), "create", [st, role(I), api(I), lit(I, { name: "thing" }), I.input("secret")]), url: true, name: "thing-url", handler: "thing.handler", every: 15, secret: "$secret" },
    "url with settings": { mk: (I, st) => method(I, U(I), "create", [st, role(I), api(I), lit(I, { name: "thing", handler: "other.handler", hostname: "own.host", apiKeyId: "ownKey", secret: "sid", inVpc: true, alarm: al(I), canaryEnv: { A: "a" }, schedule: I.input("sch"), runtime: I.input("rt") })]), url: true, vpc: true, name: "thing-url", handler: "other.handler", every: "$sch", host: '"own.host"', key: '"ownKey"', sid: '"sid"', env: { A: "a" }, alarm: true, rt: "$rt" },
    "database": { mk: (I, st) => method(I, D(I), "create", [st, role(I), lit(I, { name: "thing" })]), name: "thing-db", handler: "thing.handler", every: 60, vpc: true, db: true },
    "database with settings": { mk: (I, st) => method(I, D(I), "create", [st, role(I), lit(I, { name: "thing", handler: "other.handler", schedule: I.input("sch"), alarm: al(I), canaryEnv: { A: "a" }, runtime: I.input("rt") })]), name: "thing-db", handler: "other.handler", every: "$sch", vpc: true, db: true, alarm: true, env: { A: "a" }, rt: "$rt" },
    "database v2": { mk: (I, st) => method(I, D(I), "createV2", [st, role(I), I.c("thing")]), name: "thing-db", handler: "thing-db.handler", every: 60, vpc: true, db: true, alarmName: "ST-DB-Alarm", arn: "$conf.alarmTopicArn" },
    "database v2 named": { mk: (I, st) => method(I, D(I), "createV2", [st, role(I), I.c("thing"), lit(I, { canaryEnv: { A: "a" }, schedule: I.input("sch") }), I.c("second")]), name: "second-db", handler: "thing-db.handler", every: "$sch", vpc: true, db: true, env: { A: "a" }, alarmName: "second-DB-Alarm", arn: "$conf.alarmTopicArn" },
  };
  for (const [w, d] of Object.entries(ways)) {
    const I = cdk(C), b = I.bdd, st = stackInput(I);
    const r = I.run(() => d.mk(I, st));
    const e = made1(w, I, r);
    if (!e) continue;
    const p = arg(e, 2), self = I.show(r.value);
    C.ob("canary-name", constVal(I, arg(e, 1)) === d.name && constVal(I, P(I, p, "canaryName")) === d.name && shows(I, arg(e, 0), "$stack"), e.at, `${w}: it is named after what it checks`, w);
    const t = calls(r, /Test\.custom$/).find((x) => isResult(I, P(I, p, "test"), x) === 1);
    C.ob("canary-handler", !!t && constVal(I, P(I, arg(t, 0), "handler")) === d.handler, e.at, `${w}: it runs its own check`, w);
    const code = t && made(r, /AssetCode$/).find((x) => isResult(I, P(I, arg(t, 0), "code"), x) === 1);
    C.ob("canary-code", !!code && constVal(I, arg(code, 0)) === "dist" && !items(I, P(I, arg(code, 1) ?? I.UNDEF, "exclude")).some((x) => /nodejs/.test(constVal(I, x.v) ?? "")), e.at, `${w}: its code is the build's`, w);
    const sch = P(I, p, "schedule");
    const mins = minutes(I, r, sch);
    C.ob("canary-schedule", typeof d.every === "string" ? and(I, r, sch, d.every) : mins === d.every, e.at, `${w}: it runs ${typeof d.every === "string" ? "on the schedule given" : `every ${d.every} minutes`}`, w);
    if (d.rt) C.ob("canary-runtime", and(I, r, P(I, p, "runtime"), d.rt), e.at, `${w}: it runs in the runtime given`, w);
    C.ob("canary-role", shows(I, P(I, p, "role"), "$role"), e.at, `${w}: it runs with the role given`, w);
    const gw = calls(r, /^grantWrite$/).filter((x) => I.show(x.recv) === `${self}.artifactsBucket`);
    C.ob("canary-artifacts", gw.some((x) => imp(I, r.retG, x.g) && ["$role", `${self}.role`].includes(I.show(arg(x, 0)))), e.at, `${w}: its role may write its results`, w);
    const env = P(I, p, "environmentVariables"), ev = (k) => field(I, env, k);
    for (const [k, x] of Object.entries(d.env ?? {})) C.ob("canary-env", constVal(I, ev(k).v) === x, e.at, `${w}: its own variables are set`, w);
    const rd = calls(r, /^grantRead$/);
    if (d.url) {
      C.ob("canary-host", I.show(ev("hostname").v) === (d.host ?? "`${$api.restApiId}.execute-api.${$api.stack.region}.amazonaws.com`") && ev("hostname").has === 1, e.at, `${w}: it checks the API's own address`, w);
      C.ob("canary-key", d.key ? I.show(ev("apiKeyId").v) === d.key : or(I, ev("apiKeyId").v.alts.filter((a) => I.showLeaf(a.l) === "$api.apiKeyIds.0").map((a) => a.g)) !== 0 && ev("apiKeyId").v.alts.every((a) => (a.l.t === "c" && a.l.v === undefined) || I.showLeaf(a.l) === "$api.apiKeyIds.0"), e.at, `${w}: it uses the API's first key`, w);
      if (d.sid) C.ob("canary-secret-env", I.show(ev("secret").v) === d.sid, e.at, `${w}: the secret's id is passed on`, w);
      C.ob("canary-key-access", (() => { const g = calls(r, /addToPolicy$|addToPrincipalPolicy$/); const sts = made(r, /PolicyStatement$/).filter((s) => JSON.stringify(tree(I, P(I, arg(s, 0), "actions"))) === '["apigateway:GET"]' && JSON.stringify(tree(I, P(I, arg(s, 0), "resources"))).includes("/apikeys/")); const inst = I.atoms.findIndex((a) => a?.kind === "inst" && I.showLeaf(a.l ?? a.x ?? {}) === "$role"); const okG = or(I, g.filter((x) => shows(I, x.recv, "$role") && sts.some((s) => isResult(I, arg(x, 0), s) === 1)).map((x) => x.g)); return inst < 0 ? okG === 1 || imp(I, r.retG, okG) : imp(I, b.and(r.retG, b.varNode(inst)), okG); })(), e.at, `${w}: its role may read the key`, w);
      if (d.secret) { const s = I.input("secret").alts[0].l; C.ob("canary-secret", imp(I, b.and(r.retG, I.truth(I.one(s))), or(I, rd.filter((x) => I.show(x.recv) === "$secret" && ["$role", `${self}.role`].includes(I.show(arg(x, 0)))).map((x) => x.g))), e.at, `${w}: its role may read the secret given`, w); }
    }
    if (d.db) {
      C.ob("canary-secret", rd.some((x) => I.show(x.recv) === "$stack.secret" && ["$role", `${self}.role`].includes(I.show(arg(x, 0))) && imp(I, r.retG, x.g)), e.at, `${w}: its role may read the stack's secret`, w);
      C.ob("canary-db-env", members(I, showsAs(I, ev("SECRET_ID").v, "$conf.secretId")) !== 0 && constVal(I, ev("DB_APPLICATION").v) === `Synthetics-${d.name}`, e.at, `${w}: it signs in to the database under its own name`, w);
    }
    // network
    const sets = r.events.filter((x) => x.kind === "set" && x.name === "vpcConfig");
    if (!d.vpc) C.ob("canary-network", sets.every((x) => I.bdd.and(r.retG, x.g) === 0), e.at, `${w}: it is outside the network`, w);
    else {
      const s = single(sets), v = s && arg(s, 0);
      const inst = s && I.bdd.exists(s.g, (k) => I.atoms[k]?.kind === "inst");
      C.ob("canary-network", !!s && imp(I, r.retG, inst) && I.show(s.recv) === `${self}.node.defaultChild`, e.at, `${w}: it is put in the network`, w);
      if (v) {
        const noVpc = nullish(I, path_(I, I.one(I.single(st)), ["vpc"]).alts[0].l), noSg = nullish(I, path_(I, I.one(I.single(st)), ["lambdaDbSg"]).alts[0].l);
        const some = (k, re, no, each) => { const f = P(I, v, k); return f.alts.every((a) => { const it = items(I, I.one(a.l)); return it.length ? it.length === 1 && re.test(I.show(it[0].v)) && (!each || it[0].each !== undefined) : imp(I, b.and(r.retG, a.g), no) || b.and(r.retG, a.g) === 0; }); };
        C.ob("canary-subnets", some("subnetIds", /^elem\(\$stack\.vpc\.privateSubnets, \d+\)\.subnetId$/, noVpc, true), e.at, `${w}: it is in the private subnets`, w);
        C.ob("canary-group", some("securityGroupIds", /^\$stack\.lambdaDbSg\.securityGroupId$/, noSg), e.at, `${w}: it is in the database security group`, w);
        C.ob("canary-vpc", P(I, v, "vpcId").alts.every((a) => I.showLeaf(a.l) === "$stack.vpc.vpcId" || imp(I, b.and(r.retG, a.g), noVpc)), e.at, `${w}: it is in the stack's network`, w);
      }
    }
    // alarm
    const a = single(made(r, /aws-cloudwatch#Alarm$/)), q = a && arg(a, 2);
    C.ob("canary-alarm", !!a && imp(I, r.retG, a.g), e.at, `${w}: it has an alarm`, w);
    if (!a) continue;
    const ms = calls(r, /metricSuccessPercent$/).find((x) => isResult(I, P(I, q, "metric"), x) === 1 && I.show(x.recv) === self);
    const failed = calls(r, /metricFailed$/).find((x) => isResult(I, P(I, q, "metric"), x) === 1 && I.show(x.recv) === self);
    const op = ALARM_OPS[enumName(I, P(I, q, "comparisonOperator")) ?? ""], thr = constVal(I, P(I, q, "threshold"));
    if (d.alarm) {
      C.ob("canary-alarm-own", ["threshold", "evaluationPeriods", "alarmDescription"].every((k, i) => { const own = ["$thr", "$per", "$desc"][i]; const l = I.input(own.slice(1)).alts[0].l; return imp(I, b.not(nullish(I, l)), showsAs(I, P(I, q, k), own)); }) && constVal(I, P(I, q, "alarmName")) === "al", a.at, `${w}: the alarm has its own settings`, w);
      C.ob("canary-alarm-when", !!ms && op && op(50, 60) && !op(60, 50), a.at, `${w}: the alarm fires when too few runs succeed`, w);
    } else {
      C.ob("canary-alarm-when", !!op && (ms ? op(99, thr) && op(0, thr) && !op(100, thr) : failed ? op(1, thr) && !op(0, thr) : false), a.at, `${w}: the alarm fires when any run fails and only then`, w);
      C.ob("canary-alarm-soon", constVal(I, P(I, q, "evaluationPeriods")) === 1, a.at, `${w}: the alarm fires at the first failure`, w);
      C.ob("canary-alarm-name", constVal(I, P(I, q, "alarmName")) === (d.alarmName ?? "thing-alarm"), a.at, `${w}: the alarm has a name of its own`, w);
    }
    const arn = d.alarm ? "$arn" : d.arn;
    const acts = calls(r, /^addAlarmAction$/).filter((x) => isResult(I, x.recv, a) === 1);
    if (!arn) C.ob("canary-alarm-to", acts.every((x) => b.and(r.retG, x.g) === 0), a.at, `${w}: without a topic the alarm only shows`, w);
    else {
      const topic = calls(r, /Topic\.fromTopicArn$/).find((x) => shows(I, arg(x, 2), arn) || showsAs(I, arg(x, 2), arn) !== 0), act = topic && made(r, /SnsAction$/).find((x) => isResult(I, arg(x, 0), topic) !== 0);
      const l = arn === "$arn" ? I.input("arn").alts[0].l : path_(I, I.one(I.single(st)), ["configuration", "alarmTopicArn"]).alts[0].l;
      C.ob("canary-alarm-to", !!act && imp(I, b.and(r.retG, I.truth(I.one(l))), or(I, acts.filter((x) => isResult(I, arg(x, 0), act) !== 0).map((x) => x.g))), a.at, `${w}: the alarm is sent to its topic`, w);
    }
  }
}
const and = (I, r, v, t) => { const l = I.input(t.slice(1)).alts[0].l; return imp(I, I.bdd.and(r.retG, I.bdd.not(nullish(I, l))), showsAs(I, v, t)); };

// the key a canary is given, for APIs with any number of keys
function canaryKeys(C) {
  for (const ids of [[], ["k1"], ["k1", "k2"], ["k1", "k2", "k3"]]) {
    const I = cdk(C), st = stackInput(I);
    const api = withProps(I, "api", typeNamed(I, "stack/rest-api.ts", "DigitrafficRestApi"), { apiKeyIds: lit(I, ids) });
    const r = I.run(() => method(I, I.valueOfExport(CN("url-canary"), "UrlCanary"), "create", [st, I.input("role", typeNamed(I, "canary-role.ts", "DigitrafficCanaryRole")), api, lit(I, { name: "thing" })]));
    const e = single(made(r, isCanary)), k = e && field(I, P(I, arg(e, 2), "environmentVariables"), "apiKeyId");
    C.ob("canary-key", !!e && imp(I, r.retG, e.g) && (ids.length ? constVal(I, k.v) === "k1" : k.has === 0), CN("url-canary"), `an API with ${ids.length} keys: the check uses ${ids.length ? "the first" : "none"}`, `keys-${ids.length}`);
  }
}

function roles(C) {
  const RO = CN("canary-role");
  const NET = "service-role/AWSLambdaVPCAccessExecutionRole";
  for (const [m, nets] of [[undefined, 0], ["withDatabaseAccess", 1], ["withVpcAccess", 1], ["withApiGatewayAccess", 0]]) {
    const I = cdk(C);
    let self;
    const r = I.run(() => { self = I.construct(I.single(I.valueOfExport(RO, "DigitrafficCanaryRole")), [I.input("stack"), I.c("thing")], null); return m ? method(I, self, m, []) : self; });
    const nm = m ?? "plain", e = single(made(r, /aws-iam#Role$/));
    C.ob("role", !!e && I.show(r.value) === I.show(self) && /thing/.test(constVal(I, arg(e, 1)) ?? ""), RO, `${nm}: a role of its own`, nm);
    if (!e) continue;
    const pr = made(r, /ServicePrincipal$/).find((x) => isResult(I, P(I, arg(e, 2), "assumedBy"), x) === 1);
    C.ob("role-for", !!pr && constVal(I, arg(pr, 0)) === "lambda.amazonaws.com", RO, `${nm}: only functions may take the role`, nm);
    const mp = calls(r, /fromAwsManagedPolicyName$/).map((x) => constVal(I, arg(x, 0)));
    C.ob("role-network", mp.filter((x) => x === NET).length === nets && calls(r, /^addManagedPolicy$/).filter((x) => I.show(x.recv) === I.show(self)).length === nets, RO, `${nm}: it ${nets ? "has" : "has no"} network access`, nm);
    const acts = made(r, /PolicyStatement$/).filter((s) => calls(r, /addToPolicy$|addToPrincipalPolicy$/).some((x) => I.show(x.recv) === I.show(self) && isResult(I, arg(x, 0), s) === 1)).flatMap((s) => tree(I, P(I, arg(s, 0), "actions")) ?? []);
    C.ob("role-log", ["logs:CreateLogStream", "logs:PutLogEvents", "logs:CreateLogGroup", "cloudwatch:PutMetricData"].every((x) => acts.includes(x)), RO, `${nm}: it may write logs and results`, nm);
    C.ob("role-keys", acts.includes("apigateway:GET") === (m === "withApiGatewayAccess") && acts.every((x) => /^(logs:|cloudwatch:PutMetricData$|apigateway:GET$)/.test(x)), RO, `${nm}: it ${m === "withApiGatewayAccess" ? "may" : "may not"} read keys, and nothing more`, nm);
  }
  { // roles do not share rights
    const I = cdk(C); let a, o;
    const r = I.run(() => { const cls = I.single(I.valueOfExport(RO, "DigitrafficCanaryRole")); a = I.construct(cls, [I.input("stack"), I.c("one")], null); o = I.construct(cls, [I.input("stack"), I.c("two")], null); for (const m of ["withApiGatewayAccess", "withVpcAccess"]) method(I, a, m, []); return o; });
    C.ob("role-own", calls(r, /^add/).filter((x) => I.show(x.recv) === I.show(o)).every((x) => /addToPolicy/.test(x.name)) && made(r, /PolicyStatement$/).filter((s) => calls(r, /addToPolicy$/).some((x) => I.show(x.recv) === I.show(o) && isResult(I, arg(x, 0), s) === 1)).every((s) => !(tree(I, P(I, arg(s, 0), "actions")) ?? []).includes("apigateway:GET")), RO, "a role's rights are its own", "own");
  }
}

// the environment variables canaries are given are the ones their checks read
function envNames(C) {
  const I = cdk(C);
  const UC = CN("url-checker");
  const cls = I.valueOfExport(UC, "UrlChecker");
  const keys = new Set();
  const set = new Set(["ENV_API_KEY", "ENV_HOSTNAME", "ENV_SECRET"].map((n) => constVal(I, I.valueOfExport(CN("canary-keys"), n))));
  const r = I.run(() => method(I, cls, "createV2", []));
  for (const e of r.events) for (const a of [...e.args.map((_, i) => arg(e, i)), e.recv, ...(e.fargs ?? [])]) if (a) for (const l of reach(I, a.alts ? a : I.one(a), { throughRes: true })) if (isEnv(l)) keys.add(constKey(l));
  for (const a of I.atoms) if (a?.l && isEnv(a.l)) keys.add(constKey(a.l));
  C.ob("env-names", keys.size > 0 && [...keys].every((k) => set.has(k)) && keys.has("hostname") && keys.has("apiKeyId"), UC, "a canary's check reads the variables its canary sets", "env");
}
