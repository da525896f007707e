import { L, imp, or, alts, constVal, method, field, eqC, atNums, mentions, path_ } from "./kit.mjs";
import { cdk, stackInput, lit, made, calls, arg, items, tree, contains, showsAs, isResult, evalNum, ALARM_OPS, enumName, withProps, members, typeNamed, texts } from "./infra-kit.mjs";

const FB = L("aws/infra/stack/dt-function.ts");
const MF = L("aws/infra/stack/monitoredfunction.ts");
const ST = L("aws/infra/stack/stack.ts");
const isFn = /aws-lambda#Function$/;

// one builder run; chain: [[method, I => args]...]
function build(C, how, name, chain = [], conf = {}, over = {}) {
  const I = cdk(C);
  const cls = I.valueOfExport(FB, "FunctionBuilder");
  const st = stackInput(I, conf, over);
  const r = I.run(() => { let x = method(I, cls, how, [st, I.c(name)]); for (const [m, f] of chain) x = method(I, x, m, f(I)); return method(I, x, "build", []); });
  const fns = made(r, isFn);
  return { I, r, fns, fn: fns[0], props: fns.length === 1 ? arg(fns[0], 2) : undefined };
}
const VARIANTS = [["create", [], true, true], ["create", ["withoutDatabaseAccess"], false, true], ["create", ["withoutSecretAccess"], true, false], ["create", ["withoutSecretAccess", "withoutDatabaseAccess"], false, false], ["plain", [], false, false]];
const P = (I, v, k) => field(I, v, k).v;
const retained = (t) => typeof t === "string" && /RetentionDays\.\w+$/.test(t) && !/INFINITE|_DAYS?$|_WEEKS?$/.test(t);

export const functions = {
  I02: {
    explain: "The function builder and the older function factories are evaluated on a symbolic stack for each combination of accesses and each setter; what reaches the Lambda construct, its role and its log group is read from their configurations.",
    run(C) {
      for (const [how, off, db, secret] of VARIANTS) {
        const nm = [how, ...off].join(" ");
        const { I, r, fns, fn, props } = build(C, how, "update-things", [...off.map((m) => [m, () => []]), ["withSecurityGroup", (J) => [J.input("sg1"), J.input("sg2")]], ["withEnvironment", (J) => [lit(J, { A: J.input("a"), B: J.input("b") })]], ["withEnvironment", (J) => [lit(J, { B: J.input("b2"), DB_APPLICATION: "own" })]]]);
        const b = I.bdd;
        C.ob("one-function", fns.length === 1 && imp(I, r.retG, fn.g), FB, `${nm}: one function is created`, nm);
        if (!props) continue;
        const W = r.retG;
        C.ob("scope", showsAs(I, arg(fn, 0), "$stack") === 1, fn.at, `${nm}: the function belongs to the stack given`, nm);
        const sgs = P(I, props, "securityGroups");
        const hasDb = contains(I, sgs, "$stack.lambdaDbSg");
        C.ob("db-group", db ? imp(I, W, hasDb) : b.and(W, hasDb) === 0, fn.at, `${nm}: the function ${db ? "is" : "is not"} in the database security group`, nm);
        C.ob("own-groups", ["$sg1", "$sg2"].every((s) => imp(I, W, contains(I, sgs, s))), fn.at, `${nm}: the function is in the groups asked for`, nm);
        const noSg = I.eqConst(path_(I, I.one(I.single(I.at(arg(fn, 0)))), ["lambdaDbSg"]).alts[0].l, I.cl(undefined));
        C.ob("no-db-group", db ? b.and(noSg, b.or(W, fn.g)) === 0 : r.throwG === 0, fn.at, `${nm}: ${db ? "without a database security group nothing is created" : "no database security group is needed"}`, nm);
        const env = P(I, props, "environment");
        const sid = field(I, env, "SECRET_ID"), app = P(I, env, "DB_APPLICATION");
        C.ob("secret-env", secret ? showsAs(I, sid.v, "$conf.secretId") === 1 : sid.has === 0, fn.at, `${nm}: the secret's id is ${secret ? "" : "not "}in the environment`, nm);
        C.ob("own-env", constVal(I, app) === "own" && showsAs(I, P(I, env, "A"), "$a") === 1 && showsAs(I, P(I, env, "B"), "$b2") === 1, fn.at, `${nm}: the caller's variables are all there, the last setting wins`, nm);
        const grants = r.events.filter((e) => e.name === "grantSecret" || /grantRead$/.test(e.name ?? ""));
        const granted = or(I, grants.filter((e) => e.args.some((a, i) => isResult(I, arg(e, i), fn) === 1)).map((e) => e.g));
        C.ob("secret-grant", secret ? imp(I, W, granted) : grants.length === 0, fn.at, `${nm}: the function ${secret ? "may" : "may not"} read the secret`, nm);
        C.ob("vpc", showsAs(I, P(I, props, "vpc"), "$stack.vpc") === 1, fn.at, `${nm}: the function runs in the stack's network`, nm);
        const sub = P(I, props, "vpcSubnets");
        const noVpc = I.eqConst(path_(I, arg(fn, 0), ["vpc"]).alts[0].l, I.cl(undefined));
        C.ob("private-subnets", sub.alts.every((a) => (a.l.t === "c" ? imp(I, b.and(W, a.g), noVpc) : showsAs(I, P(I, I.one(a.l), "subnets"), "$stack.vpc.privateSubnets") === 1)), fn.at, `${nm}: in the network the function uses the private subnets`, nm);
        const rs = constVal(I, P(I, props, "reservedConcurrentExecutions"));
        C.ob("bounded", typeof rs === "number" && rs > 0 && rs <= 100 && constVal(I, P(I, props, "memorySize")) >= 128 && /Duration/.test(I.show(P(I, props, "timeout"))), fn.at, `${nm}: concurrency, memory and run time are bounded by default`, nm);
        C.ob("name", constVal(I, P(I, props, "functionName")) === "ST-UpdateThings", fn.at, `${nm}: the function is named by the stack and the lambda`, nm);
        C.ob("handler", constVal(I, P(I, props, "handler")) === "update-things.handler", fn.at, `${nm}: the handler is the lambda's own`, nm);
        const code = made(r, /AssetCode$/).concat(calls(r, /fromAsset$/));
        C.ob("code", code.some((e) => isResult(I, P(I, props, "code"), e) === 1 && constVal(I, arg(e, 0)) === "dist/lambda/update-things"), fn.at, `${nm}: the code is the lambda's own`, nm);
        const lg = made(r, /aws-logs#LogGroup$/).find((e) => isResult(I, P(I, props, "logGroup"), e) === 1);
        C.ob("log-group", !!lg && retained(I.show(P(I, arg(lg, 2), "retention"))) && constVal(I, P(I, arg(lg, 2), "retention")) !== undefined === false && members(I, showsAs(I, P(I, arg(lg, 2), "logGroupName"), '"/ST/lambda/ST-UpdateThings"')) === 1, fn.at, `${nm}: logs go to the function's own group, kept for a limited time`, nm);
        C.ob("log-format", enumName(I, P(I, props, "loggingFormat")) === "JSON", fn.at, `${nm}: log records are structured`, nm);
        C.ob("no-extra-rights", calls(r, /addToRolePolicy$/).length === 0, fn.at, `${nm}: no other right is granted`, nm);
      }
      for (const [how, off, db, secret] of VARIANTS) {
        const { I, props, fn } = build(C, how, "x", off.map((m) => [m, () => []]));
        if (!props) continue;
        const app = field(I, P(I, props, "environment"), "DB_APPLICATION");
        C.ob("db-env", db ? constVal(I, app.v) === "ST" : app.has === 0, fn.at, `${[how, ...off].join(" ")}: the database application name is ${db ? "the stack's" : "not set"}`, "db-env");
      }
      // each setter sets its own property
      const setters = [["withMemorySize", "memorySize"], ["withRuntime", "runtime"], ["withArchitecture", "architecture"], ["withTimeout", "timeout"], ["withReservedConcurrentExecutions", "reservedConcurrentExecutions"], ["withRole", "role"], ["withDescription", "description"], ["withCode", "code"]];
      for (const [m, k] of setters) {
        const a = build(C, "plain", "x", [[m, (I) => [I.input("given")]]]), d = build(C, "plain", "x");
        if (!a.props || !d.props) { C.ob("setter", false, FB, `${m}: function created`, m); continue; }
        C.ob("setter", showsAs(a.I, P(a.I, a.props, k), "$given") === 1, a.fn.at, `${m} sets ${k}`, m);
        for (const [, o] of setters) if (o !== k) C.ob("setter-only", a.I.show(P(a.I, a.props, o)) === d.I.show(P(d.I, d.props, o)), a.fn.at, `${m} leaves ${o} alone`, m);
      }
      { const { I, props, fn } = build(C, "plain", "x", [["withLayers", (J) => [J.input("l1")]], ["withLayers", (J) => [J.input("l2")]]]);
        C.ob("layers", !!props && ["$l1", "$l2"].every((l) => contains(I, P(I, props, "layers"), l) === 1), fn?.at ?? FB, "every layer is added", "layers"); }
      { const { I, props, fn } = build(C, "plain", "x", [["withLayers", (J) => [J.input("l1")]]]);
        C.ob("layers", !!props && contains(I, P(I, props, "layers"), "$l1") === 1, fn?.at ?? FB, "a single layer is added", "layers"); }
      { const { I, r, fn } = build(C, "plain", "x", [["withAllowedActions", (J) => [J.c("s3:PutObject")]]]);
        const sts = made(r, /PolicyStatement$/);
        C.ob("actions", sts.length === 1 && JSON.stringify(tree(I, P(I, arg(sts[0], 0), "actions"))) === '["s3:PutObject"]' && calls(r, /addToRolePolicy$/).some((e) => imp(I, r.retG, I.bdd.and(e.g, isResult(I, arg(e, 0), sts[0])))), fn?.at ?? FB, "a single action is allowed", "actions"); }
      { const { I, props, fn, r } = build(C, "plain", "x", [["withAssetCode", (J) => [J.c("dump/locations"), J.input("exclude")]]]);
        const e = made(r, /AssetCode$/).find((y) => props && isResult(I, P(I, props, "code"), y) === 1);
        C.ob("asset", !!e && constVal(I, arg(e, 0)) === "dist/lambda/dump/locations" && constVal(I, P(I, props, "handler")) === "locations.handler" && mentions(I, arg(e, 1), (l) => I.showLeaf(l) === "$exclude"), fn?.at ?? FB, "a code directory of its own sets the code and the handler in it", "asset"); }
      { const { I, props, fn } = build(C, "plain", "x", [["withHandler", (J) => [J.c("mod"), J.c("main")]]]), d = build(C, "plain", "x", [["withHandler", (J) => [J.c("mod")]]]);
        C.ob("handler", !!props && constVal(I, P(I, props, "handler")) === "mod.main" && constVal(d.I, P(d.I, d.props, "handler")) === "mod.handler", fn?.at ?? FB, "the handler chosen is used", "handler"); }
      // policies and actions
      for (const acc of ["create", "plain"]) {
        const { I, r, fn } = build(C, acc, "x", [["withRolePolicies", (J) => [J.input("p1"), J.input("p2")]], ["withRolePolicies", (J) => [J.input("p3")]], ["withAllowedActions", (J) => [J.c("s3:PutObject"), J.c("s3:GetObject")]], ["withAllowedActions", (J) => [J.c("ses:SendEmail")]]]);
        const adds = calls(r, /addToRolePolicy$/);
        C.ob("policy-target", adds.length > 0 && adds.every((e) => isResult(I, e.recv, fn) === 1), fn.at, "rights are added to the function's own role", "policy");
        for (const p of ["$p1", "$p2", "$p3"]) C.ob("policies", imp(I, r.retG, or(I, adds.map((e) => I.bdd.and(e.g, showsAs(I, arg(e, 0), p))))), fn.at, `policy ${p} is attached`, "policies");
        const sts = made(r, /PolicyStatement$/).filter((s) => adds.some((e) => isResult(I, arg(e, 0), s) !== 0));
        const acts = sts.flatMap((s) => items(I, P(I, arg(s, 0), "actions")).map((x) => constVal(I, x.v))).sort();
        C.ob("actions", JSON.stringify(acts) === JSON.stringify(["s3:GetObject", "s3:PutObject", "ses:SendEmail"]) && sts.every((s) => imp(I, r.retG, s.g) && enumName(I, P(I, arg(s, 0), "effect")) === "ALLOW"), fn.at, "exactly the actions given are allowed", "actions");
        C.ob("actions-resources", sts.every((s) => items(I, P(I, arg(s, 0), "resources")).some((x) => constVal(I, x.v) === "*")), fn.at, "the actions are allowed on every resource", "actions");
      }
      for (const list of [["*"], ["s3:PutObject", "*"], ["*", "s3:PutObject"]]) for (const split of [false, true]) {
        const { I, r } = build(C, "plain", "x", split ? list.map((a) => ["withAllowedActions", (J) => [J.c(a)]]) : [["withAllowedActions", (J) => list.map((a) => J.c(a))]]);
        C.ob("wildcard", r.retG === 0 && calls(r, /addToRolePolicy$/).every((e) => e.g === 0), FB, `allowing ${list.join(" and ")} is refused before any right is granted`, "wildcard");
      }
      { const { I, r } = build(C, "plain", "x", [["withAllowedActions", (J) => [J.input("act", J.checker.getStringType())]]]);
        const star = or(I, I.atoms.map((a, v) => (a?.kind === "eq" && I.showLeaf(a.l) === "$act" && a.k.v === "*" ? I.bdd.node(v, 1 ^ 1, 1) : 0)));
        C.ob("wildcard", star !== 0 && I.bdd.and(r.retG, star) === 0 && I.bdd.and(r.throwG, I.bdd.not(star)) === 0, FB, "only the wildcard is refused", "wildcard"); }
      { // two builders do not share state
        const I = cdk(C);
        const cls = I.valueOfExport(FB, "FunctionBuilder");
        const st = stackInput(I);
        const r = I.run(() => { let x = method(I, cls, "create", [st, I.c("one")]); for (const [m, a] of [["withEnvironment", lit(I, { ONLY: "one" })], ["withSecurityGroup", I.input("sgOne")], ["withAllowedActions", I.c("s3:One")], ["withRolePolicies", I.input("pOne")], ["withLayers", I.input("lOne")], ["withMemorySize", I.c(999)]]) x = method(I, x, m, [a]); method(I, method(I, cls, "plain", [st, I.c("two")]), "build", []); return method(I, x, "build", []); });
        const [two, one] = made(r, isFn);
        const t2 = I.show(arg(two, 2));
        C.ob("isolation", !!one && !/ONLY|sgOne|lOne|999|lambdaDbSg|SECRET_ID/.test(t2) && /ONLY/.test(I.show(arg(one, 2))), FB, "a builder's settings do not leak to another function", "isolation");
        C.ob("isolation", calls(r, /addToRolePolicy$|grantSecret$|grantRead$/).every((e) => !(e.recv && isResult(I, e.recv, two) !== 0) && !e.args.some((a, i) => isResult(I, arg(e, i), two) !== 0)), FB, "a builder's rights do not leak to another function", "isolation");
      }
      { // a function is the same whatever was built before it, beside it or after it was started
        const clean = (t) => t.replace(/#\d+\b/g, "#").replace(/\b[be]\d+\b/g, "_");
        const rights = (I, r, fn) => r.events.filter((e) => /addToRolePolicy$|grantSecret$|grantRead$/.test(e.name ?? "") && ((e.recv && isResult(I, e.recv, fn) !== 0) || e.args.some((x, i) => isResult(I, arg(e, i), fn) !== 0))).map((e) => `${e.name} ${e.args.map((x, i) => clean(I.show(arg(e, i)))).join()}`);
        const everything = (I, x) => { for (const [m, as] of [["withoutDatabaseAccess", []], ["withoutSecretAccess", []], ["withEnvironment", [lit(I, { O: "o" })]], ["withSecurityGroup", [I.input("sgO")]], ["withAllowedActions", [I.c("s3:O")]], ["withRolePolicies", [I.input("pO")]], ["withLayers", [I.input("lO")]], ["withMemorySize", [I.c(999)]], ["withTimeout", [I.input("tO")]], ["withReservedConcurrentExecutions", [I.c(9)]], ["withRole", [I.input("rO")]], ["withDescription", [I.c("dO")]], ["withRuntime", [I.input("rtO")]], ["withArchitecture", [I.input("aO")]]]) x = method(I, x, m, as); return x; };
        const one = (how, plan) => {
          const I = cdk(C);
          const cls = I.valueOfExport(FB, "FunctionBuilder"), st = stackInput(I);
          const mk = () => method(I, cls, how, [st, I.c("one")]);
          const other = () => everything(I, method(I, cls, "create", [st, I.c("two")]));
          const r = I.run(() => plan(I, mk, other));
          const fn = made(r, isFn).find((e) => isResult(I, r.value, e) !== 0);
          return fn && `${clean(I.show(arg(fn, 2)))} ${rights(I, r, fn)} ${made(r, /LogGroup$/).length}`.replace(/ \d+$/, "");
        };
        for (const how of ["create", "plain"]) {
          const B = (I, x) => method(I, x, "build", []);
          const alone = one(how, (I, mk) => B(I, mk()));
          const plans = { "after another is built": (I, mk, other) => { B(I, other()); return B(I, mk()); }, "while another is set up": (I, mk, other) => { const x = mk(); const y = other(); const v = B(I, x); B(I, y); return v; }, "started before another is built": (I, mk, other) => { const x = mk(); B(I, other()); return B(I, x); } };
          for (const [w, plan] of Object.entries(plans)) C.ob("independent", !!alone && one(how, plan) === alone, FB, `${how}: a function built ${w} is the same as one built alone`, "independent");
        }
      }
      older(C);
      configs(C);
      stack(C);
      C.min("setter", 8); C.min("one-function", 5);
    },
  },
  I03: {
    explain: "Alarms created for a function are read from the construct events, for the builder and the monitored function, each alarm enabled and disabled, in and out of production; thresholds are evaluated on both sides of the limit.",
    run(C) { alarms(C); },
  },
};

// the deprecated factories
function older(C) {
  const variants = [["createV2", MF, "MonitoredFunction", true], ["create", MF, "MonitoredDBFunction", true], ["create", MF, "MonitoredDBFunction", false]];
  for (const [m, file, cn, withEnv] of variants) {
    const nm = `${cn}.${m}${withEnv ? "" : " without environment"}`;
    for (const cfg of [undefined, {}]) {
      const I = cdk(C);
      const b = I.bdd;
      const st = stackInput(I);
      const o = cfg && lit(I, { memorySize: I.input("mem"), timeout: 33, reservedConcurrentExecutions: I.input("res"), role: I.input("role"), runtime: I.input("rt"), architecture: I.input("arch"), functionName: "Given" });
      const r = I.run(() => method(I, I.valueOfExport(file, cn), m, [st, I.c("update-things"), withEnv ? lit(I, { E: I.input("e") }) : I.UNDEF, ...(o ? [o] : [])]));
      const fns = r.events.filter((e) => (e.kind === "super" || e.kind === "new") && isFn.test(e.name));
      C.ob("old-one-function", fns.length === 1 && imp(I, r.retG, fns[0].g), MF, `${nm}: one function is created`, nm);
      if (fns.length !== 1) continue;
      const props = arg(fns[0], 2), at = fns[0].at;
      C.ob("old-vpc", showsAs(I, P(I, props, "vpc"), "$stack.vpc") !== 0 && P(I, props, "vpc").alts.every((a) => a.l.t === "c" || I.showLeaf(a.l) === "$stack.vpc"), at, `${nm}: the function runs in the stack's network`, nm);
      const sg = [P(I, props, "securityGroup"), P(I, props, "securityGroups")];
      C.ob("old-db-group", sg[0].alts.concat(items(I, sg[1]).flatMap((x) => x.v.alts)).some((a) => I.showLeaf(a.l) === "$stack.lambdaDbSg"), at, `${nm}: the function is in the database security group`, nm);
      const env = P(I, props, "environment");
      if (withEnv) C.ob("old-env", showsAs(I, P(I, env, "E"), "$e") === 1, at, `${nm}: the environment is the one given`, nm);
      else C.ob("old-env", members(I, eqC(I, P(I, env, "DB_APPLICATION"), "ST")) === 1 && /conf\.secretId/.test(I.show(P(I, env, "SECRET_ID"))), at, `${nm}: the default environment has the secret and the application name`, nm);
      C.ob("old-name", constVal(I, P(I, props, "functionName")) === (cfg ? "Given" : "ST-UpdateThings") && constVal(I, P(I, props, "handler")) === "update-things.handler", at, `${nm}: the function has its own name and handler`, nm);
      if (cfg) for (const [k, s] of [["memorySize", "$mem"], ["reservedConcurrentExecutions", "$res"], ["role", "$role"], ["runtime", "$rt"], ["architecture", "$arch"], ["timeout", /Duration\.seconds\(.*33\)$/]]) C.ob("old-config", P(I, props, k).alts.some((a) => (s.test ? s.test(I.showLeaf(a.l)) : I.showLeaf(a.l) === s)), at, `${nm}: ${k} is the one given`, `${nm} ${k}`);
      else C.ob("old-bounded", [["reservedConcurrentExecutions", 100], ["memorySize", 10240]].every(([k, mx]) => { const v = constVal(I, P(I, props, k)); return v > 0 && v <= mx; }) && !/undefined/.test(I.show(P(I, props, "timeout"))), at, `${nm}: concurrency, memory and run time are bounded by default`, nm);
      C.ob("old-returned", r.value.alts.length === 1 && r.value.alts[0].l.t === "o" && r.value.alts[0].l.rec.cls?.name?.text === "MonitoredFunction", at, `${nm}: the function created is returned`, nm);
      const noVpc = I.eqConst(path_(I, I.input("stack"), ["vpc"]).alts[0].l, I.cl(undefined));
      C.ob("old-subnets", P(I, props, "vpcSubnets").alts.every((a) => (a.l.t === "c" ? imp(I, b.and(r.retG, a.g), noVpc) : showsAs(I, P(I, I.one(a.l), "subnets"), "$stack.vpc.privateSubnets") === 1)), at, `${nm}: in the network the function uses the private subnets`, nm);
      const lg = made(r, /aws-logs#LogGroup$/).find((e) => isResult(I, P(I, props, "logGroup"), e) === 1);
      C.ob("old-log-group", !!lg && retained(I.show(P(I, arg(lg, 2), "retention"))), at, `${nm}: logs go to a group kept for a limited time`, nm);
      const reads = r.events.filter((e) => e.name === "grantRead" || e.name === "grantSecret");
      if (cn === "MonitoredDBFunction") C.ob("old-secret", imp(I, r.retG, or(I, reads.filter((e) => e.args.some((a, i) => mentions(I, arg(e, i), (l) => l.t === "o" && l.rec.cls?.name?.text === "MonitoredFunction"))).map((e) => e.g))), at, `${nm}: the function may read the secret`, nm);
      else C.ob("old-secret", reads.length === 0, at, `${nm}: no secret is granted`, nm);
    }
  }
}
// the plain configuration helpers and the log group they share
function configs(C) {
  const LC = L("aws/infra/stack/lambda-configs.ts"), LG = L("aws/infra/stack/lambda-log-group.ts");
  {
    const I = cdk(C);
    const full = { memorySize: I.input("mem"), functionName: "N", handler: "h.handler", environment: I.input("env"), logGroup: I.input("lg"), reservedConcurrentExecutions: I.input("res"), code: I.input("code"), role: I.input("role"), timeout: 33, vpc: I.input("vpc") };
    const r = I.run(() => I.call(I.valueOfExport(LC, "defaultLambdaConfiguration"), I.UNDEF, [lit(I, full)]));
    for (const [k, t] of [["memorySize", "$mem"], ["environment", "$env"], ["logGroup", "$lg"], ["reservedConcurrentExecutions", "$res"], ["code", "$code"], ["role", "$role"], ["vpc", "$vpc"]]) C.ob("config", imp(I, I.bdd.and(r.retG, I.truth(full[k])), showsAs(I, P(I, r.value, k), t)), LC, `the plain configuration carries the ${k} given`, k);
    C.ob("config", constVal(I, P(I, r.value, "functionName")) === "N" && constVal(I, P(I, r.value, "handler")) === "h.handler" && /Duration\.seconds\(.*33\)$/.test(I.show(P(I, r.value, "timeout"))), LC, "the plain configuration carries the name, handler and timeout given", "name");
    C.ob("config-subnets", imp(I, I.bdd.and(r.retG, I.truth(full.vpc)), showsAs(I, P(I, P(I, r.value, "vpcSubnets"), "subnets"), "$vpc.privateSubnets")), LC, "in a network the private subnets are used", "subnets");
    const J = cdk(C);
    const q = J.run(() => J.call(J.valueOfExport(LC, "defaultLambdaConfiguration"), J.UNDEF, [lit(J, { functionName: "N", handler: "h" })]));
    C.ob("config-bounded", constVal(J, P(J, q.value, "memorySize")) >= 128 && /Duration\.seconds\(.*\b\d+\)$/.test(J.show(P(J, q.value, "timeout"))), LC, "memory and run time are bounded by default", "bounded");
  }
  for (const [what, params, want] of [["a stack with a short name", (I) => ({ stack: stackInput(I), functionName: "F" }), "/ST/lambda/F"], ["any other stack", (I) => ({ stack: withProps(I, "plain", undefined, {}), functionName: "F", shortName: "OTHER" }), "/OTHER/lambda/F"]]) for (const ret of [false, true]) {
    const I = cdk(C);
    const r = I.run(() => I.call(I.valueOfExport(LG, "createLambdaLogGroup"), I.UNDEF, [lit(I, { ...params(I), ...(ret ? { retention: I.input("ret") } : {}) })]));
    const lg = made(r, /LogGroup$/);
    C.ob("log-group-made", lg.length === 1 && lg[0].g === 1 && isResult(I, r.value, lg[0]) === 1, LG, `the log group of ${what} is created and returned`, what);
    const nmv = lg[0] && P(I, arg(lg[0], 2), "logGroupName");
    C.ob("log-group-name", !!nmv && showsAs(I, nmv, JSON.stringify(want)) !== 0, LG, `the log group of ${what} is named by the owner and the function`, what);
    const rt = lg[0] && P(I, arg(lg[0], 2), "retention");
    C.ob("log-group-kept", !!rt && (ret ? rt.alts.every((a) => I.showLeaf(a.l) === "$ret" || (retained(I.showLeaf(a.l)) && imp(I, a.g, I.eqConst(I.single(I.input("ret")), I.cl(undefined))))) : retained(I.show(rt))), LG, `the log group of ${what} keeps records ${ret ? "as long as asked" : "for a limited time"}`, what);
  }
}
function stack(C) {
  const run = (f, over = {}) => {
    const I = cdk(C);
    const cls = I.valueOfExport(ST, "DigitrafficStack");
    const conf = I.input("conf", typeNamed(I, ST, "StackConfiguration"));
    const r = I.run(() => { const x = I.construct(I.single(cls), [I.input("scope"), I.c("id"), conf], null); return f ? f(I, x) : x; });
    return { I, r };
  };
  {
    const { I, r } = run((J, x) => { J.out = x; return method(J, x, "grantSecret", [J.input("f1"), J.input("f2")]); });
    const sec = calls(r, /Secret\.fromSecret/)[0];
    C.ob("stack-secret", !!sec && showsAs(I, arg(sec, 2), "$conf.secretId") === 1, ST, "the stack's secret is the one configured", "stack");
    const reads = calls(r, /grantRead$/);
    for (const f of ["$f1", "$f2"]) C.ob("stack-grant", imp(I, r.retG, or(I, reads.filter((e) => sec && isResult(I, e.recv, sec) === 1).map((e) => I.bdd.and(e.g, showsAs(I, arg(e, 0), f))))), ST, `granting gives ${f} read access to the stack's secret`, "stack");
    C.ob("stack-grant", calls(r, /grantWrite$|grantReadWrite$|grant$/).length === 0, ST, "nothing more than reading is granted", "stack");
    const noSec = r.throwG;
    C.ob("stack-no-secret", imp(I, I.bdd.not(sec?.g ?? 0), noSec), ST, "granting a secret the stack does not have is an error", "stack");
    const pf = calls(r, /fromStringParameterName$|valueForStringParameter$/), tp = calls(r, /Topic\.fromTopicArn$/);
    for (const [k, want] of [["alarmTopic", "alarm-topic"], ["warningTopic", "warning-topic"]]) {
      const v = P(I, J_out(I), k);
      const t = tp.find((e) => isResult(I, v, e) === 1);
      const p = t && pf.find((e) => mentions(I, arg(t, 2), (l) => l.t === "s" && l.op === "res" && l.ev === e));
      C.ob("stack-topic", !!p && p.args.some((a, i) => String(constVal(I, arg(p, i)) ?? "").endsWith(`/monitoring/${want}`)), ST, `${k} is the topic of its own parameter`, "topic");
    }
    const sg = calls(r, /fromSecurityGroupId$/)[0], vpc = calls(r, /fromVpcAttributes$/)[0];
    C.ob("stack-sg", !!sg && showsAs(I, arg(sg, 2), "$conf.lambdaDbSgId") === 1 && imp(I, sg.g, isResult(I, P(I, J_out(I), "lambdaDbSg"), sg)), ST, "the database security group is the one configured", "stack");
    C.ob("stack-vpc", !!vpc && showsAs(I, P(I, arg(vpc, 2), "vpcId"), "$conf.vpcId") === 1 && showsAs(I, P(I, arg(vpc, 2), "privateSubnetIds"), "$conf.privateSubnetIds") === 1 && imp(I, vpc.g, isResult(I, P(I, J_out(I), "vpc"), vpc)), ST, "the network and its private subnets are the ones configured", "stack");
  }
  {
    const { I, r } = run((J, x) => method(J, x, "createDefaultLambdaEnvironment", [J.input("app")]));
    const s = I.getProp(I.input("conf", typeNamed(I, ST, "StackConfiguration")), I.c("secretId"), null);
    const v = r.value;
    C.ob("default-env", showsAs(I, P(I, v, "DB_APPLICATION"), "$app") === 1 && alts(I, P(I, v, "SECRET_ID"), r.retG).every((a) => (a.l.t === "c" && a.l.v === undefined) || I.showLeaf(a.l) === "$conf.secretId"), ST, "the default environment names the application given and the configured secret", "default-env");
    C.ob("default-env", I.bdd.and(r.retG, field(I, v, "SECRET_ID").has) !== 0, ST, "the secret is in the default environment when there is one", "default-env");
  }
}
const J_out = (I) => I.out;

function readAlarms(I, r, W) {
  const out = [];
  for (const e of calls(r, /createAlarm$/)) {
    const acts = calls(r, /addAlarmAction$/).filter((a) => isResult(I, a.recv, e) === 1);
    const m = metricCalls(I, r, e).map((x) => x.name).join(" ");
    const kind = /metricDuration/.test(m) ? "duration" : /metricErrors/.test(m) ? "errors" : /metricThrottles/.test(m) ? "throttles" : "?";
    out.push({ e, acts, kind, props: arg(e, 2) });
  }
  return out;
}
function metricCalls(I, r, e) { // events the alarm's metric derives from
  const evs = [];
  const go = (v) => { for (const a of v?.alts ?? (v ? [{ l: v }] : [])) if (a.l.t === "s" && a.l.op === "res") { evs.push(a.l.ev); go(a.l.ev.recv); } };
  go(e.recv);
  return evs;
}
// [name, guard under which the action goes to that topic]
function topicGuard(I, r, al, topic) {
  const sns = made(r, /SnsAction$/);
  return or(I, al.acts.flatMap((a) => a.args.flatMap((_, i) => sns.map((s) => I.bdd.and(I.bdd.and(a.g, isResult(I, arg(a, i), s)), showsAs(I, arg(s, 0), `$stack.${topic}`))))));
}
const KINDS = [["duration", false, 60000, [60000, 70000], [0, 51000, 59999]], ["duration", true, 51000, [51000, 60000], [0, 50999]], ["errors", false, 1, [1, 5], [0]], ["throttles", false, 1, [1, 5], [0]]];
function alarms(C) {
  const ways = {
    "function builder": { file: FB, run: (I, st, dis) => { const cls = I.valueOfExport(FB, "FunctionBuilder"); let x = method(I, cls, "plain", [st, I.c("x")]); x = method(I, x, "withTimeout", [I.input("timeout", durTy(I))]); if (dis) { let al = I.construct(I.single(I.valueOfExport(L("aws/infra/stack/dt-function-alarms.ts"), "DtFunctionAlarms")), [], null); for (const [k, v] of Object.entries(dis)) al = method(I, al, { duration: "withDurationAlarm", warning: "withDurationWarning", errors: "withErrorAlarm", throttles: "withThrottleAlarm" }[k], [v === false ? I.UNDEF : v]); x = method(I, x, "withAlarms", [al]); } return method(I, x, "build", []); } },
    "monitored function": { file: MF, run: (I, st, dis) => { const cls = I.valueOfExport(MF, "MonitoredFunction"); const o = dis && lit(I, Object.fromEntries(Object.entries(dis).map(([k, v]) => [{ duration: "durationAlarmProps", warning: "durationWarningProps", errors: "errorAlarmProps", throttles: "throttleAlarmProps" }[k], v === false ? { create: false } : v]))); return method(I, cls, "create", [st, I.c("id"), lit(I, { functionName: "ST-X", timeout: I.input("timeout", durTy(I)) }), ...(o ? [o] : [])]); } },
  };
  const durTy = (I) => typeOfExt(I);
  const typeOfExt = (I) => { const sf = I.prog.getSourceFiles().find((s) => /aws-cdk-lib\/core\/lib\/duration\.d\.ts$/.test(s.fileName)); if (!sf) return undefined; const s = I.checker.getExportsOfModule(I.checker.getSymbolAtLocation(sf)).find((x) => x.name === "Duration"); return I.checker.getDeclaredTypeOfSymbol(s); };
  const kindOf = (I, r, a, toMs) => { const evs = metricCalls(I, r, a.e); const thr = evalNum(I, P(I, a.props, "threshold"), toMs(I)); return a.kind === "duration" ? (thr === 60000 ? "duration" : "warning") : a.kind; };
  const toMs = (I) => (l) => (l.t === "s" && /toMilliseconds/.test(l.op === "res" ? l.ev.name : l.op) ? 60000 : l.t === "s" && /toSeconds/.test(l.op === "res" ? l.ev.name : l.op) ? 60 : undefined);
  for (const [nm, w] of Object.entries(ways)) {
    for (const prod of [true, false]) {
      const I = cdk(C);
      const st = stackInput(I, { production: prod });
      const r = I.run(() => { const t = I.input("timeout", durTy(I)); I.pc = I.bdd.and(I.pc, I.bdd.not(I.nullish(t))); return w.run(I, st); });
      const als = readAlarms(I, r);
      C.ob("no-throw", r.throwG === 0, w.file, `${nm}: default alarms can be created`, nm);
      for (const [kind, warn, , fire, quiet] of KINDS) {
        const mine = als.filter((a) => a.kind === kind && (kind !== "duration" || (kindOf(I, r, a, toMs) === "warning") === warn));
        const what = `${nm}${prod ? " in production" : ""}: the ${kind}${warn ? " warning" : ""} alarm`;
        C.ob("exists", mine.length === 1 && imp(I, r.retG, mine[0].e.g), w.file, `${what} is created`, `${kind}${warn}`);
        if (mine.length !== 1) continue;
        const a = mine[0], at = a.e.at;
        const thr = evalNum(I, P(I, a.props, "threshold"), toMs(I)), op = ALARM_OPS[enumName(I, P(I, a.props, "comparisonOperator"))];
        C.ob("threshold", !!op && thr !== undefined && fire.every((x) => op(x, thr)) && quiet.every((x) => !op(x, thr)), at, `${what} fires exactly from its limit on (${thr})`, `${kind}${warn}`);
        const topic = prod && !warn ? "alarmTopic" : "warningTopic", other = topic === "alarmTopic" ? "warningTopic" : "alarmTopic";
        C.ob("topic", imp(I, r.retG, topicGuard(I, r, a, topic)) && topicGuard(I, r, a, other) === 0, at, `${what} goes to the ${topic}`, `${kind}${warn}`);
        C.ob("sensitive", constVal(I, P(I, a.props, "datapointsToAlarm")) === 1, at, `${what} needs one occurrence only`, `${kind}${warn}`);
        C.ob("periods", constVal(I, P(I, a.props, "evaluationPeriods")) >= 1 && constVal(I, P(I, a.props, "datapointsToAlarm")) >= 1 && constVal(I, P(I, a.props, "datapointsToAlarm")) <= constVal(I, P(I, a.props, "evaluationPeriods")), at, `${what} can fire`, `${kind}${warn}`);
        const evs = metricCalls(I, r, a.e);
        if (kind === "duration") C.ob("statistic", evs.some((e) => e.args.some((x, i) => /^max/i.test(String(constVal(I, P(I, arg(e, i), "statistic")))))), at, `${what} watches the longest run`, kind);
        const src = evs.find((e) => /^metric/.test(e.name));
        const self = r.value.alts.map((x) => x.l), base = src?.recv?.alts?.[0]?.l ?? src?.recv;
        C.ob("subject", !!src && self.length === 1 && self[0] === base, at, `${what} watches the function created`, kind);
        const ids = als.map((x) => I.show(arg(x.e, 1))), names = als.map((x) => I.show(P(I, x.props, "alarmName")));
        C.ob("distinct", new Set(ids).size === ids.length && new Set(names).size === names.length, at, `${nm}: alarms have different names`, nm);
      }
      C.ob("only-these", als.length === 4, w.file, `${nm}: no other alarm is created`, nm);
    }
    // each disabled alone
    const keys = ["duration", "warning", "errors", "throttles"];
    for (const off of [...keys.map((k) => [k]), keys]) {
      const I = cdk(C);
      const st = stackInput(I, { production: true });
      const r = I.run(() => { const t = I.input("timeout", durTy(I)); I.pc = I.bdd.and(I.pc, I.bdd.not(I.nullish(t))); return w.run(I, st, Object.fromEntries(off.map((k) => [k, false]))); });
      const have = readAlarms(I, r).filter((a) => a.e.g !== 0).map((a) => kindOf(I, r, a, toMs)).sort();
      C.ob("disable", JSON.stringify(have) === JSON.stringify(keys.filter((k) => !off.includes(k)).sort()), w.file, `${nm}: disabling ${off.join(", ")} leaves the others`, `disable ${off}`);
    }
    // own properties are used
    for (const k of keys) {
      const I = cdk(C);
      const st = stackInput(I, { production: true });
      const pr = lit(I, { create: true, threshold: 77, evaluationPeriods: 5, datapointsToAlarm: 4, comparisonOperator: I.input("op") });
      const r = I.run(() => { const t = I.input("timeout", durTy(I)); I.pc = I.bdd.andAll([I.pc, I.bdd.not(I.nullish(t)), I.bdd.not(I.nullish(I.input("op")))]); return w.run(I, st, { [k]: pr }); });
      for (const thr of [0, undefined]) {
        const J = cdk(C);
        const q = J.run(() => { const t = J.input("timeout", durTy(J)); J.pc = J.bdd.andAll([J.pc, J.bdd.not(J.nullish(t)), J.bdd.not(J.nullish(J.input("op")))]); return w.run(J, stackInput(J, { production: true }), { [k]: lit(J, { create: true, evaluationPeriods: 5, datapointsToAlarm: 4, comparisonOperator: J.input("op"), ...(thr === undefined ? {} : { threshold: thr }) }) }); });
        const got = readAlarms(J, q).filter((a) => constVal(J, P(J, a.props, "evaluationPeriods")) === 5).map((a) => evalNum(J, P(J, a.props, "threshold"), toMs(J)));
        const lim = thr ?? KINDS.find((x) => (x[1] ? "warning" : x[0]) === k)[2];
        C.ob("own-limit", got.length === 1 && (got[0] === lim || (thr === undefined && lim === 1 && got[0] === 0)), w.file, `${nm}: the ${k} alarm ${thr === undefined ? "without a limit of its own uses the default one" : "may have zero as its limit"} (${got})`, `own ${k}`);
      }
      const hit = readAlarms(I, r).filter((a) => constVal(I, P(I, a.props, "threshold")) === 77);
      const okKind = hit.length === 1 && (k === "warning" || k === "duration" ? hit[0].kind === "duration" : hit[0].kind === k);
      C.ob("own-props", okKind && constVal(I, P(I, hit[0].props, "evaluationPeriods")) === 5 && constVal(I, P(I, hit[0].props, "datapointsToAlarm")) === 4 && P(I, hit[0].props, "comparisonOperator").alts.some((a) => I.showLeaf(a.l) === "$op"), w.file, `${nm}: the ${k} alarm's own settings are used`, `own ${k}`);
      if (hit.length === 1) C.ob("own-topic", topicGuard(I, r, hit[0], k === "warning" ? "warningTopic" : "alarmTopic") !== 0, w.file, `${nm}: the ${k} alarm with own settings goes to its topic`, `own ${k}`);
    }
  }
  // disabling every alarm is refused in production
  for (const prod of [true, false]) {
    const I = cdk(C);
    const st = stackInput(I, { production: prod });
    const cls = I.valueOfExport(MF, "MonitoredFunction");
    const r = I.run(() => { const d = I.getProp(cls, I.c("DISABLE_ALARMS"), null); return method(I, cls, "create", [st, I.c("id"), lit(I, { functionName: "X", timeout: I.input("timeout") }), d]); });
    const fns = r.events.filter((e) => (e.kind === "super" || e.kind === "new") && isFn.test(e.name));
    C.ob("disable-all", prod ? r.retG === 0 && fns.every((e) => e.g === 0) : r.throwG === 0 && readAlarms(I, r).length === 0, MF, prod ? "disabling all alarms is refused in production" : "outside production all alarms can be disabled", "disable-all");
  }
  { // a function without a timeout cannot be watched
    const I = cdk(C);
    const st = stackInput(I, { production: true });
    const r = I.run(() => method(I, I.valueOfExport(MF, "MonitoredFunction"), "create", [st, I.c("id"), lit(I, { functionName: "X" })]));
    C.ob("timeout-needed", r.retG === 0, MF, "a function without a timeout is refused a duration alarm", "timeout");
    const r2 = cdk(C);
    const q = r2.run(() => method(r2, r2.valueOfExport(MF, "MonitoredFunction"), "create", [stackInput(r2, { production: true }), r2.c("id"), lit(r2, { timeout: r2.input("timeout") })]));
    C.ob("name-needed", q.retG === 0, MF, "a function without a name is refused", "name");
  }
  C.min("threshold", 16); C.min("topic", 16);
}
