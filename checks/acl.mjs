import { L, imp, alts, constVal, method, mentions, field } from "./kit.mjs";
import { cdk, arrayNatives, tree, made, arg, items } from "./infra-kit.mjs";
const ACL = L("aws/infra/acl-builder.ts");
const LIM = { $: "$limit" };
// Does a WAF statement match a request? (a missing component matches nothing; names are case-insensitive)
function match(st, q) {
  if (!st || typeof st !== "object") return undefined;
  const k = Object.keys(st).find((x) => /[sS]tatement$/.test(x)), s = st[k];
  switch (k) {
    case "notStatement": { const m = match(s.statement, q); return m === undefined ? undefined : !m; }
    case "andStatement": { const m = (s.statements ?? []).map((x) => match(x, q)); return m.includes(false) ? false : m.includes(undefined) ? undefined : true; }
    case "orStatement": { const m = (s.statements ?? []).map((x) => match(x, q)); return m.includes(true) ? true : m.includes(undefined) ? undefined : false; }
    case "sizeConstraintStatement": {
      const f = s.fieldToMatch ?? {};
      const h = f.singleHeader && String(f.singleHeader.Name ?? f.singleHeader.name).toLowerCase();
      const v = h === "digitraffic-user" ? q.header : f.queryString ? q.query : undefined;
      if (!h && !f.queryString) return undefined;
      if (v === undefined) return false;
      const size = typeof s.size === "number" ? s.size : s.size?.$ === "$limit" ? q.limit : undefined;
      if (size === undefined) return undefined;
      const n = v.length;
      return { GT: n > size, GE: n >= size, LT: n < size, LE: n <= size, EQ: n === size, NE: n !== size }[s.comparisonOperator];
    }
    case "regexMatchStatement": return s.fieldToMatch?.uriPath && s.regexString?.$ === "$path.source" ? q.pathMatches : undefined;
    case "ipSetReferenceStatement": return typeof s.arn === "object" && /attrArn$/.test(s.arn.$) ? q.inSet : undefined;
    case "rateBasedStatement": return s.scopeDownStatement ? match(s.scopeDownStatement, q) : true;
    default: return undefined;
  }
}
const HEADERS = { absent: undefined, empty: "", present: "someone", short: "x" };
const throttles = {
  withThrottleDigitrafficUserIp: { user: true, path: false, block: true },
  withThrottleDigitrafficUserIpAndUriPath: { user: true, path: true, block: true },
  withThrottleAnonymousUserIp: { user: false, path: false, block: true },
  withThrottleAnonymousUserIpAndUriPath: { user: false, path: true, block: true },
  withThrottleAnonymousUserIpByUriPath: { user: false, path: false, block: true, regex: true },
  withCountDigitrafficUserIp: { user: true, path: false, block: false },
  withCountDigitrafficUserIpAndUriPath: { user: true, path: true, block: false },
  withCountAnonymousUserIp: { user: false, path: false, block: false },
  withCountAnonymousUserIpAndUriPath: { user: false, path: true, block: false },
};
function build(C, steps, name) {
  const I = cdk(C);
  arrayNatives(I);
  const cls = I.valueOfExport(ACL, "AclBuilder");
  const S = { limit: I.input("limit", I.checker.getNumberType()), path: I.input("path"), addr: I.input("addr"), body: I.input("body"), body2: I.input("body2") };
  const r = I.run(() => {
    I.pc = I.bdd.andAll([I.pc, I.bdd.not(I.nullish(S.path)), I.truth(S.path), I.bdd.not(I.nullish(S.addr)), I.bdd.not(I.nullish(S.body))]);
    let x = I.construct(I.single(cls), [I.input("scope"), ...(name ? [I.c(name)] : [])], null);
    for (const [m, f] of steps) x = method(I, x, m, f(I, S));
    return method(I, x, "build", []);
  });
  const acl = made(r, /CfnWebACL$/);
  return { I, r, S, acl, cfg: acl.length === 1 ? tree(I, arg(acl[0], 2)) : undefined, id: acl.length === 1 ? constVal(I, arg(acl[0], 1)) : undefined };
}
const lim = (I, S) => [S.limit];
const step = (m) => [m, (I, S) => (throttles[m]?.regex ? [S.limit, S.path] : [S.limit])];
const sorted = (x) => (Array.isArray(x) ? x.map(sorted) : x && typeof x === "object" ? Object.fromEntries(Object.keys(x).sort().map((k) => [k, sorted(x[k])])) : x);
const same = (a, b) => JSON.stringify(sorted(a)) === JSON.stringify(sorted(b));

export const acl = {
  I06: {
    explain: "The rules each builder call adds are read from the configuration given to the web ACL and evaluated as WAF statements on requests with an absent, empty and non-empty user header, matching and other paths, addresses inside and outside the set.",
    run(C) {
      for (const [m, t] of Object.entries(throttles)) {
        const { cfg, r, I } = build(C, [step(m)]);
        const rules = cfg?.rules ?? [];
        C.ob("one-rule", rules.length === 1, ACL, `${m} adds one rule`, m);
        if (rules.length !== 1) continue;
        const u = rules[0], st = u.statement?.rateBasedStatement;
        C.ob("limit", same(st?.limit, LIM), ACL, `${m}: the rate limit is the one given`, m);
        const keys = (st?.customKeys ?? []).flatMap((k) => Object.keys(k)).sort();
        C.ob("aggregate", t.path ? st?.aggregateKeyType === "CUSTOM_KEYS" && same(keys, ["ip", "uriPath"]) : st?.aggregateKeyType === "IP", ACL, `${m}: requests are counted per ${t.path ? "address and path" : "address"}`, m);
        const tt = (st?.customKeys ?? []).flatMap((k) => k.uriPath?.textTransformations ?? []).sort((a, b) => a.priority - b.priority).map((x) => x.type);
        if (t.path) C.ob("path-normalised", tt.includes("LOWERCASE") && tt.includes("NORMALIZE_PATH") && Math.max(tt.indexOf("LOWERCASE"), tt.indexOf("NORMALIZE_PATH")) < (tt.indexOf("MD5") + 1 || 9), ACL, `${m}: spellings of the same path share one count`, m);
        for (const [h, header] of Object.entries(HEADERS)) for (const pathMatches of [true, false]) {
          const want = (t.user ? !!header : !header) && (!t.regex || pathMatches);
          C.ob("matches", match(u.statement, { header, pathMatches }) === want, ACL, `${m}: a request with ${h} user header${t.regex ? ` and ${pathMatches ? "a matching" : "another"} path` : ""} is ${want ? "" : "not "}counted`, m);
        }
        const blk = u.action?.block;
        C.ob("action", t.block ? !!blk && !u.action.count && !u.action.allow : same(u.action, { count: {} }), ACL, `${m}: exceeding the limit ${t.block ? "blocks" : "is only counted"}`, m);
        if (t.block) {
          const key = blk?.customResponse?.customResponseBodyKey?.$ ?? blk?.customResponse?.customResponseBodyKey;
          C.ob("status", blk?.customResponse?.responseCode === 429, ACL, `${m}: blocked requests get status 429`, m);
          const ev = arg(made(r, /CfnWebACL$/)[0], 2);
          const bodies = field(I, ev, "customResponseBodies").v;
          const txt = I.show(bodies);
          C.ob("body", typeof key === "string" && key.length > 0 && txt.includes(key) && /\$\{?\$?limit/.test(txt), ACL, `${m}: the response body named by the rule exists and tells the limit`, m);
        }
        C.ob("metrics", u.visibilityConfig?.cloudWatchMetricsEnabled === true && same(u.visibilityConfig.metricName, u.name), ACL, `${m}: the rule has a metric of its own name`, m);
        // undefined limit adds nothing
        const none = build(C, [["withIpBlacklistRule", (J, S) => [S.addr]], [m, (J, S) => (t.regex ? [J.UNDEF, S.path] : [J.UNDEF])]]);
        C.ob("no-limit", (none.cfg?.rules ?? []).length === 1 && none.cfg.rules[0].name === "IpBlocklist", ACL, `${m} without a limit adds nothing`, m);
        if (t.regex) { const n2 = build(C, [["withIpBlacklistRule", (J, S) => [S.addr]], [m, (J, S) => [S.limit, J.UNDEF]]]); C.ob("no-limit", (n2.cfg?.rules ?? []).length === 1, ACL, `${m} without a path adds nothing`, m); }
      }
      { // free throttle rule
        for (const [key, header, byPath] of [[undefined, true, true], ["KEY", false, false], ["KEY", true, true], [undefined, false, false]]) {
          const { cfg } = build(C, [["withThrottleRule", (I, S) => [I.c("R"), S.limit, I.c(header), I.c(byPath), key ? I.c(key) : I.UNDEF]]]);
          const u = cfg?.rules?.[0];
          C.ob("free-rule", u?.name === "R" && same(u.statement?.rateBasedStatement?.limit, LIM) && (key ? same(u.action, { block: { customResponse: { responseCode: 429, customResponseBodyKey: key } } }) : same(u.action, { count: {} })) && Object.entries(HEADERS).every(([h, v]) => match(u.statement, { header: v }) === (header ? !!v : !v)) && (u.statement.rateBasedStatement.aggregateKeyType === "CUSTOM_KEYS") === byPath, ACL, `a throttle rule ${key ? "with" : "without"} response key ${key ? "blocks" : "counts"}, ${header ? "named users" : "anonymous users"}`, "free");
        }
      }
      for (const [m, inBlocked, set] of [["withIpBlacklistRule", true, "BlocklistIpSet"], ["withIpWhitelistRule", false, "AllowlistIpSet"]]) {
        const { cfg, I, r, S } = build(C, [[m, (J, T) => [T.addr]]]);
        const u = cfg?.rules?.[0];
        C.ob("ip-rule", !!u && same(u.action, { block: {} }) && match(u.statement, { inSet: true }) === inBlocked && match(u.statement, { inSet: false }) === !inBlocked, ACL, `${m}: addresses ${inBlocked ? "in" : "outside"} the set are blocked, others not`, m);
        const ip = made(r, /CfnIPSet$/);
        C.ob("ip-set", ip.length === 1 && alts(I, field(I, arg(ip[0], 2), "addresses").v).every((a) => a.l === S.addr.alts[0].l) && constVal(I, field(I, arg(ip[0], 2), "scope").v) === cfg?.scope && constVal(I, field(I, arg(ip[0], 2), "ipAddressVersion").v) === "IPV4", ACL, `${m}: the set has the addresses given and the ACL's scope`, m);
        if (ip.length === 1 && u) { const st = field(I, arg(made(r, /CfnWebACL$/)[0], 2), "rules").v; C.ob("ip-arn", mentions(I, st, (l) => l.t === "s" && l.op === "get" && l.args[1] === "attrArn" && mentions(I, l.args[0].alts ? l.args[0] : I.one(l.args[0]), (x) => x.t === "s" && x.op === "res" && x.ev === ip[0])), ACL, `${m}: the rule refers to that set`, m); }
      }
      { // query string size
        const { cfg } = build(C, [["withQueryStringSizeRestriction", lim]]);
        const u = cfg?.rules?.[0];
        for (const n of [0, 1, 9, 10, 11, 500]) C.ob("query-size", !!u && same(u.action, { block: {} }) && match(u.statement, { query: "x".repeat(n), limit: 10 }) === n > 10, ACL, `a query string of ${n} with limit 10 is ${n > 10 ? "blocked" : "allowed"}`, "query");
      }
      { // managed rules
        const all = ["CommonRuleSet", "AmazonIpReputationList", "KnownBadInputsRuleSet", "SQLiRuleSet"];
        const sets = [["all", all], ...all.map((x) => [[x], [x]]), [all, all], [[all[3], all[0]], [all[0], all[3]]]];
        const listVal = (I, xs) => { const a = I.alloc("array"); for (const x of xs) a.items.push({ g: 1, v: I.c(x) }); return a.val; };
        for (const [what, want] of sets) for (const excl of [null, ...all]) {
          const { cfg } = build(C, [["withIpBlacklistRule", (J, S) => [S.addr]], ["withAWSManagedRules", (I) => { const o = I.alloc("object"); if (excl) I.setProp(o, excl, listVal(I, ["EX"])); return [what === "all" ? I.c("all") : listVal(I, what), ...(excl ? [o.val] : [])]; }]]);
          const ms = (cfg?.rules ?? []).filter((u) => u.statement?.managedRuleGroupStatement);
          const got = ms.map((u) => u.statement.managedRuleGroupStatement.name.replace("AWSManagedRules", "")).sort();
          C.ob("managed", same(got, [...want].sort()), ACL, `managed rules ${what === "all" ? "all" : what.join("+")} are the ones in the ACL`, "managed");
          C.ob("managed-active", ms.every((u) => same(u.overrideAction, { none: {} }) && u.action === undefined && u.statement.managedRuleGroupStatement.vendorName === "AWS"), ACL, "managed rules act (no override to count)", "managed");
          C.ob("excluded", ms.every((u) => { const n = u.statement.managedRuleGroupStatement.name.replace("AWSManagedRules", ""); const ex = (u.statement.managedRuleGroupStatement.excludedRules ?? []).map((e) => e.name); return ex.includes("EX") === (excl === n); }), ACL, `excluding from ${excl ?? "nothing"} affects only that rule set`, "excluded");
          const common = ms.find((u) => /CommonRuleSet/.test(u.statement.managedRuleGroupStatement.name));
          if (common) C.ob("excluded", (common.statement.managedRuleGroupStatement.excludedRules ?? []).every((e) => ["NoUserAgent_HEADER", "SizeRestrictions_BODY", "GenericRFI_BODY", excl === "CommonRuleSet" ? "EX" : ""].includes(e.name)), ACL, "the common rule set loses only the rules it is known not to fit", "excluded");
          if (!excl) { const sq = ms.filter((u) => !/Common/.test(u.statement.managedRuleGroupStatement.name)); C.ob("excluded", sq.every((u) => (u.statement.managedRuleGroupStatement.excludedRules ?? []).length === 0), ACL, "nothing is excluded from the other rule sets unless asked", "excluded"); }
        }
      }
      // order, names and priorities
      const every = [...Object.keys(throttles).map(step), ["withIpBlacklistRule", (I, S) => [S.addr]], ["withIpWhitelistRule", (I, S) => [S.addr]], ["withQueryStringSizeRestriction", lim], ["withAWSManagedRules", () => []]];
      const orders = [every, [...every].reverse(), [...every.slice(7), ...every.slice(0, 7)], ...every.map((e) => [e]), ...every.slice(1).map((e, i) => [e, every[i]])];
      for (const o of orders) {
        const { cfg, r } = build(C, o);
        const rules = cfg?.rules ?? [];
        const isCount = (u) => !!u.action?.count;
        const pr = rules.map((u) => u.priority);
        C.ob("throws", r.throwG === 0, ACL, "a list of differently named rules is accepted", "throws");
        C.ob("count", rules.length === o.length + (o.some((x) => x[0] === "withAWSManagedRules") ? 3 : 0), ACL, `every rule asked for is in the ACL (${rules.length})`, "all");
        C.ob("priorities", new Set(pr).size === pr.length && pr.every((p) => typeof p === "number"), ACL, "rules have distinct priorities", "priorities");
        C.ob("count-first", Math.max(-1, ...rules.filter(isCount).map((u) => u.priority)) < Math.min(Infinity, ...rules.filter((u) => !isCount(u)).map((u) => u.priority)), ACL, "counting rules come before blocking ones", "count-first");
        const blocks = (f) => rules.filter((u) => !isCount(u)).sort((a, b) => a.priority - b.priority).map((u) => JSON.stringify(u.name));
        const asked = o.filter((x) => !/^withCount/.test(x[0])).length;
        C.ob("order", blocks().length === asked + (o.some((x) => x[0] === "withAWSManagedRules") ? 3 : 0), ACL, "blocking rules are kept", "order");
        C.ob("default", same(cfg?.defaultAction, { allow: {} }) && cfg?.scope === "CLOUDFRONT", ACL, "what no rule blocks is allowed, for the CloudFront scope", "default");
      }
      { const e = build(C, []); C.ob("empty", e.r.retG === 0, ACL, "an ACL without rules is refused", "empty"); }
      for (const m of ["withIpBlacklistRule", "withQueryStringSizeRestriction", "withAWSManagedRules", "withThrottleAnonymousUserIp", "withThrottleDigitrafficUserIp"]) {
        const s = every.find((x) => x[0] === m);
        C.ob("duplicates", build(C, [s, step("withCountAnonymousUserIp"), s]).r.retG === 0, ACL, `${m} twice is refused`, "duplicates");
      }
      C.ob("duplicates", build(C, [["withThrottleRule", (I, S) => [I.c("R"), S.limit, I.c(true), I.c(true), I.UNDEF]], ["withThrottleRule", (I, S) => [I.c("R"), S.limit, I.c(true), I.c(true), I.c("K")]]]).r.retG === 0, ACL, "a counting and a blocking rule of the same name are refused", "duplicates");
      { // custom bodies
        const key = "IP_THROTTLE_ANONYMOUS_USER_5";
        for (const first of [true, false]) {
          const t = ["withThrottleAnonymousUserIp", (I) => [I.c(5)]], b = ["withCustomResponseBody", (I, S) => [I.c(key), S.body]];
          const { cfg } = build(C, first ? [b, t] : [t, b]);
          C.ob("custom-body", same(cfg?.customResponseBodies?.[key], { $: "$body" }), ACL, "a response body given by the caller is the one used", "custom-body");
        }
        const { cfg } = build(C, [step("withThrottleAnonymousUserIp"), ["withCustomResponseBody", (I, S) => [I.c("A"), S.body]], ["withCustomResponseBody", (I, S) => [I.c("B"), S.body2]]]);
        C.ob("custom-body", same(cfg?.customResponseBodies?.A, { $: "$body" }) && same(cfg?.customResponseBodies?.B, { $: "$body2" }), ACL, "each response body is kept under its own key", "custom-body");
      }
      { const a = build(C, [["withIpBlacklistRule", (I, S) => [S.addr]]], "MyAcl"); C.ob("name", a.id === "MyAcl", ACL, "the ACL has the name given", "name"); }
      C.min("matches", 50); C.min("priorities", 20);
    },
  },
};
