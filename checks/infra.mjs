import { L, imp, or, alts, mentions, field, path_, constVal, method, ts, atNums, allProgram, loc, rel } from "./kit.mjs";
import { cdk, onlyClass, arg, made, calls, withProps, lit, typeNamed } from "./infra-kit.mjs";

const ASPECT = L("aws/infra/stack/stack-checking-aspect.ts");
const STACK = L("aws/infra/stack/stack.ts");

// annotations of one visit: guards under which an error / a warning about `key` is reported
function visit(C, nodeProps, opts = {}) {
  const { wl } = opts, short = "short" in opts ? opts.short : "ST";
  const I = cdk(C, { maxRec: 3 });
  const cls = I.valueOfExport(ASPECT, "StackCheckingAspect");
  let node;
  const r = I.run(() => {
    node = withProps(I, "node", undefined, { node: lit(I, { path: "App/Res", ...(nodeProps.node ?? {}) }), ...nodeProps.own(I) });
    const x = I.construct(I.single(cls), [I.c(short), wl ? lit(I, wl) : I.UNDEF], null);
    return method(I, x, "visit", [node]);
  });
  const found = (kind, key) => {
    const out = [];
    for (const e of calls(r, /(^|\.)add(Error|Warning|WarningV2|Info)$/)) {
      const isErr = /addError$/.test(e.name);
      if (isErr !== (kind === "error")) continue;
      for (const a of arg(e, /V2$/.test(e.name) ? 1 : 0).alts) if (key === undefined || I.showLeaf(a.l).includes(`/${key}`)) out.push(I.bdd.and(e.g, a.g));
    }
    return or(I, out);
  };
  const W = (g, classes) => onlyClass(I, g, classes);
  return { I, r, found, W, node };
}
const FN = ["CfnFunction"];
const okFn = { reservedConcurrentExecutions: 1, timeout: 10, memorySize: 128, functionName: "ST-Foo", runtime: undefined };
const cases = [];
const add = (key, classes, own, bad, what, extra = {}) => cases.push({ key, classes, own, bad, what, ...extra });
for (const [v, bad] of [[undefined, 1], [0, 1], [1, 0], [99, 0], [100, 0], [101, 1], [1000, 1]]) add("RESERVED_CONCURRENT_CONCURRENCY", FN, { ...okFn, reservedConcurrentExecutions: v }, bad, `reserved concurrency ${v}`);
for (const [v, bad] of [[undefined, 1], [0, 1], [1, 0], [900, 0]]) add("FUNCTION_TIMEOUT", FN, { ...okFn, timeout: v }, bad, `timeout ${v}`);
for (const [v, bad] of [[undefined, 1], [0, 1], [128, 0]]) add("FUNCTION_MEMORY_SIZE", FN, { ...okFn, memorySize: v }, bad, `memory ${v}`);
for (const [v, bad] of [["ST-Foo", 0], ["STx", 0], ["Foo-ST", 1], ["S", 1], ["st-Foo", 1], [undefined, 0]]) add("FUNCTION_NAME", FN, { ...okFn, functionName: v }, bad, `function name ${v}`);
add("FUNCTION_NAME", FN, { ...okFn, functionName: "Foo" }, 0, "no short name to compare with", { short: undefined });
add("FUNCTION_RUNTIME", FN, okFn, 0, "no runtime");
// one fault does not hide another
const badFn = { reservedConcurrentExecutions: undefined, timeout: undefined, memorySize: undefined, functionName: "Foo" }, fnKeys = { reservedConcurrentExecutions: "RESERVED_CONCURRENT_CONCURRENCY", timeout: "FUNCTION_TIMEOUT", memorySize: "FUNCTION_MEMORY_SIZE", functionName: "FUNCTION_NAME" };
for (const [p, k] of Object.entries(fnKeys)) {
  add(k, FN, { ...okFn, ...badFn }, 1, `every setting wrong, among them ${p}`);
  for (const [q] of Object.entries(fnKeys)) if (q !== p) { add(k, FN, { ...okFn, [p]: badFn[p], [q]: badFn[q] }, 1, `${p} and ${q} wrong`); add(k, FN, { ...okFn, ...badFn, [p]: okFn[p] }, 0, `every setting but ${p} wrong`); }
}
for (const n of ["RoadTest", "TestRoad", "RoadTst"]) { add("STACK_NAME", ["DigitrafficStack"], { stackName: n, configuration: { production: true } }, 1, `${n} in production`); add("STACK_NAME", ["DigitrafficStack"], { stackName: n, configuration: { production: false } }, 0, `${n} in test`); }
for (const n of ["RoadProd", "ProdRoad", "RoadPrd"]) { add("STACK_NAME", ["DigitrafficStack"], { stackName: n, configuration: { production: false } }, 1, `${n} not in production`); add("STACK_NAME", ["DigitrafficStack"], { stackName: n, configuration: { production: true } }, 0, `${n} in production`); }
const pab = ["blockPublicAcls", "blockPublicPolicy", "ignorePublicAcls", "restrictPublicBuckets"];
const allOn = Object.fromEntries(pab.map((k) => [k, true]));
add("BUCKET_PUBLICITY", ["CfnBucket"], { publicAccessBlockConfiguration: allOn }, 0, "all public access blocked");
for (const k of pab) for (const v of [false, undefined]) add("BUCKET_PUBLICITY", ["CfnBucket"], { publicAccessBlockConfiguration: { ...allOn, [k]: v } }, 1, `${k} ${v}`);
for (const [v, bad] of [["alias/aws/sqs", 0], [undefined, 1], ["", 1]]) add("QUEUE_ENCRYPTION", ["CfnQueue"], { kmsMasterKeyId: v }, bad, `queue key ${v}`);
for (const [v, bad] of [[30, 0], [365, 0], [undefined, 1]]) add("LOG_GROUP_RETENTION", ["LogRetention"], {}, bad, `retention ${v}`, { node: { defaultChild: { _cfnProperties: v === undefined ? {} : { RetentionInDays: v } } } });
for (const [v, bad] of [["foo-bar", 0], ["foo", 0], ["fooBar", 1], ["foo_bar", 1], ["Foo", 1], ["foo.json", 0], ["fooBar.json", 1], ["foo{id}", 0], ["fooB{id}", 1]]) add("RESOURCE_PATH", ["CfnResource"], { pathPart: v }, bad, `path ${v}`, { warning: true });
for (const [q, bad] of [["foo_bar", 0], ["foo", 0], ["fooBar", 1], ["foo-bar", 1], ["Foo", 1], ["FOO", 1]]) for (const t of ["querystring", "path", "header"]) add(q, ["CfnMethod"], { integration: { requestParameters: { "integration.request.path.plain": "x", [`integration.request.${t}.${q}`]: `method.request.${t}.${q}` } } }, t === "querystring" ? bad : 0, `${t} parameter ${q}`);

for (const q of ["oneBad", "twoBad"]) add(q, ["CfnMethod"], { integration: { requestParameters: { "integration.request.querystring.oneBad": "x", "integration.request.querystring.fine": "x", "integration.request.querystring.twoBad": "x" } } }, 1, `two badly named parameters, among them ${q}`);

export const infra = {
  I01: {
    explain: "The stack check is evaluated on a node of each checked kind, with each checked property at and around its limit, without a whitelist, with one that names the finding and with one that names another.",
    run(C) {
      for (const c of cases) {
        const own = (I) => Object.fromEntries(Object.entries(c.own).map(([k, v]) => [k, lit(I, v)]));
        const short = "short" in c ? c.short : "ST";
        const go = (wl) => visit(C, { own, node: c.node }, { short, wl });
        { const { I, W, found, r } = go(undefined);
          const bad = W(found(c.warning ? "warning" : "error", c.key), c.classes);
          C.ob("verdict", bad === (c.bad ? 1 : 0), ASPECT, `${c.classes[0]} with ${c.what} is ${c.bad ? "reported" : "accepted"}`, `${c.key}`);
          C.ob("no-throw", W(r.throwG, c.classes) === 0, ASPECT, `${c.classes[0]} with ${c.what} does not break the check`, "throw");
          const others = W(found("error"), []);
          C.ob("other-nodes", others === 0, ASPECT, "other constructs are not reported", "others");
          for (const e of calls(r, /Annotations\.of$/)) C.ob("target", alts(I, arg(e, 0), e.g).every((a) => I.showLeaf(a.l) === "$node"), e.at, "the finding is attached to the checked construct", "target");
        }
        if (!c.bad) continue;
        for (const [wl, hit] of [[[], 0], [["Other/RES"], 0], [[`^App/Res/${c.key}$`], 1], [["Other", `Res/${c.key}`], 1]]) {
          const { W, found } = go(wl);
          const e = W(found("error", c.key), c.classes), w = W(found("warning", c.key), c.classes);
          const want = c.warning ? [0, hit ? 0 : 1] : hit ? [0, 1] : [1, 0];
          C.ob("whitelist", e === want[0] && w === want[1], ASPECT, `${c.classes[0]} with ${c.what} ${hit ? "whitelisted" : "not whitelisted"} is ${want[0] ? "an error" : want[1] ? "a warning" : "silent"}`, "whitelist");
        }
      }
      { // supported runtimes
        const { I, W, found } = visit(C, { own: (I) => ({ ...Object.fromEntries(Object.entries(okFn).map(([k, v]) => [k, lit(I, v)])), runtime: I.input("runtime", I.checker.getStringType()) }) });
        const bad = W(found("error", "FUNCTION_RUNTIME"), FN);
        const ks = I.atoms.map((a, v) => [a, v]).filter(([a]) => a?.kind === "eq" && I.showLeaf(a.l) === "$runtime" && a.k.t !== "c");
        const name = (a) => I.showLeaf(a.k).match(/Runtime\.([A-Z0-9_]+)/)?.[1] ?? "";
        const okNames = [];
        for (const [a, v] of ks) { const g = I.bdd.assign(bad, (x) => (I.atoms[x]?.kind === "eq" && I.showLeaf(I.atoms[x].l) === "$runtime" ? (x === v ? 1 : 0) : undefined)); if (g === 0) okNames.push(name(a)); }
        const sup = (n) => { const m = n.match(/^NODEJS_(\d+)_X$/), p = n.match(/^PYTHON_3_(\d+)$/); return m ? +m[1] >= 22 : p ? +p[1] >= 12 : false; };
        C.ob("runtimes", okNames.length > 0 && okNames.every(sup), ASPECT, `only supported runtimes are accepted (${okNames.join(", ")})`, "runtimes");
        for (const n of ["NODEJS_24_X", "NODEJS_22_X", "PYTHON_3_12", "PYTHON_3_13"]) C.ob("runtimes", okNames.includes(n), ASPECT, `${n} is accepted`, "runtimes");
        for (const wl of [[], ["x"], ["Res/FUNCTION_RUNTIME"]]) {
          const v = visit(C, { own: (J) => ({ ...Object.fromEntries(Object.entries(okFn).map(([k, x]) => [k, lit(J, x)])), runtime: J.input("runtime", J.checker.getStringType()) }) }, { wl });
          const none = (g) => v.I.bdd.assign(v.W(g, FN), (x) => (v.I.atoms[x]?.kind === "eq" && v.I.showLeaf(v.I.atoms[x].l) === "$runtime" ? 0 : undefined));
          const hit = wl[0] === "Res/FUNCTION_RUNTIME" ? 1 : 0;
          C.ob("whitelist", none(v.found("error", "FUNCTION_RUNTIME")) === 1 - hit && none(v.found("warning", "FUNCTION_RUNTIME")) === hit, ASPECT, `an unsupported runtime ${hit ? "whitelisted is a warning" : "not whitelisted is an error"}`, "whitelist");
        }
        C.ob("runtimes", I.bdd.assign(bad, (x) => (I.atoms[x]?.kind === "eq" && I.showLeaf(I.atoms[x].l) === "$runtime" ? 0 : undefined)) === 1, ASPECT, "any other runtime is reported", "runtimes");
      }
      { // solution tag
        const { I, W, found, r } = visit(C, { own: (I) => ({}) });
        const bad = W(found("error", "TAG_SOLUTION"), ["Stack"]);
        const tagged = (v) => I.bdd.assign(bad, (x) => { const a = I.atoms[x]; return a?.kind === "eq" && /\.Solution$/.test(I.showLeaf(a.l)) ? (a.k.v === v ? 1 : 0) : undefined; });
        C.ob("tag", tagged(undefined) === 1 && tagged("") === 1 && tagged("x") === 0, ASPECT, "a stack without the solution tag is reported", "tag");
      }
      // attached to every stack
      {
        const I = cdk(C);
        const cls = I.valueOfExport(STACK, "DigitrafficStack");
        const conf = I.input("conf", typeNamed(I, STACK, "StackConfiguration"));
        const r = I.run(() => I.construct(I.single(cls), [I.input("scope"), I.c("id"), conf], null));
        const adds = calls(r, /(^|\.)add$/).filter((e) => e.recv && mentions(I, e.recv, (l) => l.t === "s" && l.op === "res" && /Aspects\.of$/.test(l.ev?.name ?? ""), {}));
        const good = adds.filter((e) => alts(I, arg(e, 0), e.g).every((a) => a.l.t === "o" && a.l.rec.cls?.name?.text === "StackCheckingAspect"));
        C.ob("attached", good.length > 0 && imp(I, r.retG, or(I, good.map((e) => e.g))), STACK, "every stack gets the check", "attached");
        for (const e of good) {
          const ofs = calls(r, /Aspects\.of$/);
          C.ob("attached-to", ofs.length > 0 && ofs.every((o) => alts(I, arg(o, 0), o.g).every((a) => a.l.t === "o" && a.l.rec.cls?.name?.text === "DigitrafficStack")), e.at, "the check covers the stack itself", "attached");
          const ins = arg(e, 0).alts[0].l.rec;
          const has = (n) => [...(ins.props?.values() ?? [])].some((p) => p.v.alts.every((a) => I.showLeaf(a.l) === `$conf.${n}`));
          C.ob("configured", has("shortName") && has("whitelistedResources"), e.at, "the check uses the stack's short name and whitelist", "configured");
        }
        // no stack replaces the attaching method
        const prog = allProgram();
        let n = 0;
        for (const sf of prog.program.getSourceFiles()) {
          if (sf.isDeclarationFile || /node_modules/.test(sf.fileName)) continue;
          const walk = (x) => {
            if (ts.isClassDeclaration(x) && x.heritageClauses?.some((h) => h.types.some((t) => /DigitrafficStack$/.test(t.expression.getText())))) {
              n++;
              const o = x.members.find((m) => m.name?.text === "addAspects");
              C.ob("not-overridden", !o || /super\.addAspects/.test(o.getText()), x.name ? `${loc(x)} ${x.name.text}` : loc(x), "the stack does not opt out of the check", "override");
            }
            ts.forEachChild(x, walk);
          };
          walk(sf);
        }
        C.min("not-overridden", 10);
      }
      C.min("verdict", 60); C.min("whitelist", 100);
    },
  },
};
