import path from "node:path";
import { L, imp, or, alts, constVal, method, field, path_, mentions, ts, LIB, libProgram, calm, REPO } from "./kit.mjs";
import { cdk, stackInput, withProps, lit, made, calls, arg, items, tree, contains, showsAs, isResult, evalNum, ALARM_OPS, enumName, members, typeNamed } from "./infra-kit.mjs";

const Q = L("aws/infra/sqs-queue.ts"), QI = L("aws/infra/sqs-queue-internal.ts"), SI = L("aws/infra/sqs-integration.ts");
const P = (I, v, k) => field(I, v, k).v;
const TOKEN = "${Token[TOKEN.123]}"; // what a bucket's name looks like when the template is made

// JavaScript text of a function as its toString() gives it
const jsText = (node) => {
  const t = ts.transpileModule(ts.isFunctionDeclaration(node) || ts.isClassDeclaration(node) ? node.getText().replace(/^export\s+/, "") : `(${node.getText()})`, { compilerOptions: { target: ts.ScriptTarget.ES2024, module: ts.ModuleKind.ESNext, removeComments: false } }).outputText.trim();
  return ts.isFunctionDeclaration(node) || ts.isClassDeclaration(node) ? t : t.replace(/^\(/, "").replace(/\);?$/, "");
};
// text of a string value; unknown leaves are given by `leafText`
export function textOf(I, v, leafText, fnText = jsText) {
  const l = v?.alts ? (v.alts.length === 1 ? v.alts[0].l : undefined) : v;
  if (!l) return undefined;
  if (l.t === "c") return String(l.v);
  const x = leafText(l);
  if (x !== undefined) return x;
  const T = (a) => textOf(I, a, leafText, fnText);
  if (l.op === "ext:toString" || (l.op === "res" && l.ev.name === "toString")) return T(l.args?.[0] ?? (l.ev.recv.alts ? l.ev.recv : I.one(l.ev.recv)));
  if (l.t === "f" && l.node) return fnText(l.node);
  if (l.op === "cat" || l.op === "concat" || l.op === "tpl") { const ps = (l.parts ?? l.args).map((p) => (typeof p === "string" ? p : T(p))); return ps.includes(undefined) ? undefined : ps.join(""); }
  if (/^str\.(replace|replaceAll)$/.test(l.op)) { const [s, a, b] = l.args.map(T); return [s, a, b].includes(undefined) ? undefined : l.op === "str.replace" ? s.replace(a, b) : s.replaceAll(a, b); }
  if (l.op === "str.trim") { const s = T(l.args[0]); return s?.trim(); }
  return undefined;
}
// What is known of the characters of a string: which may occur, the greatest length, whether "-" never repeats, never starts, never ends.
const UNIVERSE = [...Array(128).keys()].map((c) => String.fromCharCode(c)).concat(["\u00e9", "\u4e2d", "\ud83d", "\u0130"]);
const TOP = { cs: new Set(UNIVERSE), max: Infinity, nd: false, s: false, e: false };
export function shape(I, v, g, d = 0) {
  const l = v?.alts ? (v.alts.length === 1 ? v.alts[0].l : undefined) : v;
  if (!l || d > 40) return TOP;
  const S = (a) => { const as = a.alts ?? [{ l: a, g: 1 }]; return joinShapes(as.filter((x) => I.bdd.and(x.g, g) !== 0).map((x) => shape(I, x.l, I.bdd.and(g, x.g), d + 1))); };
  const known = (sh) => { // lengths tested on the path
    let max = sh.max;
    I.atoms.forEach((a, i) => { if (a?.kind !== "lt" || a.norm?.length !== 1) return; const [x, c] = a.norm[0]; if (!I.isInt(x) || (x.args[0].alts ? (x.args[0].alts.length === 1 ? x.args[0].alts[0].l : null) : x.args[0]) !== l) return; const n = I.bdd.node(i, 0, 1); if (c === 1 && I.bdd.implies(g, n)) max = Math.min(max, Math.ceil(a.k) - 1); if (c === -1 && I.bdd.implies(g, I.bdd.not(n))) max = Math.min(max, Math.floor(-a.k)); });
    return sh.cs.has("-") ? { ...sh, max } : { ...sh, max, nd: true, s: true, e: true };
  };
  if (l.t === "c" && typeof l.v === "string") return { cs: new Set(l.v), max: l.v.length, nd: !/--/.test(l.v), s: !/^-/.test(l.v), e: !/-$/.test(l.v), empty: l.v === "" };
  if (l.t !== "s") return TOP;
  const k = (i) => { const a = l.args[i]; const x = a?.alts ? (a.alts.length === 1 ? a.alts[0].l : undefined) : a; return x?.t === "c" ? x.v : undefined; };
  if (l.op === "str.toLowerCase" || l.op === "str.toLocaleLowerCase") { const x = S(l.args[0]); return known({ ...x, cs: new Set([...x.cs].flatMap((c) => [...c.toLowerCase()].map((y) => (UNIVERSE.includes(y) ? y : "\u00e9")))), max: Infinity }); }
  if (l.op === "str.substring" || l.op === "str.slice" || l.op === "str.substr") { const x = S(l.args[0]); const a = k(1), b = k(2); if (a !== 0 || typeof b !== "number" || b < 0) return { ...x, s: false, e: false, max: x.max }; return known({ ...x, max: Math.min(x.max, b), e: false }); }
  if (l.op === "str.trim") return known(S(l.args[0]));
  if (l.op === "ext:digest" && k(1) === "hex") return known({ cs: new Set("0123456789abcdef"), max: Infinity, nd: true, s: true, e: true });
  if (l.op === "str.replace" || l.op === "str.replaceAll") {
    const x = S(l.args[0]), rl = l.args[1]?.alts ? l.args[1].alts[0].l : l.args[1], rep = k(2);
    if (rl?.op !== "regex" || typeof rep !== "string" || /\$/.test(rep)) return TOP;
    const [src, fl = ""] = rl.args.map(String);
    const all = fl.includes("g") || l.op === "str.replaceAll";
    const cls = /^(\[\^?(?:\\.|[^\]\\])+\]|\\?[-\w])(\+?)$/.exec(src);
    if (cls) {
      const re = new RegExp(`^${cls[1]}$`, fl.replace(/[gy]/g, ""));
      const hit = new Set([...x.cs].filter((c) => re.test(c)));
      const out = new Set([...x.cs].filter((c) => !hit.has(c) || !all));
      if (hit.size) for (const c of rep) out.add(c);
      const dash = re.test("-");
      return known({ cs: out, max: rep.length <= 1 ? x.max : Infinity, nd: !hit.size ? x.nd : all && dash && !!cls[2] && /^-?$/.test(rep) && rep === "-" ? true : x.nd && !/-/.test(rep) && !(rep === "" ), s: x.s && !(hit.size && /^-/.test(rep)) && rep !== "", e: x.e && !(hit.size && /-$/.test(rep)) && rep !== "" });
    }
    if (/^-\{2,\}$/.test(src) && all && rep === "-") return known({ ...x, nd: true });
    const parts = src.split("|");
    if (rep === "" && parts.every((p) => /^\^-\+?$|^-\+?\$$/.test(p)) && (parts.length === 1 || all)) {
      const st = parts.find((p) => p.startsWith("^")), en = parts.find((p) => p.endsWith("$"));
      return known({ ...x, s: x.s || (!!st && (x.nd || st.includes("+"))), e: x.e || (!!en && (x.nd || en.includes("+"))) });
    }
    return TOP;
  }
  if (l.op === "concat") {
    const xs = l.args.map((a) => (typeof a === "string" ? shape(I, I.cl(a), g, d + 1) : S(a)));
    const cs = new Set(xs.flatMap((x) => [...x.cs])), max = xs.reduce((a, x) => a + x.max, 0);
    return known({ cs, max, nd: false, s: xs[0].s && !xs[0].empty, e: xs.at(-1).e && !xs.at(-1).empty });
  }
  return TOP;
}
const joinShapes = (xs) => (xs.length ? xs.reduce((a, b) => ({ cs: new Set([...a.cs, ...b.cs]), max: Math.max(a.max, b.max), nd: a.nd && b.nd, s: a.s && b.s, e: a.e && b.e, empty: a.empty && b.empty })) : TOP);

// The deployed program of the dead-letter lambda, as its own compilation unit
function dlqProgram(code, typed) {
  const sf = ts.createSourceFile("x.js", code, ts.ScriptTarget.ES2024, true, ts.ScriptKind.JS);
  let rhs;
  const visit = (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && /^(module\.)?exports\.handler$/.test(n.left.getText())) rhs = n.right.getText(); ts.forEachChild(n, visit); };
  visit(sf);
  const abs = path.join(LIB, "src", "__dlq.ts");
  // evaluated with the types of the functions it is made of, closed without them
  const absTyped = path.join(LIB, "src", "__dlq_typed.ts");
  const imports = typed.replace(/^(?:const|let|var)\s*(\{[^}]*\})\s*=\s*require\(("[^"]+"|'[^']+')\);?/gm, "import $1 from $2;");
  const prog = libProgram({ [abs]: `${code}\nexport const __entry = (${rhs});\n`, [absTyped]: `${imports}\nexport const __entry = (${rhs});\n` });
  const free = prog.program.getSemanticDiagnostics(prog.program.getSourceFile(abs)).filter((d) => [2304, 2552, 2503, 2451, 2300].includes(d.code)).map((d) => ts.flattenDiagnosticMessageText(d.messageText, " "));
  return { prog, rhs, syntax: sf.parseDiagnostics ?? [], free, file: path.relative(REPO, absTyped) };
}
const seconds = (I, v) => { const m = /Duration\.(seconds|minutes|millis)\(.*?(\d+)\)$/.exec(I.show(v)); return m ? Number(m[2]) * { seconds: 1, minutes: 60, millis: 0.001 }[m[1]] : undefined; };
const isQueue = /aws-sqs#Queue$/;
const self = (v, e) => (v?.alts ?? []).some((a) => a.l === e.self || a.l.rec === e.self?.rec || (a.l.t === "o" && a.l === e.self));

export const queues = {
  I04: {
    explain: "Queue and dead-letter construction is evaluated with symbolic settings; the program text handed to the dead-letter lambda is rebuilt as a constant, resolved as its own compilation unit and evaluated on one to three records; bucket names are decided in a character-class and length domain; the queue integration's request is parsed.",
    run(C) {
      made_(C); dlq(C); deployed(C); names(C); integration(C);
      C.min("encrypted", 6); C.min("written", 3); C.min("bucket-name", 2); C.min("own-queue", 2);
    },
  },
};
const make = (C, how, props) => {
  const I = cdk(C);
  const st = stackInput(I);
  const r = I.run(() => method(I, I.valueOfExport(Q, "DigitrafficSqsQueue"), how, [st, I.c("things"), lit(I, props(I))]));
  const qs = made(r, isQueue);
  return { I, r, qs, q: qs.find((e) => self(r.value, e)) };
};
const REST = ["contentBasedDeduplication", "dataKeyReuse", "deduplicationScope", "deliveryDelay", "enforceSSL", "fifoThroughputLimit", "maxMessageSizeBytes", "receiveMessageWaitTime", "redriveAllowPolicy", "removalPolicy"];
function made_(C) {
  for (const how of ["create", "createFifo"]) for (const own of [false, true]) for (const enc of [false, true, "all"]) {
    const nm = `${how}${own ? " with its own dead-letter queue" : ""}${enc ? " asking for another encryption" : ""}${enc === "all" ? " and every other setting" : ""}`;
    const { I, r, qs, q } = make(C, how, (J) => ({ visibilityTimeout: J.input("vt"), retentionPeriod: J.input("rp"), fifo: J.input("fifo"), ...(own ? { deadLetterQueue: J.input("dlq", undefined) } : {}), ...(enc === "all" ? Object.fromEntries(REST.map((k) => [k, J.input(k)])) : {}), ...(enc ? { encryption: J.input("enc"), queueName: "Other" } : {}) }));
    C.ob("queue-made", !!q && imp(I, r.retG, q.g), Q, `${nm}: the queue is created and returned`, nm);
    if (!q) continue;
    const p = arg(q, 2);
    C.ob("encrypted", enumName(I, P(I, p, "encryption")) === "KMS_MANAGED" && qs.every((e) => enumName(I, P(I, arg(e, 2), "encryption")) === "KMS_MANAGED"), q.at, `${nm}: every queue created is encrypted`, nm);
    C.ob("named", constVal(I, P(I, p, "queueName")) === `ST-things-Queue${how === "createFifo" ? ".fifo" : ""}` && showsAs(I, arg(q, 0), "$stack") === 1, q.at, `${nm}: the queue is named by the stack and its own name`, nm);
    for (const [k, t] of [["visibilityTimeout", "$vt"], ["retentionPeriod", "$rp"], ["fifo", "$fifo"], ...(enc === "all" ? REST.map((k) => [k, `$${k}`]) : [])]) C.ob("settings", showsAs(I, P(I, p, k), t) === 1, q.at, `${nm}: ${k} is the one given`, nm);
    const d = P(I, p, "deadLetterQueue");
    const given = own ? I.bdd.not(I.nullish(I.input("dlq"))) : 0;
    if (own) C.ob("own-dlq", imp(I, I.bdd.and(r.retG, given), showsAs(I, d, "$dlq")), q.at, `${nm}: the dead-letter queue given is used`, nm);
    const rest = qs.filter((e) => e !== q);
    if (how === "create") {
      C.ob("dlq-made", rest.length === 1 && imp(I, I.bdd.and(r.retG, I.bdd.not(given)), rest[0].g) && I.bdd.and(rest[0].g, given) === 0, q.at, `${nm}: a dead-letter queue is created exactly when none is given`, nm);
      const mine = alts(I, d, I.bdd.not(given)).map((a) => I.one(a.l));
      C.ob("dlq-used", rest.length === 1 && mine.length > 0 && mine.every((x) => self(P(I, x, "queue"), rest[0]) && constVal(I, P(I, x, "maxReceiveCount")) >= 1 && constVal(I, P(I, x, "maxReceiveCount")) <= 10), q.at, `${nm}: a message failing a few times moves to the dead-letter queue created`, nm);
    } else C.ob("dlq-made", rest.length === 0, q.at, `${nm}: no other queue is created`, nm);
  }
}
function dlq(C) {
  const I = cdk(C);
  const st = stackInput(I);
  const r = I.run(() => method(I, I.valueOfExport(Q, "DigitrafficDLQueue"), "create", [st, I.c("things")]));
  const q = made(r, isQueue)[0], b = made(r, /aws-s3#Bucket$/)[0], f = made(r, /aws-lambda#Function$/)[0];
  C.ob("dlq-parts", [q, b, f].every((e) => e && e.g === 1) && self(r.value, q), Q, "a dead-letter queue comes with a bucket and a function", "dlq");
  if (!q || !b || !f) return;
  C.ob("dlq-private", enumName(I, P(I, arg(b, 2), "blockPublicAccess")) === "BLOCK_ALL" && [undefined, false].includes(constVal(I, P(I, arg(b, 2), "publicReadAccess"))), b.at, "the bucket admits no public access", "dlq");
  const fp = arg(f, 2);
  C.ob("dlq-serial", constVal(I, P(I, fp, "reservedConcurrentExecutions")) === 1, f.at, "batches are written one at a time, so their object names differ", "dlq");
  C.ob("dlq-handler", constVal(I, P(I, fp, "handler")) === "index.handler", f.at, "the handler is the embedded program's", "dlq");
  const vt = seconds(I, P(I, arg(q, 2), "visibilityTimeout")), to = seconds(I, P(I, fp, "timeout"));
  C.ob("dlq-visibility", to > 0 && vt >= to, q.at, `a message stays invisible (${vt} s) as long as the function may run (${to} s)`, "dlq");
  const code = made(r, /InlineCode$/).find((e) => isResult(I, P(I, fp, "code"), e) === 1);
  C.ob("dlq-code", !!code && mentions(I, arg(code, 0), (l) => I.showLeaf(l).endsWith("bucketName") && (mentions(I, I.one(l), (x) => x.t === "s" && x.op === "res" && x.ev === b))), f.at, "the embedded program is given the name of that bucket", "dlq");
  const sts = made(r, /PolicyStatement$/);
  const added = calls(r, /addToRolePolicy$/);
  const of = (s, re, key) => calls(r, re).filter((e) => isResult(I, e.recv, s) === 1).flatMap((e) => e.args.map((_, i) => arg(e, i))).concat(s.args.length ? items(I, P(I, arg(s, 0), key)).map((x) => x.v) : []);
  const acts = sts.flatMap((s) => of(s, /addActions$/, "actions").map((v) => constVal(I, v))), res = sts.flatMap((s) => of(s, /addResources$/, "resources").map((v) => I.show(v)));
  C.ob("dlq-rights", acts.includes("s3:PutObject") && acts.every((a) => ["s3:PutObject", "s3:PutObjectAcl"].includes(a)) && res.length === 1 && /^`\$\{res\(aws-cdk-lib\/aws-s3#Bucket@.*\)\.bucketArn\}\/\*`$/.test(res[0]) && added.every((e) => self(e.recv, f)) && sts.every((s) => added.some((e) => isResult(I, arg(e, 0), s) === 1 && e.g === 1)), f.at, `the function may write objects of that bucket and nothing else (${acts})`, "dlq");
  const src = made(r, /SqsEventSource$/)[0], on = calls(r, /addEventSource$/)[0];
  C.ob("dlq-source", !!src && !!on && self(arg(src, 0), q) && isResult(I, arg(on, 0), src) === 1 && on.g === 1 && self(on.recv, f) && (src.args.length < 2 || !/filters|enabled/.test(I.show(arg(src, 1)))), f.at, "every message of the dead-letter queue is handed to that function", "dlq");
  const al = calls(r, /createAlarm$/).filter((e) => { const m = e.recv?.alts ? e.recv.alts[0].l : e.recv; return m?.ev?.name === "metricNumberOfMessagesReceived" && self(m.ev.recv, q) || /MessagesVisible/.test(m?.ev?.name ?? ""); });
  C.ob("dlq-alarm", al.length === 1 && al[0].g === 1, q.at, "messages in the dead-letter queue are watched", "dlq");
  if (al.length === 1) {
    const p = arg(al[0], 2), op = ALARM_OPS[enumName(I, P(I, p, "comparisonOperator"))], thr = constVal(I, P(I, p, "threshold"));
    C.ob("dlq-alarm-fires", !!op && op(1, thr) && !op(0, thr) && constVal(I, P(I, p, "evaluationPeriods")) === 1 && [undefined, 1].includes(constVal(I, P(I, p, "datapointsToAlarm"))), al[0].at, "one message fires the alarm, none does not", "dlq");
    C.ob("dlq-alarm-quiet", enumName(I, P(I, p, "treatMissingData")) !== "BREACHING", al[0].at, "an idle queue does not fire the alarm", "dlq");
    const sns = made(r, /SnsAction$/);
    C.ob("dlq-alarm-topic", calls(r, /addAlarmAction$/).some((a) => isResult(I, a.recv, al[0]) === 1 && a.g === 1 && sns.some((s) => isResult(I, arg(a, 0), s) === 1 && /\$stack\.(warning|alarm)Topic/.test(I.show(arg(s, 0))))), al[0].at, "the alarm is sent to the stack's topic", "dlq");
  }
}
function deployed(C) {
  const I = cdk(C);
  const r = I.run(() => I.call(I.valueOfExport(QI, "getDlqCode"), I.UNDEF, [I.input("bucket", I.checker.getStringType())]));
  const e = made(r, /InlineCode$/)[0];
  const code = e && textOf(I, arg(e, 0), (l) => (I.showLeaf(l) === "$bucket" ? TOKEN : undefined));
  C.ob("program-text", typeof code === "string" && imp(I, r.retG, e.g), QI, "the embedded program's text is known", "deployed");
  if (typeof code !== "string") return;
  const p = dlqProgram(code, textOf(I, arg(e, 0), (l) => (I.showLeaf(l) === "$bucket" ? TOKEN : undefined), (n) => n.getText()));
  C.ob("program-valid", p.syntax.length === 0 && !!p.rhs && !/__\w+__/.test(code), e.at, "the embedded program parses, has a handler and no placeholder left", "deployed");
  C.ob("program-closed", p.free.length === 0, e.at, `every name the embedded program uses is defined in it${p.free.length ? `: ${p.free[0]}` : ""}`, "deployed");
  C.ob("program-size", code.length <= 4096, e.at, `the embedded program (${code.length} characters) fits an inline function`, "deployed");
  if (!p.rhs) return;
  for (const n of [1, 2, 3]) {
    const J = C.interp({ noThrow: (x) => x.name !== "send" }, p.prog);
    const q = (() => { const rec = (i) => lit(J, { body: J.input(`body${i}`), messageId: J.input(`id${i}`) }); return J.runFn(J.valueOfExport(p.file, "__entry"), [lit(J, { Records: [...Array(n).keys()].map(rec) })]); })();
    const b = J.bdd;
    const sends = q.events.filter((x) => x.name === "send"), news = q.events.filter((x) => x.kind === "new");
    const cmd = (x) => news.find((y) => isResult(J, arg(x, 0), y) === 1);
    C.ob("send-own-bucket", sends.length >= n && sends.every((x) => cmd(x) && constVal(J, P(J, arg(cmd(x), 0), "Bucket")) === TOKEN), e.at, `${n} records: objects are written to the queue's own bucket`, `${n}`);
    const keys = [];
    for (let i = 0; i < n; i++) {
      const mine = sends.filter((x) => cmd(x) && showsAs(J, P(J, arg(cmd(x), 0), "Body"), `$body${i}`) === 1);
      C.ob("written", mine.length === 1 && mine[0].g === 1, e.at, `${n} records: the body of record ${i + 1} is written, once, whatever happens to the others`, `${n}`);
      for (const x of mine) {
        keys.push(J.show(P(J, arg(cmd(x), 0), "Key")));
        C.ob("settled", !!x.promise && imp(J, b.and(x.g, q.retG), J.waited(x.promise)), e.at, `${n} records: the batch does not succeed before record ${i + 1} is written`, `${n}`);
        C.ob("failure-reported", b.and(b.and(x.g, x.T ?? 0), q.retG) === 0, e.at, `${n} records: when record ${i + 1} cannot be written the batch fails, so it is delivered again`, `${n}`);
      }
    }
    C.ob("distinct-objects", new Set(keys).size === n, e.at, `${n} records: each record has an object of its own`, `${n}`);
    C.ob("later-objects", keys.every((k) => /\bnow\(|random|uuid|\$id/i.test(k)), e.at, `${n} records: a later batch does not overwrite an earlier one`, `${n}`);
    const fails = or(J, sends.map((x) => x.T ?? 0));
    C.ob("success", sends.length && b.and(q.throwG, b.not(fails)) === 0, e.at, `${n} records: the batch succeeds when all are written`, `${n}`);
  }
}
function names(C) {
  const I = cdk(C);
  const r = I.run(() => I.call(I.valueOfExport(QI, "sanitizeS3BucketName"), I.UNDEF, [I.input("name", I.checker.getStringType())]));
  C.ob("bucket-name-total", r.throwG === 0 && r.retG === 1, QI, "every name has a bucket name", "name");
  for (const a of alts(I, r.value, r.retG)) {
    const s = shape(I, a.l, a.g);
    const bad = [...s.cs].filter((c) => !/[a-z0-9-]/.test(c));
    C.ob("bucket-name", bad.length === 0 && s.max <= 63 && s.s && s.e, QI, `a bucket name has allowed characters only, at most 63 and no hyphen at either end (${bad.slice(0, 3).join("")} ${s.max} ${s.s} ${s.e}): ${I.showLeaf(a.l).slice(0, 60)}`, "name");
    // a shortened name still depends on the whole name
    const cut = mentions(I, I.one(a.l), (l) => l.t === "s" && /^str\.(substring|slice|substr)$/.test(l.op) && !/digest/.test(I.showLeaf(l)));
    C.ob("bucket-name-distinct", !cut || mentions(I, I.one(a.l), (l) => l.t === "s" && l.op === "ext:digest" && /^ext:digest\(ext:update\(ext:node:crypto#createHash\("sha(256|512|1)"\), \$name\)/.test(I.showLeaf(l))), QI, "a shortened name carries a digest of the whole name", "name");
  }
}
function integration(C) {
  for (const fifo of [false, true]) for (const models of [false, true]) {
    const I = cdk(C);
    const qty = (() => { const sf = I.prog.getSourceFiles().find((s) => /aws-sqs\/lib\/queue\.d\.ts$/.test(s.fileName)); return sf && I.checker.getDeclaredTypeOfSymbol(I.checker.getExportsOfModule(I.checker.getSymbolAtLocation(sf)).find((x) => x.name === "Queue")); })();
    const q = withProps(I, "queue", qty, { fifo: I.c(fifo) });
    const r = I.run(() => I.call(I.valueOfExport(SI, "attachQueueToApiGatewayResource"), I.UNDEF, [I.input("stack"), q, I.input("resource"), I.input("validator"), I.c("Res"), I.input("key"), ...(models ? [I.input("models")] : [])]));
    const nm = fifo ? "a FIFO queue" : "a queue";
    const role = made(r, /aws-iam#Role$/)[0], ai = made(r, /AwsIntegration$/)[0], m = calls(r, /addMethod$/)[0];
    C.ob("integration-parts", [role, ai, m].every((e) => e && e.g === 1) && r.throwG === 0, SI, `${nm}: a role, an integration and a method are created`, nm);
    if (!role || !ai || !m) continue;
    const svc = made(r, /ServicePrincipal$/).find((e) => isResult(I, P(I, arg(role, 1) && arg(role, 2), "assumedBy"), e) === 1);
    C.ob("own-role", !!svc && constVal(I, arg(svc, 0)) === "apigateway.amazonaws.com", role.at, `${nm}: only the API gateway may use the role`, nm);
    const sts = made(r, /PolicyStatement$/);
    const sq = sts.map((s) => tree(I, arg(s, 0))).filter((t) => (t.actions ?? []).some((x) => !/^logs:/.test(x)));
    C.ob("own-queue", sq.length === 1 && JSON.stringify(sq[0].actions) === '["sqs:SendMessage"]' && sq[0].resources.length === 1 && sq[0].resources[0]?.$ === "$queue.queueArn", role.at, `${nm}: besides logging the role may only send messages to that queue`, nm);
    C.ob("role-gets", sts.every((s) => calls(r, /addToPolicy$|addToPrincipalPolicy$/).some((e) => e.g === 1 && isResult(I, e.recv, role) === 1 && isResult(I, arg(e, 0), s) === 1)), role.at, `${nm}: the rights are given to that role`, nm);
    const props = arg(ai, 0), o = P(I, props, "options");
    C.ob("integration-role", isResult(I, P(I, o, "credentialsRole"), role) === 1, ai.at, `${nm}: the integration uses that role`, nm);
    C.ob("integration-target", constVal(I, P(I, props, "service")) === "sqs" && constVal(I, P(I, props, "integrationHttpMethod")) === "POST" && /\/\$\{\$queue\.queueName\}`$/.test(I.show(P(I, props, "path"))) && /ACCOUNT_ID/.test(I.show(P(I, props, "path"))), ai.at, `${nm}: requests go to that queue`, nm);
    const t = tree(I, P(I, o, "requestTemplates")) ?? {};
    const body = t["application/json"];
    const form = typeof body === "string" ? body.split("&").map((x) => [x.slice(0, x.indexOf("=")), x.slice(x.indexOf("=") + 1)]) : [];
    const get = (k) => form.filter((x) => x[0] === k).map((x) => x[1]);
    C.ob("integration-body", Object.keys(t).length === 1 && get("Action").join() === "SendMessage" && get("MessageBody").join() === "$util.urlEncode($input.body)" && (fifo ? get("MessageGroupId").length === 1 && get("MessageGroupId")[0].length > 0 && form.length === 3 : form.length === 2), ai.at, `${nm}: the whole request body, encoded, is the message`, nm);
    C.ob("integration-type", enumName(I, P(I, o, "passthroughBehavior")) === "NEVER" && constVal(I, P(I, P(I, o, "requestParameters"), "integration.request.header.Content-Type")) === "'application/x-www-form-urlencoded'", ai.at, `${nm}: any other content type is refused, the message is sent as a form`, nm);
    const rs = items(I, P(I, o, "integrationResponses")).map((x) => ({ status: constVal(I, P(I, x.v, "statusCode")), pat: constVal(I, P(I, x.v, "selectionPattern")) }));
    const answer = (code) => (rs.find((x) => typeof x.pat === "string" && new RegExp(`^(?:${x.pat})$`).test(String(code))) ?? rs.find((x) => x.pat === undefined))?.status;
    C.ob("integration-success", answer(200) === "200", ai.at, `${nm}: a message accepted is answered 200`, nm);
    for (const c of [400, 403, 404, 413, 429, 500, 503]) C.ob("integration-failure", /^[45]/.test(answer(c) ?? ""), ai.at, `${nm}: a message refused with ${c} is not answered as a success (${answer(c)})`, `failure`);
    const mo = arg(m, 2);
    C.ob("method", constVal(I, arg(m, 0)) === "POST" && I.show(m.recv.alts ? m.recv : I.one(m.recv)) === "$resource" && isResult(I, arg(m, 1), ai) === 1, m.at, `${nm}: a POST on that resource uses the integration`, nm);
    C.ob("method-access", showsAs(I, P(I, mo, "apiKeyRequired"), "$key") === 1 && showsAs(I, P(I, mo, "requestValidator"), "$validator") === 1 && (!models || imp(I, I.bdd.not(I.nullish(I.input("models"))), showsAs(I, P(I, mo, "requestModels"), "$models"))), m.at, `${nm}: the API key, validator and models asked for are required`, nm);
    const ms = items(I, P(I, mo, "methodResponses")).map((x) => constVal(I, P(I, x.v, "statusCode")));
    C.ob("method-responses", rs.every((x) => ms.includes(x.status)), m.at, `${nm}: every answer is declared by the method`, nm);
  }
}
