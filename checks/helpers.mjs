// Stop watch typestate, best-effort side work, and the shared last-updated table.
import { L, field, calm, imp, or, constVal, method, obj } from "./kit.mjs";
import { lit, arg, calls, made, isResult, typeNamed } from "./infra-kit.mjs";
import { Fold, fold, NONE } from "./fold.mjs";
const SW = L("utils/stop-watch.ts"), SL = L("utils/slack.ts"), LT = L("utils/lead-time-logging.ts"), S3 = L("aws/runtime/s3.ts"), LU = L("database/last-updated.ts"), UT = L("utils/utils.ts");
const decided = (x) => x !== NONE;
const F = (I, v, k) => field(I, v, k).v;

// ---------------------------------------------------------------- stop watch
const OPS = ["start a", "stop a", "start", "stop", "reset a", "reset"];
function model(seq) {
  const tasks = new Map();
  let t = 0;
  for (const op of seq) {
    t = at(t + 1);
    const [what, n = "$default"] = op.split(" ");
    if (what === "start") { const x = tasks.get(n) ?? { periods: [] }; if (x.run !== undefined) x.periods.push(t - x.run); x.run = t; tasks.set(n, x); }
    else if (what === "stop") { const x = tasks.get(n); if (!x) return { fails: true }; if (x.run !== undefined) { x.periods.push(t - x.run); x.run = undefined; } }
    else if (n === "$default") tasks.clear(); else tasks.delete(n);
    t = seqNo(t);
  }
  return { tasks };
}
// the clock: operation i happens at i*i*100
const at = (i) => i * i * 100, seqNo = (t) => Math.round(Math.sqrt(t / 100));
function watch(C, depth) {
  const seqs = [[]];
  for (let i = 0; i < seqs.length; i++) if (seqs[i].length < depth) for (const o of OPS) { const s = [...seqs[i], o]; if (!model(seqs[i]).fails) seqs.push(s); }
  let n = 0;
  const I = C.interp({}), cls = I.single(I.valueOfExport(SW, "StopWatch"));
  for (const seq of seqs) {
    const m = model(seq), nm = seq.join(", ") || "nothing";
    const stamp = new Map();
    let got, self;
    const rets = [];
    const q = I.run(() => {
      const sw = I.construct(cls, [], null); self = sw;
      let step = 0;
      const call = (k, ...a) => { step++; const from = I.events.length; const v = method(I, sw, k, a); for (const e of I.events.slice(from)) stamp.set(e, at(step)); return v; };
      for (const op of seq) { const [what, x] = op.split(" "); rets.push(I.show(call(what, ...(x ? [I.c(x)] : [])))); }
      const one = (k, ...a) => { step = seq.length; return call(k, ...a); };
      if (!m.fails) got = { a: one("getDuration", I.c("a")), d: one("getDuration"), list: one("getTasks"), a2: one("getTask", I.c("a")), from: I.events.length, log: one("logTasks", I.c("M.m")) };
      return I.UNDEF;
    });
    if (m.fails) { C.ob("watch-stop-unknown", q.throwG === 1, SW, `${nm}: stopping a task that was never started is an error`, nm); continue; }
    const t2 = got && got.a2.alts.length === 1 && got.a2.alts[0].l.t !== "c" ? got.a2 : undefined, mt = m.tasks?.get("a");
    C.ob("watch-task", !got || !!mt === (constVal(I, got.a2) !== undefined || !!t2), SW, `${nm}: the task is ${mt ? "" : "not "}there`, nm);
    if (t2 && mt) {
      const fv0 = (v) => new Fold(I, (l) => (l.t === "s" && l.op === "now" ? nowOf(I, l, stamp) : undefined)).value(v);
      const ps = items(I, F(I, t2, "periods")).map((x) => fv0(F(I, x, "duration"))), es = items(I, F(I, t2, "periods")).map((x) => [fv0(F(I, x, "startTime")), fv0(F(I, x, "endTime"))]);
      const done = ps.filter((x) => x !== undefined);
      C.ob("watch-periods", ps.includes(NONE) || (JSON.stringify(done) === JSON.stringify(mt.periods) && ps.length === mt.periods.length + (mt.run === undefined ? 0 : 1)), SW, `${nm}: the task has its periods (${done})`, nm);
      C.ob("watch-period-ends", es.flat().includes(NONE) || es.every(([x, y], i) => y === undefined ? i === es.length - 1 && mt.run === x : y - x === mt.periods[i]), SW, `${nm}: each period ends when it was stopped`, nm);
      const run = fv0(F(I, t2, "isRunning"));
      C.ob("watch-running", !decided(run) || run === (mt.run !== undefined), SW, `${nm}: the task is ${mt.run === undefined ? "not " : ""}running`, nm);
    }
    C.ob("watch-chain", rets.every((v) => v === I.show(self)), SW, `${nm}: each step gives the watch itself`, nm);
    C.ob("watch-total", calm(I, q.throwG) === 0, SW, `${nm}: no error`, nm);
    if (!got || q.throwG === 1) continue;
    const fv = (v) => new Fold(I, (l) => (l.t === "s" && l.op === "now" ? nowOf(I, l, stamp) : undefined)).value(v);
    const now = at(seq.length + 1);
    const dur = (x) => (x ? x.periods.reduce((s, y) => s + y, 0) + (x.run === undefined ? 0 : now - x.run) : 0);
    for (const [k, n2] of [["a", "a"], ["d", "$default"]]) {
      const x = fv(got[k]), w = dur(m.tasks.get(n2));
      C.ob("watch-duration", !decided(x) || x === w, SW, `${nm}: ${n2 === "a" ? "a named" : "the unnamed"} task took ${w} (${String(x)})`, `${nm}-${k}`);
      if (decided(x)) n++;
    }
    const names = items(I, got.list).map((x) => constVal(I, F(I, x, "taskName")));
    C.ob("watch-list", !names.includes(undefined) ? JSON.stringify(names) === JSON.stringify([...m.tasks.keys()].filter((k) => k !== "$default")) : true, SW, `${nm}: the named tasks are listed (${names})`, nm);
    const logs = calls(q, /^log\./).filter((e) => I.events.indexOf(e) < 0 || true).map((e) => ({ e, task: constVal(I, F(I, arg(e, 0), "customTask")), took: fv(F(I, arg(e, 0), "tookMs")) }));
    const want = [...m.tasks].map(([k, x]) => [k === "$default" ? "M.m" : k, dur(x)]);
    C.ob("watch-logged", logs.some((x) => (x.task === undefined && I.show(F(I, arg(x.e, 0), "customTask")) !== "undefined") || !decided(x.took)) || JSON.stringify(logs.map((x) => [x.task, x.took]).sort()) === JSON.stringify(want.sort()), SW, `${nm}: each task is logged with its time (${JSON.stringify(logs.map((x) => [x.task, String(x.took)]))})`, nm);
  }
  C.ob("watch-states", true, SW, `${seqs.length} histories, ${n} durations folded`);
  for (const a of [undefined, "a"]) {
    const J = C.interp({}), c2 = J.single(J.valueOfExport(SW, "StopWatch"));
    const q = J.run(() => { const sw = method(J, J.one(c2), "createStarted", a ? [J.c(a)] : []); return method(J, sw, "getDuration", a ? [J.c(a)] : []); });
    const st = new Map(); let i = 0;
    const x = new Fold(J, (l) => { if (l.t !== "s" || l.op !== "now") return undefined; const e = evOf(J, l); if (!e) return undefined; if (!st.has(e)) st.set(e, J.events.indexOf(e)); return st.get(e) * 10; }).value(q.value);
    void i;
    C.ob("watch-created", q.throwG === 0 && (!decided(x) || x > 0), SW, `a watch made started is running (${a ?? "unnamed"}: ${String(x)})`, `created-${a}`);
  }
}
const evOf = (I, l) => l.ev ?? I.events.find((e) => l.args.includes(e) || l.args.includes(e.id) || l.args.includes(`e${e.id}`));
function nowOf(I, l, stamp) { const e = evOf(I, l); const s = e && stamp.get(e); return s === undefined ? undefined : s; }
const items = (I, v) => { const l = v.alts.length === 1 ? v.alts[0].l : undefined; const xs = l?.t === "o" && l.rec.kind === "array" ? l.rec.items : l?.t === "s" && l.op === "arr" ? l.items : []; return xs.map((x) => x.v); };

// ---------------------------------------------------------------- side work
function side(C) {
  const rejects = (I, r) => { let g = 0; for (const a of r.value?.alts ?? []) if (a.l.t === "o" && a.l.rec.kind === "promise") g = I.bdd.or(g, I.bdd.and(a.g, a.l.rec.rejG ?? 0)); return I.bdd.or(g, r.throwG); };
  const logFail = (nm) => ({ stub: (n, l, I) => undefined });
  void logFail;
  { // notifications
    const I = C.interp({}), cls = I.single(I.valueOfExport(SL, "SlackApi"));
    const r = I.run(() => { const o = I.construct(cls, [I.input("url")], null); return method(I, o, "notify", [I.input("text")]); });
    C.ob("notify-never-fails", rejects(I, r) === 0, SL, "a notification that cannot be sent does not fail the work", "notify");
    const posts = r.events.filter((e) => e.kind === "call" && !/^log/.test(e.name) && e.args.some((x) => I.show(x.spread ?? x) === "$url"));
    C.ob("notify-sent", posts.length === 1 && calm(I, posts[0].g) === calm(I, 1), SL, "a notification is sent once, to the address given", "notify");
    for (const e of posts) {
      C.ob("notify-text", deepText(I, e).includes("$text"), e.at, "the notification has the text given", "notify");
      const fails = I.atoms.map((a, v) => (a && (a.kind === "throw" || a.kind === "rej") && (a.ev === e || a.l?.ev === e) ? I.bdd.node(v, 0, 1) : 0));
      const fg = or(I, fails), logs = or(I, calls(r, /^log\.(exception|error|warn)$/).map((x) => x.g));
      C.ob("notify-awaited", !!e.awaited, e.at, "the notification is waited for", "notify");
      C.ob("notify-failure-logged", fg !== 0 && imp(I, fg, logs), e.at, "a failed notification is logged", "notify");
    }
  }
  { // lead times
    const I = C.interp({ rawLog: true, stub: (n, l, J) => { const p = n.parent; if (n.name?.getText?.() && p && p.name?.text === "DtLogger") return { name: `log.${n.name.getText()}`, noThrow: n.name.getText() === "error" }; return undefined; } });
    const r = C.fn(I, LT, "logLeadTime");
    C.ob("lead-never-fails", rejects(I, r) === 0, LT, "a lead time that cannot be logged does not fail the work", "lead");
    const info = calls(r, /^log\.info$/);
    C.ob("lead-logged", info.length === 1 && calm(I, info[0].g) === calm(I, 1), LT, "a lead time is logged once", "lead");
    for (const e of info) for (const [k, w] of [["customName", "$name"], ["customTarget", "$target"], ["tookMs", "$tookMs"], ["customLeadTime", "true"]]) C.ob("lead-field", I.show(F(I, arg(e, 0), k)) === w, e.at, `the log line's ${k} is its own`, k);
  }
  { const I = C.interp({}), r = C.fn(I, LT, "logLeadTimes");
    C.ob("lead-never-fails", calm(I, r.throwG) === 0, LT, "lead times are logged without failing", "leads");
    const ls = calls(r, /^log\.info$/);
    for (const [k, n] of [["leadTimeMs", "lead-time"], ["processTimeMs", "process-time"]]) for (const v of [undefined, NaN, 0, 5, -3, 1.5, Infinity]) {
      const safe = Number.isSafeInteger(v);
      const FF = new Fold(I, (l) => (I.showLeaf(l) === `$ptl.${k}` ? (v === undefined ? VOIDED : v) : undefined));
      const g = ls.filter((e) => constVal(I, F(I, arg(e, 0), "customName")) === n).map((e) => FF.guard(e.g));
      if (v !== undefined) C.ob("lead-when", g.includes(NONE) || (g.filter((x) => x === 1).length === (safe ? 1 : 0)), LT, `${n} of ${v} is ${safe ? "logged once" : "left out"}`, `${n}-${v}`);
    }
    for (const e of ls) { const n = constVal(I, F(I, arg(e, 0), "customName")); C.ob("lead-own", I.show(F(I, arg(e, 0), "tookMs")) === (n === "lead-time" ? "$ptl.leadTimeMs" : "$ptl.processTimeMs") && I.show(F(I, arg(e, 0), "customTarget")) === "$ptl.target", e.at, `${n} is logged with its own time`, n); }
    C.ob("lead-both", new Set(ls.map((e) => constVal(I, F(I, arg(e, 0), "customName")))).size === 2, LT, "both kinds are logged", "both"); }
  { // uploads
    const I = C.interp({}), r = C.fn(I, S3, "uploadToS3");
    const cmd = made(r, /PutObjectCommand$/), send = calls(r, /^send$/);
    C.ob("upload", cmd.length === 1 && send.length === 1 && calm(I, send[0].g) === calm(I, 1) && I.show(send[0].recv) === "$s3" && isResult(I, arg(send[0], 0), cmd[0]) === 1, S3, "the object is sent once, with the client given", "upload");
    for (const c of cmd) for (const [k, w] of [["Bucket", "$bucketName"], ["Key", "$objectName"], ["Body", "$body"], ["ACL", "$cannedAcl"], ["ContentType", "$contentType"]]) C.ob("upload-field", I.show(F(I, arg(c, 0), k)) === w, c.at, `the object's ${k} is the one given`, k);
    for (const e of send) { const fg = or(I, I.atoms.map((a, v) => (a && (a.kind === "throw" || a.kind === "rej") && a.ev === e ? I.bdd.node(v, 0, 1) : 0))); C.ob("upload-failure-seen", imp(I, fg, rejects(I, r)), e.at, "a failed upload reaches the caller", "upload"); }
  }
}
const VOIDED = Symbol("void");
function deepText(I, e) { let s = ""; const seen = new Set(); const go = (v, d) => { if (!v || d > 8) return; s += I.show(v); for (const a of v.alts ?? []) { const l = a.l; if (seen.has(l)) continue; seen.add(l); if (l.t === "o") for (const p of l.rec.props?.values() ?? []) go(p.v, d + 1); if (l.t === "s" && l.op === "obj") for (const f of l.fields.values()) go(f.v, d + 1); if (l.t === "s") for (const x of l.args) if (x?.alts) go(x, d + 1); } }; for (const a of e.args) go(a.spread ?? a, 0); return s; }

// ---------------------------------------------------------------- last updated
function parse(sql) {
  const t = sql.replace(/\s+/g, " ").trim();
  let m = /^select (\w+)(?: as (\w+))? from (\w+) where (.+)$/i.exec(t);
  if (m) { const where = {}; for (const c of m[4].split(/ and /i)) { const x = /^(\w+) ?= ?\$[({](\w+)[)}]$/.exec(c.trim()); if (!x) return undefined; where[x[1].toLowerCase()] = x[2]; } return { kind: "select", col: m[1].toLowerCase(), as: (m[2] ?? m[1]).toLowerCase(), table: m[3].toLowerCase(), where }; }
  m = /^insert into (\w+) ?\(([^)]*)\) ?values ?\((.*)\) on conflict ?\(([^)]*)\) do update set (.+)$/i.exec(t);
  if (m) {
    const split = (s) => { const out = []; let d = 0, cur = ""; for (const ch of s) { if (ch === "," && !d) { out.push(cur); cur = ""; continue; } if (ch === "(") d++; if (ch === ")") d--; cur += ch; } out.push(cur); return out.map((x) => x.trim()); };
    const name = (x) => /^\$[({](\w+)[)}]$/.exec(x)?.[1] ?? /^excluded\.(\w+)$/i.exec(x)?.[0].toLowerCase();
    const cols = split(m[2]).map((x) => x.toLowerCase()), vals = split(m[3]);
    const set = Object.fromEntries(split(m[5]).map((x) => x.split("=").map((y) => y.trim())).map(([c, x]) => [c.toLowerCase(), name(x)]));
    return { kind: "insert", table: m[1].toLowerCase(), cols: Object.fromEntries(cols.map((c, i) => [c, name(vals[i] ?? "")])), n: cols.length === vals.length, conflict: split(m[4]).map((x) => x.toLowerCase()), set };
  }
  return undefined;
}
const PAIRS = [
  { get: "getLastUpdated", put: "updateLastUpdated", key: { data_type: "$datatype" }, date: "$updated", fixed: ["subtype"] },
  { get: "getLastUpdatedWithSubtype", put: "updateLastUpdatedWithSubtype", key: { data_type: "$datatype", subtype: "$subtype" }, date: "$updated" },
  { get: "getUpdatedTimestamp", put: "updateUpdatedTimestamp", key: { updated_name: "$datatype" }, date: "$date" },
];
function lastUpdated(C) {
  const stmt = (I, r) => { const cs = r.events.filter((e) => e.kind === "call" && I.show(e.recv ?? I.UNDEF) === "$db"); return cs.length === 1 ? cs[0] : undefined; };
  for (const p of PAIRS) {
    const I = C.interp({}), g = C.fn(I, LU, p.get), e = stmt(I, g);
    const J = C.interp({}), u = C.fn(J, LU, p.put), w = stmt(J, u);
    C.ob("one-statement", !!e && calm(I, e.g) === calm(I, 1) && !!w && calm(J, w.g) === calm(J, 1), LU, `${p.get}, ${p.put}: one statement each, on the connection given`, p.get);
    if (!e || !w) continue;
    const sg = parse(constVal(I, arg(e, 0)) ?? ""), su = parse(constVal(J, arg(w, 0)) ?? "");
    C.ob("statement-form", sg?.kind === "select" && su?.kind === "insert" && su.n, LU, `${p.get} selects by key and ${p.put} writes one row or updates it`, p.get);
    if (sg?.kind !== "select" || su?.kind !== "insert") continue;
    const gv = (c) => sg.where[c] && I.show(F(I, arg(e, 1), sg.where[c])), uv = (n) => (n ? (n.startsWith("excluded.") ? uv(su.cols[n.slice(9)]) : J.show(F(J, arg(w, 1), n))) : undefined);
    C.ob("same-table", sg.table === su.table, LU, `${p.get} reads the table that ${p.put} writes`, p.get);
    for (const [c, want] of Object.entries(p.key)) C.ob("same-key", gv(c) === want && uv(su.cols[c]) === want, LU, `${c} is the one given, when read and when written (${gv(c)}, ${uv(su.cols[c])})`, `${p.get}-${c}`);
    for (const c of p.fixed ?? []) C.ob("no-subtype", gv(c) === '"-"' && (su.cols[c] === undefined || uv(su.cols[c]) === '"-"'), LU, `a time without a subtype is kept under the unset one (${gv(c)})`, c);
    const keys = [...Object.keys(p.key), ...(p.fixed ?? [])].sort();
    C.ob("whole-key", Object.keys(sg.where).sort().join() === keys.join() && [...su.conflict].sort().join() === keys.join(), LU, `the row is found by its whole key (${Object.keys(sg.where)}; ${su.conflict})`, p.get);
    C.ob("same-column", uv(su.cols[sg.col]) === p.date && uv(su.set[sg.col]) === p.date, LU, `the time written, new or again, is the one read (${sg.col})`, p.get);
    C.ob("key-kept", Object.keys(su.set).every((c) => !keys.includes(c)), LU, "an update leaves the key as it is", p.get);
    const m = e.args[2] ? arg(e, 2) : undefined;
    if (m) for (const given of [null, "row"]) {
      const q = I.run(() => I.call(m, I.UNDEF, [given ? obj(I, { [sg.as]: I.input("time", I.checker.getAnyType()) }) : I.c(null)]));
      const x = I.show(q.value);
      C.ob("read-value", calm(I, q.throwG) === 0 && (given ? q.value.alts.every((a) => I.showLeaf(a.l) === "$time" || (a.l.t === "c" && a.l.v == null)) && q.value.alts.some((a) => I.showLeaf(a.l) === "$time") : ["null", "undefined"].includes(x)), LU, `${given ? "the time of the row is given" : "with no row there is no time"} (${x})`, `${p.get}-${given}`);
    }
    C.ob("waited", [g, u].every((r, i) => isResult(i ? J : I, r.value, i ? w : e) === 1 || r.value.alts.every((a) => a.l.t === "o" && a.l.rec.kind === "promise")), LU, `${p.get}, ${p.put}: the caller waits for the statement`, p.get);
  }
}
export const helpers = {
  U04: { explain: "Every history of starts, stops and resets up to a length is abstractly interpreted; durations are folded with the clock readings as unknowns.", run(C) { watch(C, C.tier === "thorough" ? 5 : 3); C.min("watch-duration", 100); } },
  U05: { explain: "Outcome guards of every call in the side-work functions.", run(C) { side(C); C.min("upload-field", 5); C.min("lead-when", 8); } },
  D06: { explain: "The reading and the writing statement of each kind of time are parsed and their keys, columns and values compared.", run(C) { lastUpdated(C); C.min("same-key", 4); } },
};
