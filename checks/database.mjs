import { L, imp, calm, or, eqC, alts, isRes, reach, mentions, envLeaf, isEnv, named, field, constVal, dig } from "./kit.mjs";

const FILE = L("database/database.ts");
const ENTRIES = [
  { name: "inDatabase", uri: "DB_URI", other: "DB_RO_URI", tx: false },
  { name: "inDatabaseReadonly", uri: "DB_RO_URI", other: "DB_URI", tx: false },
  { name: "inTransaction", uri: "DB_URI", other: "DB_RO_URI", tx: true },
];
const isPgp = (l) => l.t === "s" && l.op === "res" && /^pg-promise#/.test(l.ev.name);
const rootRes = (v) => { // the opaque result an access path starts from
  let l = v?.alts?.length ? v.alts[0].l : null;
  while (l && l.t === "s" && l.op === "get") l = l.args[0].alts?.[0]?.l ?? l.args[0];
  return l;
};

function runEntry(C, ent) {
  const I = C.interp();
  const fn = I.input("fn");
  const r = C.fn(I, FILE, ent.name, [fn, I.input("convert", I.boolTy())]);
  const fnLeaf = fn.alts[0].l;
  const conns = r.events.filter((e) => e.kind === "call" && e.recv && e.recv.alts.some((a) => isPgp(a.l)) && e.name === "call");
  const uses = r.events.filter((e) => e.callee === fnLeaf);
  const onConn = (e, c) => e.recv && e.recv.alts.some((a) => { const x = rootRes(I.one(a.l)); return x && isRes(x, c); });
  const ends = (c) => r.events.filter((e) => e.kind === "call" && e.name === "end" && onConn(e, c));
  C.ob("anchor", conns.length > 0, FILE, `${ent.name}: ${conns.length} connection sites found`);
  C.ob("anchor", uses.length > 0, FILE, `${ent.name}: ${uses.length} invocations of the caller's function found`);
  return { I, r, fn, fnLeaf, conns, uses, onConn, ends };
}

export const database = {
  D01: {
    explain: "For inDatabase, inDatabaseReadonly and inTransaction: every connection created is followed on every path (normal, thrown, rejected) by an awaited pool end, after every use of it has settled.",
    run(C) {
      for (const ent of ENTRIES) {
        const { I, r, conns, onConn, ends } = runEntry(C, ent);
        for (const c of conns) {
          const alive = I.bdd.and(c.g, I.bdd.not(c.T ?? 0));
          const es = ends(c);
          const rel = or(I, es.map((e) => I.bdd.and(e.g, e.promise ? I.waited(e.promise) : 1)));
          C.ob("released-on-every-exit", imp(I, alive, rel), c.at, `${ent.name}: the connection is ended and the end awaited on every exit; missing when ${I.showG(I.bdd.and(alive, I.bdd.not(rel)), 2)}`, `${ent.name}`);
          for (const u of r.events) {
            if (!(u.kind === "call" || u.kind === "new") || es.includes(u) || u === c || u.stub) continue;
            const touches = onConn(u, c) || (u.args ?? []).some((a) => (a.spread ?? a).alts.some((x) => isRes(x.l, c)));
            if (!touches) continue;
            for (const e of es) {
              const both = I.bdd.and(u.g, e.g);
              if (both === 0) continue;
              C.ob("ended-after-last-use", r.events.indexOf(u) < r.events.indexOf(e), u.at, `${ent.name}: connection used before it is ended`, `${ent.name}`);
              if (u.promise) C.ob("use-settled-before-end", imp(I, both, I.settledBefore(u.promise, e)), u.at, `${ent.name}: ${u.label} has settled before the connection is ended`, `${ent.name}`);
            }
          }
        }
      }
      C.min("released-on-every-exit", 3); C.min("use-settled-before-end", 6);
    },
  },
  D02: {
    explain: "For the three database entry points: the caller's function runs at most once per call, only after an awaited session reset, its result is what the caller receives and its failure is logged and rethrown unchanged.",
    run(C) {
      for (const ent of ENTRIES) {
        const { I, r, conns, uses, onConn } = runEntry(C, ent);
        const b = I.bdd;
        for (let i = 0; i < uses.length; i++) for (let j = i + 1; j < uses.length; j++)
          C.ob("runs-once", b.and(uses[i].g, uses[j].g) === 0, uses[j].at, `${ent.name}: the caller's function cannot be invoked twice on one path`, ent.name);
        const ok = calm(I, 1);
        const runs = or(I, uses.map((u) => u.g));
        // with nothing failing and configuration present the function runs
        const txc = uses.some((u) => u.regions.some((x) => x.kind === "cb"));
        const cbTrue = (g) => b.exists(g, (v) => I.atoms[v]?.kind === "cb");
        C.ob("function-runs", imp(I, calm(I, r.retG), cbTrue(calm(I, runs))), FILE, `${ent.name}: a normal return implies the caller's function ran`, ent.name);
        const resets = r.events.filter((e) => e.kind === "call" && conns.some((c) => onConn(e, c)) && e.args?.some((a) => alts(I, a.spread ?? a).some((x) => x.l.t === "c" && /^\s*(discard\s+all|deallocate\s+all)\s*;?\s*$/i.test(String(x.l.v)))));
        const opener = (u) => { // the event on the connection that leads to the caller's function
          const cb = u.regions.find((x) => x.kind === "cb" && conns.some((c) => onConn(x.ev, c)));
          return cb ? cb.ev : u;
        };
        for (const u of uses) {
          const o = opener(u);
          const done = or(I, resets.filter((x) => r.events.indexOf(x) < r.events.indexOf(o)).map((x) => b.andAll([x.g, x.promise ? I.settledBefore(x.promise, o) : 1, b.not(x.T ?? 0)])));
          C.ob("session-reset-first", imp(I, u.g, done), u.at, `${ent.name}: pooled session state is discarded, successfully and awaited, before the caller's function`, ent.name);
          if (u.T) {
            const fail = calm(I, b.and(u.g, u.T), (a) => a.ev === u);
            const thrown = calm(I, r.throwG, (a) => a.ev === u || a.ev === o);
            const failO = o === u ? fail : 0;
            if (o === u) {
              C.ob("failure-rethrown", imp(I, failO, thrown) && alts(I, r.throwV, failO).every((a) => a.l === u.err.alts[0].l), u.at, `${ent.name}: a failing function rejects the returned promise with the same error`, ent.name);
            }
          }
          if (o !== u && o.T) {
            const f = calm(I, b.and(o.g, o.T), (a) => a.ev === o);
            const thrown = calm(I, r.throwG, (a) => a.ev === o);
            C.ob("failure-rethrown", imp(I, f, thrown) && alts(I, r.throwV, f).every((a) => a.l === o.err.alts[0].l), o.at, `${ent.name}: a failing transaction rejects the returned promise with the same error`, ent.name);
            // the callback must hand its promise/result (and failure) to the transaction
            for (const cb of o.cbs) {
              const f2 = b.and(u.g, u.T ?? 0);
              C.ob("failure-reaches-transaction", f2 === 0 || imp(I, f2, or(I, [cb.throwG, or(I, cb.ret.alts.map((x) => (x.l.t === "o" && x.l.rec.kind === "promise" ? b.and(x.g, b.or(x.l.rec.rejG, 0)) : 0)))])), u.at, `${ent.name}: a failure inside the transaction callback is seen by the transaction (rollback)`, ent.name);
            }
          }
          const err = (o === u ? u : o).err;
          const eo = o === u ? u : o;
          if (eo.T) {
            const f = calm(I, b.and(eo.g, eo.T), (a) => a.ev === eo);
            const logged = or(I, r.events.filter((e) => /^log\.(exception|error)$/.test(e.name ?? "") && e.args.some((a) => mentions(I, I.at(a.spread ?? a, f), (l) => l === err.alts[0].l))).map((e) => e.g));
            C.ob("failure-logged", imp(I, f, calm(I, logged, (a) => a.ev === eo)), eo.at, `${ent.name}: the failure is logged before it is rethrown`, ent.name);
          }
          const okG = calm(I, r.retG);
          const val = alts(I, r.value, b.and(okG, calm(I, 1)));
          const good = val.every((a) => b.and(a.g, okG) === 0 || isRes(a.l, eo) || uses.some((x) => isRes(a.l, x)) || uses.concat(uses.map(opener)).some((x) => isRes(a.l, x)));
          C.ob("result-returned", good, u.at, `${ent.name}: the caller receives the function's own result`, ent.name);
          const args0 = alts(I, u.args[0]?.spread ?? u.args[0] ?? I.UNDEF, u.g);
          C.ob("handle-given", args0.every((a) => (o === u ? conns.some((c) => isRes(a.l, c)) : a.l.t === "s" && a.l.op === "cbparam" && a.l.ev === o)), u.at, `${ent.name}: the function gets the ${ent.tx ? "transaction" : "connection"} handle`, ent.name);
          if (ent.tx) C.ob("inside-transaction", u.regions.some((x) => x.kind === "cb" && /^(tx|txIf)$/.test(x.ev.name)), u.at, "inTransaction: the caller's function runs only inside a database transaction");
        }
        void ok; void txc;
      }
      C.min("session-reset-first", 3); C.min("failure-logged", 3); C.min("inside-transaction", 1);
    },
  },
  D03: {
    explain: "The connection string of each entry point is assembled from the environment's user, password and the endpoint the entry point promises; a missing setting throws before any connection exists.",
    run(C) {
      for (const ent of ENTRIES) {
        const { I, r, conns } = runEntry(C, ent);
        const b = I.bdd;
        for (const c of conns) {
          const url = c.args[0].spread ?? c.args[0];
          for (const a of alts(I, url, c.g)) {
            const v = I.one(a.l);
            const has = (n) => mentions(I, v, (l) => envLeaf(l, n));
            C.ob("endpoint", has(ent.uri) && !has(ent.other), c.at, `${ent.name}: connects to ${ent.uri} and never to ${ent.other}`, ent.name);
            C.ob("credentials", has("DB_USER") && has("DB_PASS"), c.at, `${ent.name}: uses DB_USER and DB_PASS`, ent.name);
            if (a.l.op === "concat") {
              const seq = a.l.args.map((x) => { const k = constVal(I, x); if (k !== undefined) return k; for (const n of ["DB_USER", "DB_PASS", "DB_URI", "DB_RO_URI"]) if (mentions(I, x, (l) => envLeaf(l, n))) return `<${n}>`; return "<x>"; }).join("");
              C.ob("url-shape", new RegExp(`^postgres(ql)?://<DB_USER>:<DB_PASS>@<${ent.uri}>([?/].*)?$`).test(seq), c.at, `${ent.name}: connection URL is user:password@endpoint (got ${seq.replace(/<DB_PASS>/, "<pw>")})`, ent.name);
            }
          }
          C.ob("application-name", mentions(I, url, (l) => envLeaf(l, "DB_APPLICATION")), c.at, `${ent.name}: the connection announces the application from DB_APPLICATION`, ent.name);
          for (const n of ["DB_USER", "DB_PASS", ent.uri]) {
            const lv = [...I.leaves].filter((l) => envLeaf(l, n));
            C.ob("anchor", lv.length > 0, c.at, `${ent.name}: reads ${n}`, ent.name);
            for (const l of lv) {
              const miss = I.eqConst(l, I.cl(undefined));
              C.ob("missing-setting-throws", b.and(c.g, miss) === 0 && imp(I, calm(I, miss), calm(I, r.throwG)), c.at, `${ent.name}: missing ${n} throws before connecting`, ent.name);
            }
          }
        }
      }
      C.min("endpoint", 3);
    },
  },
  D04: {
    explain: "Numeric column types get numeric parsers before the connection is made; NULL columns become undefined exactly when the caller asked for it.",
    run(C) {
      for (const ent of ENTRIES) {
        const { I, r, conns } = runEntry(C, ent);
        const b = I.bdd;
        const conv = [...I.leaves].find((l) => l.op === "in" && l.args[0] === "convert");
        const convT = I.truthLeaf(conv);
        const parsers = r.events.filter((e) => e.name === "setTypeParser");
        for (const c of conns) {
          for (const [n, ok] of [["INT8", /^(parseInt|Number|BigInt)/], ["FLOAT8", /^(parseFloat|Number)/], ["NUMERIC", /^(parseFloat|Number)/]]) {
            const oids = { INT8: 20, FLOAT8: 701, NUMERIC: 1700 };
            const ps = parsers.filter((e) => r.events.indexOf(e) < r.events.indexOf(c) && e.args[0].alts.some((x) => (x.l.op === "get" && (x.l.args[1] === n)) || (x.l.t === "c" && x.l.v === oids[n])));
            const good = ps.filter((e) => {
              const at = alts(I, e.args[1], e.g);
              return at.every((x) => {
                if (x.l.t === "x") return /parseInt|parseFloat|Number/.test(x.l.xkey);
                const cb = e.cbs.find((k) => k.leaf === x.l);
                return cb && cb.ret.alts.every((y) => y.l.t === "s" && ok.test(y.l.op) && mentions(I, I.one(y.l), (z) => z.op === "cbparam" && z.ev === e) && (y.l.op !== "parseInt" || y.l.args[1] === undefined || [10, undefined].includes(constVal(I, y.l.args[1]))));
              });
            });
            C.ob("numeric-parser", imp(I, c.g, or(I, good.map((e) => e.g))), c.at, `${ent.name}: ${n} values are parsed to numbers`, ent.name);
          }
          // pgp instance options
          const pg = r.events.filter((e) => /^pg-promise#/.test(e.name ?? "") && c.recv.alts.some((a) => isRes(a.l, e)));
          for (const p of pg) {
            const opt = p.args[0] ? p.args[0].spread ?? p.args[0] : I.UNDEF;
            const recvHas = field(I, opt, "receive");
            const isFn = or(I, recvHas.v.alts.filter((a) => a.l.t === "f").map((a) => a.g));
            C.ob("null-conversion-iff-asked", imp(I, b.and(p.g, convT), isFn) && b.andAll([p.g, b.not(convT), isFn]) === 0, p.at, `${ent.name}: result rewriting is installed exactly when null conversion is requested`, ent.name);
            for (const cb of p.cbs) {
              const sets = r.events.filter((e) => e.kind === "set" && e.regions.some((x) => x.ev === p));
              C.ob("null-becomes-undefined", sets.length > 0, p.at, `${ent.name}: the rewriting sets columns`, ent.name);
              for (const s of sets) {
                const val = s.val ?? s.args?.[s.args.length - 1];
                C.ob("null-becomes-undefined", constVal(I, val, s.g) === undefined && alts(I, val, s.g).every((a) => a.l === I.cl(undefined)), s.at, `${ent.name}: the value written is undefined`, ent.name);
                const nulls = I.atoms.map((a, i) => [a, i]).filter(([a]) => a.kind === "eq" && a.k === I.cl(null) && mentions(I, I.one(a.l), (z) => z.op === "cbparam" && z.ev === p)).map(([, i]) => I.bdd.varNode(i));
                C.ob("null-becomes-undefined", nulls.some((n) => imp(I, s.g, n)), s.at, `${ent.name}: only null columns are rewritten`, ent.name);
                // what does not concern a row or a column (is there a result, has it rows) may stand before the rewriting
                const apart = (v) => { const x = I.atoms[v]; return x.kind === "cb" || (x.l && !mentions(I, I.one(x.l), (z) => ["elem", "key", "val", "entries"].includes(z.op))); };
                const all = b.exists(b.assign(b.restrict(s.g, p.g), (v) => (nulls.includes(b.varNode(v)) || I.atoms[v].kind === "iter" ? 1 : undefined)), apart);
                C.ob("every-null-becomes-undefined", all === 1, s.at, `${ent.name}: every null column of every row is rewritten`, ent.name);
              }
            }
          }
        }
      }
      for (const ent of ENTRIES) {
        const I = C.interp();
        const r = C.fn(I, FILE, ent.name, [I.input("fn")]);
        for (const p of r.events.filter((e) => /^pg-promise#/.test(e.name ?? "") && e.kind === "call" && !e.recv)) {
          const opt = p.args[0] ? p.args[0].spread ?? p.args[0] : I.UNDEF;
          C.ob("null-conversion-default-off", or(I, field(I, opt, "receive").v.alts.filter((a) => a.l.t === "f").map((a) => I.bdd.and(a.g, p.g))) === 0, p.at, `${ent.name}: NULLs are kept unless conversion is requested`, ent.name);
        }
      }
      C.min("null-conversion-default-off", 3);
      C.min("numeric-parser", 9); C.min("null-becomes-undefined", 6);
    },
  },
};
