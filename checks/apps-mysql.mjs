// D05: the MySQL units of work of the rail messaging application.
import { allProgram, imp, calm, or, alts, isRes } from "./kit.mjs";
const FILE = "rail/rami/src/util/database.ts";
const ASYNC = /^(beginTransaction|commit|rollback|query|execute|call)$/;
const rootRes = (v) => { let l = v?.alts?.length ? v.alts[0].l : null; while (l && l.t === "s" && (l.op === "get" || l.op === "await")) l = l.args[0].alts?.[0]?.l ?? l.args[0]; return l; };

export const appsMysql = {
  D05: {
    explain: "The pooled MySQL connection of inDatabase and inTransaction (rail/rami): released on every exit after its uses settled, committed only after the work succeeded, rolled back when it failed, failure handed to the caller.",
    assumptions: ["AsyncLocalStorage.run calls its function once and returns what it returns."],
    run(C) {
      for (const name of ["inDatabase", "inTransaction"]) {
        const I = C.interp({ onOpaque: (e) => (/^(getConnection|beginTransaction|commit|rollback|query|execute)$/.test(e.name ?? "") ? { promise: true } : undefined) }, allProgram());
        const b = I.bdd;
        const fn = I.input("fn");
        const r = C.fn(I, FILE, name, [fn]);
        const fnLeaf = fn.alts[0].l;
        const conns = r.events.filter((e) => e.kind === "call" && e.name === "getConnection");
        const uses = r.events.filter((e) => e.callee === fnLeaf);
        C.ob("anchor", conns.length > 0 && uses.length > 0, FILE, `${name}: ${conns.length} connections, ${uses.length} invocations of the work`);
        for (const c of conns) {
          const on = (e) => e.recv && e.recv.alts.some((a) => { const x = rootRes(I.one(a.l)); return x && isRes(x, c); });
          const rels = r.events.filter((e) => e.kind === "call" && e.name === "release" && on(e));
          let alive = c.g;
          I.atoms.forEach((a, v) => { if (a && (a.kind === "throw" || a.kind === "rej") && (a.ev === c)) alive = b.and(alive, b.not(b.varNode(v))); });
          const rel = or(I, rels.map((e) => e.g));
          C.ob("released-on-every-exit", imp(I, alive, rel), c.at, `${name}: the connection is released on every exit; missing when ${I.showG(b.and(alive, b.not(rel)), 2)}`, name);
          for (const u of r.events) {
            if (u.kind !== "call" || rels.includes(u) || u === c || u.stub) continue;
            const touches = on(u) || (u.args ?? []).some((a) => (a.spread ?? a).alts.some((x) => { const l = rootRes(I.one(x.l)); return l && isRes(l, c); }));
            if (!touches) continue;
            for (const e of rels) {
              const both = b.and(u.g, e.g);
              if (both === 0) continue;
              C.ob("settled-before-release", r.events.indexOf(u) < r.events.indexOf(e) && (u.promise ? imp(I, both, I.settledBefore(u.promise, e)) : !ASYNC.test(u.name ?? "")), u.at, `${name}: ${u.label} has settled before the connection is released`, name);
            }
          }
          for (let i = 0; i < rels.length; i++) for (let j = i + 1; j < rels.length; j++) C.ob("released-once", b.and(rels[i].g, rels[j].g) === 0, rels[j].at, `${name}: a connection is released once`, name);
          const mine = uses.filter((u) => (u.args ?? []).some((a) => (a.spread ?? a).alts.some((x) => { const l = rootRes(I.one(x.l)); return l && isRes(l, c); })));
          C.ob("anchor", mine.length > 0, c.at, `${name}: the work gets this connection`);
          for (const u of mine) {
            C.ob("work-runs", imp(I, calm(I, alive), calm(I, u.g)), u.at, `${name}: the work runs whenever a connection was got`, name);
            const failed = (e) => { let g = 0; I.atoms.forEach((a, v) => { if (a && (a.kind === "throw" || a.kind === "rej") && a.ev === e) g = b.or(g, b.varNode(v)); }); return b.and(e.g, g); };
            const named = (n) => r.events.filter((e) => e.kind === "call" && e.name === n && on(e));
            const exits = () => { // where a failure must surface: the callback's outcome, or the function's own
              const cb = u.regions.filter((x) => x.kind === "cb").map((x) => x.ev.cbs).flat().find((k) => k && u.regions.some((x) => x.kind === "cb" && x.ev.cbs.includes(k)));
              if (!cb) return r.throwG;
              return or(I, [cb.throwG, ...cb.ret.alts.map((x) => (x.l.t === "o" && x.l.rec.kind === "promise" ? b.and(x.g, x.l.rec.rejG ?? 0) : 0))]);
            };
            const f = calm(I, failed(u), (a) => a.ev === u);
            C.ob("failure-reaches-caller", f === 0 ? false : imp(I, f, exits()), u.at, `${name}: a failing work rejects what the caller gets`, name);
            if (name !== "inTransaction") continue;
            const begins = named("beginTransaction"), commits = named("commit"), rolls = named("rollback");
            const idx = (e) => r.events.indexOf(e);
            C.ob("transaction-begun-first", begins.length > 0 && imp(I, u.g, or(I, begins.filter((e) => idx(e) < idx(u)).map((e) => b.and(e.g, e.promise ? I.settledBefore(e.promise, u) : 0)))), u.at, "the transaction has begun before the work", name);
            for (const k of commits) C.ob("commit-after-success", b.and(k.g, failed(u)) === 0 && idx(k) > idx(u) && (!u.promise || imp(I, b.and(u.g, k.g), I.settledBefore(u.promise, k))), k.at, "the transaction is committed only after the work succeeded", name);
            const okG = calm(I, u.g);
            C.ob("committed", okG !== 0 && imp(I, okG, calm(I, or(I, commits.map((e) => b.and(e.g, e.promise ? I.waited(e.promise) : 0))))), u.at, "a successful work is committed, and the commit awaited", name);
            C.ob("rolled-back", f !== 0 && imp(I, f, or(I, rolls.map((e) => b.and(e.g, e.promise ? I.waited(e.promise) : 0)))), u.at, "a failed work is rolled back, and the rollback awaited", name);
            for (const k of commits) { const fk = calm(I, failed(k), (a) => a.ev === k); if (fk !== 0) C.ob("failure-reaches-caller", imp(I, fk, exits()), k.at, "a failing commit rejects what the caller gets", name); }
            for (const k of begins) { const fk = calm(I, failed(k), (a) => a.ev === k); if (fk !== 0) C.ob("failure-reaches-caller", imp(I, fk, exits()), k.at, "a failing begin rejects what the caller gets", name); }
          }
        }
        if (name === "inDatabase") for (const u of uses) {
          const v = alts(I, r.value, calm(I, r.retG));
          C.ob("result-returned", v.length > 0 && v.every((a) => a.l && (isRes(a.l, u) || rootRes(I.one(a.l))?.ev === u)), u.at, "inDatabase: the caller receives the work's own result", name);
        }
      }
      C.min("released-on-every-exit", 2); C.min("settled-before-release", 4); C.min("rolled-back", 1);
    },
  },
};
