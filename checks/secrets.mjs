import { L, imp, calm, or, alts, isRes, reach, mentions, envLeaf, named, field, constVal, attempt, atNums, thresholds, createdClients, arr, obj, method } from "./kit.mjs";

const SH = L("aws/runtime/secrets/secret-holder.ts");
const isFetch = (e) => e.kind === "call" && ((e.name === "getSecretValue" && /client-secrets-manager/.test(e.owner ?? "")) || (e.name === "send" && /secrets-manager/i.test(e.owner ?? "")));
const isNow = (l) => l.t === "s" && l.op === "now";

function twoCalls(C, n = 2) {
  const I = C.interp({ globals: createdClients });
  const cls = I.single(I.valueOfExport(SH, "SecretHolder"));
  const calls = [];
  I.run(() => {
    const h = I.construct(cls, [I.c("the-secret-id")], null);
    for (let i = 0; i < n; i++) {
      const a = attempt(I, () => I.settle(method(I, h, "get", [])));
      a.fetch = a.events.filter(isFetch);
      a.nows = new Set(a.events.filter((e) => e.name === "Date.now").map((e) => e.res.alts[0].l));
      calls.push(a);
    }
    return I.UNDEF;
  });
  return { I, calls };
}

export const secrets = {
  S01: {
    explain: "Three successive SecretHolder.get calls are analysed on one holder with symbolic clock readings; the fetch and result guards are decided for every ordering of the elapsed time against every threshold the code compares it with.",
    run(C) {
      const { I, calls } = twoCalls(C, 3);
      const b = I.bdd;
      const TTL = 300_000;
      C.ob("anchor", calls[0].fetch.length > 0, SH, `${calls[0].fetch.length} secret fetch sites on the first read`);
      const T = 1.7e12;
      const valuation = (d1, d2) => (l) => { if (!isNow(l)) return undefined; if (calls[0].nows.has(l)) return T; if (calls[1].nows.has(l)) return T + d1; if (calls[2].nows.has(l)) return T + d1 + d2; return undefined; };
      const fetchG = (c) => or(I, c.fetch.map((e) => e.g));
      const c1ok = (V) => atNums(I, b.and(calls[0].okG, calls[1].okG), V);
      const first = calls[0];
      const g0 = atNums(I, first.okG, valuation(0, 0));
      C.ob("first-read-fetches", imp(I, g0, atNums(I, fetchG(first), valuation(0, 0))), first.fetch[0]?.at, "the first read fetches the secret");
      for (const e of first.fetch) {
        C.ob("right-secret", mentions(I, e.fargs[0], (l) => l.t === "c" && l.v === "the-secret-id"), e.at, "the configured secret id is fetched");
        C.ob("fetch-awaited", e.promise ? imp(I, e.g, I.waited(e.promise)) : false, e.at, "the fetch is awaited");
      }
      const from = (c, v, w, V) => v.alts.every((a) => b.and(V ? atNums(I, a.g, V) : a.g, w) === 0 || mentions(I, I.one(a.l), (l) => c.fetch.some((e) => isRes(l, e)), {}));
      C.ob("value-from-fetch", from(first, first.v, g0), first.fetch[0]?.at, "the value returned is what was fetched");
      // a response without a secret string is an error
      for (const e of first.fetch) {
        const ss = [...I.leaves].filter((l) => l.op === "get" && l.args[1] === "SecretString" && l.args[0].alts?.some((a) => isRes(a.l, e)));
        C.ob("anchor", ss.length > 0, e.at, "SecretString is read");
        for (const l of ss) C.ob("no-secret-throws", b.and(atNums(I, first.okG, valuation(0, 0)), b.and(e.g, I.eqConst(l, I.cl(undefined)))) === 0, e.at, "a response without a secret is an error, not a value");
      }
      // failed first read: error to the caller, next read fetches again
      for (const d of [0, 1, TTL, TTL + 1]) {
        for (const e of first.fetch) {
          const f = atNums(I, b.and(e.g, e.T), valuation(d, 0));
          C.ob("failed-fetch-rejects", b.and(f, atNums(I, first.okG, valuation(d, 0))) === 0, e.at, "a failed first fetch rejects the read");
          const w = b.and(f, atNums(I, calls[1].okG, valuation(d, 0)));
          C.ob("failure-not-cached", imp(I, w, atNums(I, fetchG(calls[1]), valuation(d, 0))), e.at, "after a failed fetch the next read fetches again");
        }
      }
      // second read, elapsed d
      const cells = new Set([0, 1, TTL - 1, TTL + 1, 10 * TTL]);
      for (const k of thresholds(I, (l) => (isNow(l) ? 1 : undefined))) for (const x of [k - 1, k + 1, -k - 1, -k + 1]) if (x >= 0 && x < 1e10) cells.add(x);
      for (const d of [...cells].sort((x, y) => x - y)) {
        const V = valuation(d, 0);
        const [c1, c2] = calls;
        const ok1 = calm(I, atNums(I, c1.okG, V));
        const f2 = atNums(I, fetchG(c2), V);
        if (d < TTL) C.ob("served-from-cache", b.and(ok1, f2) === 0, c2.fetch[0]?.at ?? SH, `${d} ms after a fetch the cached secret is reused without fetching`);
        if (d < TTL) C.ob("cached-value", from(c1, c2.v, b.and(ok1, atNums(I, c2.okG, V)), V), SH, `${d} ms after a fetch the fetched value is returned`);
        if (d > TTL) {
          const exp = atNums(I, c1.okG, V);
          C.ob("expired-refetched", exp !== 0 && imp(I, exp, f2), c2.fetch[0]?.at ?? SH, `${d} ms after a fetch (time to live 300 s) the secret is fetched again`);
          for (const e of c2.fetch) {
            const w = atNums(I, b.andAll([c1.okG, e.g, e.T]), V);
            C.ob("stale-never-served", b.and(w, atNums(I, c2.okG, V)) === 0, e.at, "a failed refresh rejects the read instead of serving the expired value");
            const w3 = b.and(w, atNums(I, calls[2].okG, V));
            C.ob("failed-refresh-retried", imp(I, w3, atNums(I, fetchG(calls[2]), V)), e.at, "after a failed refresh the next read fetches again");
            const good = atNums(I, b.andAll([c1.okG, e.g, c2.okG]), V);
            C.ob("refreshed-value", c2.v.alts.every((a) => b.and(atNums(I, a.g, V), good) === 0 || (mentions(I, I.one(a.l), (l) => c2.fetch.some((x) => isRes(l, x))) && !mentions(I, I.one(a.l), (l) => c1.fetch.some((x) => isRes(l, x))))), e.at, "a refreshed read returns the newly fetched value");
          }
        }
      }
      // time passes from the fetch, not from the last read
      for (const [d1, d2] of [[TTL - 1, 2], [TTL - 1, TTL - 1], [TTL / 2, TTL / 2 + 1], [1, TTL]]) {
        const V = valuation(d1, d2), c3 = calls[2];
        const exp = calm(I, atNums(I, b.and(c3.okG, c1ok(V)), V));
        C.ob("age-counted-from-fetch", exp !== 0 && imp(I, exp, atNums(I, fetchG(c3), V)), c3.fetch[0]?.at ?? SH, `read ${d1} ms after the fetch and again ${d2} ms later (time to live 300 s), the secret is fetched again`);
      }
      { // holders keep their own secrets apart
        const J = C.interp({ globals: createdClients });
        const cls = J.single(J.valueOfExport(SH, "SecretHolder"));
        const outs = [];
        J.run(() => {
          const hs = ["one", "two"].map((x) => J.construct(cls, [J.c(x)], null));
          for (const h of hs) { const a = attempt(J, () => J.settle(method(J, h, "get", []))); a.fetch = a.events.filter(isFetch); outs.push(a); }
          return J.UNDEF;
        });
        const [o1, o2] = outs, w = calm(J, J.bdd.and(o1.okG, o2.okG));
        C.ob("holders-apart", w !== 0 && o2.v.alts.every((a) => J.bdd.and(a.g, w) === 0 || (mentions(J, J.one(a.l), (l) => o2.fetch.some((e) => isRes(l, e))) && !mentions(J, J.one(a.l), (l) => o1.fetch.some((e) => isRes(l, e))))), SH, "a second holder, of another secret, returns that secret");
        for (const e of o2.fetch) C.ob("holders-apart", mentions(J, e.fargs[0], (l) => l.t === "c" && l.v === "two"), e.at, "a second holder fetches its own secret");
      }
      C.min("age-counted-from-fetch", 4); C.min("holders-apart", 2);
      C.min("expired-refetched", 2); C.min("served-from-cache", 3); C.min("stale-never-served", 2);
    },
  },
  S02: {
    explain: "The credential holders are created with their default holder; every secret lacking one of the required keys must reject before any credential is written, and each credential variable is written from its own secret field.",
    run(C) {
      const holders = [
        { file: L("aws/runtime/secrets/proxy-holder.ts"), cls: "ProxyHolder", map: { DB_USER: "username", DB_PASS: "password", DB_URI: "proxy_host", DB_RO_URI: "proxy_ro_host" } },
        { file: L("aws/runtime/secrets/rds-holder.ts"), cls: "RdsHolder", map: { DB_USER: "username", DB_PASS: "password", DB_URI: "host", DB_RO_URI: "ro_host" } },
      ];
      for (const h of holders) {
        const I = C.interp({ globals: createdClients });
        const b = I.bdd;
        const cls = I.valueOfExport(h.file, h.cls);
        let res;
        I.run(() => {
          const inst = I.call(I.getProp(cls, I.c("create"), null), cls, [], null);
          res = attempt(I, () => I.settle(method(I, inst, "setCredentials", [])));
          return I.UNDEF;
        });
        const evs = I.events;
        const sets = evs.filter((e) => e.kind === "set" && e.recv && /process\.env$/.test(I.show(e.recv)));
        const byKey = new Map();
        for (const e of sets) { const k = e.name === "[dynamic]" ? undefined : e.name; if (!byKey.has(k)) byKey.set(k, []); byKey.get(k).push(e); }
        const fetches = evs.filter(isFetch);
        C.ob("anchor", fetches.length > 0, h.file, `${h.cls}: secret fetched`);
        for (const e of fetches) C.ob("secret-id-from-env", mentions(I, e.fargs[0], (l) => envLeaf(l, "SECRET_ID")), e.at, `${h.cls}: the default holder reads SECRET_ID`, h.cls);
        for (const [env, fld] of Object.entries(h.map)) {
          const es = byKey.get(env) ?? [];
          C.ob("credential-written", imp(I, res.okG, or(I, es.map((e) => e.g))), h.file, `${h.cls}: ${env} is set whenever setCredentials succeeds`, `${h.cls}.${env}`);
          for (const e of es) {
            const v = e.args[e.args.length - 1];
            C.ob("credential-source", alts(I, v, e.g).every((a) => lastField(I, a.l) === fld && mentions(I, I.one(a.l), (l) => fetches.some((f) => isRes(l, f)))), e.at, `${h.cls}: ${env} comes from the secret's ${fld} (got ${I.show(v).replace(/\{.*\}/, "{..}").slice(-60)})`, `${h.cls}.${env}`);
          }
        }
        for (const k of byKey.keys()) C.ob("only-known-credentials", k !== undefined && k in h.map, byKey.get(k)[0].at, `${h.cls}: writes ${k}`, h.cls);
        // missing keys
        const hasAtoms = I.atoms.map((a, i) => [a, i]).filter(([a]) => a && (a.kind === "has" || a.kind === "prop"));
        for (const fld of Object.values(h.map)) {
          const as = hasAtoms.filter(([a]) => JSON.stringify(a.key ?? "").includes(fld) || (a.text ?? "").includes(`"${fld}"`)).map(([, i]) => b.varNode(i));
          C.ob("missing-key-rejects", as.some((x) => imp(I, res.okG, x)) && sets.every((e) => as.some((x) => imp(I, e.g, x))), h.file, `${h.cls}: a secret without ${fld} rejects before anything is written`, `${h.cls}.${fld}`);
        }
      }
      for (const keys of [["only"], ["one", "two"]]) for (const mk of ["new", "create"]) {
        const I = C.interp({ globals: createdClients });
        const cls = I.valueOfExport(SH, "SecretHolder");
        let res;
        I.run(() => {
          const inst = mk === "new" ? I.construct(I.single(cls), [I.c("id"), I.c(""), arr(I, keys.map((k) => I.c(k)))], null) : I.call(I.getProp(cls, I.c("create"), null), cls, [I.c(""), arr(I, keys.map((k) => I.c(k)))], null);
          res = attempt(I, () => I.settle(method(I, inst, "get", [])));
          return I.UNDEF;
        });
        for (const k of keys) {
          const as = I.atoms.map((a, i) => [a, i]).filter(([a]) => a && (a.kind === "has" || a.kind === "prop") && (JSON.stringify(a.key ?? "").includes(`"${k}`) || (a.text ?? "").includes(`"${k}"`))).map(([, i]) => I.bdd.varNode(i));
          C.ob("expected-key-enforced", as.some((x) => imp(I, res.okG, x)), SH, `SecretHolder (${mk}): with ${keys.length} expected key(s) a secret without "${k}" is rejected`);
        }
        if (mk === "create") for (const e of I.events.filter(isFetch)) C.ob("secret-id-from-env", mentions(I, e.fargs[0], (l) => envLeaf(l, "SECRET_ID")), e.at, "SecretHolder.create reads SECRET_ID");
      }
      C.min("expected-key-enforced", 6);
      C.min("credential-source", 8); C.min("missing-key-rejects", 8);
    },
  },
  S03: {
    explain: "getSecret, SecretHolder.get and getFromEnvOrSecret are analysed with and without a prefix: every key of the result comes from a secret key with that prefix, stripped of exactly the prefix, with that key's value.",
    run(C) {
      const SF = L("aws/runtime/secrets/secret.ts");
      const runs = [
        ["getSecret", (I) => I.runFn(I.valueOfExport(SF, "getSecret"), [I.c("id"), I.c("px")])],
        ["SecretHolder.get", (I) => I.run(() => { const h = I.construct(I.single(I.valueOfExport(SH, "SecretHolder")), [I.c("id"), I.c("px")], null); return I.settle(method(I, h, "get", [])); })],
      ];
      for (const [name, f] of runs) {
        const I = C.interp({ globals: createdClients });
        const b = I.bdd;
        const r = f(I);
        const fetches = r.events.filter(isFetch);
        const isSecret = (l) => l.t === "s" && (l.op === "ext:JSON.parse" || (l.op === "res" && /JSON.parse/.test(l.ev.name))) && mentions(I, I.one(l), (x) => fetches.some((e) => isRes(x, e)));
        C.ob("anchor", fetches.length > 0, SF, `${name}: fetch found`);
        // the secret is kept and read again: nothing may be taken from it or written to it
        for (const e of r.events) if ((e.kind === "set" || e.kind === "delete") && e.recv?.alts.some((x) => isSecret(x.l))) C.ob("secret-untouched", false, e.at, `${name}: reading the secret changes it`, name);
        let n = 0;
        for (const a of r.value.alts) {
          if (b.and(a.g, r.retG) === 0) continue;
          const fz = I.freezeLeaf(a.l, 0);
          const ok = fz.t === "s" && fz.op === "obj" && fz.fields.size === 0 && fz.rest.length === 0 && fz.dyn.length > 0;
          C.ob("prefix-projection", ok, SF, `${name}: with a prefix the result holds only keys derived from the secret's keys (got ${I.showLeaf(fz).slice(0, 60)})`, name);
          if (!ok) continue;
          for (const d of fz.dyn) {
            n++;
            const k = d.key.alts.length === 1 ? d.key.alts[0].l : null;
            const src = k && k.args && I.single(k.args[0].alts ? k.args[0] : I.one(k.args[0]));
            const cut = k && /^str\.(substring|slice|substr)$/.test(k.op) && k.args.length === 2 && constVal(I, k.args[1]) === 3;
            const rep = k && /^str\.replace$/.test(k.op) && constVal(I, k.args[1]) === "px." && constVal(I, k.args[2]) === "";
            C.ob("prefix-stripped", cut || rep, SF, `${name}: exactly the prefix and its dot are removed from each key (got ${I.show(d.key).slice(0, 30)}..${I.show(d.key).slice(-8)})`, name);
            if (!src) continue;
            const sw = I.atoms.map((x, i) => [x, i]).filter(([x]) => x && /startsWith/.test(x.key + (x.text ?? "")) && /"px\."/.test(x.text ?? I.showAtom(I.atoms.indexOf(x))) && mentions(I, x.l ? I.one(x.l) : I.one(src), (z) => z === src)).map(([, i]) => i);
            C.ob("only-prefixed-keys", sw.some((v) => imp(I, d.g, b.varNode(v))), SF, `${name}: a key is taken only when it starts with the prefix and a dot`, name);
            C.ob("value-of-that-key", d.v.alts.every((x) => x.l.t === "s" && ((x.l.op === "get" && I.single(x.l.args[1].alts ? x.l.args[1] : I.c(x.l.args[1])) === src && mentions(I, x.l.args[0], isSecret)) || /^(val|value|entryval|eval)/.test(x.l.op))), SF, `${name}: each key carries its own value`, name);
            const full = b.assign(d.g, (v) => (sw.includes(v) ? 1 : I.atoms[v].kind === "iter" ? 1 : I.atoms[v].kind === "eq" && d.v.alts.some((x) => x.l === I.atoms[v].l) ? 0 : undefined));
            C.ob("all-prefixed-keys", full === 1, SF, `${name}: every non-empty prefixed key is taken`, name);
          }
        }
        C.ob("anchor", n > 0, SF, `${name}: ${n} projections`);
      }
      { // no prefix: the secret itself
        const I = C.interp({ globals: createdClients });
        const r = I.runFn(I.valueOfExport(SF, "getSecret"), [I.c("id")]);
        const fetches = r.events.filter(isFetch);
        C.ob("whole-secret", r.value.alts.every((a) => I.bdd.and(a.g, r.retG) === 0 || (/JSON\.parse/.test(a.l.op ?? "") && mentions(I, I.one(a.l), (x) => fetches.some((e) => isRes(x, e))))), SF, "without a prefix the whole secret is returned");
      }
      {
        const I = C.interp({ globals: createdClients });
        const b = I.bdd;
        const key = I.input("key", I.strTy());
        const r = I.runFn(I.valueOfExport(SF, "getFromEnvOrSecret"), [key, I.c("id")]);
        const fetches = r.events.filter(isFetch);
        const envL = [...I.leaves].filter((l) => l.t === "s" && l.op === "get" && /process\.env\.\$key$/.test(I.showLeaf(l)));
        C.ob("anchor", envL.length === 1 && fetches.length > 0, SF, "getFromEnvOrSecret: environment and secret both read");
        for (const l of envL) {
          const miss = I.eqConst(l, I.cl(undefined));
          C.ob("environment-first", fetches.every((e) => imp(I, e.g, miss)) && r.value.alts.every((a) => b.andAll([a.g, r.retG, b.not(miss)]) === 0 || a.l === l) && imp(I, b.not(miss), r.retG), SF, "a value set in the environment wins and the secret is not fetched");
          C.ob("then-secret", r.value.alts.every((a) => b.andAll([a.g, r.retG, miss]) === 0 || (a.l.op === "get" && I.show(I.one(a.l)).endsWith(".$key") && mentions(I, I.one(a.l), (x) => fetches.some((e) => isRes(x, e))))), SF, "otherwise the secret's value for the key is returned");
          const vals = r.value.alts.filter((a) => b.andAll([a.g, r.retG, miss]) !== 0);
          C.ob("missing-everywhere-throws", vals.length > 0 && vals.every((a) => b.andAll([a.g, r.retG, miss, I.eqConst(a.l, I.cl(undefined))]) === 0), SF, "a key in neither place is an error");
        }
      }
      { // region used for the client
        const I = C.interp();
        const b = I.bdd;
        const r = I.runFn(I.valueOfExport(SF, "getSecret"), [I.c("id")]);
        const news = r.events.filter((e) => e.kind === "new" && /SecretsManager/.test(e.name));
        C.ob("anchor", news.length > 0, SF, "client creation found");
        for (const e of news) {
          const reg = field(I, e.args[0], "region");
          const ov = [...I.leaves].find((l) => envLeaf(l, "SECRET_OVERRIDE_AWS_REGION"));
          C.ob("region", !!ov && reg.v.alts.every((a) => b.andAll([a.g, e.g, b.not(I.eqConst(ov, I.cl(undefined)))]) === 0 || a.l === ov) && reg.v.alts.every((a) => b.andAll([a.g, e.g, I.eqConst(ov, I.cl(undefined))]) === 0 || envLeaf(a.l, "AWS_REGION")), e.at, "the client uses the override region when set, else the function's own region");
        }
      }
    },
  },
};
function lastField(I, l) {
  if (l.t === "s" && l.op === "get") return typeof l.args[1] === "string" ? l.args[1] : constVal(I, l.args[1]);
  return undefined;
}
