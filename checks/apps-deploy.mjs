// A05, A06: what the application stacks deploy fits the code that runs in it.
import path from "node:path";
import { loc, field } from "./kit.mjs";
import { arg } from "./infra-kit.mjs";
import { deployed, functionsOf, buildOutputs, lambdaReads, endpoints, templateEvent, eventNames, text, leaf1 } from "./deploy-kit.mjs";

const selfOf = (e) => { const s = e.self?.alts ? e.self.alts[0].l : e.self; return s; };
export const isConstruct = (e) => (l) => (e.kind === "super" ? l === selfOf(e) : l?.t === "s" && l.op === "res" && l.ev === e);
// source file and export a deployed function runs: {file, name} or undefined when it is not built from lambda sources
export function codeOf(C, f) {
  if (f.docker || !f.asset || !f.handler) return undefined;
  const B = buildOutputs(C, f.S.app);
  if (!B.ok) return undefined;
  const i = f.handler.lastIndexOf("/"), base = f.handler.slice(i + 1), dot = base.indexOf(".");
  if (dot < 0) return undefined;
  const p = path.posix.join(f.asset, f.handler.slice(0, i + 1), base.slice(0, dot)), name = base.slice(dot + 1);
  const out = [".mjs", ".js", ".cjs"].map((x) => p + x).find((x) => B.map.has(x));
  return { file: out && `${f.S.app}/${B.map.get(out)}`, name, p };
}
const RUNTIME = /^(AWS_REGION|AWS_DEFAULT_REGION|AWS_LAMBDA_\w+|AWS_EXECUTION_ENV|AWS_ACCESS_KEY_ID|AWS_SECRET_ACCESS_KEY|AWS_SESSION_TOKEN|LAMBDA_\w+|TZ|LANG|PATH|_HANDLER|NODE_ENV)$/;
// guard under which an environment has the key: given outright, or from a setting that is itself present
function provided(I, f, key) {
  const b = I.bdd;
  const one = (env) => {
    const x = field(I, env, key);
    let ok = 0, set = 1;
    for (const a of x.v.alts) {
      if (a.l.t === "c" && a.l.v === undefined) continue;
      ok = b.or(ok, b.and(a.g, x.has));
      if (a.l.t === "s") for (const k of [undefined, null, ""]) set = b.and(set, b.not(I.eqConst(a.l, I.cl(k))));
    }
    return { ok, set };
  };
  let { ok, set } = one(f.env);
  for (const e of f.S.r.events) if (e.kind === "call" && /addEnvironment$/.test(e.name ?? "") && e.recv?.alts?.some((a) => isConstruct(f.e)(a.l)) && text(I, arg(e, 0)) === key) ok = b.or(ok, e.g);
  // an environment that is not a plain object is not decided
  if (ok === 0 && f.env.alts.some((a) => a.l.t === "s" && a.l.op !== "obj")) return undefined;
  return ok === 0 ? 0 : b.implies(b.and(f.e.g, set), ok) ? 1 : 2;
}
const stacksOf = (C) => { const D = deployed(C); for (const S of D) for (const x of S.r.events.slice(0, 1)) C.analysed.add(x.at ?? S.file); return D; };

export const appsDeploy = {
  A05: {
    explain: "Every application stack is constructed symbolically; for each function the asset directory and handler name are matched with what the shared build configuration (interpreted over the application's lambda sources) produces, and every setting its code cannot do without (resolved call graph from the module's loading and its handler) with the environment it is deployed with.",
    assumptions: ["esbuild places outputs relative to the lowest common directory of its entry points.", "Python, Docker and otherwise packaged functions are not built from these sources and are not decided."],
    run(C) {
      let und = 0;
      for (const S of stacksOf(C)) for (const f of functionsOf(S)) {
        const I = S.I, code = codeOf(C, f);
        if (!code) { und++; continue; }
        const at = `${S.file} ${f.handler}`, nm = `${S.app} ${code.p}`;
        C.ob("handler-file", !!code.file, f.e.at, `${nm}: the build produces the module the function is told to load (${f.asset} / ${f.handler})`, `file ${S.app} ${f.handler}`);
        if (!code.file) continue;
        const R = lambdaReads(code.file, code.name);
        C.ob("handler-exported", R.exported, code.file, `${nm}: ${code.file} exports ${code.name}`, `export ${code.file}`);
        if (!R.exported) continue;
        C.analysed.add(code.file);
        for (const [k, o] of R.reads) {
          if (R.sets.has(k) || RUNTIME.test(k)) continue;
          const p = provided(I, f, k);
          if (p === undefined) { und++; continue; }
          C.ob("setting-provided", p === 1, f.e.at, `${nm}: ${k}, read ${o.init ? "when the module is loaded" : "by the handler"} at ${loc(o.node)}, is in the function's environment${p === 2 ? " only in some configurations" : ""}`, `env ${code.file} ${k}`);
        }
      }
      C.ob("undecided-noted", true, "(summary)", `${und} functions or settings packaged in other ways are not decided`, "und");
      C.min("handler-file", 40); C.min("setting-provided", 60);
    },
  },
  A06: {
    explain: "For every method of every application API: the parameters it declares, the variables of its path, the mapping or request template of its integration (constant text, executed abstractly) and the names its handler reads from the event, compared by name and by source.",
    assumptions: ["A handler whose event is used in a way that hides the names read is not decided."],
    run(C) {
      const readBy = new Map(), wholes = new Set();
      for (const S of stacksOf(C)) {
        const I = S.I, fns = functionsOf(S);
        for (const e of endpoints(S)) {
          if (!e.ie || !e.method) continue;
          const nm = `${e.method} /${e.path.join("/")} of ${S.app}`, at = e.e.at, k = `${S.app} ${e.method} ${e.path.join("/")}`;
          const vars = e.path.map((p) => /^\{(\w+)\+?\}$/.exec(p)?.[1]).filter(Boolean);
          const declared = e.params && [...e.params.keys()].map((x) => /^method\.request\.(\w+)\.(.+)$/.exec(x)).filter(Boolean).map((m) => ({ kind: m[1], name: m[2] }));
          for (const d of declared ?? []) if (d.kind === "path") C.ob("path-variable", vars.includes(d.name), at, `${nm}: the declared path parameter ${d.name} is a variable of the path`, `${k} ${d.name}`);
          if (/^AwsIntegration|HttpIntegration$/.test(e.kind)) {
            const map = e.io && field(I, e.io, "requestParameters").v, l = leaf1(map);
            const fs_ = l?.t === "o" ? l.rec.props : l?.t === "s" && l.op === "obj" ? l.fields : undefined;
            const target = text(I, field(I, e.ip, "path").v) ?? I.show(field(I, e.ip, "path").v);
            for (const [to, p] of fs_ ?? []) {
              const from = text(I, p.v), m = /^method\.request\.(\w+)\.(.+)$/.exec(from ?? ""), t = /^integration\.request\.path\.(.+)$/.exec(to);
              if (m && declared) C.ob("mapping-source", declared.some((d) => d.kind === m[1] && d.name === m[2]), at, `${nm}: ${to} is mapped from a parameter the method declares (${from})`, `${k} ${to}`);
              if (m && m[1] === "path") C.ob("mapping-source", vars.includes(m[2]), at, `${nm}: ${from} is a variable of the path`, `${k} ${to}`);
              if (t && target !== undefined) C.ob("mapping-target", target.includes(`{${t[1]}}`), at, `${nm}: ${to} has a place in the target path ${target}`, `${k} ${to}`);
            }
            if (fs_) for (const v of vars) C.ob("variable-used", [...fs_.values()].some((p) => text(I, p.v) === `method.request.path.${v}`), at, `${nm}: the path variable ${v} reaches the target`, `${k} ${v}`);
            if (target !== undefined) for (const v of target.matchAll(/\{(\w+)\}/g)) C.ob("mapping-target", !!fs_?.has(`integration.request.path.${v[1]}`), at, `${nm}: the place {${v[1]}} of the target path is filled`, `${k} to ${v[1]}`);
            continue;
          }
          if (!e.lambda || !/LambdaIntegration$/.test(e.kind)) continue;
          const fn = fns.find((f) => isConstruct(f.e)(e.lambda));
          const code = fn && codeOf(C, fn);
          // an event whose shape is not decided here may hold any name
          const whole = () => { if (code?.file) wholes.add(code.file); };
          const proxied = !e.proxy || e.proxy.alts.some((a) => !(a.l.t === "c" && a.l.v === false));
          if (proxied) { whole(); continue; }
          if (e.template === undefined && e.io && leaf1(field(I, e.io, "requestTemplates").v)?.t !== "c") { whole(); continue; }
          let te;
          if (e.template !== undefined) { try { te = templateEvent(e.template); } catch { te = undefined; } if (!te) { whole(); continue; } }
          const pass = (n, kind) => te && (te.names.has(n) || (te.all && kind === "querystring"));
          if (e.template !== undefined || declared?.length) for (const d of declared ?? []) {
            if (!["querystring", "path"].includes(d.kind)) continue;
            C.ob("declared-passed", pass(d.name, d.kind), at, `${nm}: the declared parameter ${d.name} is passed to the function`, `${k} ${d.name}`);
            const src = te?.names.get(d.name);
            if (src?.size) C.ob("passed-from", [...src].every((s) => s.includes(`[${d.kind}]`) || s.includes(`[multivalue${d.kind}]`) || /^\$input\.params\(\w+\)$/.test(s)), at, `${nm}: ${d.name} is taken from the ${d.kind}`, `${k} from ${d.name}`);
          }
          for (const v of vars) C.ob("variable-used", pass(v, "path"), at, `${nm}: the path variable ${v} is passed to the function`, `${k} ${v}`);
          const en = code?.file && eventNames(code.file, code.name);
          if (!en) continue;
          const key = `${code.file}`;
          if (!readBy.has(key)) readBy.set(key, { en, gets: new Set(), all: false, eps: [], S });
          const rb = readBy.get(key);
          for (const n of te?.names.keys() ?? []) rb.gets.add(n);
          for (const d of declared ?? []) rb.gets.add(d.name);
          rb.all ||= !!te?.all && declared === undefined;
          rb.eps.push(nm);
          if (en.open) continue;
          for (const n of new Set([...(te?.names.keys() ?? []), ...(declared ?? []).filter((d) => /^(querystring|path)$/.test(d.kind)).map((d) => d.name)])) C.ob("passed-read", en.names.has(n), at, `${nm}: ${n} is a name the handler reads (${[...en.names.keys()].join(", ") || "none"})`, `${k} read ${n}`);
        }
      }
      for (const [file, rb] of readBy) {
        if (rb.en.open || rb.all || wholes.has(file)) continue;
        for (const [n, node] of rb.en.names) {
          C.ob("read-passed", rb.gets.has(n), loc(node), `${file} reads ${n}, which an endpoint of it passes (${rb.eps[0]})`, `${file} reads ${n}`);
        }
      }
      C.min("declared-passed", 25); C.min("passed-read", 25); C.min("read-passed", 20); C.min("variable-used", 6);
    },
  },
};
