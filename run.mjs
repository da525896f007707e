// Entry point: node run.mjs <ID|all> [--tier quick|thorough]
import fs from "node:fs";
import path from "node:path";
import { Check, VERIF, REPO, ts } from "./checks/kit.mjs";
import { CHECKS } from "./checks/index.mjs";

const args = process.argv.slice(2);
const tier = args.includes("--tier") ? args[args.indexOf("--tier") + 1] : "quick";
const ids = args[0] === "all" ? Object.keys(CHECKS) : [args[0]];
const known = [];
const kf = path.join(VERIF, "known-findings.jsonl");
if (fs.existsSync(kf)) for (const l of fs.readFileSync(kf, "utf8").split("\n")) if (l.trim().startsWith("{")) known.push(JSON.parse(l));
let rc = 0;
for (const id of ids) {
  const spec = CHECKS[id];
  if (!spec) { console.error(`no check ${id}`); process.exit(2); }
  const t0 = Date.now();
  const C = new Check(id, tier);
  try {
    spec.run(C);
  } catch (e) {
    if (!/ANCHOR/.test(e?.message ?? "") || process.env.VERIF_DEBUG) console.error(e?.stack ?? e);
    C.ob("anchor", false, "(analysis)", `the analysis could not complete: ${e?.message ?? e}`, "anchor");
  }
  const bad = C.violations();
  const fresh = [], kn = [];
  for (const v of bad) {
    const k = known.find((x) => x.property === id && x.status === "known" && x.rule === v.rule && x.key === v.key);
    (k ? kn : fresh).push({ ...v, known: k });
  }
  const fns = new Set(), uns = new Map();
  let inl = 0, opq = 0, loops = 0;
  for (const I of C.interps) { I.stats.fns.forEach((f) => fns.add(f)); inl += I.stats.inlined; opq += I.stats.opaque; loops += I.stats.loops; I.unsupported.forEach((v, k) => uns.set(k, v)); }
  const evd = {
    property: id, tier, seed: Number(process.env.VERIF_SEED ?? 1), level: spec.level ?? "other",
    coverage: {
      explanation: `${spec.explain ?? ""} Decided from the type-checked source of ${REPO} by gated value-graph abstract interpretation and resolved-syntax queries; nothing is executed.`,
      obligations: C.obs.length, discharged: C.obs.filter((o) => o.ok).length,
      rules: Object.fromEntries(C.rules), functions_analysed: fns.size + (C.extraFns ?? 0), calls_inlined: inl, opaque_calls: opq, loops_summarised: loops,
      functions: [...fns].sort().slice(0, 200), unsupported_constructs: Object.fromEntries(uns),
      samples: C.obs.slice(0, 40).map((o) => `${o.ok ? "ok" : "VIOLATED"} ${o.rule} @ ${o.where}: ${o.msg}`),
      ...(C.extra ?? {}),
    },
    assumptions: spec.assumptions ?? [],
    violations: fresh.map((v) => `${v.rule} @ ${v.where}: ${v.msg}`),
    wall_s: (Date.now() - t0) / 1000,
  };
  fs.mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
  fs.writeFileSync(path.join(VERIF, "evidence", `${id}.json`), JSON.stringify(evd, null, 1) + "\n");
  for (const v of kn) console.log(`KNOWN-FINDING: property=${id} ${v.known.what} (${v.where})`);
  if (fresh.length) {
    rc = 1;
    const rp = path.join(VERIF, "evidence", `${id}.violation.txt`);
    fs.writeFileSync(rp, fresh.map((v) => `${v.where}\n  rule: ${v.rule}\n  ${v.msg}\n`).join("\n") + `\nreplay: node ${path.join(VERIF, "run.mjs")} ${id}\n`);
    for (const v of fresh) console.log(`  ${v.where}: [${v.rule}] ${v.msg}`);
    console.log(`VIOLATION property=${id} replay=${rp}`);
  }
  console.log(`${id}: ${C.obs.length} obligations, ${fresh.length} violations, ${kn.length} known, ${fns.size} functions analysed, ${evd.wall_s.toFixed(1)}s`);
  if (args.includes("-v")) for (const o of C.obs) console.log(`   ${o.ok ? "ok " : "BAD"} ${o.rule} @ ${o.where}: ${o.msg}`);
  if (args.includes("-v") && uns.size) console.log("   unsupported:", uns);
}
process.exit(rc);
