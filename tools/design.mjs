// Rewrites DESIGN.md from tools/design-intro.md, properties.jsonl, MANIFEST.json, the checks and seeded/.
import fs from "node:fs"; import path from "node:path";
import { CHECKS } from "../checks/index.mjs";
const V = path.dirname(import.meta.dirname), rd = (f) => fs.readFileSync(path.join(V, f), "utf8");
const props = rd("properties.jsonl").trim().split("\n").map((l) => JSON.parse(l)), man = JSON.parse(rd("MANIFEST.json"));
let o = rd("tools/design-intro.md");
o += "### Repaired\n\n| property | commit | what failed |\n|---|---|---|\n";
for (const l of rd("known-findings.jsonl").split("\n")) { const m = /^fixed: property=(\w+) (\w+) (.*)$/.exec(l); if (m) o += `| ${m[1]} | ${m[2]} | ${m[3]} |\n`; }
o += "\n## 4. Properties and how each is decided\n\nRule names are those in the evidence; the number is how many instances the unchanged tree has.\n\n";
for (const p of props) {
  const c = man.checks.find((x) => x.property === p.id); if (!c) continue;
  const k = CHECKS[p.id]; let ev; try { ev = JSON.parse(rd(`evidence/${p.id}.json`)); } catch { /* none yet */ }
  o += `### ${p.id} ${p.title}\n\n${p.statement}\n\n`;
  o += `* Over: ${p.quantifier.over.join(", ")} — ${p.quantifier.text}.\n* Why tests cannot settle it: ${p.why_tests_cant}\n`;
  o += `* Method: ${c.technique}. ${k.explain ?? ""}\n`;
  if (k.assumptions?.length) o += `* Assumes: ${k.assumptions.join(" ")}\n`;
  if (k.bounds) o += `* Bounds: ${k.bounds}\n`;
  o += `* Anchors: ${p.anchors.files.map((f) => `\`${f}\``).join(", ")}.\n`;
  if (ev) o += `* Rules: ${Object.entries(ev.coverage.rules).map(([r, n]) => `${r} ${n}`).join(", ")}.\n`;
  o += "\n";
}
o += "## 5. Not applicable\n\n";
for (const n of man.not_applicable) { const p = props.find((x) => x.id === n.property); o += `* **${n.property} ${p.title}** — ${n.reason}\n`; }
o += "\n## 6. Planted changes and what catches them\n\nEach compiles, passes the 278 stable tests and has a demonstration that fails only with it.\n\n| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n";
const caught = JSON.parse(fs.existsSync(path.join(V, "tools/caught.json")) ? rd("tools/caught.json") : "{}");
for (const d of fs.readdirSync(path.join(V, "seeded")).sort()) { const m = JSON.parse(rd(`seeded/${d}/meta.json`)); o += `| ${d} | ${m.property} | ${m.what_it_breaks} | ${m.needs} | ${caught[d] ?? m.property} |\n`; }
fs.writeFileSync(path.join(V, "DESIGN.md"), o);
