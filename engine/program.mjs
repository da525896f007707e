// Builds type-checked ts.Programs over /repo's current working tree.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";

export const REPO = process.env.VERIF_REPO || "/repo";
export const LIB = path.join(REPO, "lib/digitraffic-common");

function loadTs() {
  const tries = [path.join(LIB, "node_modules/typescript"), "/opt/veriftools/node/node_modules/typescript"];
  for (const t of tries) {
    try {
      return createRequire(import.meta.url)(t);
    } catch {
      /* next */
    }
  }
  throw new Error("no typescript compiler found");
}
export const ts = loadTs();

function walk(dir, out = []) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    if (e.name === "node_modules" || e.name === "dist" || e.name === "cdk.out") continue;
    const p = path.join(dir, e.name);
    if (e.isDirectory()) walk(p, out);
    else if (e.name.endsWith(".ts")) out.push(p);
  }
  return out;
}
export const isTest = (f) => /\/__test__\/|\.test\.ts$|\/test\//.test(f);

export function libOptions() {
  const cfg = ts.readConfigFile(path.join(LIB, "tsconfig.json"), ts.sys.readFile);
  const parsed = ts.parseJsonConfigFileContent(cfg.config, ts.sys, LIB);
  return { ...parsed.options, noEmit: true, incremental: false, tsBuildInfoFile: undefined };
}

let libCache;
export function libProgram(over) {
  if (libCache && !over) return libCache;
  const files = walk(path.join(LIB, "src")).filter((f) => !isTest(f));
  const options = libOptions();
  const host = ts.createCompilerHost(options, true);
  if (over) {
    const gs = host.getSourceFile.bind(host);
    const base = libCache?.program;
    host.getSourceFile = (f, ...a) => (over[f] !== undefined ? ts.createSourceFile(f, over[f], a[0], true) : base?.getSourceFile(f) ?? gs(f, ...a));
  }
  const program = ts.createProgram(over ? [...files, ...Object.keys(over).filter((f) => !files.includes(f))] : files, options, host);
  const r = { program, checker: program.getTypeChecker(), files };
  if (over) return r;
  libCache = r;
  return libCache;
}
// development aid: make libProgram() answer with an edited program
export function withOverlay(over, f) {
  const base = libProgram();
  const p = libProgram(over);
  libCache = p;
  try { return f(p); } finally { libCache = base; }
}

// All application directories: those with package.json + src outside lib/
export function appDirs() {
  const out = [];
  for (const area of ["aviation", "marine", "other", "rail", "road", "template"]) {
    const base = path.join(REPO, area);
    if (!fs.existsSync(base)) continue;
    for (const n of fs.readdirSync(base).sort()) {
      const d = path.join(base, n);
      if (fs.existsSync(path.join(d, "package.json")) && fs.existsSync(path.join(d, "src"))) out.push(d);
    }
  }
  return out;
}

// One program for the library and every application; @digitraffic/common/dist/X is mapped to the library's src/X.ts
let allCache;
export function allProgram() {
  if (allCache) return allCache;
  const dirs = appDirs();
  const appFiles = dirs.flatMap((d) => walk(path.join(d, "src"))).filter((f) => !isTest(f));
  const libFiles = walk(path.join(LIB, "src")).filter((f) => !isTest(f));
  const options = { ...libOptions(), rootDir: undefined, outDir: undefined, declaration: false, noUnusedLocals: false, noUnusedParameters: false, resolveJsonModule: true, types: ["node"], typeRoots: [path.join(LIB, "node_modules/@types")] };
  const host = ts.createCompilerHost(options, true);
  const cache = ts.createModuleResolutionCache(REPO, (x) => x, options);
  const libContaining = path.join(LIB, "src/index.ts");
  host.resolveModuleNameLiterals = (lits, containing, redirected, opts, sf) =>
    lits.map((l) => {
      const name = l.text;
      const mode = ts.getModeForUsageLocation(sf, l, opts);
      const m = /^@digitraffic\/common\/dist\/(.*)$/.exec(name);
      if (m) {
        const sub = m[1].replace(/^test\//, "__test__/").replace(/\.js$/, "");
        const f = path.join(LIB, "src", sub + ".ts");
        if (fs.existsSync(f)) return { resolvedModule: { resolvedFileName: f, extension: ".ts", isExternalLibraryImport: false } };
        return { resolvedModule: undefined };
      }
      let r = ts.resolveModuleName(name, containing, opts, host, cache, redirected, mode);
      if (!r.resolvedModule && !name.startsWith(".")) r = ts.resolveModuleName(name, libContaining, opts, host, cache, redirected, mode);
      return r;
    });
  const toolFiles = walk(path.join(REPO, "tools/esbuild/src")).filter((f) => !isTest(f));
  const program = ts.createProgram([...libFiles, ...appFiles, ...toolFiles], options, host);
  allCache = { program, checker: program.getTypeChecker(), files: [...libFiles, ...appFiles], appFiles, dirs };
  return allCache;
}

export const rel = (f) => path.relative(REPO, f);
export function loc(node) {
  const sf = node.getSourceFile();
  const { line, character } = sf.getLineAndCharacterOfPosition(node.getStart(sf));
  return `${rel(sf.fileName)}:${line + 1}:${character + 1}`;
}
