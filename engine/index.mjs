import { Interp } from "./interp.mjs";
import "./stmts.mjs";
import "./exprs.mjs";
export { Interp };
export { ts, rel, loc, libProgram, withOverlay, allProgram, REPO, LIB, appDirs, isTest } from "./program.mjs";
