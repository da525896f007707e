// Small shared functions: geometry, validity of identifiers and dates, environment and collections. Values are folded on the extracted value graph.
import { L, field, path_, calm, imp, or, constVal, ts } from "./kit.mjs";
import { lit, arg, calls, made, typeNamed } from "./infra-kit.mjs";
import { Fold, fold, foldG, NONE } from "./fold.mjs";
const GE = L("utils/geometry.ts"), ID = L("marine/id_utils.ts"), VA = L("types/validator.ts"), DU = L("utils/date-utils.ts"), ZU = L("utils/zod-utils.ts"), UT = L("utils/utils.ts");
const eq = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const num = (I) => I.checker.getNumberType();
const str = (I) => I.checker.getStringType();
// is the folded verdict what it should be? (a value that cannot be folded is not held against the code)
const decided = (x) => x !== NONE;

// ---------------------------------------------------------------- geometry
// Coordinates of the given shape: nested sizes with fresh numeric inputs at the positions
function coords(I, shape, env, st = { n: 0 }) {
  if (typeof shape === "number") { // a position with `shape` members
    const xs = []; for (let i = 0; i < shape; i++) { const n = `c${st.n++}`; env[n] = (st.n % 2 ? 1 : -1) * (st.n + 0.25); xs.push(I.input(n, num(I))); }
    return { v: lit(I, xs), plain: xs.map((_, i) => env[`c${st.n - shape + i}`]) };
  }
  const ks = shape.map((s) => coords(I, s, env, st));
  return { v: lit(I, ks.map((k) => k.v)), plain: ks.map((k) => k.plain) };
}
const wkt = {
  Point: (c) => `POINT(${c[0]} ${c[1]})`,
  LineString: (c) => `LINESTRING(${line(c)})`,
  Polygon: (c) => `POLYGON(${rings(c)})`,
  MultiPolygon: (c) => `MULTIPOLYGON(${c.map((p) => `(${rings(p)})`).join(",")})`,
};
const line = (c) => c.map((p) => `${p[0]} ${p[1]}`).join(",");
const rings = (c) => c.map((r) => `(${line(r)})`).join(",");
const norm = (t) => (typeof t === "string" ? t.replace(/\s*([(),])\s*/g, "$1").replace(/\s+/g, " ").trim().toUpperCase() : t);
const R = (n, k = 2) => Array(n).fill(k);
const SHAPES = {
  Point: [2, 3],
  LineString: [R(1), R(2), R(3), R(2, 3)],
  Polygon: [[R(3)], [R(2), R(2)], [R(1), R(2), R(1)]],
  MultiPolygon: [[[R(2)]], [[R(2)], [R(1)]], [[R(1), R(2)], [R(2)]], [[R(1)], [R(2)], [R(1), R(1)]]],
};
const toRad = (d) => (d * Math.PI) / 180;
const haversine = ([x1, y1], [x2, y2]) => 6371 * 2 * Math.asin(Math.min(1, Math.sqrt(Math.sin(toRad(y2 - y1) / 2) ** 2 + Math.cos(toRad(y1)) * Math.cos(toRad(y2)) * Math.sin(toRad(x2 - x1) / 2) ** 2)));

// the result on given arguments: what cannot be told from the result in general is evaluated with the arguments in place
const given = (C, file, fn, args) => { const I = C.interp({}), v = (x) => (Array.isArray(x) ? lit(I, x.map(v)) : I.c(x)), r = C.fn(I, file, fn, args.map(v)); return r.retG === 0 ? NONE : fold(I, r.value, {}); };
const or2 = (x, f) => (decided(x) ? x : f());

function geometry(C) {
  for (const [type, shapes] of Object.entries(SHAPES)) for (const sh of shapes) {
    const I = C.interp({}), env = {}, { v, plain } = coords(I, sh, env);
    const r = C.fn(I, GE, "createGeometry", [lit(I, { type, coordinates: v })]);
    const t = fold(I, r.value, env), key = `${type}-${JSON.stringify(sh)}`;
    C.ob("wkt", calm(I, r.throwG) === 0 && (!decided(t) || norm(t) === norm(wkt[type](plain))), GE, `${type} of shape ${JSON.stringify(sh)}: the text has each ring and position in its place (${String(t)})`, key);
    if (decided(t)) C.ob("wkt-decided", true, GE, key, key);
  }
  for (const type of ["MultiPoint", "MultiLineString", "GeometryCollection"]) {
    const I = C.interp({}), r = C.fn(I, GE, "createGeometry", [lit(I, { type, coordinates: I.input("co") })]);
    C.ob("unsupported", /^[A-Z]+ EMPTY$/.test(constVal(I, r.value) ?? "") && calm(I, r.throwG) === 0 && calls(r, /^log\.(error|warn)$/).some((e) => e.g === 1), GE, `${type}: told in the log and given as an empty geometry`, type);
  }
  for (const type of ["Point", "LineString", "Polygon"]) for (const sh of SHAPES[type]) for (const srs of [undefined, "EPSG:3067"]) {
    const I = C.interp({}), env = {}, { v, plain } = coords(I, sh, env);
    const r = C.fn(I, GE, "createGmlLineString", [lit(I, { type, coordinates: v }), ...(srs ? [I.c(srs)] : [])]);
    const t = fold(I, field(I, r.value, "posList").v, env), key = `${type}-${JSON.stringify(sh)}`;
    const want = plain.flat(4);
    const got = typeof t === "string" ? t.split(" ").map(Number) : [];
    C.ob("gml", calm(I, r.throwG) === 0 && (!decided(t) || (got.length === want.length && got.every((x, i) => Math.abs(x - want[i]) < 1e-6))), GE, `${type} of shape ${JSON.stringify(sh)}: the list has each number once, in order (${String(t)})`, key);
    C.ob("gml-srs", constVal(I, field(I, r.value, "srsName").v) === (srs ?? "EPSG:4326"), GE, `the reference system is ${srs ?? "the default"}`, key);
  }
  { const I = C.interp({}), r = C.fn(I, GE, "createGmlLineString", [lit(I, { type: "MultiPolygon", coordinates: I.input("co") })]);
    C.ob("gml-unsupported", r.throwG === 1, GE, "a geometry that has no position list is refused", "gml"); }
  { // precision: eight significant digits at least
    const I = C.interp({}), r = C.fn(I, GE, "createGmlLineString", [lit(I, { type: "Point", coordinates: lit(I, [I.input("x", num(I)), I.input("y", num(I))]) })]);
    const t = fold(I, field(I, r.value, "posList").v, { x: 24.9384123, y: -60.1699234 });
    C.ob("gml-precision", !decided(t) || t.split(" ").every((p, i) => Math.abs(Number(p) - [24.9384123, -60.1699234][i]) <= 0.5e-6), GE, `positions keep eight digits (${String(t)})`, "precision"); }
  { const I = C.interp({}), r = C.fn(I, GE, "createFeatureCollection", [I.input("features"), I.input("updated")]);
    C.ob("collection", constVal(I, field(I, r.value, "type").v) === "FeatureCollection" && I.show(field(I, r.value, "features").v) === "$features" && I.show(field(I, r.value, "lastUpdated").v) === "$updated" && r.throwG === 0, GE, "a collection has the features and time it was made of", "collection"); }
  // distances
  const P = [[0, 0], [0, 51.5], [24.94, 0], [23.761290078, 61.49774257], [27.688935, 62.892983], [-0.1, 51.5, 12], [179.9, -45], [-179.9, 45], [24.9, 60.1], [24.9001, 60.1]];
  for (const [fn, k] of [["distanceBetweenPositionsInKm", 1], ["distanceBetweenPositionsInM", 1000]]) {
    const I = C.interp({}), r = C.fn(I, GE, fn);
    for (const a of P) for (const b of P) {
      const env = { pos1: a, pos2: b }, d = or2(fold(I, r.value, env), () => given(C, GE, fn, [a, b])), w = haversine(a, b) * k, key = `${fn}-${a}-${b}`;
      C.ob("distance", !decided(d) || (typeof d === "number" && Math.abs(d - w) <= 0.006 * w + 1e-6 * k), GE, `${fn}: from ${a} to ${b} it is ${w.toFixed(3)} (${String(d)})`, key);
      C.ob("distance-any", foldG(I, calm(I, r.throwG), env) !== 1, GE, `${fn}: ${a} and ${b} are positions`, key);
    }
    for (const bad of [[], [1], [1, 2, 3, 4]]) for (const [x, y] of [[bad, P[3]], [P[3], bad]]) C.ob("distance-refused", foldG(I, r.throwG, { pos1: x, pos2: y }) !== 0, GE, `${fn}: ${JSON.stringify(bad)} is not a position`, fn);
  }
  { const I = C.interp({}), k = fold(I, C.fn(I, GE, "distanceBetweenPositionsInKm").value, { pos1: P[3], pos2: P[4] }), m = fold(I, C.fn(I, GE, "distanceBetweenPositionsInM").value, { pos1: P[3], pos2: P[4] });
    C.ob("distance-unit", !decided(k) || !decided(m) || Math.abs(k * 1000 - m) < 1e-6 * m, GE, "a kilometre is a thousand metres", "unit"); }
  { const I = C.interp({}), r = C.fn(I, GE, "areDistinctPositions");
    for (const [a, b] of [[[1, 2], [1, 2]], [[1, 2], [1, 2.5]], [[1, 2], [1.5, 2]], [[1, 2], [2, 1]], [[0, 0], [0, 0]], [[0, 0], [0, 1]], [[1, 2, 3], [1, 2, 4]], [[25, 60], [25.0000000001, 60]], [[25, 60], [25, 60.0000000001]], [[-0.00000001, 0], [0.00000001, 0]]]) {
      const x = or2(fold(I, r.value, { previous: a, next: b }), () => given(C, GE, "areDistinctPositions", [a, b]));
      C.ob("distinct", !decided(x) || x === (a[0] !== b[0] || a[1] !== b[1]), GE, `${a} and ${b}: distinct exactly when a coordinate differs (${String(x)})`, `${a}-${b}`);
    } }
}

// ---------------------------------------------------------------- validity
const imoOk = (n) => Number.isInteger(n) && n >= 1000000 && n <= 9999999 && [...String(n)].slice(0, 6).reduce((s, d, i) => s + Number(d) * (7 - i), 0) % 10 === n % 10;
function validity(C) {
  const each = (file, fn, name, values, want, rule, extra = {}) => {
    const I = C.interp({}), r = C.fn(I, file, fn);
    let n = 0;
    for (const v of values) {
      const x = or2(fold(I, r.value, { [name]: v, ...extra }), () => given(C, file, fn, [v, ...Object.values(extra)]));
      if (decided(x)) n++;
      C.ob(rule, !decided(x) || x === want(v), file, `${fn}(${JSON.stringify(v)}) is ${want(v)} (${String(x)})`, `${fn}-${v}`);
    }
    C.ob("validity-total", calm(I, r.throwG) === 0, file, `${fn} answers and never throws`, fn);
    C.ob("validity-decided", true, file, `${fn}: ${n} of ${values.length} classes folded`, fn);
  };
  const imos = [9074729, 1000000, 9999999, 999999, 10000000, 0, -9074729, 9074729.5, NaN, Infinity, 90747291, 907472];
  // one number for every value of every digit, and every check digit
  for (let p = 0; p < 6; p++) for (let d = p ? 0 : 1; d < 10; d++) for (let c = 0; c < 10; c++) { const t = [..."900000"]; t[p] = d; imos.push(Number(t.join("") + c)); }
  for (let i = 1; i < 60; i++) { const b = (123457 * i + 654321 * (i % 7)) % 900000 + 100000; const s = [...String(b)].reduce((q, d, j) => q + d * (7 - j), 0) % 10; imos.push(b * 10 + s, b * 10 + ((s + 1 + (i % 9)) % 10)); }
  each(ID, "isValidIMO", "imo", imos, imoOk, "imo");
  each(ID, "isValidMMSI", "mmsi", [100000000, 999999999, 99999999, 1000000000, 230123450, 230123450.5, 0, -230123450, NaN, Infinity], (n) => Number.isInteger(n) && n >= 1e8 && n < 1e9, "mmsi");
  each(ID, "isValidLOCODE", "locode", ["FIHEL", "fihel", "FiKtk", "SEHEL", "FIHE", "FIHELX", " FIHEL", "FIHEL ", "FI123", "FIHE1", "", "xFIHEL", "FIÅLX", "FIHEL\nx"], (s) => /^FI[A-Z]{3}$/i.test(s), "locode");
  each(VA, "validateMonth", "month", [-1, 0, 1, 2, 6, 11, 12, 13, 100], (m) => m >= 1 && m <= 12, "month");
  each(VA, "validateYear", "year", [1899, 1900, 1901, 2000, 2099, 2100, 2101, -1, 0], (y) => y >= 1900 && y <= 2100, "year", { minYear: undefined, maxYear: undefined });
  each(VA, "validateYear", "year", [1989, 1990, 2005, 2010, 2011, 1900, 2100], (y) => y >= 1990 && y <= 2010, "year-own", { minYear: 1990, maxYear: 2010 });
  const dated = (I, env) => { const F = new Fold(I, (l) => (l.t === "s" && l.op === "in" && l.args[0] in env ? env[l.args[0]] : undefined)); return F; };
  for (const [fn, d] of [["countDiffMs", 1], ["countDiffInSeconds", 1000]]) {
    const I = C.interp({}), r = C.fn(I, DU, fn);
    for (const [a, b] of [[0, 5000], [5000, 0], [1700000000123, 1700000061123], [7, 7], [-1000, 1000]]) {
      const x = dated(I, { start: new Date(a), end: new Date(b) }).value(r.value);
      C.ob("period", !decided(x) || x === (b - a) / d, DU, `${fn} from ${a} to ${b} is ${(b - a) / d} (${String(x)})`, `${fn}-${a}-${b}`);
    }
  }
  { const I = C.interp({}), v = I.valueOfExport(DU, "EPOCH"), x = new Fold(I, () => undefined).value(v);
    C.ob("epoch", !decided(x) || (x instanceof Date && x.getTime() === 0), DU, `the epoch is the start of 1970 (${String(x)})`, "epoch"); }
  { const I = C.interp({}), r = C.fn(I, DU, "dateFromIsoString");
    for (const t of ["2024-02-29T12:00:00Z", "2024-01-01", "1969-12-31T23:59:59.999Z", "1970-01-01T00:00:00Z", "2024-13-01", "x", "", "2024-02-30T99:00:00Z"]) {
      const bad = Number.isNaN(new Date(t).getTime()), F = dated(I, { isoString: t });
      const g = F.guard(calm(I, r.throwG)), x = F.value(r.value);
      C.ob("iso", g === NONE || (g === 1) === bad, DU, `"${t}" is ${bad ? "refused" : "a date"}`, t);
      if (!bad) C.ob("iso-value", !decided(x) || (x instanceof Date && x.getTime() === new Date(t).getTime()), DU, `"${t}" becomes its own time`, t);
    } }
  { const I = C.interp({}), r = C.fn(I, DU, "dateToUTCString");
    const f = calls(r, /date-fns#format$|^format$/)[0], tz = made(r, /TZDate$/)[0];
    if (f) C.ob("utc", !!tz && constVal(I, arg(tz, 1)) === "UTC" && I.show(arg(tz, 0)) === "$date" && I.show(arg(f, 1)) === "$formatString" && arg(f, 0).alts.every((a) => a.l.t === "s" && (a.l.ev === tz || /TZDate$/.test(a.l.op))), f.at, "a date is written in UTC whatever the system's zone", "utc"); }
  // schema conversions
  const conv = { zStringToNumber: (t) => Number(t), zStringToDate: (t) => new Date(t).getTime() };
  for (const [fn, of] of Object.entries(conv)) for (const own of [undefined, "own"]) {
    const I = C.interp({}), r = C.fn(I, ZU, fn, own ? [I.c(own)] : []);
    const tr = calls(r, /^transform$/)[0];
    C.ob("conversion", !!tr && calls(r, /zod#string$|^string$/).length > 0, ZU, `${fn} converts a text`, fn);
    if (!tr) continue;
    const q = I.run(() => I.call(arg(tr, 0), I.UNDEF, [I.input("val", str(I)), I.input("ctx")]));
    const issues = calls(q, /addIssue$/);
    for (const t of ["", "0", "5", "-1.5", "1e3", "abc", "2024-01-01T00:00:00Z", "2024-99-99", "12x"]) {
      const n = of(t), bad = t !== "" && Number.isNaN(n), F = dated(I, { val: t });
      const g = issues.map((e) => F.guard(e.g)), x = F.value(q.value);
      C.ob("conversion-issue", g.includes(NONE) || g.includes(1) === bad, ZU, `${fn}: "${t}" is ${bad ? "reported" : "accepted"}`, `${fn}-${t}`);
      if (!bad) C.ob("conversion-value", !decided(x) || (t === "" ? x === undefined : (x instanceof Date ? x.getTime() : x) === n), ZU, `${fn}: "${t}" becomes its own value, nothing becomes undefined (${String(x)})`, `${fn}-${t}`);
      else C.ob("conversion-never", !decided(x), ZU, `${fn}: "${t}" has no value`, `${fn}-${t}`);
    }
    for (const e of issues) C.ob("conversion-message", own ? constVal(I, field(I, arg(e, 0), "message").v) === own : typeof constVal(I, field(I, arg(e, 0), "message").v) === "string", e.at, `${fn}: the report has ${own ? "the given" : "a"} message`, fn);
  }
  { const I = C.interp({}), r = C.fn(I, ZU, "zNonEmptyString", []);
    const rf = calls(r, /^(refine|min)$/)[0];
    if (rf?.name === "refine") { const q = I.run(() => I.call(arg(rf, 0), I.UNDEF, [I.input("val", str(I))])); for (const t of ["", "x", " ", "0"]) { const x = fold(I, q.value, { val: t }); C.ob("non-empty", !decided(x) || !!x === (t !== ""), ZU, `"${t}" is ${t ? "accepted" : "refused"}`, `ne-${t}`); } } }
}

// ---------------------------------------------------------------- environment, collections
function helpers(C) {
  const setting = (I, fn, args, value) => { // value of the named environment variable
    const r = C.fn(I, UT, fn, args);
    const F = new Fold(I, (l) => (/^process\.env[.[]\$key\]?$/.test(I.showLeaf(l)) ? value : l.t === "s" && l.op === "in" && l.args[0] === "key" ? "KEY" : undefined));
    // `undefined` is a value here: decide tests on it by hand
    const undef = (g) => I.bdd.assign(g, (v) => { const a = I.atoms[v]; return a?.kind === "eq" && /^process\.env[.[]\$key/.test(I.showLeaf(a.l)) ? (a.k.t === "c" ? (a.k.v === value ? 1 : 0) : undefined) : undefined; });
    return { r, F, undef };
  };
  const shown = (I, v, undef) => { const out = new Set(); for (const a of v.alts) if (undef(a.g) !== 0) out.add(I.showLeaf(a.l)); return [...out].join("|"); };
  const KEY = (I) => I.input("key", str(I));
  const isVar = (t) => /^process\.env[.[]\$key\]?$/.test(t);
  for (const value of [undefined, "", "x"]) {
    const have = value !== undefined, nm = have ? JSON.stringify(value) : "missing";
    { const I = C.interp({}), { r, undef } = setting(I, "getEnvVariable", [KEY(I)], value);
      const t = undef(r.throwG);
      C.ob("env-required", have ? t === 0 : t === 1, UT, `a required variable that is ${nm} ${have ? "is given" : "is an error"}`, nm);
      if (have) C.ob("env-value", isVar(shown(I, r.value, undef)), UT, `the value is the variable's own (${nm})`, nm);
      else C.ob("env-named", mentionsKey(I, r.throwV), UT, "the error names the missing variable", nm); }
    { const I = C.interp({}), { r, undef } = setting(I, "getEnvVariableSafe", [KEY(I)], value);
      const res = r.value;
      const result = shown(I, field(I, res, "result").v, undef);
      C.ob("env-safe", undef(r.throwG) === 0 && result === (have ? '"ok"' : '"error"') && (!have || isVar(shown(I, field(I, res, "value").v, undef))), UT, `the safe way never throws and tells if the variable is there (${nm})`, nm); }
    { const I = C.interp({}), { r, undef } = setting(I, "getEnvVariableOrElse", [KEY(I), I.input("orElse")], value);
      const t = shown(I, r.value, undef);
      C.ob("env-else", undef(r.throwG) === 0 && (have ? isVar(t) : t === "$orElse"), UT, `the alternative is used exactly when the variable is missing (${nm}: ${t})`, nm); }
    { const I = C.interp({}), { r, undef } = setting(I, "getEnvVariableOr", [KEY(I), I.input("fn")], value);
      const called = or(I, r.events.filter((e) => e.kind === "call" && !e.recvCtl && !/^log/.test(e.name ?? "")).map((e) => undef(e.g)));
      C.ob("env-or", have ? called === 0 && isVar(shown(I, r.value, undef)) : called === 1, UT, `the alternative is asked for exactly when the variable is missing (${nm})`, nm); }
  }
  // collections
  const vals = [[], [1], [2], [1, 1], [1, 2], [2, 1], [2, 1, 1], [1, 2, 3], ["1"], [null], [undefined], [0], [""], null, undefined];
  for (const a of vals) for (const b of vals) {
    const I = C.interp({}), c = (x) => (Array.isArray(x) ? lit(I, x.map((y) => I.c(y))) : I.c(x));
    const r = C.fn(I, UT, "bothArraysHasSameValues", [c(a), c(b)]);
    const x = fold(I, r.value, {});
    const want = a == null || b == null ? a == null && b == null : a.every((v) => b.includes(v)) && b.every((v) => a.includes(v));
    C.ob("same-values", !decided(x) || x === want, UT, `${JSON.stringify(a)} and ${JSON.stringify(b)} ${want ? "have" : "have not"} the same values (${String(x)})`, `${JSON.stringify(a)}-${JSON.stringify(b)}`);
  }
  for (const fn of ["getFirst", "getLast"]) for (const xs of [[], [5], [3, 1, 2], [1, 2, 3], [10, 9, 1, 2], [2, 2, 1], [1, 3, 3, 1]]) for (const key of [undefined, (x) => x, (x) => -x]) {
    const I = C.interp({});
    const arr = lit(I, xs), nm = `${fn} of ${JSON.stringify(xs)}${key ? ` by ${key(1) > 0 ? "value" : "falling value"}` : ""}`;
    const kt = I.checker.getNonNullableType(I.checker.getTypeAtLocation(I.single(I.valueOfExport(UT, fn)).node.parameters[1]));
    const r = C.fn(I, UT, fn, [arr, ...(key ? [I.input("key", kt)] : [])]);
    if (!xs.length) { C.ob("empty-list", r.throwG === 1, UT, `${nm}: an empty list is an error`, nm); continue; }
    const F = new Fold(I, () => undefined);
    F.onRes = (l, G) => { const a = l.ev.args?.[0]; const x = a && G.value(a.spread ?? a); return x === NONE || x === undefined || !key ? NONE : key(x); };
    const x = F.value(r.value), s = key ? [...xs].sort((p, q) => key(p) - key(q)) : xs;
    C.ob("first-last", !decided(x) || x === s[fn === "getFirst" ? 0 : s.length - 1], UT, `${nm} is ${s[fn === "getFirst" ? 0 : s.length - 1]} (${String(x)})`, nm);
    C.ob("list-kept", eq(F.array(I.single(arr).rec.items), xs) || F.array(I.single(arr).rec.items) === NONE, UT, `${nm}: the list itself stays in its order`, nm);
    C.ob("first-last-total", calm(I, r.throwG) === 0, UT, `${nm}: gives an item`, nm);
  }
  // setters
  for (const [fn, key] of [["setEnvVariable", undefined], ["setEnvVariableAwsRegion", "AWS_REGION"], ["setSecretOverideAwsRegionEnv", "SECRET_OVERRIDE_AWS_REGION"]]) {
    const I = C.interp({}), r = C.fn(I, UT, fn, [...(key ? [] : [I.c("SOME")]), I.input("value", str(I))]);
    const st = r.events.filter((e) => e.kind === "set" && I.show(e.recv).startsWith("process.env"));
    C.ob("env-set", calm(I, r.throwG) === 0 && st.length === 1 && st[0].g === 1 && keyText(I, st[0]) === (key ?? "SOME") && I.show(st[0].args[0]) === "$value", UT, `${fn} stores its value under its own name`, fn);
  }
  // values
  for (const x of [undefined, null, 0, "", false, NaN, "x", 5]) { const I = C.interp({}), r = C.fn(I, UT, "isDefined", [I.c(x)]), t = fold(I, r.value, {}); C.ob("defined", !decided(t) || t === (x !== undefined && x !== null), UT, `${String(x)} is ${x == null ? "not " : ""}defined (${String(t)})`, `d-${String(x)}`); }
  { const I = C.interp({}), r = C.fn(I, UT, "getErrorMessage"), t = r.value.alts.map((a) => deepShow(I, I.one(a.l)));
    C.ob("error-text", calm(I, r.throwG) === 0 && r.value.alts.every((a) => a.l.t !== "c") && t.some((x) => /\.message/.test(x)) && t.every((x) => x.includes("$maybeError")), UT, "the text of an error has its message, any other value its own text", "error"); }
  // leaving keys out of nested data
  const D = [[{ a: 1, b: 2 }, ["a"]], [{ a: 1, b: { a: 2, c: 3, d: { a: 4, e: 5 } } }, ["a"]], [[{ a: 1 }, { b: 2, a: 3 }, 7], ["a"]], [{ x: [{ a: 1, y: [{ a: 2, z: 0 }] }], a: [1] }, ["a"]], [{ a: 1, b: 2, c: 3 }, ["a", "c"]], [{ a: 1, b: { c: 2, d: { c: 3, e: 4 } } }, ["a", "c"]], [[{ x: { c: 1, a: { c: 2 }, d: 5 } }], ["b", "a", "c"]], [{ a: 1 }, []], ["a", ["a"]], [null, ["a"]], [5, ["a"]], [{ a: null, b: null, c: "" }, ["a"]]];
  for (const [d, ks] of D) {
    const I = C.interp({ maxRec: 6 }), j = `${JSON.stringify(d)} without ${ks}`;
    const isObj = (x) => (x.t === "c" ? I.c(x.v !== null && typeof x.v === "object") : x.t === "o" ? I.c(true) : I.s("ext:isObject", [I.one(x)]));
    for (const n of ["es-toolkit#isObject", "es-toolkit/compat#isObject"]) I.natives.set(n, (args) => I.lift([args[0]], isObj));
    for (const n of ["es-toolkit#forIn", "es-toolkit/compat#forIn"]) I.natives.set(n, (args, node) => { const o = I.single(args[0]); if (o?.t !== "o" || !o.rec.props) return I.s("ext:forIn", args.map((a) => I.freeze(a))); for (const [k, p] of [...o.rec.props]) I.call(args[1], I.UNDEF, [p.v, I.c(k), args[0]], node); return args[0]; });
    const v = data(I, d), r = C.fn(I, UT, "omitDeep", [v, ...ks.map((k) => I.c(k))]);
    const got = plain(I, r.value), kept = plain(I, v);
    C.ob("omitted", got === NONE || eq(got, omit(d, ks)), UT, `${j}: ${JSON.stringify(got === NONE ? "?" : got)}`, j);
    C.ob("omit-source", kept === NONE || eq(kept, d), UT, `${j}: the data given stays as it was`, j);
  }
}
const keyText = (I, e) => (typeof e.key === "string" ? e.key : constVal(I, e.key) ?? e.name);
const data = (I, d) => (Array.isArray(d) ? lit(I, d.map((x) => data(I, x))) : d && typeof d === "object" ? lit(I, Object.fromEntries(Object.entries(d).map(([k, x]) => [k, data(I, x)]))) : I.c(d));
const omit = (d, ks) => (Array.isArray(d) ? d.map((x) => omit(x, ks)) : d && typeof d === "object" ? Object.fromEntries(Object.entries(d).filter(([k]) => !ks.includes(k)).map(([k, x]) => [k, omit(x, ks)])) : d);
// constant data of a value, or unknown
function plain(I, v) {
  if (v?.alts?.length !== 1) return NONE;
  const l = v.alts[0].l;
  if (l.t === "c") return l.v;
  if ((l.t === "o" && l.rec.kind === "array") || (l.t === "s" && l.op === "arr")) { const xs = (l.rec ?? l).items; if (xs.some((x) => x.each || x.spread || (x.g ?? 1) !== 1)) return NONE; const ys = xs.map((x) => plain(I, x.v)); return ys.includes(NONE) ? NONE : ys; }
  if (l.t === "o" && l.rec.kind === "object" && !(l.rec.rest ?? []).length && !(l.rec.dyn ?? []).length) { const o = {}; for (const [k, p] of l.rec.props) { if (p.has === 0) continue; const x = plain(I, p.v); if (p.has !== 1 || x === NONE) return NONE; o[k] = x; } return o; }
  if (l.t === "s" && l.op === "obj" && !l.rest.length) { const o = {}; for (const [k, f] of l.fields) { if (f.has === 0) continue; const x = plain(I, f.v); if (f.has !== 1 || x === NONE) return NONE; o[k] = x; } return o; }
  return NONE;
}
const mentionsKey = (I, v) => v !== undefined && deepShow(I, v).includes("$key");
function deepShow(I, v) { let out = ""; const seen = new Set(); const go = (x, d) => { if (!x || d > 12) return; for (const a of x.alts ?? [{ l: x }]) { const l = a.l; if (!l || seen.has(l)) continue; seen.add(l); out += I.showLeaf(l); if (l.t === "s") for (const y of l.args) if (y?.alts || y?.t) go(y, d + 1); if (l.t === "o") for (const p of l.rec.props?.values() ?? []) go(p.v, d + 1); if (l.t === "o") for (const y of l.rec.ctorArgs ?? []) go(y, d + 1); } }; go(v, 0); return out; }

export const utils = {
  U01: { explain: "Texts and distances are folded from the value graph of the geometry functions for nested shapes with symbolic coordinates.", run(C) { geometry(C); C.min("wkt", 10); C.min("distance", 150); } },
  U02: { explain: "Validity predicates and conversions are folded for each class of inputs that their guards tell apart.", run(C) { validity(C); C.min("imo", 500); } },
  U03: { explain: "Environment accessors are decided for missing, empty and set variables; list helpers on lists of every small shape.", run(C) { helpers(C); C.min("env-required", 3); C.min("same-values", 200); } },
};
