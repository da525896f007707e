import { L, imp, calm, or, alts, isRes, reach, mentions, named, field, dig, path_, constVal, attempt, obj, arr, method, ts, eqC, atNums, paramOf } from "./kit.mjs";
import { parseVtl, runVtl } from "../engine/vtl.mjs";

const PROXY = L("aws/types/lambda-proxy-types.ts");
const RESP = L("aws/types/lambda-response.ts");
const INTEG = L("aws/infra/api/integration.ts");
const INTRESP = L("aws/runtime/digitraffic-integration-response.ts");
const EVENT = L("utils/lambda-proxy-event.ts");
const MAX = 6 * 1024 * 1024;

const at = (C, I, v) => C.lastAt ?? "";
const has = (I, l, p) => mentions(I, I.one(l), p);
const isGzip = (l) => l.t === "s" && /gzipSync$/.test(l.op);
// guard under which the value's leaves satisfy p
const when = (I, v, p) => or(I, v.alts.filter((a) => p(a.l)).map((a) => a.g));
const boolG = (I, v) => I.truth(v);
const isB64Of = (I, l, p) => l.t === "s" && l.op === "ext:toString" && constVal(I, l.args[1]?.alts ? l.args[1] : I.one(l.args[1])) === "base64" && p(single(I, l.args[0]));
const single = (I, a) => { const v = a?.alts ?? [{ l: a }]; return v.length === 1 ? v[0].l : undefined; };
const asVal = (I, a) => (a?.alts ? a : I.one(a));
// Buffer.from(x[, enc]): [x, enc]
const bufFrom = (I, l) => (l?.t === "s" && /Buffer\.from$/.test(l.op) ? [asVal(I, l.args[1]), l.args[2] === undefined ? "utf8" : constVal(I, asVal(I, l.args[2])) ?? "utf8"] : undefined);
// every alternative of v (where satisfiable with pc) is the text of `body`: the string itself or its JSON
const isText = (I, v, body, pc = 1) => alts(I, v, pc).every((a) => textLeaf(I, a.l, body));
const textLeaf = (I, l, body) => body.alts.some((b) => l === b.l) || (l.t === "s" && l.op === "json" && asVal(I, l.args[0]).alts.every((x) => body.alts.some((b) => b.l === x.l))) || (l.t === "c" && l.v === "");

// the leaves measuring the response: byte length of its JSON
function sizeLeaves(I, key) {
  const out = new Set();
  for (const a of I.atoms) if (a?.kind === "lt" || a?.kind === "eqlin") for (const [l] of a.norm ?? []) {
    if (l.t === "s" && /byteLength|\.length$|^get$|encode/.test(l.op) && has(I, l, (x) => x.t === "s" && x.op === "json" && has(I, x, (y) => (y.t === "s" && y.op === "obj" && y.fields.has(key)) || (y.t === "o" && y.rec.props?.has(key))))) out.add(l);
  }
  return [...out];
}
const inBytes = (l) => /byteLength$/.test(l.op) || (l.op === "get" && l.args[1] === "length" && has0(l, (x) => /Buffer\.from$|encode$/.test(x.op ?? "")));
const has0 = (l, p) => { const st = [...l.args]; while (st.length) { const a = st.pop(); if (a?.alts) a.alts.forEach((x) => st.push(x.l)); else if (a?.t) { if (p(a)) return true; if (a.op !== "obj" && a.op !== "json") st.push(...(a.args ?? [])); } } return false; };

export const responses = {
  P01: {
    explain: "The proxy response builder is driven with a symbolic body, encoding flag, status, compression choice and headers, in both orders of body and compression; the response returned is read back field by field under the guard of each path.",
    run(C) {
      for (const debug of [false, true]) for (const order of debug ? ["body first", "compression first"] : ["body first", "compression first", "everything set twice"]) {
        const I = C.interp({ maxRec: 3 });
        const b = I.bdd;
        const name = `${order}${debug ? ", debug" : ""}`;
        const cls = I.valueOfExport(PROXY, "LambdaProxyResponseBuilder");
        const P = {}; for (const [k, m, i] of [["body", "withBody", 0], ["b64", "withBody", 1], ["status", "withStatus", 0], ["comp", "withCompression", 0], ["file", "withFileName", 0], ["time", "withTimestamp", 0], ["loc", "withLocation", 0], ["type", "withContentType", 0]]) P[k] = paramOf(I, cls, m, i, k);
        const nn = (v, x) => b.not(I.eqConst(v.alts[0].l, I.cl(x)));
        const given = b.andAll([nn(P.body, undefined), nn(P.body, null), b.or(isType(I, P.body, "string"), nn(P.body, ""))]);
        let at0 = PROXY;
        const r = I.run(() => {
          I.pc = b.and(I.pc, given);
          let x;
          if (order === "body first") { x = method(I, cls, "create", [P.body, P.b64]); x = method(I, x, "withCompression", [P.comp]); }
          else if (order === "everything set twice") { x = method(I, cls, "create", [I.c("an earlier text"), I.FALSE]); for (const [m, v] of [["withStatus", 418], ["withContentType", "earlier/type"], ["withFileName", "earlier"], ["withLocation", "/earlier"]]) x = method(I, x, m, [I.c(v)]); x = method(I, x, "withCompression", [P.comp]); x = method(I, x, "withBody", [P.body, P.b64]); }
          else { x = method(I, cls, "create", []); x = method(I, x, "withCompression", [P.comp]); x = method(I, x, "withBody", [P.body, P.b64]); }
          x = method(I, x, "withStatus", [P.status]);
          x = method(I, x, "withContentType", [P.type]);
          x = method(I, x, "withFileName", [P.file]);
          x = method(I, x, "withTimestamp", [P.time]);
          x = method(I, x, "withLocation", [P.loc]);
          if (debug) x = method(I, x, "withDebug", []);
          return method(I, x, "build", []);
        });
        const sizes = sizeLeaves(I, "statusCode").filter(inBytes);
        C.ob("size-measured", sizes.length >= 1, at0, `${name}: the size compared with the limit is the response's JSON in bytes`, "size");
        if (!sizes.length) continue;
        const mains = sizes.filter((l) => has(I, l, (x) => x === P.body.alts[0].l));
        const main = mains[0];
        C.ob("size-measured", mains.length === 1, at0, `${name}: one measure of the response decides`, "size");
        // a fixed short message is never too large itself
        const sizeIs = (g, n) => atNums(I, g, (l) => (l === main ? n : sizes.includes(l) ? 1000 : undefined));
        const R = calm(I, r.retG);
        const within = (v, g) => v.alts.filter((a) => b.and(sizeIs(a.g, 1000), g) !== 0);
        const ok = sizeIs(R, 1000), max = sizeIs(R, MAX), big = sizeIs(R, MAX + 1);
        const st = field(I, r.value, "statusCode").v;
        const mine = when(I, st, (l) => l === P.status.alts[0].l || (l.t === "c" && l.v !== 400));
        C.ob("status", imp(I, ok, sizeIs(when(I, st, (l) => l === P.status.alts[0].l), 1000)) && ok !== 0, at0, `${name}: the response has the status asked for`, "status");
        C.ob("size-limit", imp(I, max, sizeIs(mine, MAX)), at0, `${name}: a response of exactly 6 MiB is sent as it is`, "limit");
        C.ob("size-limit", big !== 0 && imp(I, big, sizeIs(eqC(I, st, 400), MAX + 1)), at0, `${name}: a response larger than 6 MiB becomes a 400`, "limit");
        const bigG = b.and(big, sizeIs(eqC(I, st, 400), MAX + 1));
        C.ob("too-large-text", alts(I, dig(I, r.value, "body"), bigG).every((a) => b.and(sizeIs(a.g, MAX + 1), bigG) === 0 || (a.l.t === "c" && typeof a.l.v === "string" && a.l.v.length > 0)), at0, `${name}: the replacement response carries only a fixed message, not the oversized body`, "limit");
        // body, flag and encoding header agree
        const body = field(I, r.value, "body").v;
        const enc = path_(I, r.value, ["headers", "Content-Encoding"]);
        const flag = field(I, r.value, "isBase64Encoded").v;
        const gz = b.and(ok, sizeIs(when(I, body, (l) => has(I, l, isGzip)), 1000));
        C.ob("compression-possible", gz !== 0, at0, `${name}: a body can be compressed`, "gz");
        const hdr = b.and(ok, sizeIs(eqC(I, enc, "gzip"), 1000));
        C.ob("gzip-header", gz === hdr, at0, `${name}: Content-Encoding: gzip is sent exactly when the body is compressed`, "gz-header");
        C.ob("gzip-header", b.and(ok, b.and(b.not(hdr), sizeIs(when(I, enc, (l) => !(l.t === "c" && (l.v === undefined || l.v === "gzip"))), 1000))) === 0, at0, `${name}: no other content encoding is claimed`, "gz-header");
        const fl = b.and(ok, sizeIs(boolG(I, flag), 1000));
        const want = b.and(ok, b.or(gz, I.truth(P.b64)));
        C.ob("base64-flag", fl === want, at0, `${name}: the response is flagged base64 exactly when its body is base64`, "flag");
        for (const a of alts(I, body)) {
          const g = b.and(ok, sizeIs(a.g, 1000));
          if (g === 0) continue;
          if (has(I, a.l, isGzip)) {
            const good = isB64Of(I, a.l, (x) => x && isGzip(x) && (() => { const f = bufFrom(I, single(I, x.args[0])); return f && /utf-?8/i.test(f[1]) && isText(I, f[0], P.body); })());
            C.ob("compressed-body", good, at0, `${name}: a compressed body is the base64 of the gzipped UTF-8 text of the body`, "body");
            C.ob("compressed-on-request", imp(I, g, b.or(I.truth(P.comp), I.eqConst(P.comp.alts[0].l, I.cl(undefined)))), at0, `${name}: the body is compressed only when asked to`, "comp");
            C.ob("never-double-encoded", b.and(g, I.truth(P.b64)) === 0, at0, `${name}: a base64 body is never encoded again`, "comp");
            const sz = (z, raw) => (l) => (sizes.includes(l) ? 1000 : l.t === "s" && /byteLength$|^get$/.test(l.op) ? (has(I, l, isGzip) ? z : raw) : undefined);
            C.ob("compressed-when-smaller", atNums(I, b.and(R, a.g), sz(100, 60)) === 0 && atNums(I, b.and(R, a.g), sz(20, 60)) !== 0, at0, `${name}: the compressed body is used when it is the smaller one, and only then`, "smaller");
          } else C.ob("plain-body", textLeaf(I, a.l, P.body), at0, `${name}: an uncompressed body is sent verbatim`, "body");
        }
        // failures
        const isString = isType(I, P.body, "string");
        const b64 = I.truth(P.b64);
        const th = calm(I, r.throwG);
        const Rc = calm(I, r.retG);
        const b64obj = b.andAll([given, b64, b.not(isString)]);
        C.ob("base64-needs-string", b.and(b64obj, Rc) === 0 && imp(I, calm(I, b64obj), th), at0, `${name}: a non-string body claimed to be base64 is refused`, "refuse");
        if (order === "body first") C.ob("no-compression-of-base64", b.and(b.andAll([given, b64, I.truth(P.comp), compDefault(I, P.comp)]), Rc) === 0, at0, `${name}: compressing a base64 body is refused`, "refuse");
        const empty = b.andAll([given, isString, I.eqConst(P.body.alts[0].l, I.cl(""))]);
        const sOk = b.orAll([204, 301, 302, 303, 307, 308].map((s) => I.eqConst(P.status.alts[0].l, I.cl(s))));
        C.ob("body-required", b.and(b.and(empty, b.not(sOk)), Rc) === 0, at0, `${name}: an empty body is refused unless the status is 204 or a redirection`, "empty");
        const emptyOk = b.and(empty, b.and(sOk, b.not(b64)));
        C.ob("body-not-required", b.and(emptyOk, th) === 0 && b.and(emptyOk, Rc) !== 0, at0, `${name}: 204 and redirections need no body`, "empty");
        const plain = b.andAll([given, isString, b.not(b64), b.not(I.eqConst(P.body.alts[0].l, I.cl("")))]);
        C.ob("valid-accepted", b.and(plain, th) === 0, at0, `${name}: a non-empty text body is always accepted`, "accept");
        // headers
        const tag = path_(I, r.value, ["headers", "ETag"]);
        const okNE = b.andAll([ok, b.not(empty), ...[...I.leaves].filter((l) => /etag#etag/.test(l.op ?? "")).map((l) => b.not(I.eqConst(l, I.cl(""))))]); // an ETag is never empty
        for (const a of alts(I, tag)) {
          const g = b.and(okNE, sizeIs(a.g, 1000));
          if (g === 0) continue;
          const x = a.l.t === "s" && /etag/.test(a.l.op) ? asVal(I, a.l.args[0]) : undefined;
          C.ob("etag", !!x && within(x, g).every((y) => b.and(y.g, g) === 0 || (() => {
            const dec = y.l.t === "s" && y.l.op === "ext:toString" ? bufFrom(I, single(I, y.l.args[0])) : undefined;
            const raw = bufFrom(I, y.l);
            const d = dec && dec[1] === "base64" ? dec : raw && raw[1] === "base64" ? raw : undefined;
            return d ? imp(I, b.and(y.g, g), b64) && isText(I, d[0], P.body) : textLeaf(I, y.l, P.body) && b.and(b.and(y.g, g), b64) === 0;
          })()), at0, `${name}: the ETag is computed from the uncompressed, decoded body`, "etag");
        }
        const hd = (k) => path_(I, r.value, ["headers", k]);
        const iff = (k, g0, p, what) => { const v = hd(k); const g = b.and(ok, sizeIs(when(I, v, (l) => !(l.t === "c" && l.v === undefined)), 1000)); C.ob("headers", g === b.and(ok, g0) && within(v, g).every((a) => p(a.l)), at0, `${name}: ${what}`, k); };
        iff("Location", I.truth(P.loc), (l) => l === P.loc.alts[0].l, "Location is the one given");
        iff("Content-Disposition", I.truth(P.file), (l) => has(I, l, (x) => x === P.file.alts[0].l), "Content-Disposition names the file given");
        iff("Content-Type", 1, (l) => l === P.type.alts[0].l, "Content-Type is the one given");
        { const v = hd("Last-Modified"); const tl = P.time.alts[0].l; const g0 = b.and(ok, b.not(b.or(I.eqConst(tl, I.cl(undefined)), I.eqConst(tl, I.cl(null)))));
          const g = b.and(ok, sizeIs(when(I, v, (l) => has(I, l, (x) => x === tl) && /toUTCString/.test(l.op + (l.ev?.name ?? ""))), 1000));
          C.ob("headers", imp(I, b.and(g0, b.or(isType(I, P.time, "string"), I.truth(P.time))), g) && b.and(ok, b.and(I.eqConst(tl, I.cl(undefined)), sizeIs(when(I, v, (l) => !(l.t === "c" && l.v === undefined)), 1000))) === 0, at0, `${name}: Last-Modified is the given time, and absent without one`, "Last-Modified"); }
      }
      for (const [b0, loc0] of [["text", PROXY]]) { // defaults
        const I = C.interp({ maxRec: 3 });
        const cls = I.valueOfExport(PROXY, "LambdaProxyResponseBuilder");
        const r = I.run(() => method(I, method(I, cls, "create", [I.c(b0)]), "build", []));
        const sz = sizeLeaves(I, "statusCode");
        const small = (g) => atNums(I, g, (l) => (sz.includes(l) ? 100 : undefined));
        const W = small(calm(I, r.retG));
        for (const [k, v, x] of [["status", field(I, r.value, "statusCode").v, 200], ["Content-Type", path_(I, r.value, ["headers", "Content-Type"]), "application/json"], ["body", field(I, r.value, "body").v, b0], ["base64", field(I, r.value, "isBase64Encoded").v, false]]) C.ob("defaults", W !== 0 && imp(I, W, small(eqC(I, v, x))), loc0, `by default the ${k} is ${x}`, k);
      }
      { // shorthands
        const I = C.interp({ maxRec: 3 });
        const cls = I.valueOfExport(PROXY, "LambdaProxyResponseBuilder");
        for (const [m, s] of [["internalError", 500], ["notImplemented", 501], ["badRequest", 400], ["notFound", 404], ["unauthorized", 401]]) for (const kind of ["string", "object"]) {
          const e = I.input(`${m}-${kind}`);
          const r = I.run(() => method(I, cls, m, [kind === "string" ? I.c("the reason") : obj(I, { why: e })]));
          const J = calm(I, r.retG);
          const sz = sizeLeaves(I, "statusCode");
          const small = (g) => atNums(I, g, (l) => (sz.includes(l) ? 100 : undefined));
          const W = small(J);
          C.ob("error-status", W !== 0 && imp(I, W, small(eqC(I, field(I, r.value, "statusCode").v, s))), PROXY, `${m} answers ${s}`, m);
          const tb = alts(I, field(I, r.value, "body").v).filter((a) => I.bdd.and(small(a.g), W) !== 0);
          C.ob("error-body", tb.length > 0 && tb.every((a) => (kind === "string" ? a.l.t === "c" && a.l.v === "the reason" : a.l.t === "s" && a.l.op === "json" && has(I, a.l, (x) => x === e.alts[0].l))), PROXY, `${m} sends the ${kind} given`, m);
          C.ob("error-type", imp(I, W, small(eqC(I, path_(I, r.value, ["headers", "Content-Type"]), kind === "string" ? "text/plain" : "application/json"))), PROXY, `${m} labels a ${kind} body with its media type`, m);
        }
        for (const s of [301, 302, 303, 307, 308]) {
          const p = I.input("path");
          const r = I.run(() => method(I, cls, "redirect", s === 302 ? [p] : [p, I.c(s)]));
          const sz = sizeLeaves(I, "statusCode");
          const small = (g) => atNums(I, g, (l) => (sz.includes(l) ? 100 : undefined));
          const W = small(calm(I, r.retG));
          C.ob("redirect", calm(I, r.throwG) === 0 && imp(I, W, small(eqC(I, field(I, r.value, "statusCode").v, s))) && imp(I, I.bdd.and(W, I.truth(p)), small(when(I, path_(I, r.value, ["headers", "Location"]), (l) => l === p.alts[0].l))), PROXY, `a ${s} redirection points to the path given`, "redirect");
        }
      }
      C.min("gzip-header", 8); C.min("plain-body", 4); C.min("etag", 4); C.min("error-status", 10);
    },
  },
  P02: {
    explain: "Every way of making a LambdaResponse (builder, shorthands, deprecated constructors) is evaluated symbolically; status, base64 body, ETag, timestamp, file name and the 6 MiB rule are read back from the returned object.",
    run(C) {
      for (const mode of ["builder", "with debug", "everything set twice"]) {
        const debug = mode === "with debug";
        const I = C.interp({ maxRec: 3 });
        const b = I.bdd;
        const cls = I.valueOfExport(RESP, "LambdaResponseBuilder");
        const P = {}; for (const [k, m] of [["body", "create"], ["status", "withStatus"], ["file", "withFileName"], ["time", "withTimestamp"]]) P[k] = paramOf(I, cls, m, 0, k);
        const nm = mode;
        const nn = (v, x) => b.not(I.eqConst(v.alts[0].l, I.cl(x)));
        const r = I.run(() => {
          let x = method(I, cls, "create", [mode === "everything set twice" ? I.c("an earlier text") : P.body]);
          if (mode === "everything set twice") { for (const [m, v] of [["withStatus", 418], ["withFileName", "earlier"]]) x = method(I, x, m, [I.c(v)]); x = method(I, x, "withBody", [P.body]); }
          x = method(I, x, "withStatus", [P.status]); x = method(I, x, "withFileName", [P.file]); x = method(I, x, "withTimestamp", [P.time]);
          if (debug) x = method(I, x, "withDebug", []);
          return method(I, x, "build", []);
        });
        const given = b.andAll([nn(P.body, undefined), b.or(isType(I, P.body, "string"), nn(P.body, ""))]);
        const empty = b.and(isType(I, P.body, "string"), I.eqConst(P.body.alts[0].l, I.cl("")));
        const sizes = sizeLeaves(I, "status").filter(inBytes);
        const mains = sizes.filter((l) => has(I, l, (x) => x === P.body.alts[0].l));
        C.ob("size-measured", mains.length === 1, RESP, `${nm}: the response's JSON is measured in bytes`, "size");
        if (mains.length !== 1) continue;
        const sizeIs = (g, n) => atNums(I, g, (l) => (l === mains[0] ? n : sizes.includes(l) ? 1000 : undefined));
        const R = b.and(calm(I, r.retG), given), th = b.and(calm(I, r.throwG), given);
        const st = field(I, r.value, "status").v;
        for (const [n, big] of [[10, false], [MAX, false], [MAX + 1, true]]) {
          const W = sizeIs(R, n);
          C.ob(big ? "size-limit" : "status", W !== 0 && imp(I, W, sizeIs(big ? eqC(I, st, 400) : when(I, st, (l) => l === P.status.alts[0].l), n)), RESP, `${nm}: a response of ${n} bytes ${big ? "becomes a 400" : "keeps its status"}`, big ? "limit" : "status");
          for (const a of alts(I, field(I, r.value, "body").v)) {
            const g = b.and(W, sizeIs(a.g, n));
            if (g === 0) continue;
            const ok = isB64Of(I, a.l, (x) => { const f = x && bufFrom(I, x); return f && /^utf-?8$/i.test(f[1]) && (big ? f[0].alts.every((y) => y.l.t === "c" && y.l.v) : isText(I, f[0], P.body)); });
            C.ob("base64-body", ok, RESP, `${nm}: the body of a ${n} byte response is the base64 of its UTF-8 text${big ? " (a fixed message)" : ""}`, "body");
          }
          if (big) continue;
          const etags = [...I.leaves].filter((l) => /etag#etag/.test(l.op ?? "")).map((l) => b.not(I.eqConst(l, I.cl(""))));
          const W2 = b.andAll([W, ...etags]);
          for (const a of alts(I, field(I, r.value, "etag").v)) if (b.and(W2, sizeIs(a.g, n)) !== 0) C.ob("etag", a.l.t === "s" && /etag#etag/.test(a.l.op) && isText(I, asVal(I, a.l.args[0]), P.body), RESP, `${nm}: the ETag is that of the body's text`, "etag");
          for (const a of alts(I, field(I, r.value, "fileName").v)) if (b.and(W, sizeIs(a.g, n)) !== 0) C.ob("file-name", a.l === P.file.alts[0].l, RESP, `${nm}: the file name is the one given`, "file");
          const tv = field(I, r.value, "timestamp").v, tl = P.time.alts[0].l;
          const none = b.and(W, I.eqConst(tl, I.cl(undefined)));
          C.ob("timestamp", imp(I, none, sizeIs(eqC(I, tv, undefined), n)), RESP, `${nm}: without a timestamp none is sent`, "time");
          const some = b.and(W, nn(P.time, undefined));
          C.ob("timestamp", imp(I, some, sizeIs(when(I, tv, (l) => has(I, l, (x) => x === tl) && /toUTCString/.test(l.op + (l.ev?.name ?? ""))), n)), RESP, `${nm}: a timestamp given is sent in HTTP date form`, "time");
        }
        C.ob("body-required", b.and(R, empty) === 0, RESP, `${nm}: an empty body is refused`, "required");
        if (mode !== "everything set twice") C.ob("body-required", b.and(calm(I, r.retG), I.eqConst(P.body.alts[0].l, I.cl(undefined))) === 0, RESP, `${nm}: a missing body is refused`, "required");
        C.ob("valid-accepted", b.and(th, b.not(empty)) === 0, RESP, `${nm}: a non-empty body is accepted`, "accept");
      }
      { // shorthands
        const I = C.interp({ maxRec: 3 });
        const b = I.bdd;
        const B = I.valueOfExport(RESP, "LambdaResponseBuilder"), R0 = I.valueOfExport(RESP, "LambdaResponse");
        const text = "the reason";
        const b64text = (l, p) => isB64Of(I, l, (x) => { const f = x && bufFrom(I, x); return f && /^utf-?8$/i.test(f[1]) && f[0].alts.every((y) => p(y.l)); });
        {
          const r = I.run(() => method(I, method(I, B, "create", [I.c(text)]), "build", []));
          const sz = sizeLeaves(I, "status");
          const small = (g) => atNums(I, g, (l) => (sz.includes(l) ? 100 : undefined));
          C.ob("default-status", imp(I, small(calm(I, r.retG)), small(eqC(I, field(I, r.value, "status").v, 200))), RESP, "by default the status is 200", "default");
        }
        const list = [...[["internalError", 500], ["notImplemented", 501], ["badRequest", 400], ["notFound", 404], ["unauthorized", 401]].flatMap(([m, s]) => [[B, m, s, "builder"], [R0, m, s, "response"]]), [R0, "contentTooLarge", 413, "response"], [R0, "ok", 200, "response"]];
        for (const [k, m, s, what] of list) {
          const r = I.run(() => method(I, k, m, [I.c(text)]));
          const sz = sizeLeaves(I, "status");
          const small = (g) => atNums(I, g, (l) => (sz.includes(l) ? 100 : undefined));
          const W = small(calm(I, r.retG));
          C.ob("shorthand-status", W !== 0 && calm(I, r.throwG) === 0 && imp(I, W, small(eqC(I, field(I, r.value, "status").v, s))), RESP, `${what}.${m} answers ${s}`, m);
          const bs = alts(I, field(I, r.value, "body").v).filter((a) => b.and(small(a.g), W) !== 0);
          C.ob("shorthand-body", bs.length > 0 && bs.every((a) => b64text(a.l, (l) => l.t === "c" && l.v === text)), RESP, `${what}.${m} sends the text given, base64 encoded`, m);
          const es = alts(I, field(I, r.value, "etag").v).filter((a) => b.and(small(a.g), W) !== 0);
          C.ob("shorthand-etag", es.length > 0 && es.every((a) => a.l.t === "s" && /etag#etag/.test(a.l.op) && asVal(I, a.l.args[0]).alts.every((x) => (x.l.t === "c" && x.l.v === text) || b64text(x.l, (l) => l.t === "c" && l.v === text))), RESP, `${what}.${m} has an ETag of its body`, m);
        }
        const x = I.input("json", I.checker.getAnyType?.()), f = I.input("file"), raw = I.input("base64"), t = paramOf(I, R0, "withTimestamp", 0, "time");
        let r = I.run(() => method(I, R0, "okJson", [x, f]));
        C.ob("json-body", r.throwG === 0 && alts(I, field(I, r.value, "body").v).every((a) => b64text(a.l, (l) => l.t === "s" && l.op === "json" && asVal(I, l.args[0]).alts.every((y) => y.l === x.alts[0].l))) && constVal(I, field(I, r.value, "status").v) === 200 && alts(I, field(I, r.value, "fileName").v).every((a) => a.l === f.alts[0].l), RESP, "okJson sends the JSON of the value with 200 and the file name", "okJson");
        r = I.run(() => method(I, R0, "okBinary", [raw, f]));
        C.ob("binary-body", alts(I, field(I, r.value, "body").v).every((a) => a.l === raw.alts[0].l) && constVal(I, field(I, r.value, "status").v) === 200 && alts(I, field(I, r.value, "fileName").v).every((a) => a.l === f.alts[0].l), RESP, "okBinary sends the base64 given as it is", "okBinary");
        r = I.run(() => { const o = method(I, R0, "okBinary", [raw, f]); return obj(I, { o, w: method(I, o, "withTimestamp", [t]) }); });
        const o = field(I, r.value, "o").v, w = field(I, r.value, "w").v;
        for (const k of ["status", "body", "fileName", "etag"]) C.ob("copy-keeps", alts(I, field(I, w, k).v).every((a) => alts(I, field(I, o, k).v).some((y) => y.l === a.l)), RESP, `withTimestamp keeps ${k}`, k);
        C.ob("copy-timestamp", alts(I, field(I, w, "timestamp").v).every((a) => has(I, a.l, (y) => y === t.alts[0].l) && /toUTCString/.test(a.l.op)) && alts(I, field(I, o, "timestamp").v).every((a) => a.l.t === "c" && a.l.v === undefined), RESP, "withTimestamp sets the timestamp of the copy only", "timestamp");
      }
      { // a later timestamp replaces an earlier one
        const I = C.interp({ maxRec: 3 });
        const cls = I.valueOfExport(RESP, "LambdaResponseBuilder");
        const t1 = paramOf(I, cls, "withTimestamp", 0, "earlier"), t2 = paramOf(I, cls, "withTimestamp", 0, "later");
        const r = I.run(() => method(I, method(I, method(I, method(I, cls, "create", [I.c("text")]), "withTimestamp", [t1]), "withTimestamp", [t2]), "build", []));
        const small = (x) => atNums(I, x, (l) => (sizeLeaves(I, "status").filter(inBytes).includes(l) ? 10 : undefined));
        const g = small(I.bdd.and(calm(I, r.retG), I.bdd.not(I.eqConst(t2.alts[0].l, I.cl(undefined)))));
        const w = small(when(I, field(I, r.value, "timestamp").v, (l) => has(I, l, (y) => y === t2.alts[0].l) && !has(I, l, (y) => y === t1.alts[0].l)));
        C.ob("timestamp-last", g !== 0 && imp(I, g, w), RESP, "of two timestamps the later call's is sent", "timestamp");
      }
      C.min("shorthand-status", 12); C.min("base64-body", 6); C.min("etag", 4);
    },
  },
  P03: {
    explain: "Integrations are built in every combination of parameter kinds; the request template, a constant of the source, is parsed and abstractly executed on all paths (unknown request values, 0..2 passed-through parameters and values), and every value put in the lambda's event is traced to its source and its escaping.",
    run(C) {
      const kinds = [["query", "addQueryParameter", (n) => [`$input.params()[querystring][${n}]`, `$method[request][querystring][${n}]`]], ["path", "addPathParameter", (n) => [`$input.params()[path][${n}]`, `$method[request][path][${n}]`, `$input.params(${n})`]], ["header", "addHeaderParameter", (n) => [`$input.params()[header][${n}]`, `$method[request][header][${n}]`]], ["context", "addContextParameter", (n) => [`$context[${n}]`]], ["multi", "addMultiValueQueryParameter", (n) => [`$method[request][multivaluequerystring][${n}]`]]];
      const combos = [...kinds.map((k) => ({ ks: [k] })), { ks: kinds }, { ks: [], all: 1 }, { ks: [], body: 1 }, { ks: kinds.slice(1), all: 1, body: 1 }, { ks: [kinds[0], kinds[4]], body: 1 }, { ks: [kinds[4]], all: 1 }, { ks: [] }, { ks: kinds, alike: 1 }, { ks: [...kinds].reverse(), alike: 1 }];
      // names that contain one another
      const alike = { query: ["place_name", "place"], path: ["name", "placeNamed"], header: ["ace", "Place"], context: ["lace_name", "e_n"], multi: ["laces", "c"] };
      for (const { ks, all, body, alike: similar } of combos) {
        const I = C.interp();
        const cls = I.valueOfExport(INTEG, "DigitrafficIntegration");
        const want = new Map();
        const nm = `${ks.map((k) => k[0]).join("+") || "no parameters"}${all ? "+pass all" : ""}${body ? "+body" : ""}${similar ? " with similar names" : ""}`;
        const lambda = I.input("lambda");
        const r = I.run(() => {
          let x = I.construct(I.single(cls), [lambda], null);
          for (const [k, m, srcs] of ks) { const ns = similar ? alike[k] : ks.length > 1 ? [`${k}One`, `${k}Two`] : [`${k}One`]; ns.forEach((n) => want.set(n, { kind: k, srcs: srcs(n) })); x = method(I, x, m, ns.map((n) => I.c(n))); }
          if (all) x = method(I, x, "passAllQueryParameters", []);
          if (body) x = method(I, x, "passBody", []);
          return method(I, x, "build", []);
        });
        const evs = named(r, /LambdaIntegration$/);
        C.ob("integration-built", evs.length === 1 && r.throwG === 0 && alts(I, evs[0].args[0]).every((a) => a.l === lambda.alts[0].l), INTEG, `${nm}: an integration of the lambda is built`, "built");
        if (evs.length !== 1) continue;
        const o = evs[0].args[1];
        C.ob("not-proxied", constVal(I, field(I, o, "proxy").v) === false, evs[0].at, `${nm}: the request goes through the template`, "proxy");
        C.ob("passthrough", alts(I, field(I, o, "passthroughBehavior").v).every((a) => /WHEN_NO_MATCH|NEVER|WHEN_NO_TEMPLATES/.test(a.l.name ?? a.l.xkey ?? I.show(a.l))), evs[0].at, `${nm}: the passthrough behaviour is set`, "pass");
        const tpl = field(I, o, "requestTemplates").v;
        const t = constVal(I, field(I, tpl, "application/json").v);
        const needed = ks.length > 0 || all || body;
        if (!needed) { C.ob("no-template", alts(I, tpl).every((a) => a.l.t === "c" && a.l.v === undefined) || t !== undefined, evs[0].at, `${nm}: no template is needed`, "none"); if (t === undefined) continue; }
        C.ob("template-present", typeof t === "string", evs[0].at, `${nm}: parameters asked for are passed by a template`, "template");
        if (typeof t !== "string") continue;
        let X;
        try { X = runVtl(parseVtl(t)); } catch (e) { C.ob("template-parses", false, evs[0].at, `${nm}: ${e.message}`, "parse"); continue; }
        const bad = new Map(); const fail = (k, m) => bad.set(k, m);
        let paths = 0;
        for (const x of X.results) {
          paths++;
          // JSON with every value a marked placeholder
          const vals = [];
          const text = x.out.map((p) => { if (typeof p === "string") return p; if (p.k === "set") return ""; if (p.k === "str") return p.parts.map((q) => (typeof q === "string" ? q : (vals.push(q), `\u0001${vals.length - 1}\u0001`))).join(""); vals.push(p); return `\u0001${vals.length - 1}\u0001`; }).join("");
          let j; const plainText = text.replace(/\u0001(\d+)\u0001/g, "@$1@");
          try { j = JSON.parse(plainText); } catch (e) { fail("well-formed", `not valid JSON: ${plainText.replace(/\s+/g, " ").slice(0, 90)}`); continue; }
          const ph = (s) => { const m = /^@(\d+)@$/.exec(s); return m ? vals[m[1]] : undefined; };
          for (const v of vals) if (v.k !== "src" || !["escapeJavaScript", "base64Encode"].includes(v.esc?.[0])) fail("escaped", `${X.show(v)} reaches the event unescaped`);
          for (const v of vals) if (v.unset) fail("escaped", `${X.show(v)} is not defined`);
          const seen = new Map(Object.entries(j));
          for (const [n, w] of want) {
            const v = seen.get(n);
            if (v === undefined) { fail(`present ${n}`, `${n} is not passed`); continue; }
            const list = Array.isArray(v) ? v : [v];
            if (w.kind === "multi" && !Array.isArray(v)) fail(`present ${n}`, `${n} is not an array`);
            if (w.kind !== "multi" && Array.isArray(v)) fail(`present ${n}`, `${n} is an array`);
            for (const e of list) { const p = ph(e); const s = p && { ...p, esc: [] }; const t2 = s && X.show(s).replace(/^<item of (.*) #\d>$/, "$1"); if (!t2 || !w.srcs.includes(t2)) fail(`source ${n}`, `${n} is ${t2 ?? JSON.stringify(e)}`); else if (p.esc.length !== 1) fail(`source ${n}`, `${n} is encoded ${p.esc.length} times`); }
            seen.delete(n);
          }
          if (body) { const p = ph(String(seen.get("payload"))); if (!p || p.esc.join() !== "base64Encode" || p.name !== "$input[body]") fail("payload", `payload is ${p ? X.show(p) : seen.get("payload")}`); seen.delete("payload"); }
          for (const [k, v] of seen) {
            const kp = ph(k);
            if (!all || !kp || !/key of \$input\.params\(\)\[querystring\] #\d/.test(kp.name ?? "")) { fail("extra", `the event has an entry ${kp ? X.show(kp) : k} nobody asked for`); continue; }
            for (const e of Array.isArray(v) ? v : [v]) { const p = ph(e); if (!p || !p.name.includes(kp.name.replace(/^.*?(<.*>).*$/, "$1"))) fail("extra", `${X.show(kp)} gets ${p ? X.show(p) : e}`); }
          }
          if (all) {
            // a parameter not named explicitly is passed
            for (const m of new Set([...x.facts.keys()].map((f) => /(<key of .* #\d>)/.exec(f)?.[1]).filter(Boolean))) {
              const blocked = [...x.facts].some(([f, v]) => v && f.startsWith("has ") && f.includes(m));
              const got = [...Object.keys(j)].some((k) => { const p = ph(k); return p && p.name.includes(m); });
              if (!blocked && !got) fail("pass-all", `${m} is not passed`);
              if (blocked && got) fail("pass-all", `${m} replaces a named parameter`);
              for (const f of ["has " + m, "has _" + m]) if (want.size && got && !x.facts.has(f) && !([...want.values()].some((w) => (w.kind === "multi") === f.startsWith("has _")) === false)) fail("pass-all", `${m} may replace a named parameter`);
            }
          }
        }
        for (const k of ["well-formed", "escaped", "extra", ...(body ? ["payload"] : []), ...(all ? ["pass-all"] : []), ...[...want.keys()].flatMap((n) => [`present ${n}`, `source ${n}`])]) {
          const rule = k.split(" ")[0];
          const says = { "well-formed": "the event is valid JSON for every request", escaped: "every value from the client is escaped or base64 encoded", extra: "only the values asked for are passed", payload: "the body is passed base64 encoded as payload", "pass-all": "unnamed query parameters are passed and never replace a named one", present: "each parameter is passed under its name", source: "each parameter comes from its own part of the request" }[rule];
          C.ob(rule, !bad.has(k), evs[0].at, `${nm}: ${says}${bad.has(k) ? `: ${bad.get(k)}` : ""} (${paths} template paths)`, k);
        }
      }
      { // refusals
        const I = C.interp();
        const b = I.bdd;
        const cls = I.valueOfExport(INTEG, "DigitrafficIntegration");
        const tr = (f) => I.run(() => { const x = I.construct(I.single(cls), [I.input("l")], null); return f(x); });
        for (const m of ["addQueryParameter", "addPathParameter", "addMultiValueQueryParameter", "addContextParameter", "addHeaderParameter"]) {
          C.ob("refuses-underscore", tr((x) => method(I, x, m, [I.c("ok"), I.c("_n")])).retG === 0, INTEG, `${m} refuses a name starting with _`, m);
          C.ob("accepts-names", tr((x) => method(I, x, m, [I.c("name_x")])).throwG === 0, INTEG, `${m} accepts other names`, m);
        }
        C.ob("refuses-conflict", tr((x) => { method(I, x, "addQueryParameter", [I.c("a")]); return method(I, x, "passAllQueryParameters", []); }).retG === 0, INTEG, "passing all query parameters after naming one is refused", "conflict");
        C.ob("refuses-conflict", tr((x) => { method(I, x, "passAllQueryParameters", []); return method(I, x, "addQueryParameter", [I.c("a")]); }).retG === 0, INTEG, "naming a query parameter after passing all is refused", "conflict");
        C.ob("accepts-names", tr((x) => { method(I, x, "addPathParameter", [I.c("a")]); return method(I, x, "passAllQueryParameters", []); }).throwG === 0, INTEG, "other parameters go with passing all", "conflict");
      }
      C.min("escaped", 9); C.min("source", 25); C.min("payload", 3); C.min("pass-all", 3);
    },
  },
  P04: {
    explain: "The response template of an integration, a constant of the source, is parsed and abstractly executed on all paths: which lambda response fields become status, headers and body, and under which conditions.",
    run(C) {
      for (const dep of [false, true, "sunset"]) {
        const I = C.interp();
        const cls = I.valueOfExport(INTEG, "DigitrafficIntegration");
        const r = I.run(() => method(I, I.construct(I.single(cls), [I.input("lambda"), I.c("application/json"), ...(dep ? [I.c(true), ...(dep === "sunset" ? [I.c("2030-01-31")] : [])] : [])], null), "build", []));
        const nm = dep ? `deprecated${dep === "sunset" ? " with a sunset date" : ""}` : "current";
        const ev = named(r, /LambdaIntegration$/)[0];
        C.ob("integration-built", !!ev, INTEG, `${nm}: an integration is built`);
        if (!ev) continue;
        const rs = field(I, ev.args[1], "integrationResponses").v;
        const first = field(I, rs, 0).v;
        C.ob("response-status", constVal(I, field(I, first, "statusCode").v) === "200" && alts(I, field(I, first, "selectionPattern").v).every((a) => a.l.t === "c" && a.l.v === undefined), ev.at, `${nm}: the default response is the one used`, "status");
        const tv = I.at(field(I, field(I, first, "responseTemplates").v, "application/json").v, ev.g);
        const parts = flatText(I, tv);
        C.ob("template-present", !!parts, ev.at, `${nm}: the response template is under the media type asked for`, "template");
        if (!parts) continue;
        const sunset = []; const text = parts.map((p) => (typeof p === "string" ? p : (sunset.push(p), `SUNSET${sunset.length}`))).join("");
        let X;
        try { X = runVtl(parseVtl(text)); } catch (e) { C.ob("template-parses", false, ev.at, `${nm}: ${e.message}`, "parse"); continue; }
        const bad = new Map(); const fail = (k, m) => bad.set(k, m);
        const root = "$input.path($)";
        const f = (n) => `${root}[${n}]`;
        const fact = (x, t) => { for (const [k, v] of x.facts) { const m = t(k); if (m !== undefined) return m === v; } return undefined; };
        for (const x of X.results) {
          const sets = new Map(x.out.filter((p) => p.k === "set").map((p) => [p.path, p.v]));
          const outs = x.out.filter((p) => typeof p !== "string" && p.k !== "set");
          const txt = x.out.filter((p) => typeof p === "string").join("");
          if (outs.length !== 1 || X.show(outs[0]) !== `base64Decode(${f("body")})`) fail("body", `the response body is ${outs.map(X.show).join(" ") || "nothing"}`);
          if (txt.trim() !== "") fail("body", `stray text ${JSON.stringify(txt.trim().slice(0, 40))}`);
          const is200 = fact(x, (k) => (k === `${f("status")} == 200` ? true : undefined));
          const H = "context.responseOverride.header.";
          if (is200 !== true) { if (is200 !== false) fail("status", "the status is not looked at"); if (X.show(sets.get("context.responseOverride.status")) !== f("status")) fail("status", "a failure's status is not sent"); if (X.show(sets.get(`${H}Content-Type`)) !== "text/plain") fail("status", "an error is not labelled text/plain"); }
          else { const s = sets.get("context.responseOverride.status"); if (s && X.show(s) !== f("status")) fail("status", "a 200 gets another status"); if (sets.has(`${H}Content-Type`)) fail("status", "the content type of a 200 is replaced"); }
          if (X.show(sets.get(`${H}Access-Control-Allow-Origin`)) !== "*") fail("cors", "Access-Control-Allow-Origin is not *");
          for (const [h, n] of [["Last-Modified", "timestamp"], ["ETag", "etag"], ["Content-Disposition", "fileName"]]) {
            const empty = fact(x, (k) => (k === `${f(n)} == ` ? true : undefined));
            const v = sets.get(H + h);
            if (empty === false && !v) fail(h, `${h} is not sent`);
            if (empty !== false && v) fail(h, `${h} is sent without a ${n}`);
            if (v && !X.show(v).includes(f(n))) fail(h, `${h} is ${X.show(v)}`);
            if (v && n !== "fileName" && X.show(v) !== f(n)) fail(h, `${h} is ${X.show(v)}`);
            if (v && n === "fileName" && !/^attachment; filename="FN"\.replaceAll\(FN,/.test(X.show(v)) && !/^attachment; filename="\$/.test(X.show(v))) fail(h, `${h} is ${X.show(v)}`);
          }
          const d = sets.get(`${H}Deprecation`), s = sets.get(`${H}Sunset`);
          if (!!d !== !!dep || (d && X.show(d) !== "true")) fail("deprecation", `Deprecation is ${d ? X.show(d) : "not sent"}`);
          if (!!s !== (dep === "sunset")) fail("deprecation", `Sunset is ${s ? X.show(s) : "not sent"}`);
          if (s && (X.show(s) !== "SUNSET1" && !/GMT$/.test(X.show(s)))) fail("deprecation", `Sunset is ${X.show(s)}`);
        }
        for (const p of sunset) C.ob("sunset-date", has(I, p, (y) => y.t === "c" && y.v === "2030-01-31") && /toUTCString/.test(p.op ?? ""), ev.at, `${nm}: the sunset date is the one given, in HTTP form`, "sunset");
        const says = { body: "the body is the decoded body of the lambda's response", status: "a status other than 200 is sent, as plain text", cors: "any origin may read the response", "Last-Modified": "Last-Modified is the timestamp, when there is one", ETag: "ETag is the etag, when there is one", "Content-Disposition": "Content-Disposition names the file, when there is one", deprecation: "deprecated methods, and only they, say so" };
        for (const k in says) C.ob("response-template", !bad.has(k), ev.at, `${nm}: ${says[k]}${bad.has(k) ? `: ${bad.get(k)}` : ""} (${X.results.length} template paths)`, k);
      }
      { // the lambda's response has the fields the template reads
        const I = C.interp();
        const r = I.run(() => method(I, I.valueOfExport(RESP, "LambdaResponse"), "ok", [I.input("body")]));
        for (const k of ["status", "body", "etag", "timestamp", "fileName"]) C.ob("fields-agree", r.value.alts.every((a) => a.l.t !== "o" || a.l.rec.props.has(k)), RESP, `the lambda response has the field ${k} the template reads`, k);
      }
      C.min("response-template", 21);
    },
  },
  P05: {
    explain: "parseQueryParams is evaluated on symbolic events; the value each key gets is decided per combination of single and multiple values.",
    run(C) {
      for (const forced of [false, true]) for (const [n, vals] of [["one value", ["a"]], ["two values", ["a", "b"]], ["three values", ["a", "b", "c"]]]) for (const single of [true, false]) {
        const I = C.interp();
        const f = I.valueOfExport(EVENT, "parseQueryParams");
        const vs = vals.map((v) => I.input(v));
        const str = I.checker.getStringType();
        const one = I.input("single", str);
        const r = I.run(() => { const ev = obj(I, { multiValueQueryStringParameters: obj(I, { k: arr(I, vs), other: arr(I, [I.input("o", str)]) }), queryStringParameters: single ? obj(I, { k: one, other: I.input("o", str) }) : I.c(null) }); return I.call(f, I.UNDEF, forced ? [ev, arr(I, [I.c("k")])] : [ev], null); });
        const v = field(I, r.value, "k").v;
        const nm = `${n}${single ? "" : ", multi-value map only"}${forced ? ", declared multi-value" : ""}`;
        const list = (l) => { const x = [0, 1, 2, 3].map((i) => field(I, I.one(l), i)); return (l.t === "s" && l.op === "arr") || l.t === "o" ? x.filter((y) => y.has === 1).map((y) => y.v.alts[0].l) : null; };
        const ok = alts(I, v).every((a) => (forced || vs.length > 1 ? (() => { const xs = list(a.l); return xs && xs.length === vs.length && xs.every((x, i) => x === vs[i].alts[0].l); })() : a.l === vs[0].alts[0].l || a.l === one.alts[0].l));
        C.ob("query-value", ok && r.throwG === 0, EVENT, `${nm}: the handler gets ${forced || vs.length > 1 ? "the array of values" : "the value"}`, nm);
      }
      for (const forced of [false, true]) {
        const I = C.interp();
        const f = I.valueOfExport(EVENT, "parseQueryParams");
        const one = I.input("single", I.checker.getStringType());
        const r = I.run(() => { const ev = obj(I, { multiValueQueryStringParameters: I.c(null), queryStringParameters: obj(I, { k: one }) }); return I.call(f, I.UNDEF, forced ? [ev, arr(I, [I.c("k")])] : [ev], null); });
        const v = field(I, r.value, "k").v;
        C.ob("query-value", r.throwG === 0 && alts(I, v, isType(I, one, "string")).every((a) => (forced ? field(I, I.one(a.l), 0).v.alts[0].l === one.alts[0].l : a.l === one.alts[0].l)), EVENT, `single value map only${forced ? ", declared multi-value" : ""}: the handler gets the value`, "single only");
      }
      { const I = C.interp();
        const f = I.valueOfExport(EVENT, "parseQueryParams");
        const r = I.run(() => I.call(f, I.UNDEF, [obj(I, { multiValueQueryStringParameters: I.c(null), queryStringParameters: I.c(null) })], null));
        C.ob("no-parameters", r.throwG === 0 && r.value.alts.every((a) => a.l.t === "o" && !a.l.rec.props?.size), EVENT, "an event without parameters gives an empty object"); }
      C.min("query-value", 14);
    },
  },
};
// a value as text: list of constant strings and symbolic leaves
function flatText(I, v) {
  if (!v || v.alts.length !== 1) return undefined;
  const l = v.alts[0].l;
  if (l.t === "c") return typeof l.v === "string" ? [l.v] : undefined;
  if (l.t === "s" && (l.op === "concat" || l.op === "str")) { const out = []; for (const a of l.args) { const p = typeof a === "string" ? [a] : flatText(I, asVal(I, a)); if (!p) return undefined; out.push(...p); } return out; }
  return [l];
}
const compDefault = (I, c) => I.bdd.not(I.eqConst(c.alts[0].l, I.cl(undefined)));
const isType = (I, v, t) => eqC(I, I.typeofLeaf(v.alts[0].l), t);
