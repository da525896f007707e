// Parser and abstract evaluator for the Velocity templates the integrations are made of (constants in the source).
export function parseVtl(src) {
  let i = 0;
  const err = (m) => { throw new Error(`vtl: ${m} at ${JSON.stringify(src.slice(i, i + 40))}`); };
  const ws = () => { while (/\s/.test(src[i] ?? "")) i++; };
  const id = () => { const m = /^[A-Za-z_][\w-]*/.exec(src.slice(i)); if (!m) err("identifier"); i += m[0].length; return m[0]; };
  const eat = (s) => { ws(); if (!src.startsWith(s, i)) err(`expected ${s}`); i += s.length; };
  const peek = (s) => { ws(); return src.startsWith(s, i); };
  const refHere = () => /^\$!?\{?[A-Za-z_]/.test(src.slice(i));
  function ref() {
    i++;
    const quiet = src[i] === "!"; if (quiet) i++;
    const braced = src[i] === "{"; if (braced) i++;
    const name = id();
    const path = [];
    for (;;) {
      if (src[i] === "." && /[A-Za-z_]/.test(src[i + 1] ?? "")) {
        i++; const k = id();
        if (src[i] === "(") { i++; const args = []; ws(); while (!peek(")")) { args.push(expr()); ws(); if (peek(",")) eat(","); } eat(")"); path.push({ call: k, args }); } else path.push({ key: { str: [k] } });
      } else if (src[i] === "[") { i++; const e = expr(); eat("]"); path.push({ key: e }); } else break;
    }
    if (braced) eat("}");
    return { ref: name, path, quiet };
  }
  function prim() {
    ws();
    const c = src[i];
    if (c === "!") { i++; return { not: prim() }; }
    if (c === "(") { i++; const e = expr(); eat(")"); return e; }
    if (c === "'") { const j = src.indexOf("'", i + 1); const s = src.slice(i + 1, j); i = j + 1; return { str: [s] }; }
    if (c === '"') {
      i++; const parts = []; let t = "";
      while (src[i] !== '"') { if (i >= src.length) err("string"); if (refHere()) { if (t) parts.push(t); t = ""; parts.push(ref()); } else t += src[i++]; }
      i++; if (t || !parts.length) parts.push(t);
      return { str: parts };
    }
    if (c === "$") return ref();
    if (c === "{") { i++; ws(); if (!peek("}")) err("map literal"); eat("}"); return { map: true }; }
    if (c === "[") { i++; eat("]"); return { list: true }; }
    const m = /^(-?\d+|true|false)/.exec(src.slice(i)); if (m) { i += m[0].length; return { lit: JSON.parse(m[0]) }; }
    err("expression");
  }
  function expr() {
    let l = prim();
    for (;;) {
      ws();
      const m = /^(==|!=|&&|\|\||<=|>=|<|>|\+|-)/.exec(src.slice(i));
      if (!m) return l;
      i += m[0].length;
      l = { op: m[0], l, r: m[0] === "&&" || m[0] === "||" ? expr() : prim() };
    }
  }
  function block(stops) {
    const out = []; let t = "";
    const flush = () => { if (t) out.push({ text: t }); t = ""; };
    while (i < src.length) {
      if (src.startsWith("##", i)) { const j = src.indexOf("\n", i); i = j < 0 ? src.length : j + 1; continue; }
      const d = /^#(set|if|elseif|else|end|foreach)\b\s*/.exec(src.slice(i));
      if (d) {
        if (stops?.includes(d[1])) { flush(); return out; }
        flush();
        const at = i; i += d[0].length;
        if (d[1] === "set") { eat("("); ws(); const r = ref(); eat("="); const e = expr(); eat(")"); if (src[i] === "\n") i++; out.push({ set: r, e, at }); }
        else if (d[1] === "foreach") { eat("("); ws(); const r = ref(); ws(); eat("in"); const e = expr(); eat(")"); const b = block(["end"]); i += "#end".length; out.push({ each: r.ref, e, body: b }); }
        else if (d[1] === "if") {
          const br = []; let els = [];
          eat("("); let c = expr(); eat(")");
          for (;;) {
            const b = block(["elseif", "else", "end"]); br.push([c, b]);
            const m = /^#(elseif|else|end)/.exec(src.slice(i)); if (!m) err("unterminated #if"); i += m[0].length;
            if (m[1] === "elseif") { ws(); eat("("); c = expr(); eat(")"); continue; }
            if (m[1] === "else") { els = block(["end"]); i += 4; }
            break;
          }
          out.push({ if: br, els });
        } else err("stray directive");
        continue;
      }
      if (refHere()) { flush(); out.push(ref()); continue; }
      t += src[i++];
    }
    if (stops) err("unterminated block");
    flush();
    return out;
  }
  return block(null);
}
// Every execution of a template, conditions on unknown values going both ways and loops over unknown collections running
// 0..n times. Values: {k:"str",parts} of constant text and sources {src, esc}, maps, key sets.
export function runVtl(ast, opts = {}) {
  const N = opts.iterations ?? 2;
  const results = [];
  const S = (x) => ({ k: "str", parts: [x] });
  const src = (name) => ({ k: "src", name, esc: [] });
  const show = (v) => v === undefined ? "null" : v.k === "str" ? v.parts.map((p) => (typeof p === "string" ? p : show(p))).join("") : v.k === "src" ? `${v.esc.map((e) => `${e}(`).join("")}${v.name}${")".repeat(v.esc.length)}` : v.k === "lit" ? String(v.v) : v.k;
  const key = (v) => show(v);
  const wrap = (v, f) => v === undefined ? S("") : v.k === "str" ? { k: "str", parts: v.parts.map((p) => (typeof p === "string" ? (f === "base64Encode" ? { k: "src", name: p, esc: [f] } : p) : wrap(p, f))) } : v.k === "src" ? { ...v, esc: [f, ...v.esc] } : { k: "src", name: show(v), esc: [f] };
  const clone = (st) => ({ env: new Map([...st.env].map(([k, v]) => [k, v?.k === "map" ? v : v])), maps: new Map([...st.maps].map(([k, m]) => [k, new Map(m)])), out: [...st.out], facts: new Map(st.facts), n: st.n, loops: new Map(st.loops) });
  function ev(e, st) {
    if ("lit" in e) return { k: "lit", v: e.lit };
    if (e.str) { const parts = []; for (const p of e.str) { if (typeof p === "string") parts.push(p); else { const v = ev(p, st); if (v?.k === "str") parts.push(...v.parts); else if (v !== undefined) parts.push(v); } } return { k: "str", parts: parts.length ? parts : [""] }; }
    if (e.map) { const id = `m${st.maps.size}`; st.maps.set(id, new Map()); return { k: "map", id }; }
    if (e.list) return { k: "list", items: [] };
    if (e.ref !== undefined) {
      let v = st.env.has(e.ref) ? st.env.get(e.ref) : src(`$${e.ref}`);
      for (const p of e.path) {
        if (v === undefined) return undefined;
        if (p.call) {
          const a = p.args.map((x) => ev(x, st));
          if (v.k === "src" && v.name === "$util") { v = a.length ? wrap(a[0], p.call) : src(`$util.${p.call}()`); continue; }
          if (v.k === "map") {
            const m = st.maps.get(v.id);
            if (p.call === "put") { m.set(key(a[0]), { key: a[0], v: a[1] }); v = undefined; continue; }
            if (p.call === "get") { v = m.get(key(a[0]))?.v; continue; }
            if (p.call === "keySet") { v = { k: "keys", id: v.id }; continue; }
            if (p.call === "containsKey") { v = m.has(key(a[0])) ? { k: "lit", v: true } : [...m.values()].some((x) => dynamic(x.key)) || dynamic(a[0]) ? { k: "cond", t: `has ${key(a[0])}`, has: key(a[0]), parts: a[0] } : { k: "lit", v: false }; continue; }
          }
          if (v.k === "str" || v.k === "src") {
            if (p.call === "substring" && v.k === "str" && typeof v.parts[0] === "string" && v.parts[0].length >= (a[1]?.v ?? a[0].v)) {
              const [x, y] = [a[0].v, a[1]?.v];
              v = y === undefined ? { k: "str", parts: [v.parts[0].slice(x), ...v.parts.slice(1)] } : S(v.parts[0].slice(x, y)); continue;
            }
            if (p.call === "keySet") { v = { k: "keysOf", of: v }; continue; }
            if (p.call === "get" && v.k === "src") { v = { k: "src", name: `${v.name}[${key(a[0])}]`, esc: v.esc }; continue; }
            // the rest of an escaped text known to start with _ is still escaped
            if (p.call === "substring" && v.k === "src" && v.esc.length && a.length === 1 && a[0].v === 1 && st.facts.get(`${show(v)}.substring(0,1) == _`)) { v = { k: "src", name: v.name, esc: v.esc }; continue; }
            v = { k: "src", name: `${show(v)}.${p.call}(${a.map(show).join(",")})`, esc: [] }; continue;
          }
          v = src(`?${p.call}`); continue;
        }
        const k = ev(p.key, st);
        if (v.k === "map") { v = st.maps.get(v.id).get(key(k))?.v; continue; }
        if (v.k === "src") { v = { k: "src", name: `${v.name}[${key(k)}]`, esc: v.esc }; continue; }
        if (v.k === "foreach" && key(k) === "hasNext") { v = { k: "lit", v: v.more }; continue; }
        v = src(`${show(v)}[${key(k)}]`);
      }
      return v;
    }
    if (e.not) { const v = ev(e.not, st); return v?.k === "lit" ? { k: "lit", v: !v.v } : { k: "cond", not: v, t: `!${v?.t ?? show(v)}` }; }
    if (e.op === "&&" || e.op === "||") return { k: "bool", op: e.op, l: ev(e.l, st), r: ev(e.r, st) };
    if (e.op) {
      const l = ev(e.l, st), r = ev(e.r, st);
      const cst = (v) => v === undefined ? { v: null } : v.k === "lit" ? { v: v.v } : v.k === "str" && v.parts.every((p) => typeof p === "string") ? { v: v.parts.join("") } : null;
      const a = cst(l), b = cst(r);
      if (a && b && (e.op === "==" || e.op === "!=")) return { k: "lit", v: (a.v === b.v) === (e.op === "==") };
      if (e.op === "!=") return { k: "cond", not: { k: "cond", t: `${show(l)} == ${show(r)}` } };
      return { k: "cond", t: `${show(l)} ${e.op} ${show(r)}` };
    }
    return src("?");
  }
  const dynamic = (v) => v?.k === "src" || (v?.k === "str" && v.parts.some((p) => typeof p !== "string"));
  // truth of a condition: list of [facts to add, boolean]
  function decide(v, st) {
    if (v === undefined) return [[{}, false]];
    if (v.k === "lit") return [[{}, !!v.v]];
    if (v.k === "str" && v.parts.every((p) => typeof p === "string")) return [[{}, true]];
    if (v.k === "bool") {
      const out = [];
      for (const [f, b] of decide(v.l, st)) {
        if (b === (v.op === "||")) { out.push([f, b]); continue; }
        const st2 = { ...st, facts: new Map([...st.facts, ...Object.entries(f)]) };
        for (const [g, c] of decide(v.r, st2)) out.push([{ ...f, ...g }, c]);
      }
      return out;
    }
    if (v.k === "cond" && v.not !== undefined) return decide(v.not, st).map(([f, b]) => [f, !b]);
    const t = v.t ?? show(v);
    if (st.facts.has(t)) return [[{}, st.facts.get(t)]];
    return [[{ [t]: true }, true], [{ [t]: false }, false]];
  }
  function seq(nodes, k, st, done) {
    if (results.length > (opts.max ?? 20000)) throw new Error("vtl: too many paths");
    if (k >= nodes.length) return done(st);
    const n = nodes[k];
    const next = (s) => seq(nodes, k + 1, s, done);
    if (n.text !== undefined) { st.out.push(n.text); return next(st); }
    if (n.ref !== undefined) { const v = ev(n, st); st.out.push(v === undefined ? (n.quiet ? "" : { k: "src", name: `unset $${n.ref}`, esc: [], unset: true }) : v); return next(st); }
    if (n.set) {
      const v = ev(n.e, st);
      if (n.set.path.length) { const p = n.set.path.map((x) => (x.key ? show(ev(x.key, st)) : "?")); st.env.set(`${n.set.ref}.${p.join(".")}`, v); st.out.push({ k: "set", path: `${n.set.ref}.${p.join(".")}`, v }); }
      else st.env.set(n.set.ref, v);
      return next(st);
    }
    if (n.if) {
      const go = (j, s) => {
        if (j >= n.if.length) return seq(n.els, 0, s, next);
        for (const [f, b] of decide(ev(n.if[j][0], s), s)) {
          const s2 = clone(s);
          for (const [a, x] of Object.entries(f)) s2.facts.set(a, x);
          if (b) seq(n.if[j][1], 0, s2, next); else go(j + 1, s2);
        }
      };
      return go(0, st);
    }
    if (n.each !== undefined) {
      const c = ev(n.e, st);
      const iter = (items) => {
        const outer = st.env.get("foreach");
        const s0 = clone(st);
        const step0 = (j, s) => {
          if (j >= items.length) { if (outer) s.env.set("foreach", outer); else s.env.delete("foreach"); s.env.delete(n.each); return next(s); }
          s.env.set(n.each, items[j]); s.env.set("foreach", { k: "foreach", more: j + 1 < items.length });
          return seq(n.body, 0, s, (s2) => step0(j + 1, s2));
        };
        return step0(0, s0);
      };
      if (c?.k === "keys") return iter([...st.maps.get(c.id).values()].map((x) => x.key));
      const name = c?.k === "keysOf" ? `key of ${show(c.of)}` : `item of ${show(c)}`;
      const fixed = st.loops.get(name);
      for (let q = 0; q <= N; q++) {
        if (fixed !== undefined && fixed !== q) continue;
        const s = clone(st); s.loops.set(name, q);
        const items = []; for (let j = 0; j < q; j++) items.push({ k: "src", name: `<${name} #${j + 1}>`, esc: [] });
        const st0 = st; st = s; iter(items); st = st0;
      }
      return;
    }
    throw new Error("vtl: node");
  }
  seq(ast, 0, { env: new Map(), maps: new Map(), out: [], facts: new Map(), loops: new Map() }, (s) => { results.push({ out: s.out, facts: s.facts, maps: s.maps, env: s.env }); });
  return { results, show };
}
