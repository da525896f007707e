import { L, imp, or, constVal, method, field, path_ } from "./kit.mjs";
import { cdk, lit, made, calls, arg, items, tree, showsAs, isResult, enumName, typeNamed } from "./infra-kit.mjs";
const S = (f) => L(`aws/infra/stacks/${f}.ts`);
const IM = L("aws/infra/import-util.ts"), PM = L("aws/infra/stack/parameters.ts");
const P = (I, v, k) => field(I, v, k).v;
const single = (x) => (x.length === 1 ? x[0] : undefined);
const STACKS = { network: ["network-stack", "NetworkStack", "NetworkConfiguration"], dns: ["db-dns-stack", "DbDnsStack"], proxy: ["db-proxy-stack", "DbProxyStack", "ProxyConfiguration"], db: ["db-stack", "DbStack", "DbConfiguration"] };
// one stack made from a symbolic configuration in the environment named
function stack(C, which, envName = "test", conf) {
  const [f, n, t] = STACKS[which];
  const I = cdk(C), file = S(f);
  const isc = lit(I, { env: I.input("env"), environmentName: envName });
  let self;
  const r = I.run(() => { self = I.construct(I.single(I.valueOfExport(file, n)), [I.input("scope"), I.c("id"), isc, ...(t ? [conf ? conf(I) : I.input("cfg", typeNamed(I, `${f}.ts`, t))] : [])], null); return self; });
  // values shared, by the name they are shared under: {name: [{g, v, e}]}
  const shared = {};
  const add = (name, g, v, e) => (shared[name] ??= []).push({ g, v, e });
  for (const e of made(r, /StringParameter$/)) add(`ssm:${constVal(I, P(I, arg(e, 2), "parameterName"))}`, e.g, P(I, arg(e, 2), "stringValue"), e);
  for (const e of made(r, /CfnOutput$/)) add(`out:${constVal(I, P(I, arg(e, 2), "exportName"))}`, e.g, P(I, arg(e, 2), "value"), e);
  return { I, r, file, self, shared };
}
// the name a value is read under (import or parameter), if it is read
function readName(I, v, r) {
  const names = new Set();
  for (const a of v?.alts ?? []) {
    const l = a.l, t = I.showLeaf(l);
    const m = t.match(/^ext:aws-cdk-lib#Fn\.importValue\(aws-cdk-lib#Fn, "([^"]*)"\)$/);
    if (m) { names.add(`out:${m[1]}`); continue; }
    const e = [...calls(r, /valueForStringParameter$/), ...calls(r, /valueFromLookup$/), ...calls(r, /Fn\.importValue$/)].find((x) => isResult(I, v, x) !== 0);
    names.add(e ? `${/import/.test(e.name) ? "out" : "ssm"}:${constVal(I, arg(e, /import/.test(e.name) ? 0 : 1))}` : `?${t}`);
  }
  return names.size === 1 ? [...names][0] : `?${[...names].join()}`;
}
const each = (x, f) => x?.length > 0 && x.every(f);
const I_show = (I, v) => (v ? I.show(v) : "");
const bare = (t) => t.replace(/@[\w.-]+:\d+/g, "");

export const stacks = {
  I07: {
    explain: "The stacks that share values and the code that reads them are evaluated in one environment; every name read is resolved to the values written under it and those to the construct they come from.",
    run(C) { names(C); endpoints(C); network(C); C.min("read", 7); },
  },
  I08: {
    explain: "The database and proxy stacks are evaluated on a symbolic configuration; the cluster's, proxy's and endpoints' settings are read in every world of the configuration.",
    run(C) { cluster(C); proxy(C); identifier(C); C.min("protected", 10); },
  },
};

function names(C) {
  // reading and writing agree on the name, for every kind of parameter and every output
  const I = cdk(C);
  const dtypes = I.checker.getDeclaredTypeOfSymbol(I.checker.getExportsOfModule(I.checker.getSymbolAtLocation(I.prog.getSourceFiles().find((s) => s.fileName.endsWith("stack/parameters.ts")))).find((s) => s.name === "ReadParameterType"));
  const kinds = dtypes.isUnion() ? dtypes.types.map((t) => t.value) : [];
  const read = {}, ids = new Map();
  for (const k of kinds) {
    const J = cdk(C);
    const a = J.run(() => J.call(J.valueOfExport(PM, "getParameterValue"), J.UNDEF, [J.input("scope"), J.c(k)]));
    const e = single(calls(a, /valueForStringParameter$/));
    read[k] = e && constVal(J, arg(e, 1));
    C.ob("parameter-read", !!e && isResult(J, a.value, e) === 1 && typeof read[k] === "string" && showsAs(J, arg(e, 0), "$scope") === 1, PM, `${k} is read from a parameter`, k);
    if (/^topic\./.test(k)) continue;
    const w = cdk(C);
    const b = w.run(() => w.call(w.valueOfExport(PM, "createParameter"), w.UNDEF, [w.input("scope"), w.c(k), w.input("value")]));
    const p = single(made(b, /StringParameter$/));
    C.ob("parameter-written", !!p && constVal(w, P(w, arg(p, 2), "parameterName")) === read[k] && showsAs(w, P(w, arg(p, 2), "stringValue"), "$value") === 1 && imp(w, b.retG, p.g), PM, `${k} is written under the name it is read by`, k);
    if (p) { const id = constVal(w, arg(p, 1)); C.ob("parameter-id", typeof id === "string" && !ids.has(id), PM, `${k} does not clash with another parameter`, k); ids.set(id, k); }
  }
  C.ob("parameter-names", new Set(Object.values(read)).size === kinds.length && kinds.length >= 7, PM, "every kind of parameter has a name of its own", "names");
  for (const [k, re] of [["topic.alarm", /alarm/], ["topic.warning", /warning/], ["cluster.reader", /^\/digitraffic\/db\/reader/], ["cluster.writer", /^\/digitraffic\/db\/writer/], ["proxy.reader", /proxy-reader/], ["proxy.writer", /proxy-writer/]]) C.ob("parameter-meaning", re.test(read[k] ?? ""), PM, `${k} has the name other stacks know it by`, k);
  const nameOf = (env, n) => { const J = cdk(C); const a = J.run(() => J.call(J.valueOfExport(IM, "importValue"), J.UNDEF, [J.c(env), J.c(n)])); const b = J.run(() => J.call(J.valueOfExport(IM, "exportValue"), J.UNDEF, [J.input("stack"), J.c(env), J.c(n), J.input("value")])); const i = single(calls(a, /Fn\.importValue$/)), o = single(made(b, /CfnOutput$/)); return [i && constVal(J, arg(i, 0)), o && constVal(J, P(J, arg(o, 2), "exportName")), o && showsAs(J, P(J, arg(o, 2), "value"), "$value") === 1 && showsAs(J, arg(o, 0), "$stack") === 1 && imp(J, b.retG, o.g), i && J.show(a.value)]; };
  const seen = new Map();
  for (const env of ["test", "prod"]) for (const n of ["VPCID", "other"]) {
    const [i, o, ok, v] = nameOf(env, n);
    C.ob("output", typeof i === "string" && i === o && ok && /importValue/.test(v), IM, `output ${n} of ${env} is imported under the name it is exported by`, "output");
    C.ob("output-own", !seen.has(i), IM, `output ${n} of ${env} is not another's`, "output-own"); seen.set(i, 1);
  }
}

// Where do values come from? written: what each stack writes under a name
function endpoints(C) {
  const db = stack(C, "db"), px = stack(C, "proxy"), dn = stack(C, "dns");
  const role = (st, name) => (st.shared[name] ?? []).filter((x) => x.g !== 0).map((x) => [x, [...x.v.alts].map((a) => bare(st.I.showLeaf(a.l)))]);
  const reader = (t) => /clusterReadEndpoint(\.hostname)?$/.test(t), writer = (t) => /clusterEndpoint\.hostname$|clusterImport\.clusterWriteEndpoint$/.test(t);
  const pend = single(made(px.r, /CfnDBProxyEndpoint$/)), prox = single(made(px.r, /DatabaseProxy$/));
  const isReadEnd = (I, v) => pend && constVal(I, P(I, arg(pend, 2), "targetRole")) === "READ_ONLY" && showsAs(I, v, (t, l) => l.t === "s" && l.op === "get" && /\.attrEndpoint$/.test(t) && l.args[0] && isResult(I, I.one(l.args[0].alts ? l.args[0].alts[0].l : l.args[0]), pend) === 1) === 1;
  const isProxy = (I, v) => prox && showsAs(I, v, (t, l) => l.t === "s" && l.op === "get" && /\.endpoint$/.test(t) && isResult(I, I.one(l.args[0].alts ? l.args[0].alts[0].l : l.args[0]), prox) === 1) === 1;
  // what the records resolve to
  const recs = made(dn.r, /(RecordSet|CnameRecord|ARecord)$/);
  const want = { "db-ro.test.local": ["cluster", reader], "db.test.local": ["cluster", writer], "proxy-ro.test.local": ["proxy", "read"], "proxy.test.local": ["proxy", "write"] };
  const zone = single(made(dn.r, /PrivateHostedZone$/));
  C.ob("zone", !!zone && constVal(dn.I, P(dn.I, arg(zone, 2), "zoneName")) === "test.local" && imp(dn.I, dn.r.retG, zone.g), dn.file, "the environment has a private zone", "zone");
  C.ob("zone-kept", !!zone && calls(dn.r, /applyRemovalPolicy$/).some((e) => isResult(dn.I, e.recv, zone) === 1 && enumName(dn.I, arg(e, 0)) === "RETAIN" && imp(dn.I, dn.r.retG, e.g)), dn.file, "the zone survives its stack", "zone-kept");
  for (const [rec, [kind, is]] of Object.entries(want)) {
    const e = single(recs.filter((x) => constVal(dn.I, P(dn.I, arg(x, 2), "recordName")) === rec));
    C.ob("record", !!e && imp(dn.I, dn.r.retG, e.g) && enumName(dn.I, P(dn.I, arg(e, 2), "recordType")) === "CNAME" && zone && isResult(dn.I, P(dn.I, arg(e, 2), "zone"), zone) === 1, dn.file, `${rec} is an alias in the zone`, rec);
    if (!e) continue;
    const ttl = I_show(dn.I, P(dn.I, arg(e, 2), "ttl")).match(/Duration\.(seconds|minutes)\([^,]*, (\d+)\)/);
    C.ob("record-short", !!ttl && +ttl[2] * (ttl[1] === "minutes" ? 60 : 1) <= 300, e.at, `${rec} follows a changed endpoint within minutes`, rec);
    const t = calls(dn.r, /RecordTarget\.fromValues$/).find((x) => isResult(dn.I, P(dn.I, arg(e, 2), "target"), x) === 1);
    const name = t && t.args.length === 1 ? readName(dn.I, arg(t, 0), dn.r) : "?";
    const ws = kind === "cluster" ? role(db, name) : role(px, name);
    const other = kind === "cluster" ? role(px, name) : role(db, name);
    C.ob("read", ws.length > 0 && other.length === 0, e.at, `${rec} reads what the ${kind} stack writes`, rec);
    if (typeof is === "function") C.ob("role", ws.every(([, ts]) => ts.every(is)), e.at, `${rec} leads to the cluster's ${is === reader ? "reading" : "writing"} endpoint`, rec);
    else C.ob("role", ws.every(([x]) => (is === "read" ? isReadEnd(px.I, x.v) : isProxy(px.I, x.v))), e.at, `${rec} leads to the proxy's ${is === "read" ? "read-only" : "writing"} endpoint`, rec);
  }
  // created and imported clusters write the same three parameters; outputs by role
  const b = db.I.bdd;
  const cfg = (k) => { const l = path_(db.I, db.I.input("cfg", typeNamed(db.I, "db-stack.ts", "DbConfiguration")), [k]).alts[0].l; return b.not(b.or(db.I.eqConst(l, db.I.cl(undefined)), db.I.eqConst(l, db.I.cl(null)))); };
  const [own, given] = [cfg("cluster"), cfg("clusterImport")];
  C.ob("one-source", b.and(db.r.retG, b.and(own, given)) === 0 && b.and(db.r.retG, b.not(b.or(own, given))) === 0, db.file, "a stack has either a cluster of its own or an imported one", "source");
  const three = { "ssm:/digitraffic/db/reader-endpoint": reader, "ssm:/digitraffic/db/writer-endpoint": writer, "ssm:/digitraffic/db/identifier": (t) => /clusterIdentifier$|clusterWriteEndpoint, "\.cluster"\)\.0$/.test(t) };
  for (const [n, is] of Object.entries(three)) {
    const ws = role(db, n);
    C.ob("always-written", imp(db.I, db.r.retG, or(db.I, ws.map(([x]) => x.g))) && ws.every(([, ts]) => ts.every(is)), db.file, `${n.slice(4)} is written for created and imported clusters`, n);
    C.ob("written-once", ws.every(([x], i) => ws.every(([y], j) => i === j || b.and(x.g, y.g) === 0)), db.file, `${n.slice(4)} is written once`, n);
  }
  const stat = (n, k) => constVal(db.I, db.I.getProp(db.I.valueOfExport(S("db-stack"), "DbStack"), db.I.c(n), null)) ?? k;
  for (const [k, is] of [["CLUSTER_READ_ENDPOINT_EXPORT_NAME", (t) => /clusterReadEndpoint\.hostname$/.test(t)], ["CLUSTER_WRITE_ENDPOINT_EXPORT_NAME", (t) => /clusterEndpoint\.hostname$/.test(t)], ["CLUSTER_IDENTIFIER_EXPORT_NAME", (t) => /clusterIdentifier$/.test(t)]]) {
    const ws = role(db, `out:digitraffic-test-${stat(k)}`);
    C.ob("cluster-output", imp(db.I, b.and(db.r.retG, own), or(db.I, ws.map(([x]) => x.g))) && ws.length > 0 && ws.every(([, ts]) => ts.every(is)), db.file, `a created cluster's ${k} output has its meaning`, k);
  }
  const ps = (k) => constVal(px.I, px.I.getProp(px.I.valueOfExport(S("db-proxy-stack"), "DbProxyStack"), px.I.c(k), null));
  for (const [k, ok] of [["PROXY_WRITER_EXPORT_NAME", (v) => isProxy(px.I, v)], ["PROXY_READER_EXPORT_NAME", (v) => isProxy(px.I, v) || isReadEnd(px.I, v)]]) {
    const ws = role(px, `out:digitraffic-test-${ps(k)}`);
    C.ob("proxy-output", each(ws, ([x]) => ok(x.v) && imp(px.I, px.r.retG, x.g)), px.file, `the proxy's ${k} output leads to the proxy`, k);
  }
  C.ob("identifier", b.and(db.r.retG, b.not(showsAs(db.I, P(db.I, db.self, "clusterIdentifier"), (t) => three["ssm:/digitraffic/db/identifier"](bare(t))))) === 0, db.file, "the stack's cluster identifier is the cluster's", "identifier");
}

function network(C) {
  for (const env of ["test", "prod"]) {
    const nw = stack(C, "network", env), { I, r } = nw;
    const vpc = single(made(r, /aws-ec2#Vpc$/));
    C.ob("network", !!vpc && imp(I, r.retG, vpc.g) && isResult(I, P(I, nw.self, "vpc"), vpc) === 1, nw.file, `${env}: one network is made`, "network");
    if (!vpc) return;
    const J = cdk(C);
    const b = J.run(() => J.call(J.valueOfExport(IM, "importVpc"), J.UNDEF, [J.input("scope"), J.c(env)]));
    const att = single(calls(b, /Vpc\.fromVpcAttributes$/)), at = att && arg(att, 2);
    C.ob("vpc-import", !!att && isResult(J, b.value, att) === 1, IM, `${env}: the network is imported`, "import");
    if (!att) return;
    const src = (v) => { const n = readName(J, v, b); const ws = nw.shared[n]; return each(ws, (x) => imp(I, r.retG, x.g)) ? ws.map((x) => I.show(x.v)).join() : `?${n}`; };
    const base = /^res\([^)]*#Vpc@[^)]*\)/;
    C.ob("read", src(P(J, at, "vpcId")).replace(base, "V") === "V.vpcId", IM, `${env}: the network imported is the one exported`, "vpc");
    const subs = items(J, P(J, at, "privateSubnetIds")).map((x) => src(x.v).replace(base, "V"));
    C.ob("read", subs.length === 2 && subs.every((s, i) => s === `V.privateSubnets.${i}.subnetId`), IM, `${env}: the private subnets imported are the private subnets exported, in order`, "subnets");
    C.ob("zones", items(J, P(J, at, "availabilityZones")).length === subs.length, IM, `${env}: every imported subnet has its zone`, "zones");
    for (const [n, k] of [["digitrafficpublicASubnet", "publicSubnets.0"], ["digitrafficpublicBSubnet", "publicSubnets.1"]]) C.ob("public-output", each(nw.shared[`out:digitraffic-${env}-${n}`], (x) => I.show(x.v).replace(base, "V") === `V.${k}.subnetId` && imp(I, r.retG, x.g)), nw.file, `${env}: ${n} is a public subnet`, n);
    // shape of the network
    const p = arg(vpc, 2), cfg = (k) => I.eqConst(path_(I, I.input("cfg", typeNamed(I, "network-stack.ts", "NetworkConfiguration")), [k]).alts[0].l, I.cl(undefined));
    const kinds = items(I, P(I, p, "subnetConfiguration")).map((x) => enumName(I, P(I, x.v, "subnetType"))).sort();
    C.ob("subnets", JSON.stringify(kinds) === '["PRIVATE_WITH_EGRESS","PUBLIC"]', vpc.at, `${env}: the network has public and private subnets`, "shape");
    C.ob("cidr", calls(r, /IpAddresses\.cidr$/).some((e) => showsAs(I, arg(e, 0), "$cfg.cidr") === 1 && isResult(I, P(I, p, "ipAddresses"), e) === 1) && showsAs(I, P(I, p, "vpcName"), "$cfg.vpcName") === 1, vpc.at, `${env}: the network has its address range and name`, "cidr");
    const az = I.show(P(I, p, "availabilityZones"));
    C.ob("zones-fixed", /^slice\(.*(sort|toSorted).*, 0, 2\)$/.test(az), vpc.at, `${env}: the network is in the same two zones on every deployment`, "zones-fixed");
    const nat = P(I, p, "natGateways"), zero = or(I, nat.alts.filter((a) => a.l.t === "c" && a.l.v === 0).map((a) => a.g)), two = or(I, nat.alts.filter((a) => a.l.t === "c" && a.l.v >= 1).map((a) => a.g));
    const noTgw = I.bdd.or(cfg("transitGatewayId"), I.eqConst(path_(I, I.input("cfg", typeNamed(I, "network-stack.ts", "NetworkConfiguration")), ["transitGatewayId"]).alts[0].l, I.cl("")));
    C.ob("way-out", imp(I, I.bdd.and(r.retG, noTgw), two), vpc.at, `${env}: without a transit gateway the private subnets have gateways of their own`, "nat");
    C.ob("way-out", imp(I, I.bdd.and(r.retG, I.bdd.not(noTgw)), zero), vpc.at, `${env}: with a transit gateway there are no gateways beside it`, "no-nat");
    C.ob("local-names", ["enableDnsHostnames", "enableDnsSupport"].every((k) => constVal(I, P(I, p, k)) !== false), vpc.at, `${env}: private names resolve in the network`, "dns");
    const routes = made(r, /CfnRoute$/);
    C.ob("way-out", I.bdd.and(r.retG, I.bdd.and(zero, noTgw)) === 0 && each(routes, (e) => showsAs(I, P(I, arg(e, 2), "transitGatewayId"), "$cfg.transitGatewayId") === 1 && constVal(I, P(I, arg(e, 2), "destinationCidrBlock")) === "0.0.0.0/0" && /routeTable\.routeTableId$/.test(I.show(P(I, arg(e, 2), "routeTableId"))) && /elem\(/.test(I.show(arg(e, 1)))), nw.file, `${env}: with a transit gateway every private subnet is routed to it`, "tgw");
    const sel = calls(r, /selectSubnets$/).filter((e) => isResult(I, e.recv, vpc) === 1);
    const iter = (g) => I.bdd.exists(g, (v) => I.atoms[v]?.kind === "iter" || /iterat|nonempty|each/.test(I.atoms[v]?.kind ?? ""));
    C.ob("tgw-routes", each(routes, (e) => imp(I, I.bdd.and(r.retG, I.bdd.not(noTgw)), iter(e.g)) && I.bdd.and(e.g, noTgw) === 0) && (sel.length > 0 ? sel.every((e) => { const t = tree(I, arg(e, 0) ?? I.UNDEF); return t === undefined || /PRIVATE/.test(JSON.stringify(t)); }) : /privateSubnets/.test(I.show(routes[0] ? P(I, arg(routes[0], 2), "routeTableId") : I.UNDEF))), nw.file, `${env}: the routes cover the private subnets and no other`, "tgw-routes");
  }
}

function cluster(C) {
  const { I, r, file } = stack(C, "db"), b = I.bdd;
  const cfg = (...k) => path_(I, I.input("cfg", typeNamed(I, "db-stack.ts", "DbConfiguration")), k).alts[0].l;
  const cl = made(r, /aws-rds#DatabaseCluster(FromSnapshot)?$/);
  const und = (l) => b.or(I.eqConst(l, I.cl(undefined)), I.eqConst(l, I.cl(null)));
  const own = b.and(r.retG, b.not(und(cfg("cluster"))));
  C.ob("cluster", imp(I, own, or(I, cl.map((e) => e.g))) && cl.every((e, i) => cl.every((f, j) => i === j || b.and(e.g, f.g) === 0)) && cl.every((e) => b.and(e.g, b.and(r.retG, b.not(own))) === 0), file, "a stack with a cluster of its own makes exactly one", "cluster");
  const snap = cfg("cluster", "snapshotIdentifier"), hasSnap = b.not(b.or(und(snap), I.eqConst(snap, I.cl(""))));
  const fresh = cl.filter((e) => /DatabaseCluster$/.test(e.name)), from = cl.filter((e) => /FromSnapshot$/.test(e.name));
  C.ob("snapshot", imp(I, b.and(own, hasSnap), or(I, from.map((e) => e.g))) && fresh.every((e) => b.andAll([own, e.g, hasSnap]) === 0) && from.every((e) => showsAs(I, P(I, arg(e, 2), "snapshotIdentifier"), "$cfg.cluster.snapshotIdentifier") === 1), file, "with a snapshot the cluster is restored from it", "snapshot");
  const notEnc = I.eqConst(cfg("storageEncrypted"), I.cl(false)), encOn = I.eqConst(cfg("storageEncrypted"), I.cl(true));
  const key = made(r, /aws-kms#Key$/);
  for (const e of cl) {
    const p = arg(e, 2), n = e.name.split("#")[1];
    const f = (k) => P(I, p, k);
    const on = (v) => or(I, v.alts.filter((a) => a.l.t === "c" && a.l.v === true).map((a) => a.g));
    const w = b.and(e.g, r.retG);
    const enc = or(I, [on(f("storageEncrypted")), showsAs(I, f("storageEncrypted"), "$cfg.storageEncrypted")].map((g) => g));
    C.ob("protected", imp(I, b.and(w, b.not(notEnc)), b.or(on(f("storageEncrypted")), b.and(showsAs(I, f("storageEncrypted"), "$cfg.storageEncrypted"), encOn))) && enc !== 0, e.at, `${n}: the data is encrypted unless that is turned off`, "encrypted");
    C.ob("encryption-off", imp(I, b.and(w, notEnc), b.or(or(I, f("storageEncrypted").alts.filter((a) => a.l.t === "c" && a.l.v === false).map((a) => a.g)), showsAs(I, f("storageEncrypted"), "$cfg.storageEncrypted"))), e.at, `${n}: encryption can be turned off`, "off");
    const pgs = made(r, /ParameterGroup$/);
    const isGroup = (v) => /#ParameterGroup@/.test(I.show(v)) || or(I, pgs.map((x) => isResult(I, v, x))) !== 0;
    C.ob("parameter-group", pgs.length > 0 && isGroup(f("parameterGroup")) && calls(r, /ClusterInstance\.(provisioned|serverlessV2)$/).every((x) => isGroup(P(I, arg(x, 1), "parameterGroup"))), e.at, `${n}: the cluster and its instances use the custom parameters`, "group");
    const sk = field(I, p, "storageEncryptionKey");
    C.ob("protected", imp(I, b.and(w, encOn), or(I, key.map((k) => b.and(sk.has, isResult(I, sk.v, k))))), e.at, `${n}: when encryption is asked for it has a key of its own`, "key");
    C.ob("protected", on(f("deletionProtection")) === 1 && enumName(I, f("removalPolicy")) === "RETAIN", e.at, `${n}: the cluster is protected from deletion and kept`, "deletion");
    const days = I.show(path_(I, p, ["backup", "retention"])).match(/Duration\.days\([^,]*, (\d+)\)/);
    C.ob("protected", !!days && +days[1] >= 7 && +days[1] <= 35, e.at, `${n}: backups are kept`, "backup");
    C.ob("protected", enumName(I, path_(I, p, ["vpcSubnets", "subnetType"])).startsWith("PRIVATE"), e.at, `${n}: the cluster is in private subnets`, "private");
    const sg = items(I, f("securityGroups"));
    const g = calls(r, /fromSecurityGroupId$/).filter((x) => showsAs(I, arg(x, 2), "$cfg.cluster.securityGroupId") === 1);
    C.ob("protected", sg.length === 1 && g.some((x) => isResult(I, sg[0].v, x) === 1), e.at, `${n}: only the security group given reaches it`, "group");
    const vpc = f("vpc"), ownVpc = showsAs(I, vpc, "$cfg.vpc");
    C.ob("cluster-network", imp(I, b.and(w, b.not(und(cfg("vpc")))), ownVpc) && imp(I, b.and(w, und(cfg("vpc"))), or(I, calls(r, /fromVpcAttributes$/).map((x) => isResult(I, vpc, x)))), e.at, `${n}: it is in the network given, by default the environment's`, "network");
    const cr = calls(r, /Credentials\.fromPassword$/).find((x) => isResult(I, f("credentials"), x) === 1);
    const keyOf = (v) => { const m = calls(r, /secretValueFromJson$/).filter((x) => isResult(I, v, x) !== 0 || calls(r, /unsafeUnwrap$/).some((u) => isResult(I, v, u) !== 0 && isResult(I, u.recv, x) !== 0)); return m.length === 1 ? constVal(I, arg(m[0], 0)) : undefined; };
    C.ob("credentials", !!cr && keyOf(arg(cr, 0)) === "db.superuser" && keyOf(arg(cr, 1)) === "db.superuser.password" && calls(r, /fromSecretCompleteArn$/).every((x) => showsAs(I, arg(x, 2), "$cfg.secretArn") === 1), e.at, `${n}: the superuser comes from the secret given`, "credentials");
    C.ob("password-hidden", !!cr && calls(r, /unsafeUnwrap$|unsafePlainText/).every((u) => calls(r, /secretValueFromJson$/).every((x) => isResult(I, u.recv, x) === 0 || constVal(I, arg(x, 0)) !== "db.superuser.password")), e.at, `${n}: the password is never unwrapped into the template`, "password");
    const insts = calls(r, /ClusterInstance\.(provisioned|serverlessV2)$/);
    const wr = insts.find((x) => isResult(I, f("writer"), x) === 1), rd = items(I, f("readers"));
    C.ob("instances", !!wr && showsAs(I, P(I, arg(wr, 1), "instanceType"), "$cfg.cluster.writer.instanceType") === 1, e.at, `${n}: the writer is of the type given`, "writer");
    const ri = rd.length === 1 && rd[0].each !== undefined && insts.find((x) => isResult(I, rd[0].v, x) !== 0);
    C.ob("instances", !!ri && /^elem\(\$cfg\.cluster\.readers, \d+\)\.instanceType$/.test(I.show(P(I, arg(ri, 1), "instanceType"))) && /eidx\(/.test(I.show(arg(ri, 0))), e.at, `${n}: there is a reader of its own for each configured`, "readers");
    C.ob("instances", insts.every((x) => constVal(I, P(I, arg(x, 1), "allowMajorVersionUpgrade")) !== true && constVal(I, P(I, arg(x, 1), "publiclyAccessible")) !== true), e.at, `${n}: instances are neither public nor upgraded to another major version`, "instances");
    C.ob("port", constVal(I, f("port")) === 5432, e.at, `${n}: it listens on the database port`, "port");
    const en = calls(r, /auroraPostgres$/).find((x) => isResult(I, f("engine"), x) === 1);
    C.ob("version", !!en && showsAs(I, P(I, arg(en, 0), "version"), "$cfg.cluster.dbVersion") === 1, e.at, `${n}: it runs the version given`, "version");
    C.ob("one-at-a-time", enumName(I, f("instanceUpdateBehaviour")) === "ROLLING", e.at, `${n}: instances are updated one at a time`, "rolling");
    C.ob("cluster-log", items(I, f("cloudwatchLogsExports")).some((x) => constVal(I, x.v) === "postgresql"), e.at, `${n}: the database log is kept`, "log");
  }
  C.ob("snapshot-same", cl.length < 2 || new Set(cl.map((e) => JSON.stringify({ ...tree(I, arg(e, 2)), snapshotIdentifier: 0 }))).size === 1, file, "a restored cluster has the settings of a new one", "same");
  for (const k of key) { const p = arg(k, 2); C.ob("key", enumName(I, P(I, p, "removalPolicy")) === "RETAIN" && constVal(I, P(I, p, "enableKeyRotation")) === true, k.at, "the key is kept and rotated", "key"); C.ob("key", imp(I, b.and(r.retG, k.g), encOn), k.at, "a key is only made when encryption is asked for", "key-when"); }
  for (const g of made(r, /ParameterGroup$/)) {
    const mem = path_(I, arg(g, 2), ["parameters", "work_mem"]);
    C.ob("parameter-group", showsAs(I, mem, (t) => t === '"524288"' || /^str\(\$cfg\.workmem\)$/.test(t)) === 1 && imp(I, und(cfg("workmem")), or(I, mem.alts.filter((a) => a.l.v === "524288").map((a) => a.g))) && imp(I, b.not(und(cfg("workmem"))), showsAs(I, mem, "str($cfg.workmem)")), g.at, "the work memory given is set, by default half a gigabyte", "workmem");
    C.ob("parameter-group", /auroraPostgresMajorVersion/.test(I.show(arg(g, 1))) && ["bindToCluster", "bindToInstance"].every((m) => calls(r, new RegExp(`${m}$`)).some((e) => imp(I, e.g, isResult(I, e.recv, g)) && imp(I, g.g, e.g))), g.at, "each version has parameter groups for clusters and instances", "groups");
  }
}

function proxy(C) {
  const { I, r, file } = stack(C, "proxy"), b = I.bdd;
  const px = single(made(r, /DatabaseProxy$/)), re = single(made(r, /CfnDBProxyEndpoint$/));
  C.ob("proxy", !!px && !!re && imp(I, r.retG, b.and(px.g, re.g)), file, "a proxy and its read-only endpoint are made", "proxy");
  const idl = path_(I, I.input("cfg", typeNamed(I, "db-proxy-stack.ts", "ProxyConfiguration")), ["clusterIdentifier"]).alts[0].l;
  C.ob("proxy-cluster", b.and(r.retG, I.eqConst(idl, I.cl(""))) === 0 && b.and(r.throwG, b.not(I.eqConst(idl, I.cl("")))) === 0, file, "a proxy without a cluster is refused, every other is made", "empty");
  if (!px || !re) return;
  const p = arg(px, 2), q = arg(re, 2);
  const ca = calls(r, /fromDatabaseClusterAttributes$/), t = calls(r, /ProxyTarget\.fromCluster$/).find((x) => isResult(I, P(I, p, "proxyTarget"), x) === 1);
  const c = t && ca.find((x) => isResult(I, arg(t, 0), x) === 1);
  C.ob("proxy-cluster", !!c && showsAs(I, P(I, arg(c, 2), "clusterIdentifier"), "$cfg.clusterIdentifier") === 1 && constVal(I, P(I, arg(c, 2), "port")) === 5432, px.at, "the proxy serves the cluster named", "cluster");
  const sec = items(I, P(I, p, "secrets")), se = calls(r, /fromSecretAttributes$/);
  C.ob("proxy-secret", sec.length === 1 && se.some((x) => isResult(I, sec[0].v, x) === 1 && showsAs(I, P(I, arg(x, 2), "secretCompleteArn"), "$cfg.secretArn") === 1), px.at, "the proxy signs in with the secret given", "secret");
  const nl = path_(I, I.input("cfg", typeNamed(I, "db-proxy-stack.ts", "ProxyConfiguration")), ["name"]).alts[0].l, nm = P(I, p, "dbProxyName");
  C.ob("proxy-name", imp(I, b.and(r.retG, b.not(b.or(I.eqConst(nl, I.cl(undefined)), I.eqConst(nl, I.cl(""))))), showsAs(I, nm, "$cfg.name")) && imp(I, b.and(r.retG, I.eqConst(nl, I.cl(undefined))), or(I, nm.alts.filter((a) => a.l.t === "c" && a.l.v).map((a) => a.g))), px.at, "the proxy has the name given, or a default one", "name");
  const sg = items(I, P(I, p, "securityGroups"));
  C.ob("proxy-group", sg.length === 1 && calls(r, /fromSecurityGroupId$/).some((x) => isResult(I, sg[0].v, x) === 1 && showsAs(I, arg(x, 2), "$cfg.securityGroupId") === 1), px.at, "only the security group given reaches the proxy", "group");
  const gs = items(I, P(I, q, "vpcSecurityGroupIds"));
  C.ob("proxy-group", gs.length === 1 && showsAs(I, gs[0].v, "$cfg.securityGroupId") === 1, re.at, "only the security group given reaches the read-only endpoint", "group-ro");
  const v = calls(r, /fromVpcAttributes$/).find((x) => isResult(I, P(I, p, "vpc"), x) === 1);
  C.ob("proxy-network", !!v, px.at, "the proxy is in the environment's network", "network");
  const subs = items(I, P(I, q, "vpcSubnetIds"));
  C.ob("proxy-network", subs.length === 1 && subs[0].each !== undefined && /privateSubnets, \d+\)\.subnetId$/.test(I.show(subs[0].v)), re.at, "the read-only endpoint is in the private subnets", "subnets");
  C.ob("proxy-own", /dbProxyName$/.test(I.show(P(I, q, "dbProxyName"))) && I.show(P(I, q, "dbProxyName")).startsWith(`res(${px.name}@`), re.at, "the read-only endpoint is the proxy's own", "own");
  C.ob("read-only", constVal(I, P(I, q, "targetRole")) === "READ_ONLY", re.at, "the reading endpoint cannot write", "role");
  const [mx, idle] = ["maxConnectionsPercent", "maxIdleConnectionsPercent"].map((k) => constVal(I, P(I, p, k)));
  C.ob("connections", mx >= 1 && mx <= 100 && idle >= 0 && idle <= mx, px.at, "the proxy leaves connections to others", "connections");
}

// Identifier of an imported cluster, decided on sample shapes of the writing endpoint
function identifier(C) {
  const run = (imp_, fb) => { const I = cdk(C); const r = I.run(() => I.call(I.valueOfExport(S("db-stack"), "parseClusterIdentifier"), I.UNDEF, [imp_ === undefined ? I.UNDEF : lit(I, imp_), ...(fb === undefined ? [] : [I.c(fb)])])); return r.retG === 1 ? constVal(I, r.value) : r.throwG === 1 ? "(throws)" : "?"; };
  const end = (w) => ({ clusterWriteEndpoint: w, clusterReadEndpoint: "reader.cluster-ro-x.eu.rds.amazonaws.com" });
  const cases = [["env-db1.cluster-abc.eu-west-1.rds.amazonaws.com", undefined, "env-db1"], ["env-db1.cluster-abc.eu-west-1.rds.amazonaws.com", "other", "env-db1"], ["a.cluster-b.cluster-c", undefined, "a"], ["localhost", undefined, "(throws)"], ["localhost", "local", "local"], ["localhost", "", "(throws)"], [".cluster-x", undefined, "(throws)"], [".cluster-x", "local", "local"], ["", "local", "local"], ["", undefined, "(throws)"]];
  for (const [w, fb, want] of cases) C.ob("identifier", run(end(w), fb) === want, S("db-stack"), `the cluster of ${JSON.stringify(w)}${fb === undefined ? "" : `, else ${JSON.stringify(fb)}`} is ${want}`, "identifier");
  C.ob("identifier", run(undefined, undefined) === "(throws)" && run(undefined, "local") === "local", S("db-stack"), "without an imported cluster only the fallback is used", "identifier");
}
