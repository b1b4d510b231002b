"use strict";
// What a discovered program hands to the process runner: options, defaults and source contexts.
const AI = require("../lib/ai.js"); const { ts } = require("../lib/program.js"); const { exported } = require("../lib/find.js"); const { RunBench, sym } = require("../lib/runbench.js"); const { one } = require("../lib/scenario.js");
const DIR = "packages/discover/", RUN = "packages/run/"; const V = (l) => AI.T([l], "string");
const DOCS = ["brief", "description", "examples", "author", "bugs", "footer"];
class ConfBench extends RunBench {
  constructor(P, o) {
    super(P, { run: "real", mode: "sync", ...o, onCall: (i) => this.call(i) });
    if (!P.confStubs) { P.confStubs = new Map(); for (const n of ["createProgramParser", "isCommand"]) { const f = exported(P, DIR, n); if (f) P.confStubs.set(f.node, n); } for (const n of ["run", "runAsync"]) { const f = exported(P, RUN, n); if (f) P.confStubs.set(f.node, "runner"); } }
  }
  call(info) {
    const n = info.kind === "fn" && this.P.confStubs.get(info.decl), s = info.st; if (!n) return undefined;
    if (n === "isCommand") { const v = info.args[0] || AI.UNDEF; const h = v.length === 1 && v[0].k === "o" && this.it.rec(s, v[0].id); return { rets: [{ s, v: h && h.props.has("cmd$") ? AI.TRUE : AI.FALSE }] }; }
    if (n === "createProgramParser") { this.log(s, "parser", { args: info.args }); return { rets: [{ s, v: V("PARSER") }] }; }
    this.log(s, "run", { args: info.args }); return { rets: this.answer(s, this.invocation(s), null, null, true) };
  }
  cmd(s) { return this.obj(s, { cmd$: one(true), path: this.arr(s, [one("go")]), parser: AI.Y("CMDPARSER"), handler: this.nat("handler", () => AI.UNDEF) }); }
  invocation(s) { return this.obj(s, { command: this.cmd(s), value: V("VALUE"), handler: this.nat("handler", () => AI.UNDEF), path: this.arr(s, [one("go")]) }); }
  end(fn, more) {
    const st = this.st, meta = { name: one("metaname"), ...(this.o.meta || {}) };
    const opts = this.obj(st, { commands: this.arr(st, [this.obj(st, { path: this.arr(st, [one("go")]), command: this.cmd(st) })]), metadata: this.obj(st, meta), ...more(this, st) });
    this.thrown = []; this.it.handlers = [this.thrown]; const rs = this.it.callFn(fn, [opts], null, st, null).flatMap((r) => this.it.settle(r.v, r.s, null)); this.it.handlers = [];
    this.got = [...rs.map(() => "resolves"), ...this.thrown.map((t) => "rejects with " + this.error(t.v, t.s))];
    const runs = this.events.filter((e) => e.ev === "run"); this.runs = runs; if (runs.length === 1) { this.w = runs[0].s; this.conf = runs[0].args[1] || AI.UNDEF; this.opt = (k) => this.it.getProp(this.conf, k, this.w); this.show = (v) => this.it.describe(v, this.w); }
  }
}
function run(P, R) {
  let n = 0; const fn = exported(P, DIR, "runProgram"); R.obligation("the program runner is exported", !!fn, DIR, "runProgram is no longer exported", "export"); if (!fn) return;
  const sf = fn.node.getSourceFile(), at = sf.fileName.replace(P.REPO + "/", "") + ":" + (sf.getLineAndCharacterOfPosition(fn.node.getStart(sf)).line + 1);
  let keys = []; for (const s of P.sources) if (s.fileName.endsWith("/packages/run/src/run.ts")) for (const st of s.statements) if (ts.isInterfaceDeclaration(st) && st.name.text === "RunOptions") keys = P.checker.getTypeAtLocation(st.name).getProperties().map((x) => x.name);
  const SAME = keys.filter((k) => !["help", "version", "completion", "contexts", "programName"].includes(k)); R.atLeast("options of the runner", SAME.length, 10);
  const scene = (what, o, more, f) => {
    n++; R.analysed(1, "abstract scenarios"); const must = (rule, ok, msg) => R.obligation(rule, !!ok, at, `${what}: ${msg}`, rule + ":" + what);
    try { const b = new ConfBench(P, o); b.end(fn, more); must("the program is run once", b.runs.length === 1 && b.got.join() === "resolves", `run ${b.runs.length} times, ${b.got.join(" or ")}`); if (b.runs.length === 1) { must("the runner gets the program's parser", b.show(b.runs[0].args[0]) === "TOP(PARSER)", b.show(b.runs[0].args[0])); f(b, must); } } catch (e) { must("the scenario can be decided", false, e.message); }
  };
  const none = () => ({});
  for (const [kind, val] of [["configured", (k) => V("OPT " + k)], ["configured to false", () => AI.FALSE], ["configured to zero", () => one(0)], ["configured empty", () => one("")]]) scene(`options ${kind}`, { meta: Object.fromEntries(DOCS.map((k) => [k, V("META " + k)])) }, () => Object.fromEntries(SAME.filter((k) => kind === "configured" || !DOCS.includes(k)).map((k) => [k, val(k)])), (b, must) => {
    for (const k of SAME) if (kind === "configured" || !DOCS.includes(k)) must("every option reaches the runner unchanged", b.show(b.opt(k)) === b.it.describe(val(k), b.w), `${k} becomes ${b.show(b.opt(k))}`);
  });
  scene("documentation from the metadata", { meta: Object.fromEntries(DOCS.map((k) => [k, V("META " + k)])) }, none, (b, must) => { for (const k of DOCS) must("the metadata documents the program where the options do not", b.show(b.opt(k)) === `TOP(META ${k})`, `${k} is ${b.show(b.opt(k))}`); });
  scene("program name given", {}, () => ({ programName: one("mine") }), (b, must) => must("the program is named by the options or the metadata", b.show(b.opt("programName")) === '"mine"', b.show(b.opt("programName"))));
  scene("program name not given", {}, none, (b, must) => must("the program is named by the options or the metadata", b.show(b.opt("programName")) === '"metaname"', b.show(b.opt("programName"))));
  for (const [k, dflt] of [["help", '"both"'], ["completion", '"both"'], ["version", "undefined"]]) {
    scene(`${k} not given`, {}, none, (b, must) => must("help and completion are on unless turned off, the version when it is known", b.show(b.opt(k)) === dflt, `${k} is ${b.show(b.opt(k))}`));
    scene(`${k} turned off`, { meta: { version: one("1.0") } }, () => ({ [k]: AI.FALSE }), (b, must) => must("what is turned off stays off", b.show(b.opt(k)) === "undefined", `${k} is ${b.show(b.opt(k))}`));
    scene(`${k} given`, { meta: { version: one("1.0") } }, () => ({ [k]: V("GIVEN") }), (b, must) => must("every option reaches the runner unchanged", b.show(b.opt(k)) === "TOP(GIVEN)", `${k} is ${b.show(b.opt(k))}`));
    scene(`${k} given as one form`, {}, () => ({ [k]: one("command") }), (b, must) => must("every option reaches the runner unchanged", b.show(b.opt(k)) === '"command"', `${k} is ${b.show(b.opt(k))}`));
  }
  scene("version of the metadata", { meta: { version: one("1.0") } }, none, (b, must) => must("help and completion are on unless turned off, the version when it is known", b.show(b.opt("version")) === '"1.0"', b.show(b.opt("version"))));
  // source contexts keep all they are, and see the value the command's parser gave
  const OPTIONAL = ["getInternalAnnotations", "dispose", "asyncDispose"], key = (m) => (m === "dispose" || m === "asyncDispose" ? "@@global:Symbol." + m : m);
  for (let mask = 0; mask < 8; mask++) for (const phase of ["single-pass", "two-pass"]) for (const alone of [false, true]) {
    const has = OPTIONAL.filter((_, i) => mask & (1 << i));
    scene(`a ${phase} context ${alone ? "on its own " : ""}with ${has.join(", ") || "no optional members"}`, {}, (b, st) => {
      const member = (m) => b.nat(m, (a, s, e) => { b.log(s, "ctx", { name: m, args: a }); return V("RET " + m); });
      const first = b.obj(st, { id: sym("a"), phase: one(phase), getAnnotations: member("getAnnotations"), ...Object.fromEntries(has.map((m) => [key(m), member(m)])) });
      const second = b.obj(st, { id: sym("z"), phase: one("single-pass"), getAnnotations: member("other") });
      return { contexts: b.arr(st, alone ? [first] : [first, second]) };
    }, (b, must) => {
      const cs = b.opt("contexts"), h = cs.length === 1 && cs[0].k === "o" && b.it.rec(b.w, cs[0].id); must("every context reaches the runner, in order", h && h.items && h.items.length === (alone ? 1 : 2) && (alone || b.show(b.it.getProp(h.items[1], "id", b.w)) === "<symbol:stub:z>"), b.show(cs)); if (!h || !h.items || !h.items.length) return;
      const c = h.items[0], get = (k) => b.it.getProp(c, k, b.w);
      must("a context keeps its identity and its phase", b.show(get("id")) === "<symbol:stub:a>" && b.show(get("phase")) === `"${phase}"`, `${b.show(get("id"))}, ${b.show(get("phase"))}`);
      for (const m of OPTIONAL) { const v = get(key(m)); must("a context keeps exactly the optional members it has", has.includes(m) ? v.every((x) => x.k === "fn" || x.k === "nat") && v.length > 0 : v.every((x) => x.k === "c" && x.v == null), `${m} becomes ${b.show(v)}`); }
      const call = (m, args, w) => { const k = b.events.length; b.it.handlers = [[]]; const rs = get(key(m)).flatMap((x) => (x.k === "fn" || x.k === "nat" ? b.it.callAtom(x, args, c, w, null) : [])); b.it.handlers = []; const es = b.events.slice(k).filter((e) => e.ev === "ctx"); return { rs, es }; };
      const outcome = (m, r) => must("a context's members are called once and answer for themselves", r.es.length === 1 && r.es[0].name === m && r.rs.length === 1 && b.it.describe(r.rs[0].v, r.rs[0].s) === `TOP(RET ${m})`, `${m}: ${r.es.length} calls, ${r.rs.map((x) => b.it.describe(x.v, x.s)).join(" or ") || "no answer"}`);
      for (const m of ["getAnnotations", ...has]) {
        if (m.endsWith("ispose")) { outcome(m, call(m, [], b.w)); continue; }
        const s = b.w.clone(); const lookalike = b.obj(s, { value: V("INNER"), handler: b.nat("h", () => AI.UNDEF) });
        const reqs = [["the first phase", b.obj(s, { phase: one("phase1") }), (q, w) => b.it.describe(b.it.getProp(q, "phase", w), w) === '"phase1"'],
          ["the command's invocation", b.obj(s, { phase: one("phase2"), parsed: b.invocation(s) }), (q, w) => b.it.describe(b.it.getProp(q, "phase", w), w) === '"phase2"' && b.it.describe(b.it.getProp(q, "parsed", w), w) === "TOP(VALUE)"],
          ["another value", b.obj(s, { phase: one("phase2"), parsed: V("PLAIN") }), (q, w) => b.it.describe(b.it.getProp(q, "phase", w), w) === '"phase2"' && b.it.describe(b.it.getProp(q, "parsed", w), w) === "TOP(PLAIN)"],
          ["no value", b.obj(s, { phase: one("phase2"), parsed: AI.UNDEF }), (q, w) => b.it.describe(b.it.getProp(q, "parsed", w), w) === "undefined"],
          ["an object that only resembles an invocation", b.obj(s, { phase: one("phase2"), parsed: lookalike }), (q, w) => { const p = b.it.getProp(q, "parsed", w); return p.length === 1 && p[0].k === "o" && p[0].id === lookalike[0].id; }]];
        for (const [name, q, ok] of reqs) { const r = call(m, [q, V("SECOND")], s); outcome(m, r); if (r.es.length === 1) must("a context sees the request with the value of the command's parser", ok(r.es[0].args[0], r.es[0].s) && b.it.describe(r.es[0].args[1], r.es[0].s) === "TOP(SECOND)", `${m}, ${name}: asked with ${r.es[0].args.map((x) => b.it.describe(x, r.es[0].s, 3)).join(", ")}`); }
      }
    });
  }
  for (const empty of [false, true]) scene(empty ? "an empty list of contexts" : "no contexts", {}, empty ? (b, st) => ({ contexts: b.arr(st, []) }) : none, (b, must) => must("no contexts are made up", b.opt("contexts").every((x) => x.k === "c" && x.v === undefined) || (b.it.rec(b.w, b.opt("contexts")[0].id).items || [0]).length === 0, b.show(b.opt("contexts"))));
  R.atLeast("configuration scenarios", n, 30);
}
module.exports = { run, explanation: "abstract interpretation (no execution) of the discovered program's runner with the process runner as a recording stub; compares options and contexts it passes on with those it was given" };
