"use strict";
// One handler per run, inside the hooks of the program and of the command.
const AI = require("../lib/ai.js"); const { exported } = require("../lib/find.js"); const { RunBench } = require("../lib/runbench.js"); const { one } = require("../lib/scenario.js");
const DIR = "packages/discover/"; const V = (l) => AI.T([l], "string");
// a step may throw anything, and beforeEach may give anything (a word applies to both scopes)
const THROWN = { undefined: undefined, null: null, false: false, zero: 0, text: "" };
const given = (o, scope) => (typeof o.context === "string" ? o.context : o.context[scope]);
const HOOKS = ["beforeEach", "afterEach", "onError"];
class HookBench extends RunBench {
  constructor(P, o) {
    super(P, { run: "real", ...o, onCall: (i) => this.call(i) });
    if (!P.hookStubs) { P.hookStubs = new Map(); for (const n of ["createProgramParser", "isCommand"]) { const f = exported(P, DIR, n); if (f) P.hookStubs.set(f.node, n); } for (const n of ["run", "runAsync"]) { const f = exported(P, "packages/run/", n); if (f) P.hookStubs.set(f.node, "runner"); } }
  }
  call(info) {
    const n = info.kind === "fn" && this.P.hookStubs.get(info.decl), s = info.st; if (!n) return undefined;
    if (n === "isCommand") return { rets: [{ s, v: AI.TRUE }] };
    if (n === "createProgramParser") return { rets: [{ s, v: V("PARSER") }] };
    this.log(s, "run"); return { rets: this.answer(s, this.o.run === "fail" ? null : this.invocation(s), "RUNERROR", null, true) };
  }
  // a step that may take its time and may fail
  step(name, stage, v) {
    const o = this.o, b = this;
    return this.nat(name, (a, s) => { b.log(s, "call", { name: stage, args: a.map((x) => b.arg(x, s)) }); return { rets: b.answer(s, o.fail.includes(stage) ? null : v(s), o.thrown === undefined ? "ERROR:" + stage : one(THROWN[o.thrown]), "done:" + stage, o.slow) }; });
  }
  arg(v, s) { const h = v.length === 1 && v[0].k === "o" && this.it.rec(s, v[0].id); if (h && h.props.has("mark")) return h.props.get("mark")[0].v; if (h && h.kind === "object" && h.props.size === 0) return "{}"; if (v.length === 1 && v[0].k === "y") return "<" + v[0].p + ">"; return this.it.describe(v, s); }
  hooks(scope, set, s) {
    if (!set) return AI.UNDEF; const props = {};
    for (const h of set) props[h] = this.step(h, scope + "." + h, (s2) => (h === "beforeEach" ? (given(this.o, scope) === "object" ? this.obj(s2, { mark: one("ctx:" + scope) }) : given(this.o, scope) === "null" ? one(null) : AI.UNDEF) : V("IGNORED")));
    return this.obj(s, props);
  }
  invocation(s) { const v = this.obj(s, { mark: one("invocation"), command: this.obj(s, this.o.command ? { hooks: this.hooks("command", this.o.command, s) } : {}), value: V("VALUE"), handler: this.step("handler", "handler", () => (this.o.result === "undefined" ? AI.UNDEF : V("OUTCOME"))), path: this.arr(s, [one("go")]) }); return v; }
  end() {
    const st = this.st, o = this.o, fn = exported(this.P, DIR, "runProgram");
    const cmd = this.obj(st, { path: this.arr(st, [one("go")]), parser: AI.Y("PARSER"), handler: AI.Y("HANDLER") });
    const opts = this.obj(st, { commands: this.arr(st, [this.obj(st, { path: this.arr(st, [one("go")]), command: cmd })]), metadata: this.obj(st, { name: one("prog") }), ...(o.program ? { hooks: this.hooks("program", o.program, st) } : {}) });
    this.thrown = []; this.it.handlers = [this.thrown];
    const rs = this.it.callFn(fn, [opts], null, st, null).flatMap((r) => this.it.settle(r.v, r.s, null)); this.it.handlers = [];
    return [...rs.map(() => "resolves"), ...this.thrown.map((t) => "rejects with " + this.error(t.v, t.s))];
  }
}
const thrown = (o, l) => (o.thrown === undefined ? `<ERROR:${l}>` : JSON.stringify(THROWN[o.thrown]) === undefined ? "undefined" : JSON.stringify(THROWN[o.thrown]));
// what must happen, in order
function expected(o) {
  const out = []; const Err = class { constructor(l) { this.l = l; } };
  const call = (stage, ...args) => { out.push(`${stage}(${args.join(", ")})`); if (o.fail.includes(stage)) throw new Err(stage); };
  const made = (scope) => (given(o, scope) === "object" ? "ctx:" + scope : "{}");
  const scope = (name, set, inner, fallback) => {
    const has = (h) => !!set && set.includes(h); let ctx = has("beforeEach") ? "{}" : fallback;
    try { if (has("beforeEach")) { call(name + ".beforeEach", "invocation"); ctx = made(name); } const r = inner(ctx); if (has("afterEach")) call(name + ".afterEach", ctx, r); return r; }
    catch (e) { if (has("onError")) { try { call(name + ".onError", ctx, thrown(o, e.l)); } catch { /* the original failure stands */ } } throw e; }
  };
  const result = o.result === "undefined" ? "undefined" : "TOP(OUTCOME)";
  try {
    scope("program", o.program, (pc) => scope("command", o.command, (cc) => {
      const c = o.command && o.command.includes("beforeEach") ? [cc] : o.program && o.program.includes("beforeEach") ? [pc] : [];
      call("handler", "TOP(VALUE)", ...c); return result;
    }, pc), "{}");
    return { trace: out, end: "resolves" };
  } catch (e) { return { trace: out, end: `rejects with ${thrown(o, e.l)}` }; }
}
function run(P, R) {
  let n = 0; const fn = exported(P, DIR, "runProgram"); R.obligation("the program runner is exported", !!fn, DIR, "runProgram is no longer exported", "export"); if (!fn) return;
  const sf = fn.node.getSourceFile(), at = sf.fileName.replace(P.REPO + "/", "") + ":" + (sf.getLineAndCharacterOfPosition(fn.node.getStart(sf)).line + 1);
  const sets = [undefined]; for (let k = 0; k < 8; k++) sets.push(HOOKS.filter((_, i) => k & (1 << i)));
  const go = (o0) => {
    const o = { mode: "sync", context: "object", ...o0 }; n++; R.analysed(1, "abstract scenarios");
    const show = (s) => (s ? `{${s.join(" ")}}` : "none"); const what = `program hooks ${show(o.program)}, command hooks ${show(o.command)}, failing ${o.fail.join(" and ") || "nothing"}, ${o.slow ? "promised" : "immediate"} steps, throwing ${o.thrown || "an error"}, beforeEach gives ${typeof o.context === "string" ? o.context : `${o.context.program} and ${o.context.command}`}, handler gives ${o.result || "a value"}`;
    const must = (rule, ok, msg) => R.obligation(rule, !!ok, at, `${what}: ${msg}`, rule + ":" + what);
    let b, got; try { b = new HookBench(P, o); got = b.end(); } catch (e) { must("the scenario can be decided", false, e.message); return; }
    const want = expected(o), trace = b.events.filter((e) => e.ev === "call").map((e) => `${e.name}(${e.args.join(", ")})`);
    must("the hooks and the handler are called in nesting order with the right contexts", trace.join(" ") === want.trace.join(" "), `calls ${trace.join(" ") || "nothing"} instead of ${want.trace.join(" ")}`);
    must("the run ends as the handler and the hooks do", got.length === 1 && got[0] === want.end, `${got.join(" or ")} instead of ${want.end}`);
    // nothing starts before what came before it is over, and nothing is left running
    let open = null, bad = null; for (const e of b.events) { if (e.ev === "call") { if (open) bad = bad || `${e.name} starts before ${open} is over`; open = e.name; } else if (e.ev.startsWith("done:")) open = null; }
    must("every step is over before the next one starts", !bad && !open, bad || `${open} is left running`);
  };
  const stages = (p, c) => [...(p || []).map((h) => "program." + h), ...(c || []).map((h) => "command." + h), "handler"].filter((s) => !s.endsWith("onError"));
  for (const program of sets) for (const command of sets) for (const slow of [false, true]) {
    go({ program, command, slow, fail: [] });
    for (const f of stages(program, command)) { go({ program, command, slow, fail: [f] }); const es = [...((program || []).includes("onError") ? ["program.onError"] : []), ...((command || []).includes("onError") ? ["command.onError"] : [])]; for (let k = 1; k < 1 << es.length; k++) go({ program, command, slow, fail: [f, ...es.filter((_, i) => k & (1 << i))] }); }
    if (slow) for (const context of ["undefined", "null"]) for (const result of [undefined, "undefined"]) { go({ program, command, slow, context, result, fail: [] }); go({ program, command, slow, context, result, fail: ["handler"] }); }
    const both = (h) => (program || []).includes(h) && (command || []).includes(h);
    if (slow && both("beforeEach")) for (const a of ["object", "undefined", "null"]) for (const b of ["object", "undefined", "null"]) if (a !== b) for (const fail of [[], ["handler"], ["command.beforeEach"], ["program.beforeEach"]]) go({ program, command, slow, context: { program: a, command: b }, fail });
    for (const t of Object.keys(THROWN)) for (const f of stages(program, command)) { if (slow || f === "handler") go({ program, command, slow, thrown: t, fail: [f] }); if (slow && (program || []).includes("onError")) go({ program, command, slow, thrown: t, fail: [f, "program.onError"] }); }
  }
  // a run that gives no invocation runs nothing
  for (const program of sets) { n++; const b = new HookBench(P, { mode: "sync", program, fail: [], run: "fail" }); let got; try { got = b.end(); } catch (e) { got = [e.message]; } R.obligation("a failed parse runs no hook and no handler", got.join() === "rejects with <RUNERROR>" && b.events.every((e) => e.ev !== "call"), at, `program hooks ${program}: ${got.join(" or ")}`, "failed parse:" + program); }
  R.atLeast("hook scenarios", n, 500);
}
module.exports = { run, explanation: "abstract interpretation (no execution) of the program runner over stub hooks and handlers; compares calls, arguments, order and outcome with the nesting of the two scopes" };
