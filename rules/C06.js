"use strict";
// Prompts: asked only in the real completion, only when nothing else gave a value.
const AI = require("../lib/ai.js"); const { exported } = require("../lib/find.js"); const { BINDINGS, Bench, txt, one } = require("../lib/scenario.js");
const PHASES = ["parse", "precomplete", "resolve", "suggest"];
function run(P, R) {
  const at = (fn) => { const sf = fn.node.getSourceFile(); return sf.fileName.replace(P.REPO + "/", "") + ":" + (sf.getLineAndCharacterOfPosition(fn.node.getStart(sf)).line + 1); };
  const make = exported(P, "packages/prompt/", "createPromptAdapter"), env = exported(P, "packages/env/", "bindEnv");
  R.obligation("the prompt wrapper is exported", !!make, "packages/prompt/", "createPromptAdapter is no longer exported", "export:createPromptAdapter"); if (!make) return;
  let n = 0;
  const attempt = (what, f) => { n++; R.analysed(1, "abstract scenarios"); try { return f(); } catch (e) { R.obligation("the scenario can be decided", false, at(make), `${what}: ${e.message}`, "decide:" + what); return null; } };
  const must = (rule, ok, what, got) => R.obligation(rule, ok, at(make), `${what}: ${got}`, rule + ":" + what);
  const all = (got, re) => got.length > 0 && got.every((x) => re.test(x)); const txts = (g) => g.join(" or ") || "nothing";
  // the wrapper over a stub or over a bound stub
  const bench = (o) => {
    const eb = BINDINGS[0];
    const b = new Bench(P, { complete: "ok", traits: {}, ...o, annotations: o.env === undefined ? undefined : (b) => b.obj(b.st, eb.annotations(b, "ENV")) });
    const adapter = () => b.obj(b.st, { execute: b.nat("execute", (a, s) => (o.answer === "fail" ? b.err(s, "CANCELLED") : b.ok(s, AI.Y("ANSWER")))), getDefaultValue: o.docs ? b.nat("docs", () => AI.Y("DOCDEFAULT")) : AI.UNDEF });
    b.build = () => {
      const made = b.it.callFn(make, [adapter()], null, b.st, null); if (made.length !== 1) throw new Error("the wrapper cannot be made"); b.st = made[0].s;
      let inner = b.inner(o.defer === undefined ? {} : { shouldDeferCompletion: b.nat("defer", () => one(o.defer)), placeholder: AI.Y("PLACEHOLDER") });
      if (o.env !== undefined) { const w = b.it.callFn(env, [inner, b.obj(b.st, { ...eb.options(b, "ENV"), ...(o.def ? { default: txt("DEFAULT") } : {}) })], null, b.st, null); if (w.length !== 1) throw new Error("the source cannot be bound"); b.st = w[0].s; inner = w[0].v; }
      return { fn: made[0].v.find((a) => a.k === "fn"), args: [inner, b.obj(b.st, { message: one("?"), default: txt("CONFIGDEFAULT") })] };
    };
    b.go = (exec, visit) => { const { fn, args } = b.build(); b.log = []; const w = b.it.callFn(fn, args, null, b.st, null); const early = b.log.filter((x) => x.name === "execute").length; const r = b.run(null, null, exec, visit, w); r.early = early; return r; };
    return b;
  };
  const exec = (phase) => (phase === undefined ? null : (b, s) => b.obj(s, { phase: one(phase), usage: b.arr(s, []), path: b.arr(s, []) }));
  const executes = (r) => r.log.filter((x) => x === "execute").length;
  for (const mode of ["sync", "async"]) {
    // a typed value: never asked, whatever becomes of it
    for (const complete of ["ok", "fail"]) for (const defer of [undefined, true, false]) for (const phase of [undefined, "complete", ...PHASES]) {
      const what = `${mode} parser, value typed (${complete}), ${defer === undefined ? "no deferral" : "deferral " + defer}, phase ${phase || "unspecified"}`;
      const r = attempt(what, () => bench({ mode, parse: "typed", complete, defer }).go(exec(phase))); if (!r) continue;
      must("a typed value is used without asking", all(r.parse, /^OK:1$/) && all(r.complete, complete === "ok" ? /^OK:INNER$/ : /^FAIL:INNERERROR$/) && executes(r) === 0, what, `completes to ${txts(r.complete)}${executes(r) ? " after asking" : ""}`);
    }
    // malformed input fails without asking
    { const what = `${mode} parser, malformed input`; const r = attempt(what, () => bench({ mode, parse: "hard" }).go()); if (r) must("malformed input fails without asking", all(r.parse, /^FAIL:PARSEERROR$/) && !r.parseLog.includes("execute"), what, `parse gives ${txts(r.parse)}`); }
    for (const parse of ["empty", "soft"]) {
      // nothing typed: asked exactly once in the real completion
      for (const answer of ["ok", "fail"]) for (const phase of [undefined, "complete"]) {
        const what = `${mode} parser, input ${parse}, phase ${phase || "unspecified"}, prompt ${answer === "ok" ? "answered" : "cancelled"}`;
        const r = attempt(what, () => bench({ mode, parse, answer }).go(exec(phase))); if (!r) continue;
        must("a missing value is asked for once and the answer is the result", all(r.complete, answer === "ok" ? /^OK:ANSWER$/ : /^FAIL:CANCELLED$/) && executes(r) === 1 && all(r.parse, /^OK:0$/), what, `completes to ${txts(r.complete)}, asked ${executes(r)} times`);
        must("parsing never asks", !r.parseLog.includes("execute") && !r.early, what, "asked before completion");
      }
      // probes do not ask
      for (const phase of PHASES) for (const complete of ["ok", "fail"]) for (const e of [undefined, "unset", "set"]) {
        const what = `${mode} parser, input ${parse}, phase ${phase}, wrapped parser ${complete}, ${e ? "variable " + e : "no source"}`;
        const r = attempt(what, () => bench({ mode, parse, complete, env: e, set: e === "set" ? { text: "RAW" } : undefined }).go(exec(phase))); if (!r) continue;
        must("only the real completion asks", executes(r) === 0 && r.complete.length > 0, what, "asked during a probe");
      }
      // deferral
      for (const complete of ["fail"]) for (const phase of [undefined, "complete", "precomplete"]) {
        const what = `${mode} parser, input ${parse}, completion deferred, phase ${phase || "unspecified"}`;
        const r = attempt(what, () => bench({ mode, parse, complete, defer: true }).go(exec(phase))); if (!r) continue;
        must("a deferred completion does not ask", executes(r) === 0 && all(r.complete, /^OK:PLACEHOLDER$/), what, `completes to ${txts(r.complete)}${executes(r) ? " after asking" : ""}`);
      }
      for (const phase of [undefined, "complete"]) {
        const what = `${mode} parser, input ${parse}, deferral over, phase ${phase || "unspecified"}`;
        const r = attempt(what, () => bench({ mode, parse, complete: "fail", defer: false }).go(exec(phase))); if (!r) continue;
        must("after the deferral a missing value is asked for", executes(r) === 1 && all(r.complete, /^OK:ANSWER$/), what, `completes to ${txts(r.complete)}, asked ${executes(r)} times`);
        const q = attempt(what, () => bench({ mode, parse, complete: "ok", defer: false }).go(exec(phase)));
        if (q) must("a value of the wrapped source is used without asking", executes(q) === 0 && all(q.complete, /^OK:INNER$/), what + ", source resolved", `completes to ${txts(q.complete)}${executes(q) ? " after asking" : ""}`);
      }
      // a bound source
      if (env) for (const e of ["set", "default", "unset"]) for (const phase of [undefined, "complete"]) {
        const what = `${mode} parser bound to a variable (${e}), input ${parse}, phase ${phase || "unspecified"}`;
        const r = attempt(what, () => bench({ mode, parse, complete: "fail", env: e, def: e === "default", set: e === "set" ? { text: "RAW" } : undefined }).go(exec(phase))); if (!r) continue;
        must("a bound source that has a value answers instead of the prompt", e === "unset" ? executes(r) === 1 && all(r.complete, /^OK:ANSWER$/) : executes(r) === 0 && all(r.complete, e === "set" ? /^OK:ENV\(RAW\)$/ : /^OK:DEFAULT$/), what, `completes to ${txts(r.complete)}, asked ${executes(r)} times`);
      }
      // other members
      for (const m of ["suggest", "getDocFragments", "canSkip", "shouldDeferCompletion", "getSuggestRuntimeNodes", "placeholder"]) {
        const what = `${mode} parser, input ${parse}, ${m}`; const b = bench({ mode, parse, docs: true, defer: false }); let asked = false, seen = false;
        attempt(what, () => b.go(null, (p, s, state) => {
          seen = true; b.log = []; const doc = b.obj(s, { kind: one("available"), state });
          if (m === "placeholder") b.it.getProp(p, "placeholder", s); else for (const z of b.method(p, s, m, m === "suggest" ? [b.context(s, state), one("")] : m === "getDocFragments" ? [doc, AI.UNDEF] : [state, b.arr(s, [])])) for (const a of z.v) void a;
          if (b.log.some((x) => x.name === "execute")) asked = true;
        }));
        must("suggesting, documenting and asking about a parser never asks the user", seen && !asked, what, "asks the user");
      }
    }
  }
  // the adapters: cancelled is a failure, an answer is the value
  let adapters = 0;
  for (const [dir, types, cancel] of [["packages/clack/", ["text", "password", "confirm", "number", "select", "multiselect"], "symbol"], ["packages/inquirer/", ["confirm", "number", "input", "password", "editor", "select", "rawlist", "expand", "checkbox"], "throw"]]) {
    const fn = exported(P, dir, "prompt"); R.obligation("the prompt wrapper is exported", !!fn, dir, "prompt is no longer exported", "export:" + dir); if (!fn) continue;
    for (const type of types) for (const own of [true, false]) for (const outcome of ["answer", "cancel", "error", ...(type === "number" ? ["none"] : []), ...(type === "multiselect" ? ["empty"] : [])]) {
      const what = `${dir.split("/")[1]} ${type} prompt${own ? " with its own prompter" : ""}, ${outcome}`; adapters++;
      let raised = 0;
      const reply = (b) => (a, s) => {
        if (outcome === "error" || (outcome === "cancel" && cancel === "throw")) { raised++; b.it.raise(s, b.obj(s, { name: one(outcome === "cancel" ? "ExitPromptError" : "Error"), message: one("m") }), true); return null; }
        if (outcome === "cancel") return AI.Y("CANCELSYMBOL"); if (outcome === "none") return AI.UNDEF; if (outcome === "empty") return b.arr(s, []);
        return type === "number" ? one(7) : type === "multiselect" || type === "checkbox" ? b.arr(s, [one("picked")]) : type === "confirm" ? one(false) : txt("ANSWER");
      };
      const r = attempt(what, () => {
        const b = new Bench(P, { mode: "sync", parse: "soft", complete: "fail", onCall: (info) => (info.decl && info.decl.type && info.decl.type.getText() === "PromptFunctions" ? { s: info.st, v: b.obj(info.st, { ...Object.fromEntries(types.map((t) => [t, b.nat("ask", reply(b))])), isCancel: b.nat("isCancel", () => one(outcome === "cancel")) }) } : info.path && /isCancel$/.test(info.path) ? one(outcome === "cancel") : undefined) });
        const choices = b.arr(b.st, [b.obj(b.st, { value: one("picked"), key: one("p"), name: one("P") })]);
        const cfg = b.obj(b.st, { type: one(type), message: one("?"), options: choices, choices, required: one(outcome === "empty"), ...(own ? { prompter: b.nat("ask", reply(b)) } : {}) });
        const res = b.run(fn, () => [b.inner(), cfg]); res.asked = b.log.filter((x) => x.name === "ask").length; return res;
      }); if (!r) continue;
      const want = outcome === "answer" ? (type === "number" ? /^OK:7$/ : type === "multiselect" || type === "checkbox" ? /^OK:\["picked"\]$/ : type === "confirm" ? /^OK:false$/ : /^OK:ANSWER$/) : /^FAIL:/;
      const ok = outcome === "error" ? r.complete.every((x) => /^FAIL:/.test(x)) : all(r.complete, want);
      R.obligation(outcome === "answer" ? "the answer is the value" : "a cancelled or missing answer is a failure, never a value", ok && r.asked >= 1, at(fn), `${what}: completes to ${txts(r.complete)}`, "adapter:" + what);
    }
  }
  R.atLeast("prompt scenarios", n, 150); R.atLeast("adapter scenarios", adapters, 60);
}
module.exports = { run, explanation: "abstract interpretation (no execution) of the prompt wrapper and its adapters over stub parsers, sources and prompts whose answers are chosen; records whether the user is asked and where the result comes from" };
