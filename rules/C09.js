"use strict";
// Disposal of source contexts: once each, after the run, whatever happens.
const { exported } = require("../lib/find.js"); const { RunBench } = require("../lib/runbench.js");
const APIS = [["runWith", "sync"], ["runWith", "async"], ["runWithAsync", "sync"], ["runWithAsync", "async"], ["runWithSync", "sync"]];
const ARR = [["s"], ["a"], ["b"], ["n"], ["s", "a"], ["n", "s"], ["b", "s"], ["a", "b", "s"], ["s", "n", "b"]];
function run(P, R) {
  let n = 0;
  for (const [api, mode] of APIS) {
    const fn = exported(P, "packages/core/", api); R.obligation("the runner is exported", !!fn, "packages/core/", `${api} is no longer exported`, "export:" + api); if (!fn) continue;
    const sf = fn.node.getSourceFile(), at = sf.fileName.replace(P.REPO + "/", "") + ":" + (sf.getLineAndCharacterOfPosition(fn.node.getStart(sf)).line + 1);
    const sync = api === "runWithSync";
    for (const kinds of ARR) for (const phase of ["single-pass", "two-pass"]) for (const outcome of ["ok", "run", "p1", "p2", "dup", "phase", "noseed", "thenable"]) for (const failing of ["none", "first", "all"]) {
      if (outcome === "p2" && phase === "single-pass") continue; if (outcome === "dup" && kinds.length < 2) continue; if (outcome === "noseed" && phase === "single-pass") continue;
      if (outcome === "thenable" && (!sync || failing !== "none")) continue;
      const last = kinds.length - 1; let D = [];
      const contexts = kinds.map((k, i) => {
        const id = outcome === "dup" ? "C0" : "C" + i; const c = { id, name: i, phase: outcome === "phase" && i === last ? "other" : phase, promise: !sync, p1: { k: "A" + i }, p2: { k: "B" + i } };
        if (k === "s" || k === "b") c.dispose = true; if (k === "a" || k === "b") c.asyncDispose = true;
        const used = k === "n" ? null : k === "b" ? (sync ? "dispose" : "asyncDispose") : k === "s" ? "dispose" : "asyncDispose"; c.used = used;
        if (used && (failing === "all" || (failing === "first" && i === 0))) { c.fail2 = used; D.push("DISPOSEERROR:" + id); }
        if (outcome === "thenable" && k === "a") { c.thenable = true; D.push("TypeError("); }
        if (i === last && (outcome === "p1" || outcome === "p2")) c.fail = outcome;
        return c;
      });
      const what = `${api} (${mode} parser), ${phase} contexts disposing ${kinds.map((k) => ({ s: "synchronously", a: "asynchronously", b: "either way", n: "not" })[k]).join(", ")}, ${({ ok: "successful run", run: "failing run", p1: "failing first collection", p2: "failing second collection", dup: "repeated identifiers", phase: "unknown phase", noseed: "no seed", thenable: "promised disposal" })[outcome]}, ${failing === "none" ? "no" : failing} disposal failing`;
      n++; R.analysed(1, "abstract scenarios"); let got, b;
      try { b = new RunBench(P, { mode, contexts, run: outcome === "run" ? "fail" : "ok", complete: outcome === "noseed" ? "fail" : "ok" }); got = b.go(api); } catch (e) { R.obligation("the scenario can be decided", false, at, `${what}: ${e.message}`, "decide:" + what); continue; }
      const must = (rule, ok, msg) => R.obligation(rule, ok, at, `${what}: ${msg}`, rule + ":" + what);
      const B = outcome === "run" ? "BODYERROR" : outcome === "p1" || outcome === "p2" ? outcome + "ERROR:" + contexts[last].id : outcome === "dup" || outcome === "phase" ? "TypeError(" : null;
      const disp = b.events.filter((e) => /ispose$/.test(e.ev)).map((e) => e.id + "." + e.ev), want = contexts.filter((c) => c.used).map((c) => c.id + "." + c.used);
      must("every context is disposed exactly once, by the right disposer", [...disp].sort().join() === [...want].sort().join(), `disposed ${disp.join(", ") || "nothing"} instead of ${want.join(", ") || "nothing"}`);
      const firstD = b.events.findIndex((e) => /ispose$/.test(e.ev)), others = b.events.slice(firstD < 0 ? b.events.length : firstD).filter((e) => !/ispose/.test(e.ev));
      must("disposal comes after the run", others.length === 0, `${others.map((e) => e.ev).join(", ")} after the first disposal`);
      if (mode === "async" && b.count("run")) must("disposal comes after the run", b.count("run settled") === 1 && (firstD < 0 || b.events.findIndex((e) => e.ev === "run settled") < firstD), "contexts are disposed before the run has settled");
      if (!sync) must("asynchronous disposal is awaited", b.count("disposed settled") === want.filter((w) => /async/.test(w)).length, "not awaited");
      const g = got.join(" or ");
      if (!B && !D.length) must("a clean run returns its result", g === "return <RESULT>", g || "no outcome");
      else {
        const all = [...(B ? [B] : []), ...D]; let ok = got.length === 1 && /^throw /.test(got[0]); let rest = g;
        for (const x of all) { const i = rest.indexOf(x); if (i < 0) ok = false; else rest = rest.slice(0, i) + rest.slice(i + x.length); }
        if (all.length === 1 && !/TypeError/.test(all[0])) ok = ok && g === `throw <${all[0]}>`;
        must("every failure of the run and of the disposal is reported", ok, `${g || "no outcome"} instead of an error with ${all.join(" and ")}`);
      }
    }
    // without contexts nothing is wrapped
    n++; const b = new RunBench(P, { mode, contexts: [] }); let got; try { got = b.go(api); } catch (e) { got = [e.message]; }
    R.obligation("a clean run returns its result", got.join() === "return <RESULT>", at, `${api} without contexts: ${got.join(" or ")}`, "empty:" + api + mode);
  }
  R.atLeast("disposal scenarios", n, 500);
}
module.exports = { run, explanation: "abstract interpretation (no execution) of the context-aware runners over stub contexts, parsers and a stub plain runner with every combination of disposer, failure and phase; records which disposers are called, when, and which errors are reported" };
