"use strict";
// The two collection phases of source contexts and what the final run is given.
const AI = require("../lib/ai.js"); const { ts } = require("../lib/program.js");
const { exported } = require("../lib/find.js"); const { RunBench } = require("../lib/runbench.js"); const { one } = require("../lib/scenario.js");
const APIS = [["runWith", "sync"], ["runWith", "async"], ["runWithAsync", "sync"], ["runWithAsync", "async"], ["runWithSync", "sync"]];
const S = (n) => "TOP(" + n + ")";
const merge = (list) => { const o = {}; for (const m of [...list].reverse()) Object.assign(o, m); return o; };
const same = (a, b) => !!a && JSON.stringify(Object.entries(a).sort()) === JSON.stringify(Object.entries(b).sort());
const labelled = (m) => Object.fromEntries(Object.entries(m || {}).map(([k, v]) => [k, S(v)]));
const CTX = {
  s: (id) => ({ id, phase: "single-pass", p1: { k: id + "1", [id]: id + "own" }, p2: { k: id + "2" } }),
  t: (id) => ({ id, phase: "two-pass", p1: { k: id + "1", [id]: id + "own" }, p2: { k: id + "2", ["n" + id]: id + "new" } }),
  e: (id) => ({ id, phase: "two-pass", p1: { k: id + "1" }, p2: {} }),
  i: (id) => ({ id, phase: "two-pass", p1: { k: id + "1" }, p2: { k: id + "2" }, internal: { k: "shadowed", ["in" + id]: id + "internal" } }),
  j: (id) => ({ id, phase: "single-pass", p1: { m: id + "1" }, internal: "none" }),
};
const ALL = []; for (const n of [3, 4]) for (let k = 0; k < 1 << n; k++) { const w = [...k.toString(2).padStart(n, "0")].map((x) => "st"[+x]).join(""); if (w !== "tst" && w !== "sts") ALL.push(w); }
// help, version and completion requests the parser does not take for itself
const METAS = {
  none: null,
  help: { args: ["--help"], options: (b, st) => ({ help: b.obj(st, { option: AI.TRUE }) }), exit: true },
  helpNamed: { args: ["-h"], options: (b, st) => ({ help: b.obj(st, { option: b.obj(st, { names: b.arr(st, [one("-h")]) }) }) }), exit: true },
  helpCommand: { args: ["help"], options: (b, st) => ({ help: b.obj(st, { command: AI.TRUE }) }), exit: true },
  version: { args: ["--version"], options: (b, st) => ({ version: b.obj(st, { option: AI.TRUE, value: one("1") }) }), exit: true },
  versionCommand: { args: ["version"], options: (b, st) => ({ version: b.obj(st, { command: AI.TRUE, value: one("1") }) }), exit: true },
  completion: { args: ["--completion", "bash"], options: (b, st) => ({ completion: b.obj(st, { option: AI.TRUE }) }), exit: true },
  completionCommand: { args: ["completion", "bash"], options: (b, st) => ({ completion: b.obj(st, { command: AI.TRUE }) }), exit: true },
  disabled: { args: ["--help"], options: (b, st) => ({ version: b.obj(st, { option: AI.TRUE, value: one("1") }) }), exit: false },
  unasked: { args: ["x"], options: (b, st) => ({ help: b.obj(st, { option: AI.TRUE, command: AI.TRUE }), version: b.obj(st, { option: AI.TRUE, command: AI.TRUE, value: one("1") }), completion: b.obj(st, { option: AI.TRUE, command: AI.TRUE }) }), exit: false },
};
function symbolKey(P, name) {
  for (const sf of P.sources) for (const stt of sf.statements) if (ts.isVariableStatement(stt)) for (const d of stt.declarationList.declarations) if (ts.isIdentifier(d.name) && d.name.text === name && sf.fileName.includes("/packages/core/")) { const v = new AI.Interp(P, {}).globalVar(d, name); if (v.length === 1 && v[0].k === "y" && v[0].p.startsWith("symbol:")) return v[0].p; }
  return null;
}
function run(P, R) {
  let n = 0; const extractKey = symbolKey(P, "extractPhase2SeedKey");
  for (const [api, mode] of APIS) {
    const fn = exported(P, "packages/core/", api); R.obligation("the runner is exported", !!fn, "packages/core/", `${api} is no longer exported`, "export:" + api); if (!fn) continue;
    const sf = fn.node.getSourceFile(), at = sf.fileName.replace(P.REPO + "/", "") + ":" + (sf.getLineAndCharacterOfPosition(fn.node.getStart(sf)).line + 1);
    const go = (what, o0) => { n++; const o = api === "runWithSync" ? o0 : { ...o0, contexts: o0.contexts.map((c, i) => (i % 2 === 0 ? { promise: true, ...c } : c)) }; R.analysed(1, "abstract scenarios"); try { const b = new RunBench(P, { mode, ...o }); b.got = b.go(api); return b; } catch (e) { R.obligation("the scenario can be decided", false, at, `${what}: ${e.message}`, "decide:" + what); return null; } };
    const must = (rule, ok, what, msg) => R.obligation(rule, !!ok, at, `${what}: ${msg}`, rule + ":" + what);
    for (const shape of ["s", "t", "ss", "st", "ts", "tt", "tst", "e", "et", "te", "i", "it", "ji", "sts", ...ALL]) for (const [meta, M] of Object.entries(METAS)) for (const parse of ["ok", "fail", "stuck"]) for (const complete of ["ok", "fail", "extract"]) {
      if (complete === "extract" && !extractKey) continue; if (M && complete !== "ok" && shape.length > 1) continue; if (ALL.includes(shape) && (M || parse !== "ok")) continue;
      const contexts = [...shape].map((k, i) => CTX[k]("abcd"[i])); const two = contexts.some((c) => c.phase === "two-pass");
      const what = `${api} (${mode} parser), contexts ${contexts.map((c) => c.phase + (c.internal ? " with internals" : "")).join(", ")}, ${meta} request, parse ${parse}, complete ${complete}`;
      const b = go(what, { contexts, parse, complete: complete === "ok" ? "ok" : "fail", extractor: complete === "extract" ? { key: extractKey } : undefined, args: M ? M.args : ["x", "y"], options: M ? (b) => M.options(b, b.st) : undefined });
      if (!b) continue;
      // what should have happened
      const early = two && !!M && M.exit && parse !== "ok"; const seeded = two && !early && complete !== "fail";
      const p1 = contexts.map((c) => merge([labelled(c.p1), typeof c.internal === "object" ? labelled(c.internal) : {}])), p2 = contexts.map((c, i) => (c.phase === "single-pass" ? p1[i] : merge([labelled(c.p2), typeof c.internal === "object" ? labelled(c.internal) : {}])));
      const final = merge(seeded ? p2 : p1);
      const ids1 = b.events.filter((e) => e.ev === "phase1").map((e) => e.id), ids2 = b.events.filter((e) => e.ev === "phase2"), runs = b.events.filter((e) => e.ev === "run");
      must("every context is asked exactly once before parsing", [...ids1].sort().join() === contexts.map((c) => c.id).sort().join() && b.events.slice(0, contexts.length).every((e) => e.ev === "phase1"), what, `asked ${ids1.join(", ") || "nobody"}`);
      const want2 = seeded ? contexts.filter((c) => c.phase === "two-pass").map((c) => c.id) : [];
      must(early ? "a help, version or completion request skips the second collection" : "exactly the two-pass contexts are asked again, once, when the first pass gave a value", ids2.map((e) => e.id).sort().join() === [...want2].sort().join(), what, `asked ${ids2.map((e) => e.id).join(", ") || "nobody"} again instead of ${want2.join(", ") || "nobody"}`);
      const seed = complete === "extract" ? S("EXTRACTED") : S("SEED");
      must("the second collection is given the value of the first pass", ids2.every((e) => b.it.describe(e.parsed, e.s) === seed), what, `given ${ids2.map((e) => b.it.describe(e.parsed, e.s)).join(", ")}`);
      must("the contexts get the caller's context options", b.events.filter((e) => /^phase/.test(e.ev)).every((e) => b.it.describe(e.options, e.s) === "<CTXOPTIONS>"), what, "other options passed");
      const bad = b.events.filter((e) => (e.ev === "parse" || e.ev === "complete") && !same(e.ann, merge(p1)));
      must("the first pass sees the annotations of the first collection", bad.length === 0, what, `sees ${JSON.stringify(bad[0] && bad[0].ann)} instead of ${JSON.stringify(merge(p1))}`);
      must("the parser is run exactly once and its result returned", runs.length === 1 && b.got.join() === "return <RESULT>", what, `run ${runs.length} times, outcome ${b.got.join(" or ")}`);
      if (runs.length) {
        must("the run sees the merged annotations, earlier contexts first", same(runs[0].ann, final), what, `sees ${JSON.stringify(runs[0].ann)} instead of ${JSON.stringify(final)}`);
        const as = runs[0].args[0]; const items = as && as.k === "o" && b.it.rec(runs[0].s, as.id).items; must("the run gets the program name and the arguments", b.it.describe(runs[0].program, runs[0].s) === '"prog"' && items && items.map((x) => b.it.describe(x, runs[0].s)).join() === (M ? M.args : ["x", "y"]).map((x) => JSON.stringify(x)).join(), what, "other arguments");
      }
      if (!two) must("single-pass contexts alone need no first pass", b.count("parse") + b.count("complete") === 0, what, "the parser was run an extra time");
    }
    // any value of the first pass counts, also an empty one
    for (const [name, seed] of [["undefined", () => AI.UNDEF], ["null", () => one(null)], ["false", () => AI.FALSE], ["an empty text", () => one("")], ["zero", () => one(0)]]) {
      const what = `${api} (${mode} parser), first pass completing to ${name}`; const b = go(what, { contexts: [CTX.t("a"), CTX.s("b")], seed }); if (!b) continue;
      const e = b.events.filter((x) => x.ev === "phase2"), r = b.events.filter((x) => x.ev === "run");
      must("the second collection is given the value of the first pass", e.length === 1 && b.it.describe(e[0].parsed, e[0].s) === b.it.describe(seed(), e[0].s), what, e.length ? `given ${b.it.describe(e[0].parsed, e[0].s)}` : "not asked again");
      must("the run sees the merged annotations, earlier contexts first", r.length === 1 && same(r[0].ann, merge([labelled(CTX.t("a").p2), labelled(CTX.s("b").p1)])), what, `sees ${JSON.stringify(r[0] && r[0].ann)}`);
    }
    // failures of the contexts themselves
    for (const [what0, contexts, re, asked] of [
      ["repeated identifiers", [CTX.s("a"), { ...CTX.t("a") }], /^throw TypeError\(/, false],
      ["an unknown phase", [CTX.s("a"), { ...CTX.s("b"), phase: "third" }], /^throw TypeError\(/, false],
      ["a context failing in the first collection", [CTX.s("a"), { ...CTX.t("b"), fail: "p1" }], /^throw <p1ERROR:b>$/, true],
      ["a context failing in the second collection", [CTX.s("a"), { ...CTX.t("b"), fail: "p2" }], /^throw <p2ERROR:b>$/, true],
      ...(api === "runWithSync" ? [["a promised answer", [CTX.s("a"), { ...CTX.t("b"), promise: "sync" }], /^throw TypeError\(/, true], ["a promised answer", [{ ...CTX.s("a"), promise: "sync" }], /^throw TypeError\(/, true]] : []),
    ]) {
      const what = `${api} (${mode} parser), ${what0}`; const b = go(what, { contexts }); if (!b) continue;
      must("a failing context stops the run with its error", b.got.length === 1 && re.test(b.got[0]) && b.count("run") === 0, what, `outcome ${b.got.join(" or ")}, run ${b.count("run")} times`);
      if (!asked) must("contexts that are not acceptable are never asked", b.count("phase1") === 0, what, "asked");
    }
    // values deferred to the final run are not shown
    const two = () => [CTX.t("a")]; const V = (l) => AI.T([l], "string");
    const keys = (b, s, pairs) => b.it.freshObj(s, {}, "map", { items: pairs.map(([k, v]) => b.arr(s, [one(k), v])) });
    const plain = (b, s) => b.obj(s, { real: V("REAL"), held: V("PLACEHOLDER") });
    for (const [name, seed, dk, want] of [
      ["a scalar", (b, s) => V("PLACEHOLDER"), undefined, "undefined"],
      ["a constant", () => one(""), undefined, "undefined"],
      ["one field", plain, (b, s) => keys(b, s, [["held", one(null)]]), "{real:TOP(REAL), held:undefined}"],
      ["every field", plain, (b, s) => keys(b, s, [["held", one(null)], ["real", one(null)]]), "undefined"],
      ["unknown fields", plain, (b, s) => keys(b, s, [["gone", one(null)]]), "undefined"],
      ["a nested field", (b, s) => b.obj(s, { real: V("REAL"), sub: plain(b, s) }), (b, s) => keys(b, s, [["sub", keys(b, s, [["held", one(null)]])]]), "{real:TOP(REAL), sub:{real:TOP(REAL), held:undefined}}"],
      ["a nested object", (b, s) => b.obj(s, { real: V("REAL"), sub: plain(b, s) }), (b, s) => keys(b, s, [["sub", one(null)]]), "{real:TOP(REAL), sub:undefined}"],
      ["a tuple element", (b, s) => b.arr(s, [V("REAL"), V("PLACEHOLDER")]), (b, s) => keys(b, s, [[1, one(null)]]), "array[TOP(REAL), undefined]"],
      ["a tuple element by name", (b, s) => b.arr(s, [V("REAL"), V("PLACEHOLDER")]), (b, s) => keys(b, s, [["1", one(null)]]), "array[TOP(REAL), undefined]"],
      ["every tuple element", (b, s) => b.arr(s, [V("PLACEHOLDER"), V("PLACEHOLDER")]), (b, s) => keys(b, s, [[0, one(null)], [1, one(null)]]), "undefined"],
      ["a whole object", plain, (b, s) => keys(b, s, []), "undefined"],
    ]) {
      const what = `${api} (${mode} parser), deferred value: ${name}`; const b = go(what, { contexts: two(), complete: "deferred", seed, keys: dk }); if (!b) continue;
      const e = b.events.filter((x) => x.ev === "phase2"); const got = e.map((x) => b.it.describe(x.parsed, x.s, 4));
      const norm = (t) => t.replace(/\{([^{}]*)\}/g, (_, q) => "{" + q.split(", ").sort().join(", ") + "}");
      must("deferred parts of the value are hidden from the contexts", got.length === 1 && norm(got[0]) === norm(want), what, `shows ${got.join(" or ") || "nothing"} instead of ${want}`);
    }
  }
  R.atLeast("phase scenarios", n, 1000);
}
module.exports = { run, explanation: "abstract interpretation (no execution) of the context-aware runners over stub contexts and parsers; records which contexts are asked in which phase, with what, and the annotations each parser run carries" };
