"use strict";
// Fallback values are held to the constraints of the parser they stand in for.
const AI = require("../lib/ai.js"); const { exported } = require("../lib/find.js"); const { BINDINGS, bound, Bench, txt, one } = require("../lib/scenario.js");
function run(P, R) {
  const at = (fn) => { const sf = fn.node.getSourceFile(); return sf.fileName.replace(P.REPO + "/", "") + ":" + (sf.getLineAndCharacterOfPosition(fn.node.getStart(sf)).line + 1); };
  const fns = new Map(); const api = (dir, name) => { if (!fns.has(name)) { const f = exported(P, dir, name); fns.set(name, f); R.obligation("an entry point of fallback validation is exported", !!f, dir, `${name} is no longer exported`, "export:" + name); } return fns.get(name); };
  let n = 0;
  const check = (rule, fn, what, want, f) => {
    n++; R.analysed(1, "abstract scenarios"); let got;
    try { got = f(); } catch (e) { got = ["?" + e.message]; }
    R.obligation(rule, got.length > 0 && got.every((x) => want.test(x)), at(fn), `${what}: gives ${got.join(" or ") || "nothing"}`, rule + ":" + what);
  };
  const RULE = "a fallback value passes through the validation of the wrapped parser";
  // 1. values of bound sources and declared defaults, completed and as dependency source
  for (const B of BINDINGS) {
    const fn = api(B.dir, B.name); if (!fn) continue; const nm = B.name + (B.variant ? ` (${B.variant})` : "");
    for (const mode of ["sync", "async"]) for (const parse of ["empty", "soft"]) for (const validate of ["ok", "fail"]) for (const set of [undefined, { text: "FALLBACK" }]) for (const def of [undefined, { text: "DEFAULT" }]) for (const registered of [true, false]) {
      if (!set && !def || (!registered && set)) continue;
      const raw = set ? (B.raw ? "ENV(FALLBACK)" : "FALLBACK") : "DEFAULT";
      const want = validate === "ok" ? new RegExp("^OK:VALID\\(" + raw.replace(/[()]/g, "\\$&") + "\\)$") : /^FAIL:INVALID$/;
      const what = `${nm} (${mode}), input ${parse}, ${set ? "value of the source" : "declared default"}, ${registered ? "" : "source not registered, "}validation ${validate}s`;
      const mk = () => bound(P, B, { mode, parse, set, def, complete: "ok", validate, registered, source: "same" });
      check(RULE, fn, what, want, () => { const b = mk(); return b.run(fn, () => b.args()).complete; });
      check(RULE, fn, what + ", as a dependency source", want, () => { const b = mk(); const out = []; b.run(fn, () => b.args(), null, (p, s, state) => { const src = b.it.getProp(b.it.getProp(p, "dependencyMetadata", s), "source", s); for (const z of b.method(src, s, "extractSourceValue", [state])) out.push(...b.describe(z)); }); return out; });
      if (!set) check(RULE, fn, what + ", as the value of an absent dependency source", want, () => { const b = mk(); const out = []; b.run(fn, () => b.args(), null, (p, s) => { const src = b.it.getProp(b.it.getProp(p, "dependencyMetadata", s), "source", s); for (const z of b.method(src, s, "getMissingSourceValue", [])) out.push(...b.describe(z)); }); return out; });
    }
  }
  // 2. wrappers that keep the kind of value hand validation on
  const W = [
    ["packages/env/", "bindEnv", (b) => [b.inner(), b.obj(b.st, BINDINGS[0].options(b, "CTX"))]],
    ["packages/config/", "bindConfig", (b) => [b.inner(), b.obj(b.st, BINDINGS[1].options(b, "CTX"))]],
    ["packages/derived-defaults/", "bindDerivedDefault", (b) => [b.inner(), b.obj(b.st, BINDINGS[3].options(b, "CTX"))]],
    ["packages/core/", "optional", (b) => [b.inner()]],
    ["packages/core/", "withDefault", (b) => [b.inner(), txt("DEFAULT")]],
    ["packages/core/", "nonEmpty", (b) => [b.inner()]],
    ["packages/core/", "group", (b) => [one("Label"), b.inner(), AI.UNDEF]],
    ["packages/core/", "command", (b) => [one("cmd"), b.inner(), AI.UNDEF]],
  ];
  const build = (fn, o, mk) => { const b = new Bench(P, { mode: "sync", parse: "typed", complete: "ok", ...o }); const out = []; for (const { v, s } of b.wrap(fn, mk(b))) out.push([b, v, s]); return out; };
  const validate = (fn, o, mk, value) => { const out = []; for (const [b, p, s] of build(fn, o, mk)) { const ms = b.it.getProp(p, "validateValue", s); if (!ms.some((a) => a.k === "fn" || a.k === "nat")) { out.push("no validation"); continue; } for (const z of b.method(p, s, "validateValue", [typeof value === "function" ? value(b, s) : value])) out.push(...b.describe(z)); } return out; };
  for (const [dir, name, mk] of W) {
    const fn = api(dir, name); if (!fn) continue;
    for (const mode of ["sync", "async"]) {
      check("wrappers hand validation on", fn, `${name} (${mode}), accepted value`, /^OK:VALID\(X\)$/, () => validate(fn, { mode, validate: "ok" }, mk, txt("X")));
      check("wrappers hand validation on", fn, `${name} (${mode}), rejected value`, /^FAIL:INVALID$/, () => validate(fn, { mode, validate: "fail" }, mk, txt("X")));
      for (const v of [null, false, 0, ""]) check("wrappers hand validation on", fn, `${name} (${mode}), rejected value ${JSON.stringify(v)}`, /^FAIL:INVALID$/, () => validate(fn, { mode, validate: "fail" }, mk, one(v)));
      if (name === "optional") check("wrappers hand validation on", fn, `${name} (${mode}), no value`, /^OK:undefined$/, () => validate(fn, { mode, validate: "fail" }, mk, AI.UNDEF));
    }
  }
  // 3. lists: every element and both bounds
  const mult = api("packages/core/", "multiple");
  if (mult) for (const mode of ["sync", "async"]) for (const [min, max] of [[0, Infinity], [1, 2], [2, 2], [0, 1]]) for (let len = 0; len <= 3; len++) for (const inner of [undefined, "ok", "fail"]) {
    const mk = (b) => [b.inner(), b.obj(b.st, { min: one(min), ...(max === Infinity ? {} : { max: one(max) }) })];
    const fits = len >= min && len <= max; const want = !fits ? /^FAIL:(?!INVALID)/ : inner === "fail" && len ? /^FAIL:INVALID$/ : new RegExp("^OK:" + ("[" + Array.from({ length: len }, (_, i) => (inner === "ok" ? `"VALID(${i})"` : i)).join() + "]").replace(/[\[\]()]/g, "\\$&") + "$");
    check("lists are held to their bounds and every element to its parser", mult, `multiple (${mode}), at least ${min}, at most ${max}, ${len} values, validation of elements ${inner || "absent"}`, want, () => validate(mult, { mode, validate: inner }, mk, (b, s) => b.arr(s, Array.from({ length: len }, (_, i) => one(i)))));
  }
  if (mult) for (const mode of ["sync", "async"]) for (let len = 1; len <= 3; len++) for (let i = 0; i < len; i++) check("lists are held to their bounds and every element to its parser", mult, `multiple (${mode}), ${len} values of which number ${i + 1} is rejected`, /^FAIL:INVALID$/, () => validate(mult, { mode, validate: "bad" }, (b) => [b.inner()], (b, s) => b.arr(s, Array.from({ length: len }, (_, j) => one(j === i ? "bad" : "good" + j)))));
  if (mult) for (const inner of [undefined, "ok"]) check("lists are held to their bounds and every element to its parser", mult, `multiple, a value that is no list, validation of elements ${inner || "absent"}`, /^FAIL:/, () => validate(mult, { validate: inner }, (b) => [b.inner(), b.obj(b.st, {})], one("text")));
  // 4. primitives: the value goes back through its value parser
  const vp = (b, o) => b.obj(b.st, { mode: one(b.o.mode), metavar: one("M"), placeholder: AI.Y("placeholder"), choices: AI.UNDEF, suggest: AI.UNDEF,
    parse: b.nat("envparse", (a, s) => (o.verdict === "fail" ? b.err(s, "REJECTED") : b.ok(s, AI.Y("REPARSED(" + b.show(a[0], s) + ")")))),
    format: b.nat("format", (a, s) => txt("FORMATTED(" + b.show(a[0], s) + ")")),
    ...(o.hook ? { validate: b.nat("envparse", (a, s) => (o.verdict === "fail" ? b.err(s, "REJECTED") : b.ok(s, AI.Y("HOOK(" + b.show(a[0], s) + ")")))) } : { validate: AI.UNDEF }) });
  for (const name of ["option", "argument"]) {
    const fn = api("packages/core/", name); if (!fn) continue;
    for (const mode of ["sync", "async"]) for (const hook of [false, true]) for (const verdict of ["ok", "fail"]) {
      const mk = (b) => { const v = vp(b, { hook, verdict }); return name === "option" ? [one("--opt"), v] : [v]; };
      check("a primitive validates a value as if it had been typed", fn, `${name} (${mode}), ${hook ? "own validation" : "formatted and parsed again"}, ${verdict === "ok" ? "accepted" : "rejected"}`, verdict === "fail" ? /^FAIL:/ : hook ? /^OK:HOOK\(X\)$/ : /^OK:REPARSED\(FORMATTED\(X\)\)$/, () => validate(fn, { mode }, mk, txt("X")));
    }
  }
  // flags are booleans
  for (const [name, mk] of [["option", () => [one("--opt")]], ["negatableFlag", (b) => [b.obj(b.st, { positive: one("--yes"), negative: one("--no") })]]]) {
    const fn = api("packages/core/", name); if (!fn) continue;
    for (const v of [true, false, "yes", 1, null]) check("a primitive validates a value as if it had been typed", fn, `${name} as a flag, value ${JSON.stringify(v)}`, typeof v === "boolean" ? new RegExp("^OK:" + v + "$") : /^FAIL:/, () => validate(fn, {}, mk, one(v)));
  }
  R.atLeast("validation scenarios", n, 150);
}
module.exports = { run, explanation: "abstract interpretation (no execution) of the source-binding wrappers, of wrappers that hand validation on, of lists and of primitives over stub parsers whose verdict is chosen; the origin of the result shows whether the value was validated" };
