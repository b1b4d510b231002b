"use strict";
// Where a value comes from: what the user typed, else the bound source, else the
// declared default, else what the wrapped parser offers by itself.
const { exported } = require("../lib/find.js"); const { BINDINGS, bound, Bench, txt, one } = require("../lib/scenario.js"); const AI = require("../lib/ai.js");
const SETS = [undefined, { text: "FALLBACK" }, { c: false }, { c: 0 }, { c: "" }];
const DEFS = [undefined, { text: "DEFAULT" }, { c: false }, { c: 0 }, { c: "" }];
const word = (x) => (x === undefined ? "absent" : "c" in x ? JSON.stringify(x.c) : "present");
const shown = (x) => ("c" in x ? JSON.stringify(x.c) : x.text);
function run(P, R) {
  const at = (fn) => { const sf = fn.node.getSourceFile(); return sf.fileName.replace(P.REPO + "/", "") + ":" + (sf.getLineAndCharacterOfPosition(fn.node.getStart(sf)).line + 1); };
  const fns = new Map(); const api = (dir, name) => { if (!fns.has(name)) { const f = exported(P, dir, name); fns.set(name, f); R.obligation("an entry point of value precedence is exported", !!f, dir, `${name} is no longer exported`, "export:" + name); } return fns.get(name); };
  const all = (got, re) => got.length > 0 && got.every((x) => re.test(x)); const esc = (s) => s.replace(/[.*+?^${}()|[\]\\]/g, "\\$&");
  let scenarios = 0;
  const attempt = (fn, what, f) => { scenarios++; R.analysed(1, "abstract scenarios"); try { return f(); } catch (e) { R.obligation("the scenario can be decided", false, at(fn), `${what}: ${e.message}`, "decide:" + what); return null; } };
  const parsed = (fn, what, parse, r) => {
    R.obligation("what was typed reaches the result of parsing, and malformed input fails", all(r.parse, parse === "typed" ? /^OK:1$/ : parse === "hard" ? /^FAIL:PARSEERROR$/ : /^OK:0$/), at(fn), `${what}: parse gives ${r.parse.join(" or ") || "nothing"}`, "parse:" + what);
    return parse !== "hard";
  };
  for (const B of BINDINGS) {
    const fn = api(B.dir, B.name); if (!fn) continue; const nm = B.name + (B.variant ? ` (${B.variant})` : "");
    for (const mode of ["sync", "async"]) for (const parse of ["typed", "empty", "soft", "hard"]) for (const set of SETS) for (const def of DEFS) for (const registered of [true, false]) {
      if (!registered && set !== undefined) continue;
      if (B.raw && set && "c" in set && set.c !== "") continue;
      if (parse === "hard" && (set && "c" in set || def && "c" in def)) continue;
      for (const complete of ["ok", "fail"]) for (const canSkip of parse === "empty" && !set && !def ? [true, false] : [true]) for (const envParse of B.raw && set && complete === "ok" ? ["ok", "fail"] : ["ok"]) {
        const what = `${nm} (${mode}), input ${parse}, source ${registered ? word(set) : "not registered"}, default ${word(def)}, wrapped parser ${complete}${canSkip ? "" : ", not skippable"}${envParse === "ok" ? "" : ", variable malformed"}`;
        const r = attempt(fn, what, () => { const b = bound(P, B, { mode, parse, set, def, complete, registered, canSkip, envParse }); return b.run(fn, () => b.args()); }); if (!r) continue;
        if (!parsed(fn, what, parse, r)) continue;
        let want, rule;
        if (parse === "typed") { rule = "a typed value wins over every fallback, and its failure is reported"; want = complete === "ok" ? /^OK:INNER$/ : /^FAIL:INNERERROR$/; }
        else if (set && envParse === "fail") { rule = "a malformed source value fails and is not masked by a default"; want = /^FAIL:ENVERROR$/; }
        else if (set) { rule = "a bound source with a value wins over the declared default"; want = new RegExp("^OK:" + (B.raw ? `ENV\\(${esc(shown(set))}\\)` : esc(shown(set))) + "$"); }
        else if (def) { rule = "the declared default is used when the source has no value"; want = new RegExp("^OK:" + esc(shown(def)) + "$"); }
        else if (B.inner === "complete" || (B.inner === "canSkip" && canSkip)) { rule = "without source and default the wrapped parser decides"; want = complete === "ok" ? /^OK:INNER$/ : /^FAIL:/; }
        else { rule = "a missing value is a failure"; want = /^FAIL:/; }
        R.obligation(rule, all(r.complete, want), at(fn), `${what}: completes to ${r.complete.join(" or ") || "nothing"}`, rule + ":" + what);
      }
    }
    // as a dependency source
    for (const mode of ["sync", "async"]) for (const parse of ["typed", "empty", "soft"]) for (const set of [undefined, { text: "FALLBACK" }]) for (const def of [undefined, { text: "DEFAULT" }, { c: false }]) for (const source of ["same", "mapped"]) {
      const what = `${nm} (${mode}) as a dependency source (${source}), input ${parse}, source ${word(set)}, default ${word(def)}`;
      const got = attempt(fn, what, () => {
        const b = bound(P, B, { mode, parse, set, def, complete: "ok", source }); const out = [], miss = [];
        b.run(fn, () => b.args(), null, (p, s, state) => {
          const src = b.it.getProp(b.it.getProp(p, "dependencyMetadata", s), "source", s);
          for (const z of b.method(src, s, "extractSourceValue", [state])) out.push(...b.describe(z));
          const g = b.it.getProp(src, "getMissingSourceValue", s); if (g.every((a) => a.k === "c" && a.v === undefined)) miss.push("none"); else for (const z of b.method(src, s, "getMissingSourceValue", [])) miss.push(...b.describe(z));
        }); return { out, miss };
      }); if (!got) continue;
      const want = parse === "typed" || source === "mapped" ? /^OK:SRC$/ : set ? (B.raw ? /^OK:ENV\(FALLBACK\)$/ : /^OK:FALLBACK$/) : def ? new RegExp("^OK:" + shown(def) + "$") : /^OK:SRC$/;
      R.obligation("dependent parsers see the value of the same source", all(got.out, want), at(fn), `${what}: the source value is ${got.out.join(" or ") || "not resolved"}`, "source:" + what);
      R.obligation("the value of an absent source is its declared default", all(got.miss, def && source === "same" ? new RegExp("^OK:" + shown(def) + "$") : /^none$/), at(fn), `${what}: without state the source value is ${got.miss.join(" or ") || "not resolved"}`, "missing:" + what);
    }
    // an iteration that adds nothing starts from the wrapped parser's own state again, and a later one continues from the typed state
    for (const mode of ["sync", "async"]) for (const first of ["typed", "empty", "soft"]) {
      const what = `${nm} (${mode}): second round after input ${first}`;
      const got = attempt(fn, what, () => { const b = bound(P, B, { mode, parse: first, set: { text: "FALLBACK" }, complete: "ok" }); const out = []; b.run(fn, () => b.args(), null, (p, s, state) => { b.log = []; b.method(p, s, "parse", [b.context(s, state)]); for (const l of b.log) if (l.name === "parse") out.push(b.lab(b.it.getProp(b.it.getProp(l.args[0], "state", l.s), "inner", l.s), l.s).join()); }); return out; }); if (!got) continue;
      R.obligation("the wrapped parser is resumed with its own state", all(got, first === "typed" ? /^PARSED$/ : /^(INITIAL|PARSED)$/), at(fn), `${what}: resumed with ${got.join(" or ") || "nothing"}`, "resume:" + what);
    }
  }
  // one source under another: the outer one first
  {
    const E = api("packages/env/", "bindEnv"), C = api("packages/config/", "bindConfig"), eb = BINDINGS.find((x) => x.name === "bindEnv"), cb = BINDINGS.find((x) => x.name === "bindConfig");
    if (E && C) for (const mode of ["sync", "async"]) for (const parse of ["typed", "empty", "soft", "hard"]) for (const env of [undefined, { text: "ENVRAW" }]) for (const conf of [undefined, { text: "CONFIG" }]) for (const def of [undefined, { text: "DEFAULT" }]) {
      const what = `bindEnv over bindConfig (${mode}), input ${parse}, variable ${word(env)}, configuration ${word(conf)}, default ${word(def)}`;
      const r = attempt(E, what, () => {
        const b = new Bench(P, { mode, parse, complete: "ok", canSkip: true, annotations: (b) => b.obj(b.st, { ...eb.annotations(Object.assign(Object.create(b), { o: { set: env } }), "ENV"), ...cb.annotations(Object.assign(Object.create(b), { o: { set: conf } }), "CONF") }) });
        const inner = b.it.callFn(C, [b.inner(), b.obj(b.st, { ...cb.options(b, "CONF"), ...(def ? { default: txt("DEFAULT") } : {}) })], null, b.st, null); if (inner.length !== 1) throw new Error("cannot build"); b.st = inner[0].s;
        return b.run(E, () => [inner[0].v, b.obj(b.st, eb.options(b, "ENV"))]);
      }); if (!r) continue;
      if (!parsed(E, what, parse, r)) continue;
      const want = parse === "typed" ? /^OK:INNER$/ : env ? /^OK:ENV\(ENVRAW\)$/ : conf ? /^OK:CONFIG$/ : def ? /^OK:DEFAULT$/ : /^FAIL:/;
      R.obligation("a typed value wins over the environment, the environment over configuration, configuration over the default", all(r.complete, want), at(E), `${what}: completes to ${r.complete.join(" or ") || "nothing"}`, "nest:" + what);
    }
  }
  // optional() and withDefault()
  for (const name of ["optional", "withDefault"]) {
    const fn = api("packages/core/", name); if (!fn) continue;
    for (const mode of ["sync", "async"]) for (const parse of ["typed", "empty", "soft", "hard"]) for (const complete of ["ok", "fail"]) for (const def of name === "optional" ? [{ c: undefined }] : [{ text: "DEFAULT" }, { c: false }, { c: 0 }, { c: "" }, { c: null }, { f: "LAZY" }]) {
      const what = `${name} (${mode}), input ${parse}, wrapped parser ${complete}${name === "optional" ? "" : ", default " + (def.f ? "computed" : word(def))}`;
      const r = attempt(fn, what, () => { const b = new Bench(P, { mode, parse, complete }); return b.run(fn, () => (name === "optional" ? [b.inner()] : [b.inner(), def.f ? b.nat("default", () => txt("LAZY")) : "c" in def ? one(def.c) : txt(def.text)])); }); if (!r) continue;
      if (!parsed(fn, what, parse, r)) continue;
      const want = parse !== "soft" ? (complete === "ok" ? /^OK:INNER$/ : /^FAIL:INNERERROR$/) : new RegExp("^OK:" + esc(def.f || ("c" in def ? (def.c === undefined ? "undefined" : JSON.stringify(def.c)) : def.text)) + "$");
      const rule = parse === "soft" ? "a parser that found nothing gives its default" : "what the wrapped parser matched decides, and its failure is reported";
      R.obligation(rule, all(r.complete, want), at(fn), `${what}: completes to ${r.complete.join(" or ") || "nothing"}`, rule + ":" + what);
    }
  }
  R.atLeast("precedence scenarios", scenarios, 500);
}
module.exports = { run, explanation: "abstract interpretation (no execution) of every source-binding wrapper over a stub parser and stub source whose answers are chosen, for each combination of input, source, default and mode; the origin of the resulting value is compared with the documented precedence" };
