"use strict";
// Source-binding wrappers interpreted over a stub parser whose answers are chosen:
// what the wrapper returns, and which stubs it consulted, for each combination.
const AI = require("./ai.js"); const { ts } = require("./program.js");
const one = (v) => [{ k: "c", v }];
// Carrying of annotations is taken as given: in the modules that implement it, a
// function that returns (a copy of) its argument returns it, predicates about its
// carriers are false, and the annotations are those of the scenario.
function annotationStub(info, ann) {
  const d = info.decl; if (!d || !d.type || !/core\/src\/(internal\/annotations|annotations|annotation-state)\.ts$/.test(d.getSourceFile().fileName)) return undefined;
  if (info.name === "getAnnotations") return ann;
  const r = d.type.getText(); if (r === "boolean" || ts.isTypePredicateNode(d.type)) return AI.FALSE;
  const same = d.parameters.map((p, i) => [p, i]).filter(([p]) => p.type && p.type.getText() === r); if (same.length === 1) return info.args[same[0][1]];
  return undefined;
}
// answers of asynchronous stubs are promises
const PROMISED = new Set(["parse", "complete", "validateValue", "envparse", "execute", "extract"]);
// o: { mode, parse: "typed"|"empty"|"soft"|"hard", complete: "ok"|"fail", validate: "ok"|"fail"|undefined, annotations: (it,st)=>value|undefined }
class Bench {
  constructor(P, o) {
    this.P = P; this.o = o; this.log = []; this.promises = new Set();
    this.it = new AI.Interp(P, {
      maxRec: 3, pureNumeric: true, maxSteps: 3e6, noRejections: true,
      instanceOf: (a, c) => (/Promise/.test(this.it.termOf(c)) ? (a.k === "o" && this.promises.has(a.id) ? AI.TRUE : AI.FALSE) : AI.T([], "boolean")),
      onCall: (info) => { if (info.kind !== "fn") return o.onCall ? (o.onCall(info, this) || undefined) : undefined; const v = annotationStub(info, this.ann) || (o.onCall && o.onCall(info, this)); return v ? (v.s ? v : { s: info.st, v }) : this.other(info); },
    });
    this.st = this.it.newState();
    this.ann = o.annotations ? o.annotations(this) : AI.UNDEF;
  }
  other(info) {
    if (info.name === "fluent") return { s: info.st, v: info.args[0] };
    if (info.name === "getTraits") return { s: info.st, v: this.obj(info.st, this.o.traits || {}) };
    if (info.name === "defineTraits") return { s: info.st, v: AI.UNDEF };
    return undefined;
  }
  obj(st, props, kind = "object", init = {}) { return this.it.freshObj(st, props, kind, init); }
  arr(st, items) { return this.it.freshObj(st, {}, "array", { items }); }
  nat(name, f) { return [{ k: "nat", name, call: (args, s, e, I) => { this.log.push({ name, args, s }); const v = f(args, s); if (this.o.mode === "async" && PROMISED.has(name) && v) for (const a of v) if (a.k === "o") this.promises.add(a.id); return v === null ? [] : [{ s, v }]; } }]; }
  ok(st, v) { return this.obj(st, { success: AI.TRUE, value: v }); }
  err(st, l) { return this.obj(st, { success: AI.FALSE, error: AI.Y(l) }); }
  lab(v, s) { return [...this.it.labels(v, s, 3)]; }
  // constants as they are, everything else by its origins
  show(v, s) {
    if (v.length === 1 && v[0].k === "o") { const h = s.heap.get(v[0].id); if (h && h.kind === "array" && h.items) return "[" + h.items.map((x) => this.show(x, s)).join() + "]"; }
    return v.length && v.every((a) => a.k === "c") ? v.map((a) => (a.v === undefined ? "undefined" : JSON.stringify(a.v))).sort().join("|") : this.lab(v, s).sort().join();
  }
  // the wrapped parser
  inner(extra = {}) {
    const st = this.st, o = this.o, b = this;
    const props = {
      mode: one(o.mode), $valueType: this.arr(st, []), $stateType: this.arr(st, []), priority: one(1), usage: this.arr(st, []), leadingNames: AI.Y("leadingNames"), acceptingAnyToken: AI.FALSE, initialState: o.initialState === undefined ? this.obj(st, { inner: AI.Y("INITIAL") }) : o.initialState,
      dependencyMetadata: o.source ? b.obj(st, { source: b.obj(st, { kind: one("source"), sourceId: AI.Y("SOURCEID"), preservesSourceValue: one(o.source !== "mapped"), extractSourceValue: b.nat("extract", (a, s) => b.ok(s, AI.Y("SRC"))) }) }) : AI.UNDEF,
      canSkip: o.canSkip === undefined ? AI.UNDEF : this.nat("canSkip", () => one(o.canSkip)),
      parse: this.nat("parse", (a, s) => {
        const rest = b.obj(s, { buffer: b.arr(s, []), state: b.obj(s, { inner: AI.Y("PARSED"), hasInner: AI.TRUE }), optionsTerminated: AI.FALSE, usage: b.arr(s, []) });
        if (o.parse === "typed") return b.obj(s, { success: AI.TRUE, next: rest, consumed: b.arr(s, [one("--x")]) });
        if (o.parse === "empty") return b.obj(s, { success: AI.TRUE, next: rest, consumed: b.arr(s, []) });
        return b.obj(s, { success: AI.FALSE, consumed: one(o.parse === "hard" ? 1 : 0), error: AI.Y("PARSEERROR") });
      }),
      complete: this.nat("complete", (a, s) => (o.complete === "fail" ? b.err(s, "INNERERROR") : b.ok(s, txt("INNER")))),
      suggest: this.nat("suggest", () => AI.Y("suggestions")), getDocFragments: this.nat("getDocFragments", () => AI.Y("docs")),
    };
    if (o.validate) props.validateValue = this.nat("validateValue", (a, s) => (o.validate === "fail" || (o.validate === "bad" && a[0].length === 1 && a[0][0].k === "c" && a[0][0].v === "bad") ? b.err(s, "INVALID") : b.ok(s, a[0].every((x) => x.k === "c") ? one("VALID(" + b.show(a[0], s) + ")") : AI.Y("VALID(" + b.show(a[0], s) + ")"))));
    Object.assign(props, extra);
    return this.obj(st, props);
  }
  // wrapper = fn(args); then parse and complete; returns outcomes
  wrap(fn, args) { return this.it.callFn(fn, args, null, this.st, null); }
  method(p, s, name, args) { const out = []; for (const f of this.it.getProp(p, name, s)) if (f.k === "fn" || f.k === "nat") out.push(...this.it.callAtom(f, args, p, s, null)); return out; }
  context(s, state) { return this.obj(s, { buffer: this.arr(s, [one("--x"), one("v")]), state, optionsTerminated: AI.FALSE, usage: this.arr(s, []) }); }
  // "FAIL:label" or "OK:labels"
  describe(r) {
    const out = new Set();
    for (const a of r.v) {
      if (a.k !== "o") { out.add("?" + this.it.describe([a], r.s)); continue; }
      for (const q of this.it.getProp([a], "success", r.s)) {
        if (q.k !== "c") out.add("?success");
        else if (q.v) out.add("OK:" + this.show(this.it.getProp([a], "value", r.s), r.s));
        else out.add("FAIL:" + this.lab(this.it.getProp([a], "error", r.s), r.s).sort().join());
      }
    }
    return [...out];
  }
  // parse then complete
  run(fn, mkArgs, exec, visit, built) {
    const res = { parse: [], complete: [], parseLog: [], log: [] };
    for (const { v: p, s } of built || this.wrap(fn, mkArgs(this))) {
      this.log = [];
      const start = this.it.getProp(p, "initialState", s);
      const rs = this.method(p, s, "parse", [this.context(s, start)]);
      res.parseLog.push(...this.log.map((x) => x.name));
      for (const r of rs) for (const a of r.v) {
        if (a.k !== "o") { res.parse.push("?" + this.it.describe([a], r.s)); continue; }
        for (const q of this.it.getProp([a], "success", r.s)) {
          if (q.k !== "c") { res.parse.push("?"); continue; }
          if (!q.v) { res.parse.push("FAIL:" + this.lab(this.it.getProp([a], "error", r.s), r.s).join()); continue; }
          const c = this.it.getProp([a], "consumed", r.s); const h = c[0] && c[0].k === "o" && r.s.heap.get(c[0].id); res.parse.push("OK:" + (h && h.items ? h.items.length : "?"));
          const next = this.it.getProp([a], "next", r.s); const state = this.it.getProp(next, "state", r.s);
          this.log = [];
          if (visit) { visit(p, r.s, state); continue; }
          for (const z of this.method(p, r.s, "complete", [state, exec ? exec(this, r.s) : AI.UNDEF])) res.complete.push(...this.describe(z));
          res.log.push(...this.log.map((x) => x.name)); res.calls = [...(res.calls || []), ...this.log];
        }
      }
    }
    res.parse = [...new Set(res.parse)]; res.complete = [...new Set(res.complete)];
    return res;
  }
}
const txt = (l) => AI.T([l], "string");
// The source-binding wrappers: how their source is described in annotations and options.
// o.set: undefined (source has no value) | {text:label} | {c:constant};  o.def: same
const val = (x) => (x === undefined ? AI.UNDEF : "c" in x ? one(x.c) : x.v ? x.v() : txt(x.text));
const has = (x) => x !== undefined;
const BINDINGS = [
  { name: "bindEnv", dir: "packages/env/", raw: true, inner: "complete",
    annotations: (b, id) => ({ [id]: b.obj(b.st, { prefix: one("P_"), source: b.nat("source", () => val(b.o.set)) }) }),
    options: (b, id) => ({ key: one("K"), context: b.obj(b.st, { id: one(id), prefix: one("P_") }), parser: b.obj(b.st, { mode: one(b.o.mode), metavar: one("M"), parse: b.nat("envparse", (a, s) => (b.o.envParse === "fail" ? b.err(s, "ENVERROR") : b.ok(s, AI.Y("ENV(" + b.show(a[0], s) + ")")))), format: b.nat("format", () => txt("formatted")), placeholder: AI.Y("placeholder") }) }) },
  { name: "bindConfig", dir: "packages/config/", inner: "fail",
    annotations: (b, id) => ({ [id]: b.obj(b.st, { data: b.obj(b.st, has(b.o.set) ? { K: val(b.o.set) } : {}), meta: AI.UNDEF }) }),
    options: (b, id) => ({ key: one("K"), context: b.obj(b.st, { id: one(id) }) }) },
  { name: "bindConfig", variant: "key function", dir: "packages/config/", inner: "fail",
    annotations: (b, id) => ({ [id]: b.obj(b.st, { data: b.obj(b.st, { any: AI.Y("data") }), meta: AI.UNDEF }) }),
    options: (b, id) => ({ key: b.nat("key", () => val(b.o.set)), context: b.obj(b.st, { id: one(id) }) }) },
  { name: "bindDerivedDefault", dir: "packages/derived-defaults/", inner: "canSkip",
    annotations: (b, id) => ({ [id]: b.obj(b.st, { values: b.obj(b.st, has(b.o.set) ? { K: val(b.o.set) } : {}) }) }),
    options: (b, id) => ({ key: one("K"), context: b.obj(b.st, { id: one(id) }) }) },
];
// scenario of one binding; `registered` false: the annotations of another context only
function bound(P, B, o) {
  const b = new Bench(P, { canSkip: true, registered: true, ...o, annotations: (b) => (b.o.registered === null ? AI.UNDEF : b.obj(b.st, b.o.registered ? B.annotations(b, "CTX") : { OTHER: b.obj(b.st, { any: AI.Y("OTHERDATA") }) })) });
  b.args = () => [b.inner(), b.obj(b.st, { ...B.options(b, "CTX"), ...(has(o.def) ? { default: val(o.def) } : {}) })];
  return b;
}
module.exports = { Bench, BINDINGS, bound, val, txt, one };
