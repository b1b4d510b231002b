"use strict";
// Running with source contexts, interpreted over stub contexts, a stub parser and a
// stub of the plain runner: who is asked what, in which order, and what becomes of it.
const AI = require("./ai.js"); const { exported } = require("./find.js"); const { one } = require("./scenario.js");
const sym = (n) => AI.Y("symbol:stub:" + n);
const CORE = "packages/core/";
// o: { contexts: [{ id, phase, p1: {key:label}, p2: …, dispose, asyncDispose, fail: "p1"|"p2"|"dispose"|"asyncDispose", promise }], mode, parse: "ok"|"fail", complete: "ok"|"fail"|"deferred", seed, run: "ok"|"fail", args, options }
class RunBench {
  constructor(P, o) {
    this.P = P; this.o = o; this.events = []; this.ctr = 0; this.promises = new Set(); this.thrown = [];
    const runner = exported(P, CORE, "runParser");
    const b = this;
    this.it = new AI.Interp(P, {
      concrete: true, promises: true, noRejections: true, pureNumeric: false, maxRec: 60, maxDepth: 200, maxSteps: 2e6,
      instanceOf: (a, c, s) => this.isInstance(a, this.it.termOf(c), s),
      onNew: ({ name, args, st, interp }) => (/Error/.test(name) ? interp.freshObj(st, { error$: one(name), args$: b.arr(st, args) }) : undefined),
      onCall: (info) => {
        if (o.run !== "real" && info.kind === "fn" && runner && info.decl === runner.node) {
          const s = info.st, ann = b.annotationsOf(info.args[0], s);
          b.log(s, "run", { ann, program: info.args[1], args: info.args[2], options: info.args[3] });
          return { rets: b.answer(s, o.run === "fail" ? null : AI.Y("RESULT"), "BODYERROR", "run") };
        }
        return o.onCall ? o.onCall(info, b) : undefined;
      },
    });
    this.st = this.it.newState();
  }
  // what a modelled object is an instance of is known; promises are marked
  isInstance(a, name, s) {
    if (/Promise$/.test(name)) return a.k === "o" && (this.promises.has(a.id) || (this.it.rec(s, a.id) || {}).kind === "promise") ? AI.TRUE : AI.FALSE;
    const m = /^global:(\w+)$/.exec(name); if (!m || a.k !== "o") return AI.T([], "boolean");
    const h = this.it.rec(s, a.id); if (m[1] === "Object") return AI.TRUE;
    if (m[1] === "Error" || m[1] === "TypeError") return h && h.props.has("error$") ? AI.T([], "boolean") : AI.FALSE;
    return h && h.kind.toLowerCase() === m[1].toLowerCase() ? AI.TRUE : AI.FALSE;
  }
  obj(st, props) { return this.it.freshObj(st, props); }
  arr(st, items) { return this.it.freshObj(st, {}, "array", { items }); }
  // an answer or a failure: at once for synchronous parsers, promised and settled when awaited otherwise
  answer(s, v, error, ev, promised = this.o.mode === "async") {
    const b = this; const now = (s2) => { if (ev) b.log(s2, ev + " settled"); if (v === null) { b.it.raise(s2, typeof error === "string" ? AI.Y(error) : error, true); return []; } return [{ s: s2, v }]; };
    if (!promised) return now(s);
    const p = this.it.promiseOf(s, v); this.it.rec(s, p[0].id).props.set("settle$", [{ k: "nat", name: "settle", uid: "b" + (++this.ctr), call: (a, s2) => now(s2) }]); return [{ s, v: p }];
  }
  log(s, ev, data = {}) { this.events.push({ ev, ...data, s }); }
  nat(name, f) { return [{ k: "nat", name, call: (args, s) => { const v = f(args, s); return v === null ? [] : v.rets || [{ s, v }]; } }]; }
  raise(s, l) { this.it.raise(s, AI.Y(l), true); return null; }
  // key -> label of an annotations object; null when it is not a known object
  entries(v, s) {
    if (v.length !== 1 || v[0].k !== "o") return null; const h = this.it.rec(s, v[0].id); if (!h || h.rest || h.anyKey) return null;
    const out = {}; for (const [k, x] of h.props) if (k.startsWith("@@symbol:stub:")) out[k.slice(14)] = this.it.describe(x, s); return out;
  }
  // the annotations a parser carries, as the exported accessor of the core reads them
  annotationsOf(p, s) {
    const get = exported(this.P, CORE, "getAnnotations"); const st = this.it.getProp(p, "initialState", s);
    const save = this.it.handlers; this.it.handlers = []; const rs = this.it.callFn(get, [st], null, s, null); this.it.handlers = save;
    if (rs.length !== 1) return null; if (rs[0].v.length === 1 && rs[0].v[0].k === "c" && rs[0].v[0].v === undefined) return {};
    return this.entries(rs[0].v, rs[0].s);
  }
  ann(s, map) { const m = {}; for (const k of Object.keys(map || {})) m["@@symbol:stub:" + k] = AI.T([map[k]], "string"); return this.obj(s, m); }
  contextOf(c) {
    const b = this, props = { id: sym(c.id), phase: one(c.phase) };
    props.getAnnotations = this.nat("getAnnotations", (a, s) => {
      const ph = b.it.getProp(a[0], "phase", s); const one_ = ph.length === 1 && ph[0].k === "c" ? ph[0].v : "?";
      b.log(s, one_, { id: c.id, parsed: b.it.getProp(a[0], "parsed", s), hasParsed: a[0][0].k === "o" && b.it.rec(s, a[0][0].id).props.has("parsed"), options: a[1] || AI.UNDEF });
      const which = one_ === "phase2" ? "p2" : "p1"; const r = c.fail === which ? null : b.ann(s, c[which]); if (c.promise === "sync") { b.promises.add(r[0].id); return r; }
      return { rets: b.answer(s, r, which + "ERROR:" + c.id, null, !!c.promise) };
    });
    if (c.internal) props.getInternalAnnotations = this.nat("getInternalAnnotations", (a, s) => (c.internal === "none" ? AI.UNDEF : b.ann(s, c.internal)));
    for (const d of ["dispose", "asyncDispose"]) if (c[d]) props["@@global:Symbol." + d] = this.nat(d, (a, s) => { b.log(s, d, { id: c.id }); if (c.thenable && d === "asyncDispose") return b.obj(s, { then: b.nat("then", () => AI.UNDEF) }); return { rets: b.answer(s, c.fail === d || c.fail2 === d ? null : AI.UNDEF, "DISPOSEERROR:" + c.id, d === "asyncDispose" ? "disposed" : null, d === "asyncDispose" && !!c.promise) }; });
    return this.obj(this.st, props);
  }
  parser() {
    const st = this.st, o = this.o, b = this;
    return this.obj(st, {
      mode: one(o.mode), $valueType: this.arr(st, []), $stateType: this.arr(st, []), priority: one(1), usage: this.arr(st, []), leadingNames: this.it.freshObj(st, {}, "set", { items: [] }), acceptingAnyToken: AI.FALSE, initialState: this.obj(st, { own: AI.Y("INITIAL") }),
      parse: this.nat("parse", (a, s) => {
        const st0 = b.it.getProp(a[0], "state", s); const buf = b.it.getProp(a[0], "buffer", s);
        b.log(s, "parse", { ann: b.annotationsOf(b.obj(s, { initialState: st0 }), s) });
        if (o.parse === "fail") return { rets: b.answer(s, b.obj(s, { success: AI.FALSE, consumed: one(0), error: AI.Y("PARSEERROR") })) };
        const h = b.it.rec(s, buf[0].id);
        const next = b.obj(s, { ...Object.fromEntries(b.it.rec(s, a[0][0].id).props), buffer: b.arr(s, o.parse === "stuck" ? h.items : h.items.slice(1)), state: st0 });
        return { rets: b.answer(s, b.obj(s, { success: AI.TRUE, next, consumed: b.arr(s, o.parse === "stuck" ? [] : h.items.slice(0, 1)) })) };
      }),
      complete: this.nat("complete", (a, s) => {
        b.log(s, "complete", { ann: b.annotationsOf(b.obj(s, { initialState: a[0] }), s), phase: a[1] ? b.it.getProp(a[1], "phase", s) : AI.UNDEF });
        if (o.complete === "fail") return { rets: b.answer(s, b.obj(s, { success: AI.FALSE, error: AI.Y("COMPLETEERROR") })) };
        const v = o.seed ? o.seed(b, s) : AI.T(["SEED"], "string");
        return { rets: b.answer(s, b.obj(s, { success: AI.TRUE, value: v, ...(o.complete === "deferred" ? { deferred: AI.TRUE, ...(o.keys ? { deferredKeys: o.keys(b, s) } : {}) } : {}) })) };
      }),
      suggest: this.nat("suggest", () => AI.Y("suggestions")), getDocFragments: this.nat("docs", () => AI.Y("docs")),
      ...(o.extractor ? { ["@@" + o.extractor.key]: this.nat("extract", (a, s) => { b.log(s, "extract"); return { rets: b.answer(s, o.extractor.none ? one(null) : b.obj(s, { value: AI.T(["EXTRACTED"], "string"), ...(o.extractor.deferred ? { deferred: AI.TRUE } : {}) })) }; }) } : {}),
    });
  }
  // name: runWith | runWithSync | runWithAsync
  go(name) {
    const fn = exported(this.P, CORE, name); if (!fn) throw new Error(name + " is no longer exported");
    const p = this.parser(), cs = this.arr(this.st, (this.o.contexts || []).map((c) => this.contextOf(c)));
    const args = this.arr(this.st, (this.o.args || ["x"]).map((x) => one(x)));
    const opts = this.obj(this.st, { args, ...(this.o.options ? this.o.options(this) : {}), contextOptions: AI.Y("CTXOPTIONS") });
    this.thrown = []; this.it.handlers = [this.thrown];
    this.api = name; const rs = this.it.callFn(fn, [p, one("prog"), cs, opts], null, this.st, null).flatMap((r) => (name === "runWithSync" ? [r] : this.it.settle(r.v, r.s, null))); this.it.handlers = [];
    const out = []; for (const r of rs) out.push("return " + this.it.describe(r.v, r.s));
    for (const t of this.thrown) out.push("throw " + this.error(t.v, t.s));
    return out;
  }
  error(v, s) {
    if (v.length === 1 && v[0].k === "o") { const h = this.it.rec(s, v[0].id); if (h && h.props.has("error$")) return h.props.get("error$")[0].v + "(" + this.it.rec(s, h.props.get("args$")[0].id).items.map((x) => this.error(x, s)).join(", ") + ")"; if (h && h.items) return "[" + h.items.map((x) => this.error(x, s)).join(", ") + "]"; }
    return this.it.describe(v, s);
  }
  count(ev, id) { return this.events.filter((e) => e.ev === ev && (id === undefined || e.id === id)).length; }
}
module.exports = { RunBench, sym };
