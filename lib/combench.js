"use strict";
// The library's combinators interpreted over stub parsers that take known tokens, and a
// reference: which values a list of arguments may have, by what the combinators are for.
const AI = require("./ai.js"); const { ts } = require("./program.js"); const { exported } = require("./find.js"); const { RunBench } = require("./runbench.js"); const { one } = require("./scenario.js");
const CORE = "packages/core/";
// Carrying of annotations is taken as given; no scenario has any.
const noAnnotations = (info) => {
  const d = info.decl; if (!d || !d.type || !/core\/src\/(internal\/annotations|annotations|annotation-state)\.ts$/.test(d.getSourceFile().fileName)) return undefined;
  if (info.name === "getAnnotations") return AI.UNDEF;
  const r = d.type.getText(); if (r === "boolean" || ts.isTypePredicateNode(d.type)) return AI.FALSE;
  const same = d.parameters.map((p, i) => [p, i]).filter(([p]) => p.type && p.type.getText() === r); return same.length === 1 ? info.args[same[0][1]] : undefined;
};
// what is added to an error message (suggestions of similar names) is not looked at
const plainErrors = (info) => { const d = info.decl; return d && d.type && d.parameters.length > 1 && d.type.getText() === "Message" && d.parameters[0].type && d.parameters[0].type.getText() === "Message" && info.args.length > 1 ? info.args[0] : undefined; };
// grammars
const F = (name, o = {}) => ({ k: "flag", name, ...o }), O = (name, o = {}) => ({ k: "opt", name, ...o }), A = (o = {}) => ({ k: "arg", ...o });
const obj = (fields) => ({ k: "object", fields }), tup = (...gs) => ({ k: "tuple", gs }), seq = (...gs) => ({ k: "seq", gs }), or = (...gs) => ({ k: "or", gs }), lm = (...gs) => ({ k: "longestMatch", gs });
const merge = (...gs) => ({ k: "merge", gs }), cat = (...gs) => ({ k: "concat", gs }), may = (g) => ({ k: "optional", g }), def = (g) => ({ k: "withDefault", g }), mul = (g, min = 0, max = Infinity) => ({ k: "multiple", g, min, max });
const map = (g) => ({ k: "map", g }), grp = (g) => ({ k: "group", g }), cmd = (name, g) => ({ k: "command", name, g }), full = (g) => ({ k: "nonEmpty", g });
const inside = (g) => (g.gs || (g.fields ? Object.values(g.fields) : g.g ? [g.g] : []));
const text = (g) => ({ flag: () => g.name, opt: () => g.name + " V", arg: () => "ARG", object: () => "{" + Object.keys(g.fields).map((k) => `${k}: ${text(g.fields[k])}`).join(", ") + "}", command: () => `command ${g.name} ${text(g.g)}`, multiple: () => `multiple(${text(g.g)}${g.min ? `, at least ${g.min}` : ""}${g.max < Infinity ? `, at most ${g.max}` : ""})` }[g.k] || (() => `${g.k}(${inside(g).map(text).join(", ")})`))();
const positional = (t) => !t.startsWith("-");
class CombBench extends RunBench {
  // o.mode of a leaf: "sync" | "async"; o.first / o.last: only that leaf is asynchronous
  constructor(P, o) { super(P, { run: "real", ...o, onCall: (i) => { if (i.kind === "fn") { const v = noAnnotations(i) || plainErrors(i) || this.trace(i); if (v) return { rets: [{ s: i.st, v }] }; } return undefined; } });
    // a message is the list of its texts and values
    this.it.opts.onTagged = ({ strs, vals, st, tag }) => { if (!tag.some((t) => t.k === "fn" && t.node && t.node.name && t.node.name.text === "message")) return undefined; const items = []; strs.forEach((x, i) => { items.push(this.obj(st, { type: one("text"), text: one(x) })); if (i < vals.length) items.push(this.obj(st, { type: one("value"), value: vals[i] })); }); return this.arr(st, items); };
  }
  asyncList(s, items) { return this.arr(s, items); }
  // the trace of earlier inputs is empty and of no interest
  trace(i) { const d = i.decl; if (i.name !== "createInputTrace" || !/core\/src\/input-trace\.ts$/.test(d.getSourceFile().fileName)) return undefined; const t = this.obj(i.st, { get: this.nat("get", () => AI.UNDEF), set: this.nat("set", () => t), delete: this.nat("delete", () => t) }); return t; }
  leaf(g) {
    const b = this, s0 = this.st, mode = this.o.asyncLeaf && this.o.asyncLeaf(g) ? "async" : "sync", pr = mode === "async"; const name = g.name || "ARG";
    const msg = (t, s) => b.arr(s, [b.obj(s, { type: one("text"), text: one(t) })]);
    const term = () => (g.k === "arg" ? { type: one("argument"), metavar: one("ARG") } : { type: one("option"), names: b.arr(s0, [one(name)]), ...(g.k === "opt" ? { metavar: one("V") } : {}) });
    const has = (v) => v.length === 1 && v[0].k === "o";
    return this.obj(s0, {
      mode: one(mode), $valueType: this.arr(s0, []), $stateType: this.arr(s0, []), priority: one(g.k === "arg" ? 5 : 10), usage: this.arr(s0, [this.obj(s0, term())]), leadingNames: this.it.freshObj(s0, {}, "set", { items: g.k === "arg" ? [] : [one(name)] }), acceptingAnyToken: g.k === "arg" ? AI.TRUE : AI.FALSE, initialState: AI.UNDEF,
      parse: this.nat("parse", (a, s) => {
        const h = b.it.rec(s, b.it.getProp(a[0], "buffer", s)[0].id), st = b.it.getProp(a[0], "state", s); if (!h || !h.items || h.items.some((x) => x.length !== 1 || x[0].k !== "c")) throw new Error("the arguments given to a parser are not known");
        const buf = h.items.map((x) => x[0].v); const fail = (n, t) => ({ rets: b.answer(s, b.obj(s, { success: AI.FALSE, consumed: one(n), error: msg(t, s) }), null, null, pr) });
        const tok = buf[0]; if (st.length !== 1) throw new Error("the state given to a parser is not known");
        if (tok === undefined || has(st) || (g.k === "arg" ? !positional(tok) : tok !== name)) return fail(0, "no " + name);
        const n = g.k === "opt" ? 2 : 1; if (buf.length < n || (n === 2 && !positional(buf[1]))) return fail(1, "no value of " + name);
        const next = b.obj(s, { ...Object.fromEntries(b.it.rec(s, a[0][0].id).props), buffer: b.arr(s, h.items.slice(n)), state: b.obj(s, { tok: one(buf.slice(0, n).join("=")) }) });
        return { rets: b.answer(s, b.obj(s, { success: AI.TRUE, next, consumed: b.arr(s, h.items.slice(0, n)) }), null, null, pr) };
      }),
      complete: this.nat("complete", (a, s) => { if (a[0].length !== 1) throw new Error("the state given to a parser is not known"); const tok = has(a[0]) ? b.it.getProp(a[0], "tok", s)[0].v : null; const bad = tok === null ? "missing " + name : /bad$/.test(tok) ? "invalid " + tok : null; return { rets: b.answer(s, bad ? b.obj(s, { success: AI.FALSE, error: msg(bad, s) }) : b.obj(s, { success: AI.TRUE, value: one(tok) }), null, null, pr) }; }),
      canSkip: this.nat("canSkip", (a) => one(has(a[0]))),
      suggest: this.nat("suggest", (a, s) => { const st = b.it.getProp(a[0], "state", s), pre = a[1][0].v; const items = g.k !== "arg" && !has(st) && name.startsWith(pre) ? [b.obj(s, { kind: one("literal"), text: one(name) })] : g.k === "arg" && !has(st) && !pre.startsWith("-") ? [b.obj(s, { kind: one("literal"), text: one("some" + (g.id || "")) })] : []; return pr ? b.asyncList(s, items) : b.arr(s, items); }),
      getDocFragments: this.nat("docs", (a, s) => b.obj(s, { fragments: b.arr(s, [b.obj(s, { type: one("entry"), term: b.obj(s, g.k === "arg" ? { type: one("argument"), metavar: one("ARG") } : { type: one("option"), names: b.arr(s, [one(name)]) }) })]) })),
    });
  }
  apply(name, ...args) { const rs = this.it.callFn(exported(this.P, CORE, name), args, null, this.st, null); if (rs.length !== 1) throw new Error(`${name}() gives ${rs.length} results`); this.st = rs[0].s; return rs[0].v; }
  list(vs) { return this.arr(this.st, vs); }
  build(g) {
    const gs = g.gs ? g.gs.map((x) => this.build(x)) : null, inner = g.g ? this.build(g.g) : null;
    switch (g.k) {
      case "flag": case "opt": case "arg": return this.leaf(g);
      case "object": { const f = {}; for (const k of Object.keys(g.fields)) f[k] = this.build(g.fields[k]); return this.apply("object", this.obj(this.st, f)); }
      case "tuple": return this.apply("tuple", this.list(gs));
      case "seq": case "or": case "longestMatch": case "merge": case "concat": return this.apply(g.k, ...gs);
      case "optional": case "nonEmpty": return this.apply(g.k, inner);
      case "withDefault": return this.apply("withDefault", inner, one("DEFAULT"));
      case "multiple": return this.apply("multiple", inner, this.obj(this.st, { min: one(g.min), ...(g.max < Infinity ? { max: one(g.max) } : {}) }));
      case "map": return this.apply("map", inner, this.nat("mapper", (a, s) => this.obj(s, { mapped: a[0] })));
      case "group": return this.apply("group", one("Group"), inner);
      case "command": return this.apply("command", one(g.name), inner);
    }
    throw new Error("unknown grammar " + g.k);
  }
  // every way the call may end
  run(api, first, rest) {
    const st = this.st.clone(); this.thrown = []; this.it.steps = 0; this.it.handlers = [this.thrown];
    const rs = this.it.callFn(exported(this.P, CORE, api), [first, ...rest(st)], null, st, null).flatMap((r) => this.it.settle(r.v, r.s, null)); this.it.handlers = [];
    return [...rs.map((r) => this.show(r.v, r.s)), ...this.thrown.map((t) => "throws " + this.error(t.v, t.s))];
  }
  parse(api, p, args) { return this.run(api, p, (st) => [this.arr(st, args.map((x) => one(x)))]); }
  show(v, s, d = 12) {
    if (v.length !== 1 || d === 0) return "?" + this.it.describe(v, s);
    const a = v[0]; if (a.k === "c") return a.v === undefined ? "undefined" : JSON.stringify(a.v);
    if (a.k !== "o") return "?" + this.it.describe(v, s); const h = this.it.rec(s, a.id); if (!h || h.rest || h.anyKey) return "?" + this.it.describe(v, s);
    if (h.kind === "array") return h.items ? "[" + h.items.map((x) => this.show(x, s, d - 1)).join(",") + "]" : "?" + this.it.describe(v, s);
    return "{" + [...h.props].filter(([k]) => !k.startsWith("@@")).map(([k, x]) => `${k}:${this.show(x, s, d - 1)}`).sort().join(",") + "}";
  }
}
// the values a list of arguments may have (canonical texts)
const splits = (ts_, n) => { if (n === 1) return [[ts_]]; const out = []; for (let m = 0; m < 1 << ts_.length; m++) { const mine = ts_.filter((_, i) => m & (1 << i)), rest = ts_.filter((_, i) => !(m & (1 << i))); for (const r of splits(rest, n - 1)) out.push([mine, ...r]); } return out; };
const cuts = (xs, n) => { if (n === 1) return [[xs]]; const out = []; for (let i = 0; i <= xs.length; i++) for (const r of cuts(xs.slice(i), n - 1)) out.push([xs.slice(0, i), ...r]); return out; };
const product = (lists) => lists.reduce((acc, l) => acc.flatMap((a) => l.map((x) => [...a, x])), [[]]);
// tokens are [position, text]; values are JavaScript values
function ref(g, tk) {
  const each = (parts, gs) => (parts.some((p, i) => !couldBe(gs[i], p)) ? [] : product(parts.map((p, i) => ref(gs[i], p))));
  switch (g.k) {
    case "flag": return tk.length === 1 && tk[0][1] === g.name ? [g.name] : [];
    case "opt": return tk.length === 2 && tk[0][1] === g.name && positional(tk[1][1]) && tk[1][0] === tk[0][0] + 1 && tk[1][1] !== "bad" ? [g.name + "=" + tk[1][1]] : [];
    case "arg": return tk.length === 1 && positional(tk[0][1]) && tk[0][1] !== "bad" ? [tk[0][1]] : [];
    case "object": { const ks = Object.keys(g.fields), gs = Object.values(g.fields); return splits(tk, gs.length).filter((p) => inOrder(p, gs)).flatMap((p) => each(p, gs).map((vs) => Object.fromEntries(ks.map((k, i) => [k, vs[i]])))); }
    case "tuple": return splits(tk, g.gs.length).filter((p) => inOrder(p, g.gs)).flatMap((p) => each(p, g.gs));
    case "merge": return splits(tk, g.gs.length).filter((p) => inOrder(p, g.gs)).flatMap((p) => each(p, g.gs).map((vs) => Object.assign({}, ...vs)));
    case "concat": return splits(tk, g.gs.length).filter((p) => inOrder(p, g.gs)).flatMap((p) => each(p, g.gs).map((vs) => vs.flat(1)));
    case "seq": return cuts(tk, g.gs.length).flatMap((p) => each(p, g.gs));
    case "or": return g.gs.flatMap((x) => ref(x, tk));
    case "longestMatch": return g.gs.flatMap((x) => ref(x, tk));
    case "optional": return tk.length ? ref(g.g, tk) : [undefined];
    case "withDefault": return tk.length ? ref(g.g, tk) : ["DEFAULT"];
    case "nonEmpty": return tk.length ? ref(g.g, tk) : [];
    case "multiple": { if (!tk.length) return g.min === 0 ? [[]] : []; const out = []; for (let n = Math.max(1, g.min); n <= Math.min(g.max, tk.length); n++) for (const p of cuts(tk, n)) if (p.every((x) => x.length)) out.push(...product(p.map((x) => ref(g.g, x)))); return out; }
    case "map": return ref(g.g, tk).map((x) => ({ mapped: x }));
    case "group": return ref(g.g, tk);
    case "command": return tk.length && tk[0][1] === g.name ? ref(g.g, tk.slice(1)) : [];
  }
  throw new Error(g.k);
}
const couldBe = (g, tk) => (g.k === "flag" ? tk.length === 1 && tk[0][1] === g.name : g.k === "arg" ? tk.length === 1 : g.k === "opt" ? tk.length === 2 : true);
// positional arguments go to argument parsers in the order these are written
const inOrder = (parts, gs) => { let last = -1; for (let i = 0; i < gs.length; i++) if (gs[i].k === "arg" || (inside(gs[i]).length === 1 && inside(gs[i])[0].k === "arg")) for (const [p] of parts[i]) { if (p < last) return false; last = p; } return true; };
const canon = (v) => (v === undefined ? "undefined" : Array.isArray(v) ? "[" + v.map(canon).join(",") + "]" : typeof v === "object" && v !== null ? "{" + Object.keys(v).map((k) => `${k}:${canon(v[k])}`).sort().join(",") + "}" : JSON.stringify(v));
const reference = (g, args) => [...new Set(ref(g, args.map((t, i) => [i, t])).map(canon))];
module.exports = { CombBench, F, O, A, obj, tup, seq, or, lm, merge, cat, may, def, mul, map, grp, cmd, full, text, reference, inside };
