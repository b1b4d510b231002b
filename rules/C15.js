"use strict";
// Visibility: what a term hides is absent from the places it is hidden from, and
// what it does not hide is present, in whatever container it occurs.
const AI = require("../lib/ai.js"); const { ts } = require("../lib/program.js"); const { exported } = require("../lib/find.js");
const { arr, leaf, wrap, usage, seen, interp, CONTAINERS } = require("../lib/terms.js");
const VIS = [undefined, false, true, "usage", "doc", "help"];
const HIDES = { usage: new Set([true, "usage", "help"]), doc: new Set([true, "doc", "help"]), suggestion: new Set([true]) };
const KINDS = ["option", "argument", "command", "passthrough"];
const MARK = /SECRET/;
function run(P, R) {
  const at = (fn) => { const sf = fn.node.getSourceFile(); return sf.fileName.replace(P.REPO + "/", "") + ":" + (sf.getLineAndCharacterOfPosition(fn.node.getStart(sf)).line + 1); };
  const api = (dir, name) => { const f = exported(P, dir, name); R.obligation("an entry point of the visibility rules is exported", !!f, dir, `${name} is no longer exported`, "export:" + name); if (f) n++; return f; };
  let n = 0;
  // does a call show a marked text?  "always" | "some" | "never" | "?"
  const shows = (fn, mk, what, re = MARK, dots = false, depth = 6) => {
    const it = interp(P); const st = it.newState(); let rets; R.analysed(1, "abstract calls");
    try { rets = it.callFn(fn, mk(it, st), null, st, null); } catch (e) { R.notes.push(`${what}: ${e.message}`); return "?"; }
    if (!rets.length) return "none";
    const s = seen(it, rets, depth); const k = s.per.filter((l) => [...l].some((x) => re.test(x))).length;
    const dot = dots && s.text.includes("...");
    return k === rets.length ? "always" : k || dot ? "some" : "never";
  };
  const expect = (rule, fn, what, got, hidden) => {
    if (hidden) R.obligation(rule, got === "never", at(fn), `${what}: a hidden term is ${got === "?" ? "not decidably left out" : "shown"}`, rule + ":" + what);
    else R.obligation(rule + " (shown unless hidden)", got === "always" || got === "some", at(fn), `${what}: a visible term is left out`, rule + "+:" + what);
  };
  // 1. formatters and extractors over usage terms
  const T = [
    ["packages/core/", "formatUsage", "usage", KINDS, (it, st, t) => [AI.C("prog"), usage(it, st, t), it.freshObj(st, {})], { skipVisible: ["exclusive"] }],
    ["packages/core/", "formatUsageTerm", "usage", KINDS, (it, st, t) => [t, it.freshObj(st, {})]],
    ["packages/core/", "formatUsageTerm", "doc", KINDS, (it, st, t) => [t, it.freshObj(st, { context: AI.C("doc") })]],
    ["packages/man/", "formatUsageTermAsRoff", "usage", KINDS, (it, st, t) => [t]],
    ["packages/man/", "formatDocPageAsMan", "usage", KINDS, (it, st, t) => [it.freshObj(st, { usage: usage(it, st, t), sections: arr(it, st, []) }), it.freshObj(st, { name: AI.C("prog"), section: AI.C(1) })]],
    ["packages/man/", "formatDocPageAsMan", "doc", KINDS, (it, st, t) => [it.freshObj(st, { sections: arr(it, st, [it.freshObj(st, { entries: arr(it, st, [it.freshObj(st, { term: t, description: AI.Y("SECRET.description"), default: AI.Y("SECRET.default"), choices: AI.Y("SECRET.choices") })]) })]) }), it.freshObj(st, { name: AI.C("prog"), section: AI.C(1) })]],
    ["packages/core/", "formatDocPage", "usage", KINDS, (it, st, t) => [AI.C("prog"), it.freshObj(st, { usage: usage(it, st, t), sections: arr(it, st, []) }), it.freshObj(st, {})], { skipVisible: ["exclusive"] }],
    ["packages/core/", "formatDocPage", "doc", KINDS, (it, st, t) => [AI.C("prog"), it.freshObj(st, { sections: arr(it, st, [it.freshObj(st, { entries: arr(it, st, [it.freshObj(st, { term: t, description: AI.Y("SECRET.description") })]) })]) }), it.freshObj(st, {})], { skipVisible: CONTAINERS.slice(1), visibleKinds: ["passthrough"] }],
    ["packages/core/", "extractOptionNames", "suggestion", ["option"], (it, st, t) => [usage(it, st, t)]],
    ["packages/core/", "extractCommandNames", "suggestion", ["command"], (it, st, t) => [usage(it, st, t)]],
    ["packages/core/", "extractArgumentMetavars", "suggestion", ["argument"], (it, st, t) => [usage(it, st, t)]],
    ["packages/core/", "createErrorWithSuggestions", "suggestion", ["option", "command"], (it, st, t) => [arr(it, st, []), AI.Y("input"), usage(it, st, t)]],
  ];
  const cache = new Map();
  for (const [dir, name, place, kinds, mk, o = {}] of T) {
    const fn = cache.has(name) ? cache.get(name) : api(dir, name); cache.set(name, fn); if (!fn) continue;
    for (const kind of kinds) for (const w of CONTAINERS) for (const h of VIS) {
      const hidden = HIDES[place].has(h); if (!hidden && ((o.skipVisible || []).includes(w) || (o.visibleKinds && !o.visibleKinds.includes(kind)))) continue;
      const dots = kind === "passthrough" && name !== "formatUsage" && !(name === "formatDocPage" && place === "usage") && w !== "multiple"; // a pass-through has no text but its dots
      if (kind === "passthrough" && !hidden && !dots) continue;
      const got = shows(fn, (it, st) => mk(it, st, wrap(it, st, w, leaf(it, st, kind, "SECRET", h))), "", MARK, dots);
      expect(`hidden terms are absent from ${place === "suggestion" ? "suggested names" : place === "usage" ? "usage lines" : "documentation entries"}`, fn, `${name}: ${kind}${w === "none" ? "" : " in " + w}, hidden: ${h}`, got, hidden);
    }
    // a branch of alternatives that begins with a hidden command is that command's own usage
    if (kinds.includes("command") && place !== "suggestion" && !(name === "formatDocPage" && place === "doc")) for (const h of [true, place, "help"]) {
      const got = shows(fn, (it, st) => mk(it, st, wrap(it, st, "exclusive", leaf(it, st, "command", "SECRET", h), leaf(it, st, "argument", "SECRETINNER"))), "");
      expect("arguments of a hidden command are absent with it", fn, `${name}: arguments after a command, hidden: ${h}`, got, true);
    }
    // hidden aliases are accepted but never written
    if (kinds.includes("command")) { const got = shows(fn, (it, st) => mk(it, st, leaf(it, st, "command", "SECRET", h0(place))), "", /HIDDENALIAS/); expect("hidden command aliases are never shown", fn, `${name}: hidden aliases (${place})`, got === "none" ? "never" : got, true); }
  }
  function h0(place) { return place === "doc" ? "usage" : undefined; }
  // 2. primitive parsers: their suggestions and documentation fragments
  const nat = (p) => [{ k: "nat", name: p, call: (args, s, e, I) => I.opaque(p, args, s, e, null) }];
  const obj = (it, st, props, rest) => it.freshObj(st, props, "object", rest ? { rest: AI.Y(rest) } : {});
  for (const mode of ["sync", "async"]) for (const kind of ["option", "flag", "argument", "command", "passThrough"]) {
    const fn = api("packages/core/", kind); if (!fn) continue;
    for (const h of VIS) {
      const build = (it, st) => {
        const fnOf = (m) => nat("SECRET.vp." + m);
        const vp = obj(it, st, { mode: AI.C(mode), metavar: AI.Y("SECRET.metavar"), parse: fnOf("parse"), format: fnOf("format"), suggest: fnOf("suggest"), choices: AI.UNDEF, placeholder: AI.Y("SECRET.placeholder") });
        const inner = obj(it, st, { mode: AI.C(mode), usage: usage(it, st, leaf(it, st, "argument", "inner")) }, "inner");
        const opts = obj(it, st, { hidden: AI.C(h), description: AI.Y("SECRET.description") });
        return { option: [AI.C("--secret"), vp, opts], flag: [AI.C("--secret"), opts], argument: [vp, opts], command: [AI.Y("SECRET.command"), inner, opts], passThrough: [opts] }[kind];
      };
      for (const m of ["suggest", "getDocFragments", "usage"]) {
        const it = interp(P, { maxRec: 2 }); const st = it.newState(); let rets; R.analysed(1, "abstract calls");
        const place = m === "suggest" ? "suggestion" : m === "usage" ? "usage" : "doc"; const hidden = HIDES[place].has(h); const what = `${kind} (${mode}): ${m}, hidden: ${h}`;
        let shown = false, any = false, fns = 0;
        try {
          rets = it.callFn(fn, build(it, st), null, st, null);
          for (const { v, s } of rets) {
            const f = it.getProp(v, m, s);
            if (m === "usage") { fns++; for (const a of f) if (a.k === "o") { any = true; for (const kid of elems(s.heap.get(a.id))) { const q = seen(it, it.callFn(cache.get("formatUsageTerm"), [kid, obj(it, s, {})], null, s, null)); if (q.has(MARK) || /--secret|\.\.\./.test(q.text)) shown = true; } } continue; }
            for (const a of f) if (a.k === "fn") { fns++;
              for (const initial of m === "suggest" ? it.getProp(v, "initialState", s) : [0]) {
                const state = initial ? [initial] : AI.UNDEF;
                const args = m === "suggest" ? [obj(it, s, { buffer: arr(it, s, []), state, optionsTerminated: AI.FALSE, usage: arr(it, s, []) }), AI.Y("prefix")] : [obj(it, s, { kind: AI.C("unavailable") }), AI.UNDEF];
                for (const r of it.callFn(a, args, v, s, null)) { any = true; const q0 = m === "suggest" ? r : { v: it.getProp(r.v, "fragments", r.s), s: r.s }; const q = seen(it, [q0], 8); if (q.has(MARK) || consts(it, q0, /--secret/) || (kind === "passThrough" && m === "getDocFragments" && entries(it, r))) shown = true; }
              } }
          }
        } catch (e) { R.notes.push(what + ": " + e.message); shown = true; any = true; }
        if (kind === "passThrough" && m === "suggest") continue;
        R.obligation("a primitive parser can be built and asked for its " + place, any && fns > 0, at(fn), `${what}: cannot be resolved`, "prim:" + what);
        expect("hidden terms are absent from suggestions, documentation and usage of their parser", fn, what, shown ? "some" : "never", hidden);
      }
    }
  }
  // constant strings in a result
  function consts(it, r, re) { const seenO = new Set(); const go = (v, d) => d >= 0 && v.some((a) => a.k === "c" ? typeof a.v === "string" && re.test(a.v) : a.k === "s" ? a.parts.some((p) => p.lit !== undefined && re.test(p.lit)) : a.k === "o" && !seenO.has(a.id) ? (seenO.add(a.id), kids(r.s.heap.get(a.id)).some((x) => go(x, d - 1))) : false); return go(r.v, 8); }
  function kids(h) { return h ? [...h.props.values(), ...(h.items || []), h.elem || []] : []; }
  function entries(it, r) { const f = it.getProp(r.v, "fragments", r.s); return f.some((a) => { const h = a.k === "o" && r.s.heap.get(a.id); return h && (!h.items || h.items.length > 0); }); }
  // 3. combinators that hide everything they emit
  const term = (it, st, name, h) => obj(it, st, { type: AI.C("option"), names: arr(it, st, [AI.C("--" + name)]), metavar: AI.Y("SECRET." + name), hidden: AI.C(h) });
  const stub = (it, st, mode, h, conts, key = "a") => obj(it, st, { mode: AI.C(mode), usage: usage(it, st, ...conts.map((w) => wrap(it, st, w, term(it, st, key + w, h)))), priority: AI.C(1), initialState: AI.Y("init"), leadingNames: AI.Y("names"), acceptingAnyToken: AI.FALSE, $valueType: arr(it, st, []), $stateType: arr(it, st, []),
    suggest: [{ k: "nat", name: "suggest", call: (args, s, e, I) => [{ s, v: arr(I, s, [obj(I, s, { kind: AI.C("literal"), text: AI.Y("SECRET.suggested") })]) }] }],
    getDocFragments: [{ k: "nat", name: "getDocFragments", call: (args, s, e, I) => [{ s, v: obj(I, s, { fragments: arr(I, s, [obj(I, s, { type: AI.C("entry"), term: term(I, s, key, h) }), obj(I, s, { type: AI.C("section"), entries: arr(I, s, [obj(I, s, { type: AI.C("entry"), term: term(I, s, key + "2", h) })]) })]) }) }] }],
    parse: AI.Y("inner.parse"), complete: AI.Y("inner.complete"), canSkip: AI.UNDEF, getSuggestRuntimeNodes: AI.UNDEF, shouldDeferCompletion: AI.UNDEF, placeholder: AI.UNDEF, normalizeValue: AI.UNDEF, validateValue: AI.UNDEF, dependencyMetadata: AI.UNDEF });
  const G = {
    group: (it, st, p, o) => [AI.C("Label"), p, o],
    object: (it, st, p, o) => [obj(it, st, { field: p }), o],
  };
  for (const mode of ["sync"]) for (const [name, mk] of Object.entries(G)) {
    const fn = api("packages/core/", name); if (!fn) continue;
    for (const [h, own] of [[undefined, undefined], [true, undefined], ["usage", undefined], ["doc", undefined], ["help", undefined], [undefined, true], ["usage", "doc"], ["doc", "usage"], ["doc", true]]) for (const m of ["usage", "getDocFragments", "suggest"]) {
      const place = m === "suggest" ? "suggestion" : m === "usage" ? "usage" : "doc";
      const hidden = HIDES[place].has(h) || (m !== "suggest" && HIDES[place].has(own)); const what = `${name}: ${m}, hidden: ${h}, the term itself: ${own}`;
      if (m === "suggest" && (own !== undefined || (!hidden && name !== "group"))) continue;
      const it = interp(P, { maxRec: 2 }); const st = it.newState(); let shown = false, any = false, missing = false; R.analysed(1, "abstract calls");
      try {
        const conts = name === "group" ? CONTAINERS : ["none"]; const p = stub(it, st, mode, own, conts); const a0 = mk(it, st, p, obj(it, st, { hidden: AI.C(h) }));
        for (const { v, s } of it.callFn(fn, a0, null, st, null)) {
          const f = it.getProp(v, m, s);
          if (m === "usage") for (const a of f) { if (a.k === "o") { any = true; const kids = elems(s.heap.get(a.id)); R.obligation("the usage of a hiding combinator can be enumerated", kids.length >= (name === "group" ? CONTAINERS.length : 1), at(fn), `${what}: its terms cannot be enumerated`, "enum:" + what); for (const kid of kids) { const q = seen(it, it.callFn(cache.get("formatUsageTerm"), [kid, obj(it, s, {})], null, s, null)); if (q.has(MARK)) { if (hidden) shown = true; } else missing = true; } if (!hidden) shown = !missing; } }
          else for (const a of f) if (a.k === "fn") { const args = m === "suggest" ? [obj(it, s, { buffer: arr(it, s, []), state: AI.Y("state"), optionsTerminated: AI.FALSE }), AI.Y("prefix")] : [obj(it, s, { kind: AI.C("unavailable") }), AI.UNDEF]; for (const r of it.callFn(a, args, v, s, null)) { any = true; if (m === "suggest") { const q = seen(it, [r], 8); if (q.has(MARK)) shown = true; } else if (visibleEntries(it, r)) shown = true; } }
        }
      } catch (e) { R.notes.push(what + ": " + e.message); any = true; shown = hidden; }
      R.obligation("a hiding combinator can be built and asked for its " + place, any, at(fn), `${what}: cannot be resolved`, "comb:" + what);
      expect("a combinator that hides its parser hides every term of it", fn, what, shown ? "some" : "never", hidden);
    }
  }
  function elems(h) { return h ? (h.items || (h.elem ? [h.elem] : [])) : []; }
  // documentation entries whose term is not doc-hidden (those are dropped by the formatters, rule 1)
  function visibleEntries(it, r) {
    const seenO = new Set(); let out = false;
    const go = (v, d) => { for (const a of v) { if (a.k !== "o" || seenO.has(a.id) || d < 0) continue; seenO.add(a.id); const h = r.s.heap.get(a.id); if (!h) continue; const t = h.props.get("term"); if (t) { const hv = it.getProp(t, "hidden", r.s); if (it.labels(t, r.s, 4).size && [...it.labels(t, r.s, 4)].some((l) => MARK.test(l)) && hv.some((x) => !(x.k === "c" && HIDES.doc.has(x.v)))) out = true; continue; } for (const x of kids(h)) go(x, d - 1); } };
    go(r.v, 8); return out;
  }
  // every parser literal of a combinator with a hidden option consults it for all three places
  let lits = 0;
  for (const sf of P.sources) {
    if (!/\/packages\/core\/src\//.test(sf.fileName)) continue;
    const visit = (x) => {
      if (ts.isObjectLiteralExpression(x)) {
        const m = new Map(x.properties.filter((q) => q.name).map((q) => [q.name.getText(), q]));
        if (["usage", "getDocFragments", "suggest", "parse", "complete"].every((k) => m.has(k))) {
          let owner = x.parent; while (owner && !ts.isFunctionDeclaration(owner)) owner = owner.parent;
          if (owner && hiddenReads(P, owner)) for (const k of ["usage", "getDocFragments", "suggest"]) {
            if (k === "suggest" && owner.name.text === "passThrough") continue;
            lits++; const p = m.get(k); const b = ts.isPropertyAssignment(p) ? p.initializer : ts.isShorthandPropertyAssignment(p) ? p.name : p;
            R.obligation("a combinator with a hidden option consults it for usage, documentation and suggestions", hiddenReads(P, b, owner), loc(sf, p), `${owner.name.text}: ${k} does not depend on the hidden option`, `consult:${owner.name.text}:${k}`);
          }
        }
      }
      ts.forEachChild(x, visit);
    };
    visit(sf);
  }
  R.atLeast("members of combinators with a hidden option", lits, 18);
  // 4. help, version and completion terms of the runner carry the configured visibility
  let meta = 0;
  for (const sf of P.sources) {
    if (!sf.fileName.endsWith("core/src/facade.ts")) continue;
    for (const s of sf.statements) {
      if (!ts.isFunctionDeclaration(s) || !s.body) continue;
      const ps = s.parameters.map((p) => p.type ? typeName(P, p) : "");
      if (!ps.some((t) => /SubConfig/.test(t))) continue;
      const fn = { k: "fn", node: s, env: null }; const rt = P.checker.typeToString(P.checker.getReturnTypeOfSignature(P.checker.getSignatureFromDeclaration(s)));
      const combos = (info) => { if (info.kind !== "fn") return; const f = info.decl.getSourceFile().fileName; if (/core\/src\/(constructs|modifiers)\.ts$/.test(f)) return { s: info.st, v: arr(info.interp, info.st, info.args.map((a) => a)) }; if (/core\/src\/valueparser\.ts$/.test(f) && info.decl.type && /^(\w+)?ValueParser</.test(info.decl.type.getText())) return { s: info.st, v: obj(info.interp, info.st, { mode: AI.C("sync"), metavar: AI.Y("metavar"), placeholder: AI.Y("placeholder"), parse: nat("vp.parse"), format: nat("vp.format") }) }; if (/core\/src\/message\.ts$/.test(f)) return { s: info.st, v: AI.Y("text") }; };
      const call = (h) => { const it = interp(P, { maxRec: 2, onCall: combos }); const st = it.newState(); const args = s.parameters.map((p, i) => /SubConfig/.test(ps[i]) ? obj(it, st, { hidden: AI.C(h), names: arr(it, st, [AI.C(/Option/.test(ps[i]) ? "--secret" : "secret")]), aliases: AI.UNDEF, group: AI.UNDEF }) : /string\[\]/.test(ps[i]) ? arr(it, st, [AI.C("--secret")]) : AI.Y(p.name.getText())); return { it, rets: it.callFn(fn, args, null, st, null) }; };
      if (/Suggestion|kind: "literal"/.test(rt)) { for (const h of VIS) { meta++; const { it, rets } = call(h); const q = rets.some((r) => consts(it, r, /^--secret$/)); expect("hidden help, version and completion options are absent from suggestions", fn, `${s.name.text}, hidden: ${h}`, q ? "some" : "never", HIDES.suggestion.has(h)); } continue; }
      // parsers built here: every term they emit carries the hidden setting
      try {
        const { it, rets } = call("usage"); let terms = 0;
        for (const { v, s: stt } of rets) { const so = new Set(); const go = (x, d) => { for (const a of x) { if (a.k !== "o" || so.has(a.id) || d < 0) continue; so.add(a.id); const h = stt.heap.get(a.id); if (!h) continue; const ty = h.props.get("type"); if (ty && ty.some((q) => q.k === "c" && ["option", "command"].includes(q.v)) && (h.props.has("names") || h.props.has("name"))) { if (consts(it, { v: [a], s: stt }, /^(--)?secret$/)) { terms++; meta++; const hv = it.getProp([a], "hidden", stt); R.obligation("help, version and completion terms carry their configured visibility", hv.length > 0 && hv.every((q) => q.k === "c" && q.v === "usage"), at(fn), `${s.name.text}: a ${ty[0].v} term is built without the configured visibility`, `meta:${s.name.text}:${ty[0].v}`); } } for (const z of kids(h)) go(z, d - 1); } }; go(v, 10); }
      } catch (e) { R.notes.push(`${s.name.text}: ${e.message}`); }
    }
  }
  R.atLeast("settings of help, version and completion terms", meta, 8);
  // 5. inherited visibility is handed on and merged
  let inh = 0;
  for (const sf of P.sources) {
    const isVis = (node) => { const t = P.checker.getTypeAtLocation(node); return isHiddenType(P, t); };
    const visit = (x) => {
      if (ts.isCallExpression(x)) {
        let own, owner, n = 0, ok = false;
        const d = P.checker.getResolvedSignature(x)?.declaration;
        if (d && d.parameters && d.body && d.getSourceFile().fileName.startsWith(P.REPO)) d.parameters.forEach((p, i) => {
          if (!p.type || !isVis(p.name)) return;
          owner = enclosing(x); own = owner && owner.parameters.filter((q) => q.type && isVis(q.name)).map((q) => P.checker.getSymbolAtLocation(q.name)); if (!own || !own.length) return;
          n++; const a = x.arguments[i]; if (a && mentions(P, a, own, owner)) ok = true;
        });
        if (n) { inh++; R.obligation("an inherited visibility is handed on to the functions that take one", ok, loc(sf, x), `${owner.name ? owner.name.getText() : "a function"} does not hand its inherited visibility on to ${d.name ? d.name.getText() : "a function it calls"}`, `inherit:${owner.name ? owner.name.getText() : "?"}:${d.name ? d.name.getText() : "?"}`); }
      }
      ts.forEachChild(x, visit);
    };
    visit(sf);
  }
  function loc(sf, x) { return sf.fileName.replace(P.REPO + "/", "") + ":" + (sf.getLineAndCharacterOfPosition(x.getStart(sf)).line + 1); }
  R.atLeast("calls that hand on a visibility", inh, 10);
  const mh = exported(P, "packages/core/", "mergeHidden");
  if (mh) for (const a of VIS) for (const b of VIS) { const it = interp(P); const st = it.newState(); const v = it.callFn(mh, [AI.C(a), AI.C(b)], null, st, null).flatMap((r) => r.v); for (const place of Object.keys(HIDES)) { const want = HIDES[place].has(a) || HIDES[place].has(b); R.obligation("merging two visibilities hides wherever either hides", v.length > 0 && v.every((q) => q.k === "c" && HIDES[place].has(q.v) === want), at(mh), `merging ${a} and ${b} does not give the union for ${place}`, `merge:${a}:${b}:${place}`); } }
  // 6. command metadata of discovered commands keeps and inherits visibility
  let md = 0;
  for (const sf of P.sources) {
    if (!sf.fileName.includes("/packages/discover/")) continue;
    for (const s of sf.statements) {
      if (!ts.isFunctionDeclaration(s) || !s.body) continue;
      const vis = s.parameters.findIndex((p) => isHiddenType(P, P.checker.getTypeAtLocation(p.name))), met = s.parameters.findIndex((p) => /CommandMetadata|CommandOptions/.test(P.checker.typeToString(P.checker.getTypeAtLocation(p.name))));
      if (vis < 0 || met < 0 || !/CommandMetadata|CommandOptions/.test(P.checker.typeToString(P.checker.getReturnTypeOfSignature(P.checker.getSignatureFromDeclaration(s))))) continue;
      const fn = { k: "fn", node: s, env: null };
      for (const a of VIS) for (const b of [null, ...VIS]) {
        md++; const it = interp(P); const st = it.newState(); const args = s.parameters.map((_, i) => i === vis ? AI.C(a) : i === met ? (b === null ? AI.UNDEF : obj(it, st, { hidden: AI.C(b) })) : AI.Y("arg"));
        const rets = it.callFn(fn, args, null, st, null);
        const hv = rets.flatMap((r) => r.v.some((q) => q.k === "c" && q.v == null) ? AI.UNDEF : it.getProp(r.v, "hidden", r.s));
        for (const place of Object.keys(HIDES)) { const want = HIDES[place].has(a) || HIDES[place].has(b); R.obligation("discovered commands inherit the visibility of their parents", hv.length > 0 && hv.every((q) => q.k === "c" && HIDES[place].has(q.v) === want), at(fn), `${s.name.text}: inherited ${a} and own ${b} do not give the union for ${place}`, `discover:${s.name.text}:${a}:${b}:${place}`); }
      }
    }
  }
  R.atLeast("visibility cases of discovered commands", md, 20);
}
function typeName(P, p) { return p.type.getText(); }
function isHiddenType(P, t) { if (t.aliasSymbol && t.aliasSymbol.escapedName === "HiddenVisibility") return true; if (!t.isUnion()) return false; const l = t.types.filter((x) => x.isStringLiteral()).map((x) => x.value).sort().join(); return l === "doc,help,usage"; }
function enclosing(x) { for (let n = x.parent; n; n = n.parent) if (ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n) || ((ts.isArrowFunction(n) || ts.isFunctionExpression(n)) && n.parameters.some((p) => p.type && /Hidden/.test(p.type.getText())))) return n; return null; }
// does a piece of code read a visibility setting, directly or through locals and local functions of `owner`?
function hiddenReads(P, n, owner, seen = new Set()) {
  let hit = false;
  const v = (x) => {
    if (hit) return;
    if (ts.isPropertyAccessExpression(x) && x.name.text === "hidden" && isHiddenType(P, P.checker.getTypeAtLocation(x))) { hit = true; return; }
    if (ts.isIdentifier(x)) {
      let s = P.checker.getSymbolAtLocation(x); if (x.parent && ts.isShorthandPropertyAssignment(x.parent)) s = P.checker.getShorthandAssignmentValueSymbol(x.parent);
      const d = s && s.valueDeclaration;
      if (d && ts.isBindingElement(d) && (d.propertyName || d.name).getText() === "hidden") { hit = true; return; }
      if (d && !seen.has(d) && owner && d.pos >= owner.pos && d.end <= owner.end && (ts.isVariableDeclaration(d) ? d.initializer : ts.isFunctionDeclaration(d))) { seen.add(d); if (hiddenReads(P, ts.isVariableDeclaration(d) ? d.initializer : d.body, owner, seen)) { hit = true; return; } }
      // the options object itself handed to a function that reads it
      if (d && ts.isParameter(d) && ts.isCallExpression(x.parent) && x.parent.arguments.includes(x)) { const t = P.checker.getTypeAtLocation(x).getProperty("hidden"); const f = P.checker.getResolvedSignature(x.parent)?.declaration; if (t && f && f.body && !seen.has(f)) { seen.add(f); if (hiddenReads(P, f.body, f, seen)) { hit = true; return; } } }
    }
    ts.forEachChild(x, v);
  };
  v(n); return hit;
}
// an expression that depends on one of the given variables, possibly through a local
function mentions(P, e, syms, owner, depth = 4) {
  let hit = false;
  const v = (n) => { if (hit) return; if (ts.isIdentifier(n)) { let s = P.checker.getSymbolAtLocation(n); if (n.parent && ts.isShorthandPropertyAssignment(n.parent)) s = P.checker.getShorthandAssignmentValueSymbol(n.parent); if (syms.includes(s)) { hit = true; return; } const d = s && s.valueDeclaration; if (depth > 0 && d && ts.isVariableDeclaration(d) && d.initializer && d.pos >= owner.pos && d.end <= owner.end && mentions(P, d.initializer, syms, owner, depth - 1)) hit = true; } ts.forEachChild(n, v); };
  v(e); return hit;
}
module.exports = { run, explanation: "abstract interpretation (no execution) of the formatters, extractors, primitive parsers and hiding combinators over terms of every kind, container and visibility with marked texts; plus a dataflow check that inherited visibility is handed on" };
