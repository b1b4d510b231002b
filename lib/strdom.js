"use strict";
// Connects the regular-language domain (lang.js) to the abstract interpreter.
const AI = require("./ai.js"); const { ts } = require("./program.js"); const G = require("./lang.js");
const { partsLabels, strip } = AI;
const TOOBIG = 4000;
const holeLang = (p) => p.lang || G.TOPDATA;
function partLang(p) {
  if (p.lit !== undefined) return p.lit.length > TOOBIG ? G.topOf(G.CODE(G.chset(p.lit))) : G.lit(p.lit, true);
  if (p.rep) { const alts = p.rep.map(partsLang); if (!alts.length) return G.lit(""); return G.starOf(G.union(alts), p.sep ? G.lit(p.sep, true) : null); }
  return holeLang(p);
}
function partsLang(ps) { return ps.length ? G.cat(ps.map(partLang)) : G.lit(""); }
function atomLang(a, st) {
  switch (a.k) {
    case "c": return G.lit(String(a.v), true);
    case "s": return partsLang(a.parts);
    case "y": { const f = st && st.facts.get(a.p); return f && f.lang ? f.lang : G.TOPDATA; }
    default: return G.TOPDATA;
  }
}
const litSize = (ps) => ps.reduce((n, p) => n + (p.lit !== undefined ? p.lit.length : p.rep ? p.rep.reduce((m, q) => m + litSize(q), 0) : 0), 0);
function hole(lang, L) { const t = G.onlyString(lang); if (t !== null && !(G.usedSyms(lang) & G.ALLDATA)) return { k: "c", v: t }; return { k: "s", parts: [{ L: new Set(L), raw: true, lang }] }; }
const partsOf = (a, st) => a.k === "c" ? (String(a.v) === "" ? [] : [{ lit: String(a.v) }]) : a.k === "s" ? a.parts : [{ L: new Set(AI.labelsShallow(a)), raw: true, lang: atomLang(a, st) }];
function mapParts(ps, f) { const out = []; for (const p of ps) { if (p.rep) out.push({ rep: p.rep.map((q) => mapParts(q, f)), sep: p.sep ? constText(f(G.lit(p.sep, true)), p.sep) : p.sep }); else { const l = f(partLang(p)); const t = p.lit !== undefined ? G.onlyString(l) : null; if (t !== null && !(G.usedSyms(l) & G.ALLDATA)) { if (t) out.push({ lit: t }); } else if (p.lit !== undefined && G.isEmpty(l)) { /* nothing */ } else out.push(p.neutral ? { L: new Set(p.L || []), raw: true, lang: l, neutral: p.neutral } : { L: new Set(p.L || []), raw: true, lang: l }); } } return out; }
const constText = (l, d) => { const t = G.onlyString(l); return t === null ? d : t; };
function singleClass(src, flags) { let rx; try { rx = G.parseRegex(src, flags); } catch { return null; } const un = (x) => x.t === "grp" ? un(x.x) : x; const x = un(rx.ast); if (x.t === "cls") return x; if (x.t === "alt" && x.xs.every((y) => un(y).t === "cls")) { let s = 0n, ex = true; for (const y of x.xs) { s |= un(y).set; ex = ex && un(y).exact; } return { t: "cls", set: s, exact: ex }; } return null; }
const TRIM = G.chset(" \t\n\v\f\r\u00a0\u2028\u2029");

function replaceAtom(a, re, fl, all, tmpl, st) {
  const parts = partsOf(a, st); const L = AI.labelsShallow(a);
  for (const t of tmpl || []) if (t.L) for (const l of t.L) L.push(l);
  const k = singleClass(re, fl);
  if (k && all && !fl.includes("y")) return { k: "s", parts: mapParts(parts, (l) => G.replaceRegex(l, re, fl, tmpl, true)) };
  if (litSize(parts) > TOOBIG) return hole(G.fallback(partsLang(parts), tmpl), L);
  return hole(G.replaceRegex(partsLang(parts), re, fl, tmpl, all), L);
}
function tidy(a) { return a.k === "s" ? AI.mkStr(a.parts) : a; }

function strOp(a, name, args, st, e, it) {
  const isStr = a.k === "s" || (a.k === "c" && typeof a.v === "string") || (a.k === "t" && a.ty === "string") || a.k === "y";
  if (!isStr) return null;
  const L0 = AI.labelsShallow(a);
  const one = (v) => v && v.length === 1 ? v[0] : null;
  const constStr = (v) => { const x = one(v); return x && x.k === "c" && typeof x.v === "string" ? x.v : null; };
  switch (name) {
    case "replace": case "replaceAll": {
      const pats = args[0] || [], reps = args[1] || [];
      if (a.k === "c" && pats.length === 1 && pats[0].k !== "y" && reps.length === 1 && reps[0].k === "c" && (pats[0].k === "re" || pats[0].k === "c")) return null; // constant folding elsewhere
      let out = [];
      for (const p of pats) {
        let src, fl, all;
        if (p.k === "re") { src = p.src; fl = p.flags; all = fl.includes("g") || name === "replaceAll"; }
        else if (p.k === "c") { src = G.reEsc(String(p.v)); fl = ""; all = name === "replaceAll"; }
        else return [hole(G.topOf(G.usedSyms(atomLang(a, st)) | G.ALLCODE), L0)];
        for (const r of reps) {
          if (r.k === "c") { const t = G.parseTemplate(String(r.v)); out.push(tidy(replaceAtom(a, src, fl, all, t, st))); }
          else if (r.k === "fn") {
            const k = singleClass(src, fl); let tmpl = null;
            if (k) {
              // evaluate the callback for each matched character
              const cs = G.bits(k.set & G.chars(G.usedSyms(atomLang(a, st))));
              if (cs.length <= 70) { out.push(tidy(callbackEach(a, src, fl, all, cs, r, st, e, it))); continue; }
            }
            const L = new Set(L0);
            const arg = [hole(G.substrings(atomLang(a, st)), L)];
            const q = it.joinRets(it.callFn(r, r.node.parameters.map(() => arg), null, st, e));
            let lang = null; for (const x of q.v) { const l = atomLang(x, st); lang = lang ? G.union([lang, l]) : l; for (const y of AI.labelsShallow(x)) L.add(y); }
            tmpl = lang ? [{ lang, L }] : null;
            out.push(tidy(replaceAtom(a, src, fl, all, tmpl, st)));
          } else out.push(tidy(replaceAtom(a, src, fl, all, [{ lang: atomLang(r, st), L: AI.labelsShallow(r) }], st)));
        }
      }
      return out.length ? out.reduce((x, y) => AI.join(x, [y]), []) : null;
    }
    case "toUpperCase": case "toLocaleUpperCase": if (a.k === "c") return null; return [tidy({ k: "s", parts: mapParts(partsOf(a, st), G.upper) })];
    case "toLowerCase": case "toLocaleLowerCase": if (a.k === "c") return null; return [tidy({ k: "s", parts: mapParts(partsOf(a, st), G.lower) })];
    case "slice": case "substring": case "substr": {
      if (a.k === "c" && args.every((x) => one(x) && one(x).k === "c")) return null;
      const n = one(args[0]);
      if (litSize(partsOf(a, st)) > TOOBIG) return null;
      if (args.length === 1 && n && n.k === "c" && typeof n.v === "number" && n.v >= 0 && n.v < 40) { // drop exactly n characters
        const l = atomLang(a, st); let cur = new Set(l.start); for (let i = 0; i < n.v; i++) { const nx = new Set(); for (const q of cur) for (const [, t] of l.tr[q]) nx.add(t); cur = nx; }
        const dropped = cur.size ? G.norm({ tr: l.tr, start: [...cur], acc: new Set(l.acc) }) : G.lit("");
        return [hole(G.union([dropped, G.lit("")]), L0)];
      }
      return [hole(args.length <= 1 ? G.suffixes(atomLang(a, st)) : G.substrings(atomLang(a, st)), L0)];
    }
    case "trim": case "trimStart": case "trimEnd": { if (a.k === "c") return null; if (litSize(partsOf(a, st)) > TOOBIG) return null; return [hole(name === "trimStart" ? G.suffixes(atomLang(a, st)) : name === "trimEnd" ? G.prefixes(atomLang(a, st)) : G.substrings(atomLang(a, st)), L0)]; }
    case "normalize": if (a.k === "c") return null; return [a];
    case "charAt": case "at": { if (a.k === "c" && args.every((x) => one(x) && one(x).k === "c")) return null; const v = [hole(G.union([G.single(G.usedSyms(atomLang(a, st)) || 1n)]), L0)]; return name === "at" ? AI.join(v, AI.UNDEF) : AI.join(v, AI.C("")); }
    case "padEnd": case "padStart": { const fill = args[1] ? args[1].map((x) => atomLang(x, st)) : [G.lit(" ")]; const pad = G.starOf(G.union(fill.map((l) => G.substrings(l)))); const l = atomLang(a, st); return [hole(name === "padEnd" ? G.cat([l, pad]) : G.cat([pad, l]), L0)]; }
    case "repeat": { if (a.k === "c" && one(args[0]) && one(args[0]).k === "c") return null; return [{ k: "s", parts: [{ rep: [partsOf(a, st)], sep: "" }] }]; }
    case "split": {
      const sep = constStr(args[0]); const rx = one(args[0]);
      const s = st; // caller clones through alloc
      const l = atomLang(a, st); let el = G.substrings(l);
      if (sep !== null && sep.length === 1) el = G.without(el, G.chset(sep)); else if (sep === "") el = G.intersect(el, G.single(G.ALL));
      else if (rx && rx.k === "re") { const k = singleClass(rx.src, rx.flags); if (k && k.exact) el = G.without(el, k.set); }
      const c = s.clone(); const v = it.alloc(c, e, "array", { items: null, elem: [hole(el, L0)], maybeEmpty: false });
      const r = c.heap.get(v[0].id); c.heap.set(v[0].id, { ...r, splitOf: sep !== null && args.length === 1 ? { a, sep, st } : rx && rx.k === "re" ? { a, re: rx, st } : undefined, nonEmpty: true });
      return { v, s: c };
    }
  }
  return null;
}
function callbackEach(a, src, fl, all, cs, fn, st, e, it) {
  // one replacement language per matched character, applied simultaneously
  const L = new Set(AI.labelsShallow(a)); const langs = new Map();
  for (const c of cs) {
    let lang = null;
    for (const tag of [0, 1]) {
      const sym = tag ? G.CODE(G.bit(c)) : G.DATA(G.bit(c)); if (!(G.usedSyms(atomLang(a, st)) & sym)) continue;
      const arg = [{ k: "s", parts: [{ L, raw: true, lang: G.single(sym) }] }];
      const q = it.joinRets(it.callFn(fn, fn.node.parameters.map((_, i) => i === 0 || i === 1 ? arg : AI.T(L)), null, st, e));
      for (const x of q.v) { const l = atomLang(x, st); lang = lang ? G.union([lang, l]) : l; for (const y of AI.labelsShallow(x)) L.add(y); }
      langs.set(sym, lang || G.EMPTY); lang = null;
    }
  }
  const sub = (l) => G.substitute(l, langs, all);
  return { k: "s", parts: mapParts(partsOf(a, st), sub).map((p) => p.lit !== undefined || p.rep ? p : { ...p, L }) };
}
function strEq(x, s) { const l = partsLang(x.parts); if (!G.contains(l, s)) return false; if (G.onlyString(l) === s) return true; return undefined; }
function strRefine(x, s, eq) {
  const l = partsLang(x.parts); const L = AI.labelsShallow(x);
  if (eq) { const e = G.exactly(l, s); return { k: "s", parts: s === "" ? [{ L: new Set(L), raw: true, lang: G.lit("") }] : [{ L: new Set(L), raw: true, lang: e }] }; }
  const d = G.difference(l, s); if (d.key === l.key) return x; return { k: "s", parts: [{ L: new Set(L), raw: true, lang: d }] };
}
// predicate call on a string: {target, yes, no} languages
function strPredicate(e, st, env, it) {
  if (!ts.isPropertyAccessExpression(e.expression)) return null;
  const nm = e.expression.name.text; const recv = e.expression.expression;
  const quiet = (x) => { const save = it.opts.onEvent, oc = it.opts.onCall; it.opts.onEvent = undefined; it.opts.onCall = undefined; try { return it.ev(x, st, env).v; } finally { it.opts.onEvent = save; it.opts.onCall = oc; } };
  const simple = (x) => { x = strip(x); return ts.isIdentifier(x) || (ts.isPropertyAccessExpression(x) && ts.isIdentifier(strip(x.expression))); };
  if (nm === "test" && e.arguments.length === 1 && simple(e.arguments[0])) {
    const r = quiet(recv); if (r.length !== 1 || r[0].k !== "re" || /[gy]/.test(r[0].flags)) return null;
    const l = G.searchLang(r[0].src, r[0].flags); if (!l) return null; return { target: e.arguments[0], yes: l, no: exactClasses(r[0].src, r[0].flags) ? G.complement(l) : G.topOf(G.ALL) };
  }
  if (["startsWith", "endsWith", "includes"].includes(nm) && e.arguments.length === 1 && simple(recv) && it.tyOf(recv) === "string") {
    const r = quiet(e.arguments[0]); if (r.length !== 1 || r[0].k !== "c" || typeof r[0].v !== "string" || r[0].v.length > 20) return null;
    const m = G.mixed(r[0].v), A = G.topOf(G.ALL); const l = nm === "startsWith" ? G.cat([m, A]) : nm === "endsWith" ? G.cat([A, m]) : G.cat([A, m, A]);
    return { target: recv, yes: l, no: G.complement(l) };
  }
  return null;
}
function exactClasses(src, fl) { const rx = G.parseRegex(src, fl); let ok = true; const w = (x) => { if (x.t === "cls" && !x.exact && !(x.set & G.bit(G.OTHER)) ) ok = false; if (x.t === "cls" && !x.exact && (x.set & G.bit(G.OTHER))) { /* "other" is only partly in the class unless it is a negated/dot class */ } if (x.xs) x.xs.forEach(w); if (x.x) w(x.x); }; w(rx.ast); return ok; }
// a (restricted) atom, the same atom, or null when no text remains
function strRestrict(a, l, st) {
  if (a.k === "c") { if (typeof a.v !== "string") return a; return G.contains(l, a.v) ? a : null; }
  if (a.k === "s") { if (litSize(a.parts) > TOOBIG) return a; const x = partsLang(a.parts), r = G.intersect(x, l); if (G.isEmpty(r)) return null; if (r.key === x.key) return a; return { k: "s", parts: [{ L: new Set(AI.labelsShallow(a)), raw: true, lang: r }] }; }
  if (a.k === "y") { const x = atomLang(a, st), r = G.intersect(x, l); if (G.isEmpty(r)) return null; return { k: "y", p: a.p, key: a.key, fact: r }; }
  if (a.k === "t" && a.ty === "string") { const r = G.intersect(G.TOPDATA, l); return G.isEmpty(r) ? null : { k: "s", parts: [{ L: new Set(a.L), raw: true, lang: r }] }; }
  return a;
}
// widening of string accumulators: old ∪ (old + piece)*  →  old (piece)*
function samePart(p, q) { return p.lit !== undefined ? q.lit === p.lit : p.rep ? JSON.stringify(repKey(p)) === JSON.stringify(repKey(q)) : q.lit === undefined && !q.rep && holeLang(p).key === holeLang(q).key; }
const repKey = (p) => p.lit !== undefined ? ["l", p.lit] : p.rep ? ["r", p.sep, p.rep.map((x) => x.map(repKey))] : ["h", holeLang(p).key];
function widenStrings(strs, it) {
  const L = new Set(); for (const a of strs) for (const l of AI.labelsShallow(a)) L.add(l);
  const ps = strs.map((a) => partsOf(a)).sort((x, y) => x.length - y.length);
  const base = ps[0] || [];
  const rest = [];
  for (const p of ps.slice(1)) {
    let i = 0; while (i < base.length && i < p.length && samePart(base[i], p[i])) i++;
    if (i < base.length) { // literal prefix?
      if (i === base.length - 1 && base[i].lit !== undefined && p[i] && p[i].lit !== undefined && p[i].lit.startsWith(base[i].lit)) { rest.push([{ lit: p[i].lit.slice(base[i].lit.length) }, ...p.slice(i + 1)]); continue; }
      return null;
    }
    rest.push(p.slice(i));
  }
  // flatten nested repetition produced by an earlier widening
  const alts = new Map(); const add = (p) => { if (p.length && p[0].rep && p[0].sep === "") { for (const q of p[0].rep) add(q); return add(p.slice(1)); } if (!p.length) return; alts.set(JSON.stringify(p.map(repKey)), p); };
  let bs = base; while (bs.length && bs[bs.length - 1].rep && bs[bs.length - 1].sep === "" && rest.length) { add([bs[bs.length - 1]]); bs = bs.slice(0, -1); }
  for (const p of rest) add(p);
  if (alts.size === 0) return [AI.mkStr(base)];
  if (alts.size > 12) return null;
  return [AI.mkStr([...bs, { rep: [...alts.values()], sep: "" }])];
}
function charElem(a, st) { const l = atomLang(a, st); const b = G.usedSyms(l); return b ? [hole(G.single(b), AI.labelsShallow(a))] : []; }
function joinSplit(so, sep, st) {
  // x.split(s).join(t)
  const t = sep.length === 1 && sep[0].k === "c" ? [{ lit: String(sep[0].v) }] : [{ lang: sep.map((z) => atomLang(z, st)).reduce((p, q) => p ? G.union([p, q]) : q, null), L: sep.flatMap((z) => AI.labelsShallow(z)) }];
  const re = so.re ? so.re.src : G.reEsc(so.sep); if (so.sep === "") return null;
  return [tidy(replaceAtom(so.a, re, so.re ? so.re.flags.replace("g", "") + "g" : "g", true, t, so.st))];
}
// all string alternatives of a value as one language
function collapse(v, st) {
  const str = v.filter((a) => a.k === "s" || (a.k === "c" && typeof a.v === "string") || (a.k === "t" && a.ty === "string")); if (str.length < 2 && !(str.length === 1 && str[0].k === "s" && str[0].parts.length > 1)) return v;
  if (str.some((a) => litSize(partsOf(a, st)) > TOOBIG)) return v;
  const L = new Set(str.flatMap((a) => AI.labelsShallow(a)));
  return [...v.filter((a) => !str.includes(a)), hole(G.union(str.map((a) => atomLang(a, st))), L)];
}
const NUMLANG = G.norm(G.intersect(G.TOPDATA, G.topOf(G.ALLDATA & (G.RANGE(48, 57) | G.chset("+-.") | G.RANGE(97, 122) | G.RANGE(65, 90))))); // digits, sign, exponent, NaN, Infinity
function numText(v, st) { return [hole(NUMLANG, v.flatMap((a) => AI.labelsShallow(a)))]; }
const substr = (v, st) => { let out = []; for (const a of v) { if (!(a.k === 's' || a.k === 'y' || (a.k === 'c' && typeof a.v === 'string') || (a.k === 't' && a.ty === 'string'))) return null; if (a.k !== 'y' && a.k !== 't' && litSize(partsOf(a, st)) > TOOBIG) return null; out = AI.join(out, [hole(G.substrings(atomLang(a, st)), AI.labelsShallow(a))]); } return out; };
const OPTS = { substr, numText, collapse, strOp, strEq, strRefine, strPredicate, strRestrict, widenStrings, charElem, joinSplit, constOf: (a) => a.k === "s" ? G.onlyString(partsLang(a.parts)) : null };
module.exports = { collapse, OPTS, partsLang, partLang, atomLang, holeLang, hole, partsOf, G };
