"use strict";
// Regular-language string domain.
//
// A string value is abstracted by the regular language of texts it can be.
// The alphabet carries provenance: every character exists in a "data" copy
// (it came from an input) and a "code" copy (it was written in the source).
// Character classes are bit sets (BigInt) over NCH abstract characters;
// symbol sets are bit sets over 2*NCH symbols (low half data, high half code).
const NONASCII = ["\u2018", "\u2019", "\u201a", "\u201b", "\u201c", "\u201d", "\u201e", "\u2028", "\u2029", "\u0085", "\u00a0"];
const NCH = 128 + NONASCII.length + 1; // the last one stands for every other character
const OTHER = NCH - 1;
const ONE = 1n;
const ALLCH = (ONE << BigInt(NCH)) - ONE;
const chIdx = (ch) => { const c = ch.charCodeAt(0); if (c < 128) return c; const i = NONASCII.indexOf(ch); return i >= 0 ? 128 + i : OTHER; };
const idxCh = (i) => i < 128 ? String.fromCharCode(i) : i === OTHER ? "\u00e9" : NONASCII[i - 128];
const bit = (i) => ONE << BigInt(i);
const chset = (s) => { let b = 0n; for (let i = 0; i < s.length; i++) b |= bit(chIdx(s[i])); return b; };
const DATA = (cls) => cls;
const CODE = (cls) => cls << BigInt(NCH);
const BOTH = (cls) => cls | (cls << BigInt(NCH));
const ALLDATA = ALLCH, ALLCODE = CODE(ALLCH), ALL = BOTH(ALLCH);
const chars = (sym) => (sym & ALLCH) | (sym >> BigInt(NCH)); // underlying characters of a symbol set
function bits(b) { const r = []; let i = 0; while (b) { if (b & ONE) r.push(i); b >>= ONE; i++; } return r; }
const symChar = (i) => idxCh(i % NCH);

// ------------------------------------------------------------ regex parser
const RANGE = (a, b) => { let r = 0n; for (let c = a; c <= b && c < 128; c++) r |= bit(c); if (b >= 128) for (let k = 0; k < NONASCII.length; k++) { const c = NONASCII[k].charCodeAt(0); if (c >= a && c <= b) r |= bit(128 + k); } if (b >= 128) r |= bit(OTHER); return r; };
const DIGIT = RANGE(48, 57), WORD = DIGIT | RANGE(65, 90) | RANGE(97, 122) | bit(95);
const SPACE = chset(" \t\n\v\f\r\u00a0\u2028\u2029");
const NL = chset("\n\r\u2028\u2029");
const LETTER = RANGE(65, 90) | RANGE(97, 122);
class RegexError extends Error {}
// AST: {t:"cls",set,exact} {t:"seq",xs} {t:"alt",xs} {t:"rep",x,min,max,lazy}
//      {t:"grp",x,n} {t:"bos"|"eos"|"wb"|"nwb"} {t:"look",x,neg,behind} {t:"ref"}
function parseRegex(src, flags = "") {
  let i = 0, ngroups = 0; const icase = flags.includes("i"), dotall = flags.includes("s");
  const fold = (set) => { if (!icase) return set; let r = set; for (let c = 65; c <= 90; c++) { if (set & bit(c)) r |= bit(c + 32); if (set & bit(c + 32)) r |= bit(c); } return r; };
  const peek = () => src[i];
  function alt() { const xs = [seq()]; while (peek() === "|") { i++; xs.push(seq()); } return xs.length === 1 ? xs[0] : { t: "alt", xs }; }
  function seq() { const xs = []; while (i < src.length && peek() !== "|" && peek() !== ")") xs.push(quant(atom())); return xs.length === 1 ? xs[0] : { t: "seq", xs }; }
  function quant(x) {
    for (;;) {
      let min, max; const c = peek();
      if (c === "*") { min = 0; max = Infinity; i++; } else if (c === "+") { min = 1; max = Infinity; i++; } else if (c === "?") { min = 0; max = 1; i++; }
      else if (c === "{") { const m = /^\{(\d+)(,(\d*))?\}/.exec(src.slice(i)); if (!m) return x; min = +m[1]; max = m[2] ? (m[3] ? +m[3] : Infinity) : min; i += m[0].length; }
      else return x;
      let lazy = false; if (peek() === "?") { lazy = true; i++; }
      x = { t: "rep", x, min, max, lazy };
    }
  }
  const cls = (set, exact = true) => ({ t: "cls", set: fold(set), exact });
  function esc(inClass) {
    const c = src[i++];
    switch (c) {
      case "d": return cls(DIGIT); case "D": return cls(ALLCH & ~DIGIT, false); case "w": return cls(WORD); case "W": return cls(ALLCH & ~WORD, false);
      case "s": return cls(SPACE); case "S": return cls(ALLCH & ~SPACE, false);
      case "n": return cls(chset("\n")); case "r": return cls(chset("\r")); case "t": return cls(chset("\t")); case "v": return cls(chset("\v")); case "f": return cls(chset("\f")); case "0": return cls(bit(0));
      case "b": return inClass ? cls(bit(8)) : { t: "wb" }; case "B": return { t: "nwb" };
      case "x": { const h = src.slice(i, i + 2); i += 2; return cls(RANGE(parseInt(h, 16), parseInt(h, 16))); }
      case "u": { let h; if (src[i] === "{") { const e = src.indexOf("}", i); h = src.slice(i + 1, e); i = e + 1; } else { h = src.slice(i, i + 4); i += 4; } const n = parseInt(h, 16); const r = cls(n < 128 ? bit(n) : n > 0xffff ? bit(OTHER) : bit(chIdx(String.fromCharCode(n))), n < 128); r.code = n; return r; }
      case "c": { const n = src.charCodeAt(i++) % 32; return cls(bit(n)); }
      case "p": case "P": { const e = src.indexOf("}", i); const nm = src.slice(i + 1, e); i = e + 1; let s = /^(L|Letter|Alphabetic|Lu|Ll)/.test(nm) ? LETTER | bit(OTHER) : /^N/.test(nm) ? DIGIT | bit(OTHER) : /^C/.test(nm) ? RANGE(0, 31) | bit(127) | bit(chIdx("\u0085")) | bit(OTHER) : ALLCH; return cls(c === "P" ? (ALLCH & ~s) | bit(OTHER) : s, false); }
      case "k": { const e = src.indexOf(">", i); i = e + 1; return { t: "ref" }; }
    }
    if (/[1-9]/.test(c) && !inClass) { while (/\d/.test(src[i] || "")) i++; return { t: "ref" }; }
    return cls(bit(chIdx(c)));
  }
  function atom() {
    const c = src[i++];
    switch (c) {
      case "(": {
        if (peek() === "?") {
          i++;
          if (src[i] === ":") { i++; const x = alt(); i++; return { t: "grp", x, n: 0 }; }
          if (src[i] === "=" || src[i] === "!") { const neg = src[i] === "!"; i++; const x = alt(); i++; return { t: "look", x, neg }; }
          if (src[i] === "<" && (src[i + 1] === "=" || src[i + 1] === "!")) { const neg = src[i + 1] === "!"; i += 2; const x = alt(); i++; return { t: "look", x, neg, behind: true }; }
          if (src[i] === "<") { i = src.indexOf(">", i) + 1; const n = ++ngroups; const x = alt(); i++; return { t: "grp", x, n }; }
          throw new RegexError("unsupported group");
        }
        const n = ++ngroups; const x = alt(); i++; return { t: "grp", x, n };
      }
      case "[": {
        let neg = false; if (peek() === "^") { neg = true; i++; }
        let set = 0n, exact = true;
        while (i < src.length && peek() !== "]") {
          let a, acode; if (peek() === "\\") { i++; a = esc(true); acode = a.code !== undefined ? a.code : bits(a.set).length === 1 ? bits(a.set)[0] : undefined; } else { const ch = src[i++]; a = cls(bit(chIdx(ch))); acode = ch.charCodeAt(0); if (acode >= 128) a.exact = false; }
          if (peek() === "-" && src[i + 1] !== "]" && i + 1 < src.length && acode !== undefined) {
            i++; let b, bcode; if (peek() === "\\") { i++; b = esc(true); bcode = b.code !== undefined ? b.code : bits(b.set)[0]; } else { const ch = src.codePointAt(i); i += ch > 0xffff ? 2 : 1; bcode = ch; }
            set |= RANGE(acode, bcode); if (bcode >= 128) exact = false; continue;
          }
          set |= a.set; exact = exact && a.exact;
        }
        i++;
        set = fold(set);
        // "other" stands for many characters: a negated class still contains some of them
        if (neg) return { t: "cls", set: (ALLCH & ~set) | bit(OTHER), exact: false };
        return { t: "cls", set, exact };
      }
      case ".": return { t: "cls", set: dotall ? ALLCH : ALLCH & ~NL, exact: false };
      case "^": return { t: "bos" }; case "$": return { t: "eos" };
      case "\\": return esc(false);
    }
    const r = cls(bit(chIdx(c))); if (c.charCodeAt(0) >= 128) r.exact = NONASCII.includes(c); return r;
  }
  const ast = alt();
  if (i < src.length) throw new RegexError("unbalanced regex");
  return { ast, ngroups, multiline: flags.includes("m") };
}
// Glushkov automaton.  positions: {set, groups:Set}; sets first/last/follow.
// Anchors and lookarounds are recorded in `flags` and treated as empty.
function glushkov(rx) {
  const pos = []; const flags = { bos: false, eos: false, other: false, lazy: false, inexactAlt: false };
  const copy = (s) => new Set(s);
  function go(x, groups) {
    switch (x.t) {
      case "cls": { const p = pos.length; pos.push({ set: x.set, exact: x.exact, groups, follow: new Set() }); return { first: new Set([p]), last: new Set([p]), nul: false }; }
      case "grp": return go(x.x, x.n ? [...groups, x.n] : groups);
      case "seq": { let r = { first: new Set(), last: new Set(), nul: true }; for (const y of x.xs) { const q = go(y, groups); for (const l of r.last) for (const f of q.first) pos[l].follow.add(f); r = { first: r.nul ? new Set([...r.first, ...q.first]) : r.first, last: q.nul ? new Set([...r.last, ...q.last]) : q.last, nul: r.nul && q.nul }; } return r; }
      case "alt": { const rs = x.xs.map((y) => go(y, groups)); flags.alts = true; return { first: new Set(rs.flatMap((r) => [...r.first])), last: new Set(rs.flatMap((r) => [...r.last])), nul: rs.some((r) => r.nul) }; }
      case "rep": {
        if (x.lazy) flags.lazy = true;
        const n = Math.min(x.max === Infinity ? Math.max(1, x.min) : x.max, 24);
        let r = { first: new Set(), last: new Set(), nul: true };
        for (let k = 0; k < Math.max(n, x.max === 0 ? 0 : 1); k++) {
          const q = go(x.x, groups); if (k >= x.min) q.nul = true;
          for (const l of r.last) for (const f of q.first) pos[l].follow.add(f);
          if (x.max === Infinity && k === n - 1) for (const l of q.last) for (const f of q.first) pos[l].follow.add(f);
          r = { first: r.nul ? new Set([...r.first, ...q.first]) : r.first, last: q.nul ? new Set([...r.last, ...q.last]) : q.last, nul: r.nul && q.nul };
        }
        if (x.max > 24 && x.max !== Infinity) flags.other = true;
        return r;
      }
      case "bos": flags.bos = true; return { first: new Set(), last: new Set(), nul: true };
      case "eos": flags.eos = true; return { first: new Set(), last: new Set(), nul: true };
      default: flags.other = true; return { first: new Set(), last: new Set(), nul: true };
    }
  }
  const r = go(rx.ast, []);
  return { pos, first: copy(r.first), last: copy(r.last), nul: r.nul, flags };
}
// anchors only allowed as outermost first/last element
function anchorsOutermost(ast) {
  const xs = ast.t === "seq" ? ast.xs : [ast]; let bad = false;
  const scan = (x, top) => { if (x.t === "bos" || x.t === "eos") { if (!top) bad = true; } else if (x.xs) x.xs.forEach((y) => scan(y, false)); else if (x.x) scan(x.x, false); };
  xs.forEach((x, i) => { if (x.t === "bos" && i === 0) return; if (x.t === "eos" && i === xs.length - 1) return; scan(x, false); if (x.t === "bos" || x.t === "eos") bad = true; });
  return !bad;
}

// ------------------------------------------------------------------- NFA
// {tr:[[ [symset,to], ... ], ...], start:[..], acc:Set}
const MAXSTATES = 260;
function mk(tr, start, acc) { return { tr, start, acc }; }
function lit(s, code = true) { const tr = []; for (let i = 0; i < s.length; i++) tr.push([[code ? CODE(bit(chIdx(s[i]))) : DATA(bit(chIdx(s[i]))), i + 1]]); tr.push([]); return norm(mk(tr, [0], new Set([s.length]))); }
const star = (sym) => norm(mk([[[sym, 0]]], [0], new Set([0])));
const single = (sym) => norm(mk([[[sym, 1]], []], [0], new Set([1])));
const EMPTY = { tr: [[]], start: [0], acc: new Set(), key: "∅" };
function union(ls) { const tr = [], start = [], acc = new Set(); for (const l of ls) { const o = tr.length; for (const es of l.tr) tr.push(es.map(([b, t]) => [b, t + o])); for (const s of l.start) start.push(s + o); for (const a of l.acc) acc.add(a + o); } if (!tr.length) return EMPTY; return norm(mk(tr, start, acc)); }
function cat2(a, b) {
  const o = a.tr.length; const tr = a.tr.map((es) => es.slice()); for (const es of b.tr) tr.push(es.map(([x, t]) => [x, t + o]));
  const bNul = b.start.some((s) => b.acc.has(s));
  const bs = b.start.map((s) => s + o);
  for (const q of a.acc) for (const s of b.start) for (const [x, t] of b.tr[s]) tr[q].push([x, t + o]);
  const acc = new Set([...b.acc].map((q) => q + o)); if (bNul) for (const q of a.acc) acc.add(q);
  const start = a.start.slice();
  if (a.start.some((s) => a.acc.has(s))) { /* transitions already added from accepting start */ }
  void bs;
  return mk(tr, start, acc);
}
function cat(ls) { let r = ls[0] || lit(""); for (let i = 1; i < ls.length; i++) r = norm(cat2(r, ls[i])); return r; }
function starOf(a, sep) { // (a (sep a)*)?   or a* without sep
  const tr = a.tr.map((es) => es.slice()); const first = a.start.flatMap((s) => a.tr[s]);
  if (!sep) { for (const q of a.acc) for (const e of first) tr[q].push(e); const ns = tr.length; tr.push(first.slice()); return norm(mk(tr, [ns], new Set([...a.acc, ns]))); }
  const one = cat([sep, a]); const more = starOf(one); const body = cat([a, more]); return union([lit(""), body]);
}
function usedSyms(l) { let b = 0n; for (const es of l.tr) for (const [x] of es) b |= x; return b; }
// determinise + minimise + canonical key
function norm(n) {
  if (n.key) return n;
  const labels = new Set(); for (const es of n.tr) for (const [b] of es) labels.add(b);
  let parts = [ALL];
  for (const b of labels) { const next = []; for (const p of parts) { const x = p & b, y = p & ~b; if (x) next.push(x); if (y) next.push(y); } parts = next; }
  const used = usedSyms(n); parts = parts.filter((p) => p & used);
  const ids = new Map(); const sets = []; const dtr = [];
  const get = (arr) => { const k = arr.join(","); let i = ids.get(k); if (i === undefined) { i = sets.length; ids.set(k, i); sets.push(arr); dtr.push(null); } return i; };
  const s0 = get([...new Set(n.start)].sort((a, b) => a - b));
  for (let i = 0; i < sets.length; i++) {
    if (sets.length > MAXSTATES * 4) return topOf(usedSyms(n));
    const row = [];
    for (const p of parts) { const t = new Set(); for (const q of sets[i]) for (const [b, to] of n.tr[q]) if (b & p) t.add(to); row.push(t.size ? get([...t].sort((a, b) => a - b)) : -1); }
    dtr[i] = row;
  }
  const acc = sets.map((s) => s.some((q) => n.acc.has(q)));
  // drop states that cannot reach acceptance
  const live = acc.slice(); let ch = true; while (ch) { ch = false; for (let i = 0; i < sets.length; i++) if (!live[i] && dtr[i].some((t) => t >= 0 && live[t])) { live[i] = true; ch = true; } }
  if (!live[s0]) return EMPTY;
  // Moore minimisation
  let cl = acc.map((a, i) => live[i] ? (a ? 1 : 0) : -1); let cnt = 0;
  for (;;) {
    const m = new Map(); const nc = [];
    for (let i = 0; i < sets.length; i++) { if (!live[i]) { nc.push(-1); continue; } const k = cl[i] + ":" + dtr[i].map((t) => t < 0 || !live[t] ? -1 : cl[t]).join(","); let c = m.get(k); if (c === undefined) { c = m.size; m.set(k, c); } nc.push(c); }
    if (m.size === cnt) { cl = nc; break; } cnt = m.size; cl = nc;
  }
  // canonical numbering by BFS
  const order = new Map(); const q = [cl[s0]]; order.set(cl[s0], 0); const rep = new Map(); for (let i = sets.length - 1; i >= 0; i--) if (cl[i] >= 0) rep.set(cl[i], i);
  const tr = []; const facc = new Set();
  for (let h = 0; h < q.length; h++) {
    const i = rep.get(q[h]); const by = new Map();
    parts.forEach((p, k) => { const t = dtr[i][k]; if (t >= 0 && live[t]) by.set(cl[t], (by.get(cl[t]) || 0n) | p); });
    const es = [...by].sort((a, b) => a[1] < b[1] ? -1 : 1);
    const row = []; for (const [c, b] of es) { if (!order.has(c)) { order.set(c, q.length); q.push(c); } row.push([b, order.get(c)]); }
    tr.push(row); if (acc[i]) facc.add(h);
  }
  const r = mk(tr, [0], facc);
  if (tr.length > MAXSTATES) return topOf(usedSyms(r));
  r.key = tr.map((es, i) => (facc.has(i) ? "!" : "") + es.map(([b, t]) => b.toString(36) + ">" + t).join(";")).join("|");
  return r;
}
const topCache = new Map();
function topOf(sym) { let t = topCache.get(sym); if (!t) { t = mk([[[sym, 0]]], [0], new Set([0])); t.key = "!" + sym.toString(36) + ">0"; topCache.set(sym, t); } return t; }
const TOPDATA = topOf(ALLDATA);
function intersect(a, b) {
  const ids = new Map(), st = [], tr = []; const acc = new Set();
  const get = (p, q) => { const k = p + "," + q; let i = ids.get(k); if (i === undefined) { i = st.length; ids.set(k, i); st.push([p, q]); tr.push([]); } return i; };
  const start = []; for (const p of a.start) for (const q of b.start) start.push(get(p, q));
  for (let i = 0; i < st.length; i++) { const [p, q] = st[i]; if (a.acc.has(p) && b.acc.has(q)) acc.add(i); for (const [x, t] of a.tr[p]) for (const [y, u] of b.tr[q]) if (x & y) tr[i].push([x & y, get(t, u)]); }
  return norm(mk(tr, start, acc));
}
const isEmpty = (l) => l.acc.size === 0;
// language of texts a regex test accepts (search semantics), over both symbol copies; null = unknown
function searchLang(src, flags) {
  let rx; try { rx = parseRegex(src, flags); } catch { return null; }
  const g = glushkov(rx); if (g.flags.other || rx.multiline || !anchorsOutermost(rx.ast)) return null;
  const xs = rx.ast.t === "seq" ? rx.ast.xs : [rx.ast];
  const b = xs[0] && xs[0].t === "bos", e = xs.length && xs[xs.length - 1].t === "eos";
  const tr = [[]]; g.pos.forEach(() => tr.push([]));
  for (const f of g.first) tr[0].push([BOTH(g.pos[f].set), f + 1]);
  g.pos.forEach((p, i) => { for (const f of p.follow) tr[i + 1].push([BOTH(g.pos[f].set), f + 1]); });
  const acc = new Set([...g.last].map((i) => i + 1)); if (g.nul) acc.add(0);
  const core = norm(mk(tr, [0], acc));
  return cat([...(b ? [] : [topOf(ALL)]), core, ...(e ? [] : [topOf(ALL)])]);
}
// ------------------------------------------------------------- replacement
// tmpl: array of {lit} | {all:true} | {group:n} | {lang}
function parseTemplate(s) {
  const out = []; let cur = "";
  for (let i = 0; i < s.length; i++) {
    if (s[i] === "$" && i + 1 < s.length) {
      const n = s[i + 1];
      if (n === "$") { cur += "$"; i++; continue; }
      if (n === "&") { if (cur) out.push({ lit: cur }); cur = ""; out.push({ all: true }); i++; continue; }
      if (/[1-9]/.test(n)) { if (cur) out.push({ lit: cur }); cur = ""; out.push({ group: +n }); i++; continue; }
      if (n === "`" || n === "'" || n === "<") return null;
    }
    cur += s[i];
  }
  if (cur) out.push({ lit: cur });
  return out;
}
function fallback(l, tmpl) { let b = usedSyms(l); for (const t of tmpl || []) { if (t.lit) b |= CODE(chset(t.lit)); if (t.lang) b |= usedSyms(t.lang); } return topOf(b); }
function subset(b, cls) { return b & BOTH(cls); }
// replace all (or first) matches of regex in language l
function replaceRegex(l, src, flags, tmpl, all) {
  if (!tmpl) return topOf(usedSyms(l) | ALLCODE);
  let rx; try { rx = parseRegex(src, flags); } catch { return fallback(l, tmpl); }
  const g = glushkov(rx);
  if (g.flags.other || g.nul || !anchorsOutermost(rx.ast)) return fallback(l, tmpl);
  const refs = tmpl.filter((t) => t.all || t.group);
  if (refs.length > 1) { // several copies of the match: only followed for one-character patterns
    if (g.pos.length !== 1 || g.pos[0].follow.size || g.flags.bos || g.flags.eos || !all || refs.some((t) => !t.all && !g.pos[0].groups.includes(t.group))) return fallback(l, tmpl);
    const cls = BOTH(g.pos[0].set) & usedSyms(l); const subs = new Map();
    for (const i of bits(cls)) subs.set(ONE << BigInt(i), cat(tmpl.map((t) => t.all || t.group ? single(ONE << BigInt(i)) : t.lang || lit(t.lit))));
    return substitute(l, subs, true);
  }
  const ri = tmpl.findIndex((t) => t.all || t.group);
  const toL = (ts) => ts.length ? cat(ts.map((t) => t.lang ? t.lang : lit(t.lit))) : null;
  const pre = toL(ri < 0 ? tmpl : tmpl.slice(0, ri)), post = ri < 0 ? null : toL(tmpl.slice(ri + 1)); const ref = ri < 0 ? null : tmpl[ri];
  const bos = g.flags.bos, eos = g.flags.eos, ml = rx.multiline;
  const greedy = longestIsChosen(rx.ast) && !g.flags.lazy && !eos;
  const oblig = !eos; // "no match starts here" can be enforced
  // product construction; state key: q | mode | match positions | obligations
  const tr = [], ids = new Map(), st = [], eps = [], acc = new Set();
  const get = (s) => { const k = s.q + "|" + s.m + "|" + s.ob.join(",") + "|" + (s.ls ? 1 : 0) + (s.done ? "d" : ""); let i = ids.get(k); if (i === undefined) { i = st.length; if (i > 6000) throw new RegexError("too many"); ids.set(k, i); st.push(s); tr.push([]); eps.push([]); } return i; };
  const splice = (from, lang, to) => { // insert lang between from and to using eps
    if (!lang) { eps[from].push(to); return; }
    const o = tr.length; // append copies; states beyond st[] are plain
    for (const es of lang.tr) { extra.push(es.map(([b, t]) => [b, { x: extraBase + 0, t }])); }
    void o;
  };
  void splice;
  const extra = []; const extraBase = 0; void extraBase;
  // plain-state graph built in second arrays
  const G = { tr: [], eps: [] }; const newS = () => { G.tr.push([]); G.eps.push([]); return G.tr.length - 1; };
  const gid = new Map(); const gOf = (s) => { const i = get(s); let x = gid.get(i); if (x === undefined) { x = newS(); gid.set(i, x); } return x; };
  const emit = (from, lang, to) => { if (!lang) { G.eps[from].push(to); return; } const m = lang.tr.map(() => newS()); lang.tr.forEach((es, k) => { for (const [b, t] of es) G.tr[m[k]].push([b, m[t]]); if (lang.acc.has(k)) G.eps[m[k]].push(to); }); for (const s of lang.start) G.eps[from].push(m[s]); };
  const stepOb = (ob, b) => { // returns list of [subset of symbols, new obligations] partitions; drops completed (illegal) ones
    let partsB = [b];
    for (const p of ob) { const c = BOTH(g.pos[p].set); partsB = partsB.flatMap((x) => [x & c, x & ~c].filter((y) => y)); }
    const out = [];
    for (const x of partsB) { const nxt = new Set(); let bad = false; for (const p of ob) if (x & BOTH(g.pos[p].set)) { if (g.last.has(p)) { bad = true; break; } for (const f of g.pos[p].follow) nxt.add(f); } if (!bad) out.push([x, [...nxt].sort((a, c) => a - c)]); }
    return out;
  };
  const canStart = (s) => !s.done && (!bos || s.ls);
  try {
    const starts = l.start.map((q) => gOf({ q, m: "", ob: [], ls: true, done: false }));
    const work = []; let seen = 0;
    while (seen < st.length) {
      const i = seen++; const s = st[i]; const from = gOf(s); const es = l.tr[s.q];
      if (s.m === "") {
        if (l.acc.has(s.q)) acc.add(from); // pending obligations cannot complete any more
        for (const [b0, to] of es) {
          // (a) copy the character: obligation that no match starts here
          const obs = canStart(s) && oblig ? [...new Set([...s.ob, ...g.first])].sort((x, y) => x - y) : s.ob;
          for (const [x, ob2] of stepOb(obs, b0)) {
            for (const [y, isNl] of splitNl(x)) G.tr[from].push([y, gOf({ q: to, m: "", ob: ob2, ls: ml && isNl, done: s.done })]);
          }
        }
        // (b) start a match here: emit prefix then consume
        if (canStart(s)) {
          // obligations on pending earlier starts continue; keep them simple
          const ms = { q: s.q, m: "S", ob: s.ob, ls: s.ls, done: s.done };
          emit(from, pre, gOf(ms));
        }
      } else {
        // in a match: m = "S" (nothing consumed) or position number
        const nextPos = s.m === "S" ? [...g.first] : [...g.pos[+s.m].follow];
        for (const [b0, to] of es) for (const p of nextPos) {
          const b = b0 & BOTH(g.pos[p].set); if (!b) continue;
          for (const [x, ob2] of stepOb(s.ob, b)) {
            const keep = ref && (ref.all || g.pos[p].groups.includes(ref.group));
            for (const [y, isNl] of splitNl(x)) {
              const ns = { q: to, m: String(p), ob: ob2, ls: ml && isNl, done: s.done };
              const t = gOf(ns);
              if (keep) G.tr[from].push([y, t]); else G.eps[from].push(t);
            }
          }
        }
        if (s.m !== "S" && g.last.has(+s.m)) {
          // end of match; longest match: the follow positions may not continue
          const ob = greedy ? continuationObligations(g, +s.m) : [];
          emit(from, post, gOf({ q: s.q, m: "", ob: [...new Set([...s.ob.filter(() => false), ...ob])].sort((x, y) => x - y), ls: s.ls, done: s.done || !all }));
        }
      }
      void work;
    }
    return norm(dropEps(G, starts, acc));
  } catch (e) { if (e instanceof RegexError) return fallback(l, tmpl); throw e; }
}
// replace single symbols by languages, simultaneously
function substitute(l, langs, all) {
  const tr = [], eps = []; const nw = () => { tr.push([]); eps.push([]); return tr.length - 1; };
  for (let i = 0; i < l.tr.length; i++) nw();
  l.tr.forEach((es, q) => { for (const [b, t] of es) { let rest = b; for (const [sym, lang] of langs) if (b & sym) { rest &= ~sym; const m = lang.tr.map(() => nw()); lang.tr.forEach((xs, k) => { for (const [x, u] of xs) tr[m[k]].push([x, m[u]]); if (lang.acc.has(k)) eps[m[k]].push(t); }); for (const s of lang.start) eps[q].push(m[s]); if (!all) tr[q].push([sym, t]); } if (rest) tr[q].push([rest, t]); } });
  return norm(dropEps({ tr, eps }, l.start, l.acc));
}
function splitNl(x) { const n = x & BOTH(NL), o = x & ~BOTH(NL); const r = []; if (n) r.push([n, true]); if (o) r.push([o, false]); return r; }
// after ending at position p, a longer match would continue through p's follow set.
// Only enforced when that continuation would immediately be accepting.
function continuationObligations(g, p) { return [...g.pos[p].follow].filter((f) => g.last.has(f)); }
function longestIsChosen(ast) {
  let ok = true;
  const flat = (x) => x.t === "grp" ? flat(x.x) : x.t === "cls" ? [x.set] : x.t === "seq" ? x.xs.reduce((a, y) => { const b = flat(y); return a && b ? [...a, ...b] : null; }, []) : null;
  const walk = (x) => { if (x.t === "alt") { const fs = x.xs.map(flat); for (let i = 0; i < fs.length; i++) for (let j = i + 1; j < fs.length; j++) { if (!fs[i] || !fs[j]) { ok = false; continue; } if (fs[i].length < fs[j].length && fs[i].every((s, k) => s & fs[j][k])) ok = false; } } if (x.xs) x.xs.forEach(walk); if (x.x) walk(x.x); };
  walk(ast); return ok;
}
function dropEps(G, starts, acc) {
  const clo = G.tr.map(() => null);
  const closure = (s) => { if (clo[s]) return clo[s]; const r = new Set([s]); const w = [s]; while (w.length) { const x = w.pop(); for (const t of G.eps[x]) if (!r.has(t)) { r.add(t); w.push(t); } } return (clo[s] = r); };
  const tr = G.tr.map((_, i) => { const es = []; for (const s of closure(i)) es.push(...G.tr[s]); return es; });
  const a2 = new Set(); for (let i = 0; i < tr.length; i++) for (const s of closure(i)) if (acc.has(s)) { a2.add(i); break; }
  return mk(tr, starts, a2);
}
// replace a literal search string
function reEsc(s) { return s.replace(/[.*+?^${}()|[\]\\\/]/g, "\\$&"); }
function mapChars(l, f) { return norm(mk(l.tr.map((es) => es.map(([b, t]) => { let r = 0n; for (const i of bits(b)) { const c = i % NCH, code = i >= NCH; r |= code ? CODE(f(c)) : DATA(f(c)); } return [r, t]; })), l.start.slice(), new Set(l.acc))); }
const upper = (l) => mapChars(l, (c) => c >= 97 && c <= 122 ? bit(c - 32) : bit(c));
const lower = (l) => mapChars(l, (c) => c >= 65 && c <= 90 ? bit(c + 32) : bit(c));
// any contiguous substring
function substrings(l) { const all = l.tr.map((_, i) => i); return norm(mk(l.tr, all, new Set(all))); }
const suffixes = (l) => norm(mk(l.tr, l.tr.map((_, i) => i), new Set(l.acc)));
const prefixes = (l) => norm(mk(l.tr, l.start.slice(), new Set(l.tr.map((_, i) => i))));
function without(l, cls) { return norm(mk(l.tr.map((es) => es.map(([b, t]) => [b & ~BOTH(cls), t]).filter(([b]) => b)), l.start.slice(), new Set(l.acc))); }
const charsOf = (l) => { const b = usedSyms(l); return b; };
function difference(l, s) { // l minus one string
  if (s.length > 40) return l; const tr = []; // complement DFA of s over ALL
  const n = s.length; for (let i = 0; i <= n; i++) { const c = i < n ? BOTH(bit(chIdx(s[i]))) : 0n; const es = []; if (c) es.push([c, i + 1]); const rest = ALL & ~c; if (rest) es.push([rest, n + 1]); tr.push(es); }
  tr.push([[ALL, n + 1]]); const acc = new Set(); for (let i = 0; i <= n + 1; i++) if (i !== n) acc.add(i);
  if (s.split("").some((ch) => chIdx(ch) === OTHER)) return l;
  return intersect(l, mk(tr, [0], acc));
}
function complement(l0, universe = ALL) {
  const l = norm(l0); const n = l.tr.length; const tr = l.tr.map((es) => { let u = 0n; for (const [b] of es) u |= b; const r = es.slice(); const rest = universe & ~u; if (rest) r.push([rest, n]); return r; });
  tr.push([[universe, n]]); const acc = new Set(); for (let i = 0; i <= n; i++) if (!l.acc.has(i)) acc.add(i);
  return norm(mk(tr, l.start.slice(), acc));
}
function contains(l, s) { let cur = new Set(l.start); for (const ch of s) { const b = BOTH(bit(chIdx(ch))); const n = new Set(); for (const q of cur) for (const [x, t] of l.tr[q]) if (x & b) n.add(t); cur = n; } return [...cur].some((q) => l.acc.has(q)); }
function exactly(l, s) { return intersect(l, union([lit(s, true), lit(s, false), mixed(s)])); }
function mixed(s) { const tr = []; for (let i = 0; i < s.length; i++) tr.push([[BOTH(bit(chIdx(s[i]))), i + 1]]); tr.push([]); return norm(mk(tr, [0], new Set([s.length]))); }
// the only string of the language, or null
function onlyString(l) { let s = "", q = 0; const n = norm(l); if (n.acc.size !== 1) return null; for (let k = 0; k < 100; k++) { if (n.acc.has(q)) return n.tr[q].length ? null : s; if (n.tr[q].length !== 1) return null; const [b, t] = n.tr[q][0]; const cs = bits(chars(b)); if (cs.length !== 1 || cs[0] === OTHER) return null; s += idxCh(cs[0]); q = t; } return null; }
// shortest example
function sample(l) { const prev = new Map(); const w = []; for (const s of l.start) { prev.set(s, null); w.push(s); } while (w.length) { const q = w.shift(); if (l.acc.has(q)) { let s = ""; let x = q; while (prev.get(x)) { const [p, c] = prev.get(x); s = c + s; x = p; } return s; } for (const [b, t] of l.tr[q]) if (!prev.has(t)) { prev.set(t, [q, symChar(bits(b)[0])]); w.push(t); } } return null; }

// run a deterministic monitor over a language.  step(state, sym index) -> state
// or {bad}.  Returns {ends:Set, bad:{text,why}|null}
function monitor(l, starts, step) {
  const seen = new Map(); const w = []; const ends = new Set();
  for (const m of starts) for (const q of l.start) { const k = q + "|" + m; if (!seen.has(k)) { seen.set(k, null); w.push([q, m, k]); } }
  const text = (k) => { let s = ""; while (seen.get(k)) { const [pk, c] = seen.get(k); s = c + s; k = pk; } return s; };
  while (w.length) {
    const [q, m, k] = w.shift();
    if (l.acc.has(q)) ends.add(m);
    for (const [b, t] of l.tr[q]) for (const i of bits(b)) {
      const r = step(m, i % NCH, i >= NCH);
      if (r && typeof r === "object") return { ends, bad: { text: text(k) + symChar(i), why: r.bad } };
      const nk = t + "|" + r; if (!seen.has(nk)) { seen.set(nk, [k, symChar(i)]); w.push([t, r, nk]); }
    }
  }
  return { ends, bad: null };
}
module.exports = { NCH, OTHER, ALLCH, ALLDATA, ALLCODE, ALL, DATA, CODE, BOTH, bit, bits, chset, chars, chIdx, idxCh, RANGE, NL, WORD, parseRegex, glushkov, anchorsOutermost, RegexError, lit, star, single, union, cat, starOf, norm, topOf, TOPDATA, EMPTY, isEmpty, intersect, searchLang, parseTemplate, replaceRegex, reEsc, upper, lower, mapChars, substrings, suffixes, prefixes, without, charsOf, usedSyms, difference, complement, contains, exactly, mixed, onlyString, sample, monitor, fallback, substitute };
