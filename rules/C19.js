"use strict";
// C19: no exponential backtracking.  Ambiguity analysis of every pattern.
const { ts } = require("../lib/program.js"); const { Effects, strip } = require("../lib/effects.js"); const LG = require("../lib/lang.js"); const S = ts.SyntaxKind;
exports.explanation = "Every regular expression literal, and every RegExp built from constants, is translated to a position automaton; the square of the automaton is searched for a state with two different paths back to itself reading the same text (exponential ambiguity). RegExp objects built from anything that is neither constant nor an application-supplied RegExp are violations.";
// position automaton whose edges carry the number (1, or 2 for several) of ways
// to take them; iterations that read nothing are not taken, as in JavaScript
const two = (n) => n > 2 ? 2 : n;
function build(ast, cap = 5) {
  const sets = []; const follow = []; const looks = [];
  const add = (m, k, n) => { if (n) m.set(k, two((m.get(k) || 0) + n)); };
  const scaled = (m, n) => { const r = new Map(); for (const [k, v] of m) add(r, k, v * n); return r; };
  const plus = (a, b) => { const r = new Map(a); for (const [k, v] of b) add(r, k, v); return r; };
  const link = (l, f) => { for (const [p, n] of l) for (const [q, m] of f) add(follow[p], q, n * m); };
  const EMPTY = () => ({ first: new Map(), last: new Map(), nul: 1 });
  const cat = (a, b) => { link(a.last, b.first); return { first: plus(a.first, scaled(b.first, a.nul)), last: plus(b.last, scaled(a.last, b.nul)), nul: two(a.nul * b.nul) }; };
  const opt = (a) => ({ first: a.first, last: a.last, nul: 1 });
  const go = (x) => {
    switch (x.t) {
      case "cls": { const p = sets.length; sets.push(x.set); follow.push(new Map()); return { first: new Map([[p, 1]]), last: new Map([[p, 1]]), nul: 0 }; }
      case "grp": return go(x.x);
      case "seq": return x.xs.map(go).reduce(cat, EMPTY());
      case "alt": return x.xs.map(go).reduce((a, b) => ({ first: plus(a.first, b.first), last: plus(a.last, b.last), nul: two(a.nul + b.nul) }));
      case "rep": {
        const mn = Math.min(x.min, cap), mx = x.max === Infinity ? Infinity : Math.min(x.max, Math.max(cap, mn));
        let r = EMPTY(); for (let k = 0; k < mn; k++) r = cat(r, go(x.x));
        if (mx === Infinity) { const b = go(x.x); link(b.last, b.first); return cat(r, opt(b)); }
        const tail = (k) => k <= 0 ? EMPTY() : opt(cat(go(x.x), tail(k - 1)));
        return cat(r, tail(mx - mn)); }
      case "look": looks.push(x.x); return EMPTY();
      default: return EMPTY();
    } };
  go(ast); return { sets, follow, looks };
}
function exponential(ast) {
  const N = build(ast); const n = N.sets.length; const succ = N.follow.map((m) => [...m]);
  // strongly connected components of the automaton
  const scc = tarjan(n, (v) => succ[v].map((e) => e[0]));
  for (let v = 0; v < n; v++) for (const [w, m] of succ[v]) if (m > 1 && scc[v] === scc[w]) return "one loop can be taken in several ways for the same text";
  // product restricted to one component, states reading a common character
  const comps = new Map(); for (let v = 0; v < n; v++) { if (!comps.has(scc[v])) comps.set(scc[v], []); comps.get(scc[v]).push(v); }
  for (const [cid, vs] of comps) {
    if (vs.length < 2) continue; if (vs.length > 900) return "too large to analyse";
    const loc = new Map(vs.map((v, i) => [v, i])); const k = vs.length;
    const over = (a, b) => (N.sets[a] & N.sets[b]) !== 0n;
    const nx = (p) => { const a = vs[Math.floor(p / k)], b = vs[p % k]; if (!over(a, b)) return []; const r = []; for (const [x] of succ[a]) if (scc[x] === cid) for (const [y] of succ[b]) if (scc[y] === cid && over(x, y)) r.push(loc.get(x) * k + loc.get(y)); return r; };
    const ps = tarjan(k * k, nx);
    const diag = new Set(); for (let i = 0; i < k; i++) diag.add(ps[i * k + i]);
    for (let i = 0; i < k; i++) for (let j = 0; j < k; j++) if (i !== j && diag.has(ps[i * k + j]) && nx(i * k + j).length) { // in a component with a diagonal pair
      for (let d = 0; d < k; d++) if (ps[d * k + d] === ps[i * k + j]) return "two different ways through a loop read the same text"; }
  }
  for (const l of N.looks) { const r = exponential(l); if (r) return r; }
  return null;
}
function tarjan(n, succ) {
  const idx = new Int32Array(n).fill(-1), low = new Int32Array(n), comp = new Int32Array(n).fill(-1), on = new Uint8Array(n); const stack = []; let c = 0, nc = 0;
  for (let r = 0; r < n; r++) { if (idx[r] >= 0) continue; const work = [[r, succ(r), 0]]; idx[r] = low[r] = c++; stack.push(r); on[r] = 1;
    while (work.length) { const f = work[work.length - 1]; if (f[2] < f[1].length) { const w = f[1][f[2]++]; if (idx[w] < 0) { idx[w] = low[w] = c++; stack.push(w); on[w] = 1; work.push([w, succ(w), 0]); } else if (on[w]) low[f[0]] = Math.min(low[f[0]], idx[w]); }
      else { const v = f[0]; work.pop(); if (work.length) { const p = work[work.length - 1][0]; low[p] = Math.min(low[p], low[v]); } if (low[v] === idx[v]) { let w; do { w = stack.pop(); on[w] = 0; comp[w] = nc; } while (w !== v); nc++; } } } }
  return comp;
}
exports.exponential = (src, flags) => exponential(LG.parseRegex(src, flags).ast);
exports.run = (P, R) => {
  const E = new Effects(P); const c = P.checker;
  const loc = (n) => { const sf = n.getSourceFile(); return sf.fileName.slice(P.REPO.length + 1) + ":" + (sf.getLineAndCharacterOfPosition(n.getStart()).line + 1); };
  const rel = (n) => n.getSourceFile().fileName.slice(P.REPO.length + 1);
  const isRe = (e) => { const t = c.getTypeAtLocation(e); return (t.isUnionOrIntersection() ? t.types : [t]).some((x) => x.symbol && x.symbol.name === "RegExp" || x.isIntersection() && x.types.some((y) => y.symbol && y.symbol.name === "RegExp")); };
  const initOf = (e) => { const d = E.decl(e); return d && ts.isVariableDeclaration(d) && d.initializer && d.parent.flags & ts.NodeFlags.Const ? d.initializer : null; };
  // constant text of an expression, or null
  const fold = (e, depth = 0) => {
    e = strip(e); if (!e || depth > 12) return null; const f = (x) => fold(x, depth + 1);
    if (ts.isStringLiteralLike(e) || ts.isNumericLiteral(e)) return e.text;
    if (ts.isTemplateExpression(e)) { let s = e.head.text; for (const t of e.templateSpans) { const v = f(t.expression); if (v === null) return null; s += v + t.literal.text; } return s; }
    if (ts.isTaggedTemplateExpression(e) && /^String\.raw$/.test(e.tag.getText())) { const t = e.template; const raw = (x) => { const y = x.getText(); return x.kind === S.NoSubstitutionTemplateLiteral ? y.slice(1, -1) : x.kind === S.TemplateTail ? y.slice(1, -1) : y.slice(1, -2); }; if (ts.isNoSubstitutionTemplateLiteral(t)) return raw(t); let s = raw(t.head); for (const sp of t.templateSpans) { const v = f(sp.expression); if (v === null) return null; s += v + raw(sp.literal); } return s; }
    if (ts.isBinaryExpression(e) && e.operatorToken.kind === S.PlusToken) { const a = f(e.left), b = f(e.right); return a === null || b === null ? null : a + b; }
    if (ts.isPropertyAccessExpression(e) && e.name.text === "source") { const r = re(e.expression, depth + 1); return r ? r[0] : null; }
    if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && e.expression.name.text === "join") { const l = strip(e.expression.expression); const ll = ts.isIdentifier(l) && initOf(l) ? strip(initOf(l)) : l; if (!ts.isArrayLiteralExpression(ll)) return null; const xs = ll.elements.map(f); const sep = e.arguments[0] ? f(e.arguments[0]) : ","; return xs.includes(null) || sep === null ? null : xs.join(sep); }
    if (ts.isIdentifier(e)) { const i = initOf(e); return i ? f(i) : null; }
    return null; };
  const re = (e, depth = 0) => { e = strip(e); if (depth > 12) return null; if (e.kind === S.RegularExpressionLiteral) { const m = /^\/([\s\S]*)\/([a-z]*)$/.exec(e.text); return m && [m[1], m[2]]; } if (ts.isIdentifier(e)) { const i = initOf(e); return i ? re(i, depth + 1) : null; } if ((ts.isNewExpression(e) || ts.isCallExpression(e)) && e.expression.getText() === "RegExp") { const s = fold(e.arguments[0]); if (s !== null) return [s, e.arguments[1] ? fold(e.arguments[1]) || "" : ""]; return re(e.arguments[0], depth + 1); } return null; };
  // is the text the source of an application-supplied RegExp object?
  const fromRegExp = (e, depth = 0) => { e = strip(e); if (depth > 8) return false; if (ts.isPropertyAccessExpression(e) && e.name.text === "source" && isRe(e.expression)) return true; if (isRe(e)) return true;
    if (ts.isConditionalExpression(e)) return fromRegExp(e.whenTrue, depth + 1) && fromRegExp(e.whenFalse, depth + 1);
    if (ts.isBinaryExpression(e) && [S.QuestionQuestionToken, S.BarBarToken, S.AmpersandAmpersandToken].includes(e.operatorToken.kind)) return fromRegExp(e.right, depth + 1) && (e.operatorToken.kind === S.AmpersandAmpersandToken || fromRegExp(e.left, depth + 1));
    if (e.kind === S.NullKeyword || ts.isIdentifier(e) && e.text === "undefined" || ts.isStringLiteralLike(e)) return true;
    if (ts.isPropertyAccessExpression(e) && e.name.text === "pattern") { const t = c.getTypeAtLocation(e); if ((t.isUnion() ? t.types : [t]).some((x) => x.symbol && x.symbol.name === "RegExp")) return true; }
    if (ts.isIdentifier(e)) { const d = E.decl(e); if (d && ts.isVariableDeclaration(d) && d.initializer) return fromRegExp(d.initializer, depth + 1); if (d && ts.isParameter(d)) { const f = d.parent; const i = f.parameters.indexOf(d); const cs = []; for (const sf of P.sources) { const w = (n) => { if (ts.isCallExpression(n) && E.callees(n).includes(f)) cs.push(n); ts.forEachChild(n, w); }; w(sf); } return cs.length > 0 && cs.every((k) => k.arguments[i] && fromRegExp(k.arguments[i], depth + 1)); } }
    return false; };
  let n = 0;
  const one = (node, src, flags) => { n++; let bad; try { bad = exponential(LG.parseRegex(src, flags).ast); } catch (e) { bad = "cannot be analysed: " + e.message; }
    R.obligation("no pattern backtracks exponentially", !bad, loc(node), `/${src.slice(0, 80)}/: ${bad}`, rel(node) + " /" + src.slice(0, 120) + "/"); };
  for (const sf of P.sources) { const w = (x) => {
    if (x.kind === S.RegularExpressionLiteral) { const m = /^\/([\s\S]*)\/([a-z]*)$/.exec(x.text); one(x, m[1], m[2]); }
    if ((ts.isNewExpression(x) || ts.isCallExpression(x)) && ts.isIdentifier(x.expression) && x.expression.text === "RegExp" && x.arguments && x.arguments[0]) {
      const s = fold(x.arguments[0]); const fl = x.arguments[1] ? fold(x.arguments[1]) || "" : "";
      if (s !== null) one(x, s, fl); else { const r = re(x.arguments[0]); if (r) one(x, r[0], fl || r[1]); else { n++; R.obligation("patterns are built from constants or application patterns", fromRegExp(x.arguments[0]), loc(x), `the pattern of ${x.getText().slice(0, 60)} is built from text that is not constant`, rel(x) + " " + x.getText().slice(0, 60)); } } }
    if (ts.isCallExpression(x) && ts.isPropertyAccessExpression(x.expression) && ["match", "matchAll", "search"].includes(x.expression.name.text) && x.arguments[0] && c.getTypeAtLocation(x.expression.expression).flags & ts.TypeFlags.StringLike && c.getTypeAtLocation(x.arguments[0]).flags & ts.TypeFlags.StringLike) R.obligation("patterns are built from constants or application patterns", fold(x.arguments[0]) !== null, loc(x), `the text given to ${x.expression.name.text}() becomes a pattern`, rel(x) + " " + x.getText().slice(0, 60));
    ts.forEachChild(x, w); }; w(sf); }
  R.atLeast("patterns", n, 100);
};
