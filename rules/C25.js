"use strict";
// C25: value parsers do not throw on text.  Exception-flow analysis of the
// operations that user text reaches.
const { ts } = require("../lib/program.js"); const { Effects, strip } = require("../lib/effects.js"); const { known, same } = require("../lib/guards.js"); const LG = require("../lib/lang.js"); const S = ts.SyntaxKind;
exports.explanation = "From the input parameter of every value parser's parse and suggest member, text is followed through locals, calls and callbacks. Each operation known to throw on malformed text (URL, BigInt, JSON, RegExp, decodeURI, Intl, Temporal, file system and git calls, Date, repeat, throw statements, unchecked matches and split parts) that it reaches must be inside a try whose handler does not rethrow, or dominated by a validity test of that text.";
const GLOBALS = { "BigInt": "SyntaxError", "JSON.parse": "SyntaxError", "RegExp": "SyntaxError", "decodeURI": "URIError", "decodeURIComponent": "URIError", "encodeURI": "URIError", "encodeURIComponent": "URIError", "atob": "DOMException", "structuredClone": "DOMException", "String.fromCodePoint": "RangeError", "Intl.getCanonicalLocales": "RangeError" };
const METHODS = { repeat: "RangeError", normalize: "RangeError", toFixed: "RangeError", toPrecision: "RangeError", toExponential: "RangeError", toISOString: "RangeError" };
exports.run = (P, R) => {
  const E = new Effects(P); const c = P.checker;
  const loc = (n) => { const sf = n.getSourceFile(); return sf.fileName.slice(P.REPO.length + 1) + ":" + (sf.getLineAndCharacterOfPosition(n.getStart()).line + 1); };
  const rel = (n) => n.getSourceFile().fileName.slice(P.REPO.length + 1);
  const constInit = (e) => { const d = E.decl(e); return d && ts.isVariableDeclaration(d) && d.initializer ? strip(d.initializer) : null; };
  const external = (e) => { const x = strip(e); const id = ts.isPropertyAccessExpression(x) ? x.expression : x; if (!ts.isIdentifier(id)) return null; const s = c.getSymbolAtLocation(id); const d = s && s.declarations && s.declarations[0]; if (!d) return null; let q = d; while (q && !ts.isImportDeclaration(q)) q = q.parent; return q ? q.moduleSpecifier.text : null; };
  // results of a schema library describe the application's schema, not the text
  const thirdParty = (n) => { const m = external(n.expression); return !!m && /^(zod|valibot|@standard-schema)/.test(m); };
  // the exception class an operation may throw, or null
  const throws = (n) => {
    const t = n.expression.getText().replace(/\s+/g, "");
    if (ts.isNewExpression(n)) { if (t === "URL") return "TypeError"; if (/^Intl\./.test(t)) return "RangeError"; if (t === "RegExp") return "SyntaxError"; if (/(^|\.)Temporal\./.test(t)) return "RangeError"; return null; }
    const g = t.replace(/^globalThis\./, ""); if (Object.hasOwn(GLOBALS, g) ) { const d = E.decl(ts.isPropertyAccessExpression(strip(n.expression)) ? strip(n.expression).name : strip(n.expression)); if (!d || !E.own(d)) return GLOBALS[g]; }
    const x = strip(n.expression); if (ts.isPropertyAccessExpression(x)) { const nm = x.name.text; const d = E.decl(x.name); if (d && E.own(d)) return null; if (nm === "from" && /(^|\.)Temporal\./.test(t)) return "RangeError"; if (Object.hasOwn(METHODS, nm) && !(nm === "normalize" && !n.arguments.length)) return METHODS[nm]; if (nm === "toString" && n.arguments.length) return "RangeError"; }
    const m = external(n.expression); if (m && (/^(node:)?(fs|fs\/promises)$/.test(m) && !/existsSync$/.test(t) || m === "isomorphic-git")) return "Error";
    return null; };
  // functions a call may reach, including function arguments of a factory
  let callIx = null; const callSites = (f) => { if (!callIx) { callIx = new Map(); for (const sf of P.sources) { const w = (n) => { if (ts.isCallExpression(n)) for (const g of E.callees(n)) { if (!callIx.has(g)) callIx.set(g, []); callIx.get(g).push(n); } ts.forEachChild(n, w); }; w(sf); } } return callIx.get(f) || []; };
  const reach = (n) => { const gs = E.callees(n); if (gs.length) return gs; const x = strip(n.expression); if (!ts.isIdentifier(x)) return gs; const d = E.decl(x); if (!d || !ts.isParameter(d)) return gs; const i = d.parent.parameters.indexOf(d); const out = []; for (const k of callSites(d.parent)) { const a = k.arguments[i] && strip(k.arguments[i]); if (a && ts.isFunctionLike(a)) out.push(a); else if (a && ts.isIdentifier(a)) { const q = E.decl(a); if (q && ts.isFunctionLike(q) && q.body) out.push(q); else if (q && ts.isVariableDeclaration(q) && q.initializer && ts.isFunctionLike(strip(q.initializer))) out.push(strip(q.initializer)); } } return out; };
  const hostOp = (n) => { const m = external(n.expression); return !!m && (/^(node:)?(fs|fs\/promises)$/.test(m) && !/existsSync$/.test(n.expression.getText()) || m === "isomorphic-git"); };
  const promiseTest = (e) => /instanceof\s+Promise|isPromise|PromiseLike|\.then\b|[aA]sync/.test(e.getText());
  // ---- the regular language BigInt accepts
  const INT = "^[ \\t\\n\\r]*([+-]?[0-9]+|0[xX][0-9a-fA-F]+|0[oO][0-7]+|0[bB][01]+)?[ \\t\\n\\r]*$"; let intLang;
  const reLit = (e) => { e = strip(e); if (e.kind === S.RegularExpressionLiteral) return /^\/([\s\S]*)\/([a-z]*)$/.exec(e.text).slice(1); if (ts.isIdentifier(e)) { const i = constInit(e); return i ? reLit(i) : null; } return null; };
  const regexCond = (e, truth) => { // [subject, source, flags] when the condition says that the subject matched
    e = strip(e); if (ts.isBinaryExpression(e)) { const k = e.operatorToken.kind; const nul = strip(e.right).kind === S.NullKeyword || strip(e.right).getText() === "undefined"; if (!nul) return null; if ((k === S.ExclamationEqualsToken || k === S.ExclamationEqualsEqualsToken) ? !truth : truth) return null; return regexCond(e.left, true); }
    if (!truth) return null; if (ts.isIdentifier(e)) { const i = constInit(e); return i && ts.isCallExpression(i) ? regexCond(i, true) : null; }
    if (!ts.isCallExpression(e) || !ts.isPropertyAccessExpression(e.expression)) return null; const nm = e.expression.name.text; if ((nm === "test" || nm === "exec") && e.arguments[0]) { const r = reLit(e.expression.expression); return [e.arguments[0], ...(r || [null, ""])]; } if (nm === "match" && e.arguments[0]) { const r = reLit(e.arguments[0]); return [e.expression.expression, ...(r || [null, ""])]; } return null; };
  // ---- taint
  const keyOf = new Map(); let ids = 0; const id = (d) => { if (!keyOf.has(d)) keyOf.set(d, ++ids); return keyOf.get(d); };
  const bodyTaint = (f, tainted) => { // locals of f (and inline callbacks) that carry text
    const t = new Set(tainted); let ch = true;
    const has = (e) => { let r = false; const w = (x) => { if (r || ts.isTypeNode(x) || ts.isCallExpression(x) && thirdParty(x)) return; if (ts.isIdentifier(x) && !(ts.isPropertyAccessExpression(x.parent) && x.parent.name === x) && !(ts.isPropertyAssignment(x.parent) && x.parent.name === x)) { const d = E.decl(x); if (d && t.has(d)) r = true; } if (!r) ts.forEachChild(x, w); }; w(e); return r; };
    const names = (n, f2) => { if (ts.isIdentifier(n)) f2(n); else n.elements.forEach((x) => { if (!ts.isOmittedExpression(x)) names(x.name, f2); }); };
    const mark = (n) => names(n, (x) => { const d = E.decl(x); if (d && !t.has(d)) { t.add(d); ch = true; } });
    while (ch) { ch = false; const w = (x) => {
      if (ts.isTypeNode(x)) return;
      if (ts.isVariableDeclaration(x)) { if (x.initializer && has(x.initializer)) mark(x.name); const fo = x.parent.parent; if (fo && ts.isForOfStatement(fo) && has(fo.expression)) mark(x.name); }
      if (ts.isBinaryExpression(x) && x.operatorToken.kind >= S.FirstAssignment && x.operatorToken.kind <= S.LastAssignment && ts.isIdentifier(strip(x.left)) && has(x.right)) mark(strip(x.left));
      if (ts.isFunctionLike(x) && x !== f && x.parent && ts.isCallExpression(x.parent) && x.parent.arguments.includes(x)) { const cal = strip(x.parent.expression); if (ts.isPropertyAccessExpression(cal) && has(cal.expression) || x.parent.arguments.some((a) => a !== x && has(a))) for (const p of x.parameters) mark(p.name); }
      ts.forEachChild(x, w); }; w(f.body); }
    return { t, has }; };
  const memo = new Map(); let nOps = 0; const opsSeen = new Set();
  // uncaught throwing sites of f when the given parameters carry text: [{node, what, chain}]
  const sites = (f, idx, depth) => {
    const key = id(f) + ":" + idx.join(","); if (memo.has(key)) return memo.get(key); const out = []; memo.set(key, out); if (depth > 12 || !f.body) return out;
    const seed = []; f.parameters.forEach((p, i) => { if (idx.includes(i)) { const w = (n) => { if (ts.isIdentifier(n)) { const d = E.decl(n); if (d) seed.push(d); } else n.elements.forEach((x) => { if (!ts.isOmittedExpression(x)) w(x.name); }); }; w(p.name); seed.push(p); } });
    const { has } = bodyTaint(f, seed);
    const skip = (n) => ts.isFunctionLike(n) && n !== f && !(n.parent && (ts.isCallExpression(n.parent) || ts.isParenthesizedExpression(n.parent)));
    // operations directly in a region (not nested try blocks that catch them)
    const region = (top, into) => { const w = (n) => {
      if (!n || ts.isTypeNode(n) || skip(n)) return;
      if (ts.isTryStatement(n) && n.catchClause) { const inner = []; region(n.tryBlock, inner); handler(n, inner, into); region(n.catchClause.block, into.filterThrow ? into : into); if (n.finallyBlock) region(n.finallyBlock, into); return; }
      if (ts.isThrowStatement(n)) { into.push({ node: n, cls: cls(n), what: "throw", thrown: true }); ts.forEachChild(n, w); return; }
      if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
        const gs = ts.isCallExpression(n) ? reach(n) : []; const args = n.arguments || [];
        if (gs.length) { for (const g of gs) { if (g.parent && args.includes(g)) continue; const ti = []; g.parameters.forEach((p, i) => { if (args[i] && !ts.isFunctionLike(strip(args[i])) && has(args[i]) || p.dotDotDotToken && args.slice(i).some(has)) ti.push(i); }); if (ti.length) for (const s of sites(g, ti, depth + 1)) if (!(s.what === "BigInt()" && known(n, E).some(([e, tr]) => regexCond(e, tr)))) into.push({ ...s, via: [n, ...(s.via || [])] }); } }
        else { const cl = throws(n); if (cl && (hostOp(n) || args.some(has) || ts.isPropertyAccessExpression(strip(n.expression)) && has(strip(n.expression).expression))) { opsSeen.add(n); if (!guarded(n, f)) into.push({ node: n, cls: cl, what: n.expression.getText() + "()" }); } }
      }
      if (ts.isBinaryExpression(n) && (n.operatorToken.kind === S.SlashToken || n.operatorToken.kind === S.PercentToken) && c.getTypeAtLocation(n.right).flags & ts.TypeFlags.BigIntLike && !ts.isBigIntLiteral(strip(n.right)) && has(n.right) && !nonZero(n.right, n)) { opsSeen.add(n); into.push({ node: n, cls: "RangeError", what: "division by a bigint from the text" }); }
      if (ts.isNonNullExpression(n) && ts.isCallExpression(strip(n.expression)) && ts.isPropertyAccessExpression(strip(strip(n.expression).expression)) && ["exec", "match", "find"].includes(strip(strip(n.expression).expression).name.text) && has(n) && (ts.isPropertyAccessExpression(n.parent) || ts.isElementAccessExpression(n.parent) || ts.isVariableDeclaration(n.parent))) { opsSeen.add(n); if (!known(n, E).some(([e, t]) => t && same(E, e, n.expression))) into.push({ node: n, cls: "TypeError", what: "an unchecked match" }); }
      part(n, into);
      ts.forEachChild(n, w); }; w(top); };
    // members of split parts that may be missing
    const part = (n, into) => {
      if (!ts.isPropertyAccessExpression(n) || n.questionDotToken) return; const el = n.expression; let arr = null, k = 0;
      const e = ts.isIdentifier(el) ? el : strip(el);
      if (ts.isElementAccessExpression(e) && ts.isNumericLiteral(strip(e.argumentExpression))) { arr = e.expression; k = +strip(e.argumentExpression).text; }
      else if (ts.isIdentifier(e)) { const d = E.decl(e); if (d && ts.isBindingElement(d) && ts.isArrayBindingPattern(d.parent) && !d.initializer && !d.dotDotDotToken && ts.isVariableDeclaration(d.parent.parent) && d.parent.parent.initializer) { arr = d.parent.parent.initializer; k = d.parent.elements.indexOf(d); } else if (d && ts.isVariableDeclaration(d) && d.initializer && ts.isElementAccessExpression(strip(d.initializer)) && ts.isNumericLiteral(strip(strip(d.initializer).argumentExpression))) { arr = strip(d.initializer).expression; k = +strip(strip(d.initializer).argumentExpression).text; } }
      if (!arr || k < 1) return; let src = strip(arr); const viaId = src; if (ts.isIdentifier(src)) { const i = constInit(src); if (i) src = i; }
      if (!(ts.isCallExpression(src) && ts.isPropertyAccessExpression(src.expression) && src.expression.name.text === "split" && has(src))) return;
      opsSeen.add(n);
      const ok = known(n, E).some(([q]) => /\.length\b/.test(q.getText()) && (ts.isIdentifier(viaId) ? q.getText().includes(viaId.text + ".length") : true) || same(E, q, e) || ts.isBinaryExpression(q) && same(E, q.left, e) || /\.includes\(|\.test\(|\.exec\(|\.match\(/.test(q.getText()) && has(q));
      if (!ok) into.push({ node: n, cls: "TypeError", what: "a part of a split text that may be missing" }); };
    const cls = (n) => { const x = n.expression && strip(n.expression); return x && ts.isNewExpression(x) ? x.expression.getText() : "unknown"; };
    const nonZero = (e, at) => { let x = strip(e); if (ts.isIdentifier(x)) { const i = constInit(x); if (i) x = i; } return ts.isBinaryExpression(x) && x.operatorToken.kind === S.AsteriskAsteriskToken && ts.isBigIntLiteral(strip(x.left)) || known(at, E).some(([q]) => ts.isBinaryExpression(q) && same(E, q.left, e)); };
    const caughtBy = (cond) => { const m = /instanceof\s+(\w+)/.exec(cond.getText()); return m && m[1]; };
    // which operations of a try block can leave its handler
    const handler = (n, inner, into) => {
      const cc = n.catchClause; const v = cc.variableDeclaration && ts.isIdentifier(cc.variableDeclaration.name) ? E.decl(cc.variableDeclaration.name) : null;
      const w = (x) => { if (skip(x)) return; if (ts.isThrowStatement(x)) { let q = x; let nested = false; while (q !== cc.block) { if (ts.isTryStatement(q.parent) && q.parent.tryBlock === q && q.parent.catchClause) nested = true; q = q.parent; } if (!nested) { const ks = known(x, E, cc.block);
        const excluded = ks.filter(([e, t]) => !t && caughtBy(e)).map(([e]) => caughtBy(e)); const only = ks.filter(([e, t]) => t && caughtBy(e)).map(([e]) => caughtBy(e));
        for (const s of inner) { if (excluded.some((k) => k === "Error" || k === s.cls)) continue; if (only.length && !only.some((k) => k === "Error" || k === s.cls)) continue; into.push({ ...s, what: s.what + " (rethrown)" }); } } }
        ts.forEachChild(x, w); }; w(cc.block); };
    const guarded = (n, fn) => {
      const arg = (n.arguments && n.arguments[0]) || null; const ks = known(n, E); const t = n.expression.getText();
      if (t === "BigInt") { const a = strip(arg); const ty = c.getTypeAtLocation(a); if (ty.flags & (ts.TypeFlags.BigIntLike | ts.TypeFlags.BooleanLike) || /\.length$|\.size$|^Math\.|^Number\.MAX_SAFE/.test(a.getText())) return true; if (ty.flags & ts.TypeFlags.NumberLike) return ks.some(([e, tr]) => tr && /isInteger|isSafeInteger/.test(e.getText())) || !has(a);
        for (const [e, tr] of ks) { const r = regexCond(e, tr); if (!r) continue; if (!same(E, r[0], a)) { return true; } if (r[1] === null) return true; try { const l = LG.searchLang(r[1], r[2]); intLang ||= LG.searchLang(INT, ""); if (LG.isEmpty(LG.intersect(l, LG.complement(intLang)))) return true; } catch { return true; } } return false; }
      if (n.kind === S.NewExpression && t === "URL") return ks.some(([e, tr]) => tr && ts.isCallExpression(e) && /URL\.canParse$/.test(e.expression.getText()) && same(E, e.arguments[0], arg));
      if (/Sync$|^(stat|lstat|readFile|readdir)$/.test(t)) return ks.some(([e, tr]) => tr && ts.isCallExpression(e) && /existsSync$/.test(e.expression.getText()) && same(E, e.arguments[0], arg));
      if (t === "RegExp") { const ty = c.getTypeAtLocation(arg); return (ty.isUnionOrIntersection() ? ty.types : [ty]).some((x) => x.symbol && x.symbol.name === "RegExp" || x.isIntersection() && x.types.some((y) => y.symbol && y.symbol.name === "RegExp")); }
      if (/\.repeat$/.test(t)) { const a = arg; const nonneg = (q) => { q = strip(q); if (ts.isNumericLiteral(q) || /\.length$/.test(q.getText()) || ts.isCallExpression(q) && /^Math\.max$/.test(q.expression.getText()) && q.arguments.some((z) => strip(z).getText() === "0")) return true; return ks.some(([e]) => ts.isBinaryExpression(e) && [S.LessThanToken, S.GreaterThanToken, S.LessThanEqualsToken, S.GreaterThanEqualsToken].includes(e.operatorToken.kind)); }; return !has(a) || nonneg(a); }
      if (/\.toISOString$/.test(t)) return ks.some(([e]) => /isNaN|isFinite/.test(e.getText()));
      if (/\.(toFixed|toPrecision|toExponential|toString|normalize)$/.test(t)) return !arg || !has(arg);
      return false; };
    const cand = []; region(ts.isBlock(f.body) ? f.body : f.body, cand);
    // a throw statement counts only when text decides whether it happens
    for (const s of cand) { if (s.thrown && !s.via) { const ks = known(s.node, E); if (ks.some(([e]) => promiseTest(e))) continue; if (!ks.some(([e]) => has(e)) && !has(s.node)) { const inCatch = (() => { let q = s.node; while (q && q !== f) { if (ts.isCatchClause(q)) return true; q = q.parent; } return false; })(); if (inCatch) continue; if (ks.length) continue; continue; } let q = s.node, inC = false; while (q && q !== f) { if (ts.isCatchClause(q)) inC = true; q = q.parent; } if (inC) continue; if (/unreachable|Unreachable|Unexpected/.test(s.node.getText())) continue; }
      out.push(s); }
    return out; };
  let n = 0;
  const isVP = (o) => { const names = new Set(o.properties.map((p) => p.name && p.name.getText())); return names.has("metavar") && names.has("parse") || names.has("parse") && names.has("format") && names.has("mode"); };
  for (const sf of P.sources) { const w = (o) => {
    if (ts.isObjectLiteralExpression(o) && isVP(o)) for (const m of o.properties) {
      const nm = m.name && m.name.getText(); if (nm !== "parse" && nm !== "suggest") continue;
      let f = ts.isMethodDeclaration(m) ? m : ts.isPropertyAssignment(m) ? strip(m.initializer) : ts.isShorthandPropertyAssignment(m) ? m.name : null;
      if (f && ts.isIdentifier(f)) { const d = E.decl(f); f = d && ts.isVariableDeclaration(d) ? strip(d.initializer) : d; }
      if (!f || !ts.isFunctionLike(f) || !f.body) { R.obligation("members of value parsers are resolved", false, loc(m), `the ${nm} member is not a function that can be found`, rel(m) + " " + nm); continue; }
      n++; const ss = sites(f, [0], 0); let fn = o; while (fn && !((ts.isFunctionDeclaration(fn) || ts.isMethodDeclaration(fn)) && fn.name)) fn = fn.parent;
      const owner = fn ? fn.name.getText() : "(module)";
      R.obligation("no malformed text makes a value parser throw", ss.length === 0, ss[0] ? loc(ss[0].node) : loc(m), ss[0] ? `${owner}: ${nm}() reaches ${ss[0].what} with user text and nothing catches or rules out its exception: ${ss[0].node.getText().replace(/\s+/g, " ").slice(0, 70)}` : "", `${rel(m)} ${owner} ${nm}` + (ss[0] ? " " + ss[0].what : ""));
    }
    ts.forEachChild(o, w); }; w(sf); }
  R.analysed(opsSeen.size, "throwing operations reached by text");
  R.atLeast("parse and suggest members of value parsers", n, 60); R.atLeast("operations that may throw on text", opsSeen.size, 20);
};
