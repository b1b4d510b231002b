"use strict";
// C05: no call leaves a trace in data it does not own.
const { ts } = require("../lib/program.js"); const { Effects, strip } = require("../lib/effects.js"); const { workspacePaths } = require("../lib/program.js");
const S = ts.SyntaxKind;
exports.explanation = "Ownership/effect analysis of every function of every package: each write (assignment, delete, ++, mutating built-in method, Object.assign/define*) is attributed to the storage that owns it (own activation, parameter, enclosing activation, module, receiver) and propagated through calls; writes that outlive the call are violations unless they are object-identity caches, identity numbering, or flags restored in a finally block.";
exports.run = (P, R) => {
  const E = new Effects(P);
  const loc = (n) => { const sf = n.getSourceFile(); return sf.fileName.slice(P.REPO.length + 1) + ":" + (sf.getLineAndCharacterOfPosition(n.getStart()).line + 1); };
  const name = (f) => f.name ? f.name.getText() : f.parent.name ? f.parent.name.getText() : "(function)";
  const fileOf = (n) => n.getSourceFile().fileName.slice(P.REPO.length + 1);
  // -- reviewed object-identity caches: a WeakMap/WeakSet keyed on the object it describes.
  const REVIEWED_WEAK = { "packages/core/src/internal/annotations.ts": 1, "packages/core/src/annotation-state.ts": 2, "packages/core/src/dependency-runtime.ts": 3, "packages/core/src/input-trace.ts": 1, "packages/core/src/constructs.ts": 1 };
  const weakUsed = new Map();
  const weakInit = (d) => d.initializer && ts.isNewExpression(strip(d.initializer)) && /^Weak(Map|Set)$/.test(strip(d.initializer).expression.getText());
  const counterOnly = (d) => { // a number that is only ever incremented
    if (!d.initializer || !ts.isNumericLiteral(strip(d.initializer))) return false;
    return refs(d).every((r) => { const p = r.parent; if (ts.isBinaryExpression(p) && p.left === r && p.operatorToken.kind !== S.PlusEqualsToken && isAssign(p.operatorToken.kind)) { const q = strip(p.right); return ts.isBinaryExpression(q) && q.operatorToken.kind === S.PlusToken && q.left.getText() === r.getText(); } return true; });
  };
  const isAssign = (k) => k >= S.FirstAssignment && k <= S.LastAssignment;
  const refs = (d) => E.refsOf(d, d.getSourceFile());
  // a counter whose value is only ever stored in an identity cache / returned as an id
  const finallyFlag = (d, F) => {
    if (!d.initializer || ![S.TrueKeyword, S.FalseKeyword].includes(strip(d.initializer).kind)) return false;
    const init = strip(d.initializer).kind; let ok = true, n = 0;
    for (const r of refs(d)) {
      const p = r.parent; if (!(ts.isBinaryExpression(p) && p.left === r && isAssign(p.operatorToken.kind))) continue;
      if (strip(p.right).kind === init) continue; n++;
      // the raised flag is lowered by a finally block of the statement that follows (or encloses) it
      let st = p; while (st && !ts.isExpressionStatement(st)) st = st.parent; if (!st) { ok = false; continue; }
      const lowers = (t) => { let hit = false; const w = (m) => { if (ts.isBinaryExpression(m) && m.operatorToken.kind === S.EqualsToken && ts.isIdentifier(m.left) && E.decl(m.left) === d && strip(m.right).kind === init) hit = true; if (!ts.isFunctionLike(m)) ts.forEachChild(m, w); }; if (t.finallyBlock) w(t.finallyBlock); return hit; };
      const sib = st.parent.statements; let good = false;
      if (sib) for (const x of sib.slice(sib.indexOf(st) + 1)) { if (ts.isTryStatement(x)) { good = lowers(x); break; } if (!simple(x)) break; }
      for (let q = st.parent; q && !ts.isFunctionLike(q); q = q.parent) if (ts.isTryStatement(q) && lowers(q)) good = true;
      if (!good) ok = false;
    }
    return ok && n > 0;
  };
  const simple = (st) => { let s = true; const w = (m) => { if (ts.isCallExpression(m) || ts.isNewExpression(m) || ts.isAwaitExpression(m) || ts.isThrowStatement(m) || ts.isReturnStatement(m)) s = false; ts.forEachChild(m, w); }; w(st); return s; };
  // -- lifetimes of enclosing activations
  const publicFiles = new Set(Object.values(workspacePaths()).flat()); const pub = new Set();
  for (const sf of P.sources) if (publicFiles.has(sf.fileName)) { const sym = P.checker.getSymbolAtLocation(sf); if (sym) for (let ex of P.checker.getExportsOfModule(sym)) { if (ex.flags & ts.SymbolFlags.Alias) ex = P.checker.getAliasedSymbol(ex); for (const d of ex.declarations || []) { if (ts.isFunctionLike(d)) pub.add(d); else if (ts.isVariableDeclaration(d) && d.initializer && ts.isFunctionLike(strip(d.initializer))) pub.add(strip(d.initializer)); else if (ts.isClassLike(d)) for (const m of d.members) if (ts.isFunctionLike(m) && m.body) pub.add(m); } } }
  const isMethod = (f) => !!f.parent && (ts.isMethodDeclaration(f) || ts.isGetAccessor(f) || ts.isSetAccessor(f) ? ts.isObjectLiteralExpression(f.parent) : ts.isPropertyAssignment(f.parent) || (ts.isBinaryExpression(f.parent) && f.parent.right === f && ts.isPropertyAccessExpression(f.parent.left)));
  const perCallCache = new Map();
  const perCall = (F) => { // every activation of F belongs to one parse/complete/... call
    if (perCallCache.has(F)) return perCallCache.get(F); perCallCache.set(F, true);
    let r; const host = E.fnOf(F);
    const survivesHost = host && !ts.isSourceFile(host) && E.survives(F, host);
    if (pub.has(F)) r = false;
    else if (isMethod(F) || survivesHost) r = true;
    else if (host && !ts.isSourceFile(host)) { r = perCall(host); if (!r) { const d = ts.isFunctionDeclaration(F) ? F : ts.isVariableDeclaration(F.parent) ? F.parent : null; if (d) { const rs = refs(d).filter((x) => ts.isCallExpression(x.parent) && strip(x.parent.expression) === x); r = rs.length > 0 && rs.every((x) => { const g = E.fnOf(x); return !ts.isSourceFile(g) && g !== host && E.survives(g, host); }); } } }
    else { const d = ts.isFunctionDeclaration(F) ? F : F.parent && ts.isVariableDeclaration(F.parent) ? F.parent : null; const rs = d ? allRefs(d) : []; r = rs.length > 0 && rs.every((x) => { const g = E.fnOf(x); return !ts.isSourceFile(g) && perCall(g); }); }
    perCallCache.set(F, r); return r;
  };
  let refAll = null;
  const allRefs = (d) => { if (!refAll) { refAll = new Map(); for (const sf of P.sources) { const w = (n) => { if (ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) return; if (ts.isIdentifier(n) && n.parent.name !== n) { const q = E.decl(n); if (q) { if (!refAll.has(q)) refAll.set(q, []); refAll.get(q).push(n); } } ts.forEachChild(n, w); }; w(sf); } } return refAll.get(d) || []; };
  // -- classes whose methods write their own instance
  const selfWriters = new Map(); const stateful = new Set(); // method name -> declaration; classes
  for (const f of E.fns) if (f.parent && ts.isClassLike(f.parent) && ts.isMethodDeclaration(f) && E.summary(f).some((x) => x.owner.k === "this")) { selfWriters.set(f.name.getText(), f); stateful.add(f.parent); }
  for (let grown = true; grown;) { grown = false; for (const f of E.fns) if (f.parent && ts.isClassLike(f.parent) && ts.isMethodDeclaration(f) && !selfWriters.has(f.name.getText())) { let hit = false; const w = (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && selfWriters.has(n.expression.name.text) && E.owners(n.expression.expression).some((o) => o.k === "this")) hit = true; ts.forEachChild(n, w); }; w(f.body); if (hit) { selfWriters.set(f.name.getText(), f); stateful.add(f.parent); grown = true; } } }
  // instances of stateful classes must belong to one call
  const producers = new Set();
  const creates = (e, depth = 0) => { e = strip(e); if (!e || depth > 4) return false; if (ts.isNewExpression(e)) { const d = E.decl(e.expression); return !!d && (stateful.has(d) || (ts.isClassLike(d) && (d.heritageClauses || []).some((h) => h.types.some((t) => stateful.has(E.decl(t.expression)))))); } if (ts.isCallExpression(e)) return E.callees(e).some((g) => producers.has(g)); if (ts.isConditionalExpression(e)) return creates(e.whenTrue, depth + 1) || creates(e.whenFalse, depth + 1); if (ts.isBinaryExpression(e)) return creates(e.right, depth + 1) || creates(e.left, depth + 1); if (ts.isIdentifier(e)) { const d = E.decl(e); return !!d && ts.isVariableDeclaration(d) && !!d.initializer && creates(d.initializer, depth + 1); } return false; };
  for (let grown = true; grown;) { grown = false; for (const f of E.fns) if (!producers.has(f)) { let hit = false; if (ts.isBlock(f.body)) { const w = (n) => { if (n !== f && ts.isFunctionLike(n)) return; if (ts.isReturnStatement(n) && n.expression && creates(n.expression)) hit = true; ts.forEachChild(n, w); }; w(f); } else hit = creates(f.body); if (hit) { producers.add(f); grown = true; } } }
  R.atLeast("stateful classes", stateful.size, 2);
  for (const sf of P.sources) { const w = (n) => { if (ts.isVariableDeclaration(n) && ts.isIdentifier(n.name) && n.initializer && !ts.isFunctionLike(strip(n.initializer)) && creates(n.initializer)) { const h = E.fnOf(n); const shared = ts.isSourceFile(h) || (refs(n).some((r) => { const g = E.fnOf(r); return g !== h && E.survives(g, h); }) && !perCall(h)); R.obligation("mutable registries belong to a single call", !shared, loc(n), `${n.name.text} is a mutable registry shared by all calls`, `${fileOf(n)} shared ${n.name.text}`); } ts.forEachChild(n, w); }; w(sf); }
  let nW = 0;
  const where = (f) => `${fileOf(f)} ${name(f)}`;
  const decl1 = (d) => { let v = d; while (v && ts.isBindingElement(v)) v = v.parent.parent; return v; };
  const weakOk = (d) => { const v = decl1(d); if (!v || !ts.isVariableDeclaration(v)) return false; const isW = weakInit(v); if (!isW) return false; const f = fileOf(v); if (!weakUsed.has(f)) weakUsed.set(f, new Set()); weakUsed.get(f).add(v); return weakUsed.get(f).size <= (REVIEWED_WEAK[f] || 0); };
  // a container only ever obtained from (or stored in) a reviewed identity cache
  const partOfWeak = (d) => { const v = decl1(d); if (!v || !ts.isVariableDeclaration(v) || !v.initializer) return false; let hit = false; const w = (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "set" && n.arguments.some((a) => ts.isIdentifier(strip(a)) && E.decl(strip(a)) === v)) { const x = strip(n.expression.expression); if (ts.isIdentifier(x)) { const q = E.decl(x); if (q && (weakOk(q) || partOfWeakGet(q))) hit = true; } } ts.forEachChild(n, w); }; const F = E.fnOf(v); w(F); return hit || partOfWeakGet(v); };
  const partOfWeakGet = (d) => { const v = decl1(d); if (!v || !ts.isVariableDeclaration(v) || !v.initializer) return false; let hit = false; const w = (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "get") { const x = strip(n.expression.expression); if (ts.isIdentifier(x)) { const q = E.decl(x); if (q && q !== v && (weakOk(q) || partOfWeakGet(q))) hit = true; } } ts.forEachChild(n, w); }; w(v.initializer); return hit; };
  for (const f of E.fns) {
    const judge = (node, what, target, o) => {
      nW++;
      const tx = target.getText().replace(/\s+/g, " ").slice(0, 50);
      if (o.k === "module") {
        const d = decl1(o.decl);
        const ok = !o.global && (weakOk(d) || (o.variable && counterOnly(d)) );
        R.obligation("writes to module-level storage are identity caches or identity numbers", ok, loc(node), `${name(f)} ${what} ${tx}, which is shared by all calls`, `${where(f)} module ${tx} ${what}`);
      } else if (o.k === "captured") {
        if (!E.survives(f, o.fn)) { R.obligation("writes to an enclosing activation happen during it", true, loc(node)); return; }
        if (perCall(o.fn)) { R.obligation("retained activations belong to a single call", true, loc(node)); return; }
        const d = decl1(o.decl); const ok = weakOk(d) || partOfWeak(d) || (o.variable && finallyFlag(d, o.fn));
        R.obligation("parsers keep no state between calls", ok, loc(node), `${name(f)} ${what} ${tx}, which outlives the call and is shared by later calls of the same parser`, `${where(f)} captured ${tx} ${what}`);
      } else if (o.k === "unknown") {
        R.obligation("every write has a known owner", false, loc(node), `${name(f)} ${what} ${tx}: the written object is not owned by this function`, `${where(f)} unknown ${tx} ${what}`);
      } else if (o.k === "this") {
        const m = f; const lit = E.classOf(m); const cls = lit && ts.isClassLike(lit);
        R.obligation("receivers are only written by methods of classes", cls, loc(node), `${name(f)} ${what} ${tx} of the parser it belongs to`, `${where(f)} this ${tx} ${what}`);
      } else R.obligation("writes through parameters are judged at the entry points", true, loc(node));
    };
    for (const w of E.writes(f)) for (const o of w.owners) if (o.k !== "fresh") judge(w.node, w.what, w.target, o);
    // instances of stateful classes held across calls
    const v = (n) => { if (n !== f && ts.isFunctionLike(n)) return; if (ts.isCallExpression(n)) { const x = strip(n.expression); if (ts.isPropertyAccessExpression(x) && selfWriters.has(x.name.text)) { const d = E.decl(x.name); if (d && E.own(d)) for (const o of E.owners(x.expression)) if ((o.k === "captured" || o.k === "module") && !o.global) judge(n, "." + x.name.text + "() on", x.expression, { ...o, variable: false }); } } ts.forEachChild(n, v); }; v(f.body);
  }
  // -- entry points: parameters belong to the caller
  let entries = 0;
  const decorators = { "packages/core/src/extension.ts": ["defineTraits"], "packages/core/src/modifiers.ts": ["fluent"] };
  for (const f of E.fns) {
    const m = isMethod(f), x = pub.has(f); const host = E.fnOf(f); const surv = !m && !x && host && !ts.isSourceFile(host) && E.survives(f, host);
    if (!m && !x && !surv) continue; entries++;
    if (x && (decorators[fileOf(f)] || []).includes(name(f))) continue;
    for (const w of E.summary(f)) {
      if (w.owner.k !== "param" || w.owner.fn !== f) continue;
      const p = w.owner.decl; const t = p && ts.isParameter(p) ? p : null;
      if (t && t.initializer) continue; // an accumulator the function creates itself by default
      if (t && !w.owner.deep && mutableParam(t, x)) continue;
      R.obligation("entry points do not modify their arguments", false, loc(w.node), `${name(f)} (${loc(f)}) ${w.what} ${w.target.getText().replace(/\s+/g, " ").slice(0, 50)}, which belongs to its caller`, `${where(f)} arg ${w.owner.i} ${w.what}`);
    }
    R.obligation("entry points do not modify their arguments", true, loc(f));
  }
  // internal helpers may fill an accumulator they are handed; a public function or a method may not
  function mutableParam(p, isPub) { if (isPub) return false; const tn = p.type && p.type.getText(); return !!tn && /^(Set|Map|WeakSet|WeakMap)</.test(tn) && !!E.fnOf(p.parent); }
  // -- sticky/global regular expressions carry state between calls
  for (const sf of P.sources) { const w = (n) => {
    if (ts.isRegularExpressionLiteral(n) && /\/[a-z]*[gy][a-z]*$/.test(n.text)) {
      let p = n.parent; while (ts.isParenthesizedExpression(p) || ts.isAsExpression(p)) p = p.parent;
      if (ts.isVariableDeclaration(p) && ts.isIdentifier(p.name)) { const F = E.fnOf(p); for (const r of refs(p)) { const q = r.parent; const used = ts.isPropertyAccessExpression(q) && q.expression === r && ["test", "exec"].includes(q.name.text); if (!used) continue; const g = E.fnOf(r); const shared = ts.isSourceFile(F) || (g !== F && E.survives(g, F) && !perCall(F)); R.obligation("no shared stateful regular expression", !shared, loc(r), `${p.name.text} keeps lastIndex between calls`, fileOf(r) + " regex " + p.name.text); } }
    } ts.forEachChild(n, w); }; w(sf); }
  R.analysed(E.fns.length, "functions analysed"); R.analysed(nW, "externally visible writes attributed"); R.atLeast("entry points", entries, 300);
  const keep = E.fns.filter((f) => isMethod(f) && ["parse", "complete", "suggest", "getDocFragments"].includes(name(f))).length; R.atLeast("parse/complete/suggest/getDocFragments implementations", keep, 60);
};
