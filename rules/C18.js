"use strict";
// C18: promises are never dropped.  Typed dataflow over the checked program.
const { ts } = require("../lib/program.js"); const { strip: strip0 } = require("../lib/effects.js"); const S = ts.SyntaxKind;
exports.explanation = "Type-directed analysis: every expression whose type may be a promise is followed to its use; statements that discard it, conditions that test it, void callbacks that ignore it, values that are computed and never used, and returns of it out of a try block whose handler could then not see its rejection are violations.";
const strip = (e) => { while (e && (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isTypeAssertionExpression(e) || ts.isSatisfiesExpression(e))) e = e.expression; return e; };
exports.run = (P, R) => {
  const c = P.checker;
  const loc = (n) => { const sf = n.getSourceFile(); return sf.fileName.slice(P.REPO.length + 1) + ":" + (sf.getLineAndCharacterOfPosition(n.getStart()).line + 1); };
  const rel = (n) => n.getSourceFile().fileName.slice(P.REPO.length + 1);
  const fnOf = (n) => { let p = n.parent; while (p && !ts.isFunctionLike(p) && !ts.isSourceFile(p)) p = p.parent; return p; };
  const enclosing = (n) => { let f = fnOf(n); while (f && !ts.isSourceFile(f)) { if (f.name) return f.name.getText(); if (f.parent && f.parent.name) return f.parent.name.getText(); f = fnOf(f); } return "(module)"; };
  const cache = new Map();
  const thenable = (t, depth = 0) => { // may a value of this type be a promise?
    if (!t || depth > 4) return false; if (cache.has(t)) return cache.get(t); cache.set(t, false);
    let r = false;
    if (t.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown | ts.TypeFlags.Never)) r = false;
    else if (t.isUnion()) r = t.types.some((x) => thenable(x, depth + 1));
    else if (t.isIntersection()) r = t.types.some((x) => thenable(x, depth + 1));
    else if (t.flags & ts.TypeFlags.Conditional) { const k = c.getBaseConstraintOfType(t); r = (k && k !== t && thenable(k, depth + 1)) || [t.root && t.root.node && t.root.node.trueType, t.root && t.root.node && t.root.node.falseType].some((n) => n && thenable(c.getTypeFromTypeNode(n), depth + 1)); }
    else if (t.flags & ts.TypeFlags.TypeParameter) { const k = c.getBaseConstraintOfType(t); r = !!k && k !== t && thenable(k, depth + 1); }
    else { const s = t.symbol && t.symbol.name; r = s === "Promise" || s === "PromiseLike" || (!!t.getProperty && !!t.getProperty("then") && c.getTypeOfSymbolAtLocation(t.getProperty("then"), P.sources[0]).getCallSignatures().length > 0); }
    cache.set(t, r); return r;
  };
  const onlyPromise = (t) => !t.isUnion() && thenable(t); // certainly a promise
  const typ = (e) => c.getTypeAtLocation(e);
  const rejectHandled = (e) => { e = strip(e); if (!ts.isCallExpression(e) || !ts.isPropertyAccessExpression(e.expression)) return false; const nm = e.expression.name.text; if (nm === "catch" && e.arguments.length) return true; if (nm === "then" && e.arguments.length > 1) return true; if (nm === "finally") return rejectHandled(e.expression.expression); return false; };
  // promises held by e itself or by the elements of an array
  const elems = (t) => { const n = c.getIndexTypeOfType(t, ts.IndexKind.Number); return n && (c.isArrayType(t) || c.isTupleType(t)) && thenable(n) && !(n.flags & ts.TypeFlags.Any); };
  let calls = 0, tries = 0;
  for (const sf of P.sources) {
    const w = (n) => {
      if (ts.isExpressionStatement(n)) {
        const e = strip(n.expression);
        const check = (x) => { x = strip(x); if (ts.isConditionalExpression(x)) { check(x.whenTrue); check(x.whenFalse); return; } if (ts.isBinaryExpression(x) && [S.AmpersandAmpersandToken, S.BarBarToken, S.QuestionQuestionToken, S.CommaToken].includes(x.operatorToken.kind)) { check(x.right); return; }
          if (ts.isVoidExpression(x)) { const y = strip(x.expression); if (ts.isCallExpression(y) && thenable(typ(y))) { calls++; R.obligation("a promise is not discarded", rejectHandled(y), loc(y), `${enclosing(y)} discards the promise of ${y.getText().replace(/\s+/g, " ").slice(0, 60)} and its rejection`, `${rel(y)} ${enclosing(y)} void ${y.getText().slice(0, 40)}`); } return; }
          if (ts.isAwaitExpression(x) || ts.isYieldExpression(x) || ts.isBinaryExpression(x) || ts.isDeleteExpression(x)) return;
          const t = typ(x); if (thenable(t) || elems(t)) { calls++; R.obligation("a promise is not discarded", rejectHandled(x), loc(x), `${enclosing(x)} does not wait for ${x.getText().replace(/\s+/g, " ").slice(0, 60)}`, `${rel(x)} ${enclosing(x)} floating ${x.getText().replace(/\s+/g, " ").slice(0, 40)}`); } };
        // a rejection at module level ends the program by itself
        if (!ts.isSourceFile(fnOf(n) || sf)) check(e);
      }
      const cond = (x) => { x = strip(x); const k = ts.isBinaryExpression(x) && x.operatorToken.kind; if (k === S.AmpersandAmpersandToken || k === S.BarBarToken) { cond(x.left); cond(x.right); return; } if (ts.isPrefixUnaryExpression(x) && x.operator === S.ExclamationToken) return cond(x.operand); if (ts.isAwaitExpression(x)) return; const t = typ(x); const mixed = t.isUnion() && t.types.some((y) => onlyPromise(y)) && t.types.some((y) => y.flags & ts.TypeFlags.BooleanLike); if ((onlyPromise(t) || mixed) && !(t.flags & (ts.TypeFlags.TypeParameter | ts.TypeFlags.Conditional))) R.obligation("a promise is not used as a condition", false, loc(x), `${enclosing(x)} tests the promise ${x.getText().slice(0, 60)} instead of its value`, `${rel(x)} ${enclosing(x)} cond ${x.getText().slice(0, 40)}`); };
      if (ts.isIfStatement(n) || ts.isWhileStatement(n) || ts.isDoStatement(n)) cond(n.expression); if (ts.isConditionalExpression(n)) cond(n.condition); if (ts.isForStatement(n) && n.condition) cond(n.condition);
      // a spread, comparison or property access of a certain promise
      if (ts.isSpreadAssignment(n) || ts.isSpreadElement(n)) { const t = typ(n.expression); R.obligation("a promise is not spread", !onlyPromise(t) || t.flags & ts.TypeFlags.TypeParameter, loc(n), `${enclosing(n)} spreads a promise`, `${rel(n)} ${enclosing(n)} spread`); }
      if (ts.isCallExpression(n)) {
        // async callbacks given to functions that ignore their result
        const sig = c.getResolvedSignature(n); const x = strip(n.expression);
        n.arguments.forEach((a, i) => { const f = strip(a); if (!ts.isFunctionLike(f) || !sig) return; const at = typ(f).getCallSignatures()[0]; if (!at || !thenable(c.getReturnTypeOfSignature(at))) return; const p = sig.parameters[i]; if (!p) return; const pt = c.getTypeOfSymbolAtLocation(p, n).getCallSignatures ? c.getNonNullableType(c.getTypeOfSymbolAtLocation(p, n)).getCallSignatures()[0] : null; if (!pt) return; const rt = c.getReturnTypeOfSignature(pt); const bad = rt.flags & ts.TypeFlags.Void || (ts.isPropertyAccessExpression(x) && ["forEach", "filter", "some", "every", "find", "findIndex", "sort", "toSorted", "findLast"].includes(x.name.text) && (c.isArrayType(typ(x.expression)) || c.isTupleType(typ(x.expression)))); calls++; R.obligation("asynchronous callbacks are awaited by what calls them", !bad, loc(a), `${enclosing(n)} passes an asynchronous callback to ${x.getText().slice(0, 40)}, which ignores its promise`, `${rel(n)} ${enclosing(n)} callback ${x.getText().slice(0, 40)}`); });
      }
      if (ts.isReturnStatement(n) && n.expression) {
        const f = fnOf(n); const isAsync = f && f.modifiers && f.modifiers.some((m) => m.kind === S.AsyncKeyword);
        // innermost enclosing try whose handler or finally would run too early
        let p = n, tr = null; while (p && p !== f) { if (ts.isTryStatement(p.parent) && (p.parent.tryBlock === p || (p.parent.catchClause === p && p.parent.finallyBlock))) { tr = p.parent; break; } p = p.parent; }
        if (isAsync && tr) { const vals = []; const v = (x) => { x = strip(x); if (ts.isConditionalExpression(x)) { v(x.whenTrue); v(x.whenFalse); } else if (ts.isBinaryExpression(x) && [S.QuestionQuestionToken, S.BarBarToken, S.AmpersandAmpersandToken].includes(x.operatorToken.kind)) { v(x.left); v(x.right); } else vals.push(x); }; v(n.expression); tries++;
          for (const x of vals) R.obligation("handlers see asynchronous failures", ts.isAwaitExpression(x) || !thenable(typ(x)), loc(x), `${enclosing(n)} returns ${x.getText().replace(/\s+/g, " ").slice(0, 60)} out of a try block without waiting for it, so its handler or cleanup runs too early`, `${rel(n)} ${enclosing(n)} return ${x.getText().replace(/\s+/g, " ").slice(0, 40)}`); }
      }
      // a local variable holding a promise that nothing reads
      if (ts.isVariableDeclaration(n) && ts.isIdentifier(n.name) && n.initializer && !ts.isFunctionLike(strip(n.initializer))) {
        const t = typ(n.name); const init = strip(n.initializer);
        if ((thenable(t) || elems(t)) && !ts.isAwaitExpression(init) && fnOf(n) && !ts.isSourceFile(fnOf(n))) { const d = c.getSymbolAtLocation(n.name); let used = 0; const u = (m) => { if (ts.isIdentifier(m) && m !== n.name && m.text === n.name.text && (c.getSymbolAtLocation(m) === d || (ts.isShorthandPropertyAssignment(m.parent) && c.getShorthandAssignmentValueSymbol(m.parent) === d)) && !(ts.isExpressionStatement(m.parent)) && !(ts.isVoidExpression(m.parent)) && !(ts.isBinaryExpression(m.parent) && m.parent.left === m && m.parent.operatorToken.kind === S.EqualsToken)) used++; ts.forEachChild(m, u); }; u(fnOf(n)); calls++; R.obligation("a stored promise is used", used > 0, loc(n), `${enclosing(n)} stores a promise in ${n.name.text} and never waits for it`, `${rel(n)} ${enclosing(n)} unused ${n.name.text}`); }
      }
      ts.forEachChild(n, w);
    };
    w(sf);
  }
  // ---- a possibly asynchronous value is told apart before it is used as a plain value
  R.analysed(calls, "promise uses"); R.analysed(tries, "returns inside try blocks of async functions"); R.atLeast("promise uses", calls, 100);
};
