"use strict";
// Conditions known to hold at a node of a function (dominating branches).
const { ts } = require("./program.js"); const { strip } = require("./effects.js"); const S = ts.SyntaxKind;
// does control never continue past the statement?
function leaves(st) {
  if (ts.isReturnStatement(st) || ts.isThrowStatement(st) || ts.isContinueStatement(st) || ts.isBreakStatement(st)) return true;
  if (ts.isBlock(st)) return st.statements.some(leaves);
  if (ts.isIfStatement(st)) return !!st.elseStatement && leaves(st.thenStatement) && leaves(st.elseStatement);
  if (ts.isTryStatement(st)) return leaves(st.tryBlock) && (!st.catchClause || leaves(st.catchClause.block)) || !!st.finallyBlock && leaves(st.finallyBlock);
  if (ts.isExpressionStatement(st)) { return false; }
  return false;
}
const push = (out, e, truth) => { e = strip(e);
  if (ts.isPrefixUnaryExpression(e) && e.operator === S.ExclamationToken) return push(out, e.operand, !truth);
  if (ts.isBinaryExpression(e)) { const k = e.operatorToken.kind; if (k === S.AmpersandAmpersandToken && truth || k === S.BarBarToken && !truth) { push(out, e.left, truth); push(out, e.right, truth); return; } }
  out.push([e, truth]); };
// atomic conditions [expr, truth] that hold whenever n is evaluated
function known(n, E, top) {
  const out = [];
  for (let q = n; q && q.parent && q !== top && !(ts.isFunctionLike(q) && q !== n && q === top) ; q = q.parent) {
    const p = q.parent; if (ts.isSourceFile(p)) break; if (ts.isFunctionLike(q) && q !== n) { if (!inlineCallback(q)) break; }
    if (ts.isConditionalExpression(p)) { if (p.whenTrue === q) push(out, p.condition, true); else if (p.whenFalse === q) push(out, p.condition, false); }
    else if (ts.isIfStatement(p)) { if (p.thenStatement === q) push(out, p.expression, true); else if (p.elseStatement === q) push(out, p.expression, false); }
    else if ((ts.isWhileStatement(p) || ts.isForStatement(p)) && p.statement === q) { const c = ts.isForStatement(p) ? p.condition : p.expression; if (c) push(out, c, true); }
    else if (ts.isBinaryExpression(p) && p.right === q) { if (p.operatorToken.kind === S.AmpersandAmpersandToken) push(out, p.left, true); else if (p.operatorToken.kind === S.BarBarToken) push(out, p.left, false); }
    else if (ts.isBlock(p) || ts.isCaseClause(p) || ts.isDefaultClause(p)) { const i = p.statements.indexOf(q); for (const s of p.statements.slice(0, Math.max(i, 0))) if (ts.isIfStatement(s)) { if (leaves(s.thenStatement)) push(out, s.expression, false); else if (s.elseStatement && leaves(s.elseStatement)) push(out, s.expression, true); } }
    else if (ts.isCaseClause(p) && ts.isSwitchStatement(p.parent.parent)) { /* the case label */ }
  }
  // constants holding conditions
  const res = []; const seen = new Set();
  const expand = (e, t, d) => { const k = e.pos + ":" + t + e.getSourceFile().fileName; if (seen.has(k)) return; seen.add(k); res.push([e, t]); if (d > 3 || !ts.isIdentifier(e)) return; const dec = E.decl(e); if (dec && ts.isVariableDeclaration(dec) && dec.initializer && dec.parent.flags & ts.NodeFlags.Const) { const sub = []; push(sub, dec.initializer, t); for (const [x, y] of sub) expand(x, y, d + 1); } };
  for (const [e, t] of out) expand(e, t, 0);
  return res;
}
function inlineCallback(f) { const c = f.parent; return (ts.isArrowFunction(f) || ts.isFunctionExpression(f)) && (ts.isCallExpression(c) && c.arguments.includes(f) || ts.isParenthesizedExpression(c)); }
function same(E, a, b, d = 0) { a = strip(a); b = strip(b); if (a.kind !== b.kind) { return d < 2 ? viaConst(E, a, b, d) : false; } if (ts.isIdentifier(a)) { const x = E.decl(a); return !!x && x === E.decl(b) || viaConst(E, a, b, d); } if (ts.isPropertyAccessExpression(a)) return a.name.text === b.name.text && same(E, a.expression, b.expression, d); if (a.kind === S.ThisKeyword) return true; if (ts.isElementAccessExpression(a)) return same(E, a.expression, b.expression, d) && same(E, a.argumentExpression, b.argumentExpression, d); if (ts.isLiteralExpression(a)) return a.text === b.text; if (ts.isCallExpression(a)) return a.arguments.length === b.arguments.length && same(E, a.expression, b.expression, d) && a.arguments.every((x, i) => same(E, x, b.arguments[i], d)); return false; }
function viaConst(E, a, b, d) { const c = (e) => { if (!ts.isIdentifier(e)) return null; const x = E.decl(e); return x && ts.isVariableDeclaration(x) && x.initializer && x.parent.flags & ts.NodeFlags.Const ? strip(x.initializer) : null; }; if (d > 2) return false; const x = c(a), y = c(b); return !!(x && same(E, x, b, d + 1) || y && same(E, a, y, d + 1)); }
module.exports = { known, leaves, same, inlineCallback };
