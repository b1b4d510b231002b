"use strict";
// C20: names taken from input are looked up among own keys only.
const { ts } = require("../lib/program.js"); const { Effects, strip } = require("../lib/effects.js"); const S = ts.SyntaxKind;
exports.explanation = "Every computed property read, membership test and computed call whose key may be an arbitrary string is found by type; the provenance of its key (own-key enumeration, parser fields, constants, application configuration, or input) and of its object (null prototype or not) and dominating own-key guards are computed; a lookup of a non-enumerated key in an object with a prototype and no guard is a violation.";
exports.run = (P, R) => {
  const E = new Effects(P); const c = P.checker;
  const loc = (n) => { const sf = n.getSourceFile(); return sf.fileName.slice(P.REPO.length + 1) + ":" + (sf.getLineAndCharacterOfPosition(n.getStart()).line + 1); };
  const rel = (n) => n.getSourceFile().fileName.slice(P.REPO.length + 1);
  const enclosing = (n) => { let f = E.fnOf(n); while (f && !ts.isSourceFile(f)) { if (f.name) return f.name.getText(); if (f.parent && f.parent.name) return f.parent.name.getText(); f = E.fnOf(f); } return "(module)"; };
  const isAssign = (k) => k >= S.FirstAssignment && k <= S.LastAssignment;
  // may the key be an arbitrary string?
  const stringy = (t) => { if (t.isUnion()) return t.types.some(stringy); if (t.flags & ts.TypeFlags.StringLiteral) return false; if (t.flags & (ts.TypeFlags.TypeParameter | ts.TypeFlags.Index | ts.TypeFlags.Conditional)) { const k = c.getBaseConstraintOfType(t); return !!(k && k !== t && k.flags & ts.TypeFlags.String) && !(t.flags & ts.TypeFlags.Index); } return !!(t.flags & (ts.TypeFlags.String | ts.TypeFlags.TemplateLiteral | ts.TypeFlags.Any | ts.TypeFlags.Unknown)); };
  const indexed = (t) => { t = c.getNonNullableType(t); if (t.flags & ts.TypeFlags.StringLike) return true; if (t.isUnion()) return t.types.every(indexed); return c.isArrayType(t) || c.isTupleType(t) || /^(Uint8Array|Buffer|NodeListOf|RegExpMatchArray|RegExpExecArray)/.test(t.symbol ? t.symbol.name : ""); };
  let callIndex = null;
  const callsOf = (f) => { if (!callIndex) { callIndex = new Map(); for (const sf of P.sources) { const w = (n) => { if (ts.isCallExpression(n)) for (const g of E.callees(n)) { if (!callIndex.has(g)) callIndex.set(g, []); callIndex.get(g).push(n); } ts.forEachChild(n, w); }; w(sf); } } return callIndex.get(f) || []; };
  const isMethod = (f) => ts.isMethodDeclaration(f) || (f.parent && ts.isPropertyAssignment(f.parent));
  const ENUM = new Set(["keys", "entries", "getOwnPropertyNames", "ownKeys", "getOwnPropertySymbols"]);
  const enumCall = (e) => { e = strip(e); return ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && ts.isIdentifier(e.expression.expression) && /^(Object|Reflect)$/.test(e.expression.expression.text) && ENUM.has(e.expression.name.text); };
  // is a collection made of enumerated keys / fields?  Returns true if its elements (or their first components) are safe keys
  const safeColl = (e, seen) => {
    e = strip(e); if (!e || seen.has(e)) return true; seen = new Set(seen).add(e);
    if (enumCall(e)) return true;
    // (field, parser) pairs: the field names of the application's own parsers
    const t = c.getTypeAtLocation(e); const el = elemType(t);
    if (el && pairType(el)) return true;
    if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression)) { const nm = e.expression.name.text; if (["filter", "slice", "sort", "toSorted", "reverse", "toReversed", "values", "keys", "concat"].includes(nm)) { const rt = c.getTypeAtLocation(e.expression.expression); if (nm === "keys" && /^(ReadonlyMap|Map|Set|ReadonlySet)$/.test(rt.symbol ? rt.symbol.name : "")) return safeColl(e.expression.expression, seen); return safeColl(e.expression.expression, seen); } if (nm === "map") { const f = strip(e.arguments[0]); if (f && ts.isFunctionLike(f)) return rets(f).every((r) => firstSafe(r, seen)); } if (nm === "from" && e.arguments[0]) return e.arguments.length > 1 && ts.isFunctionLike(strip(e.arguments[1])) && !ts.isBlock(strip(e.arguments[1]).body) ? safeKey(strip(e.arguments[1]).body, seen) : safeColl(e.arguments[0], seen); }
    if (ts.isCallExpression(e)) { const gs = E.callees(e); if (gs.length) return gs.every((g) => rets(g).every((r) => safeColl(r, seen))); }
    if (ts.isNewExpression(e)) { if (!e.arguments || !e.arguments.length) return true; return e.arguments.every((a) => safeColl(a, seen)); }
    if (ts.isCallExpression(e) && /^Promise\.(all|allSettled)$/.test(e.expression.getText())) return safeColl(e.arguments[0], seen);
    if (ts.isArrayLiteralExpression(e)) return e.elements.every((x) => ts.isSpreadElement(x) ? safeColl(x.expression, seen) : safeKey(x, seen));
    if (ts.isConditionalExpression(e)) return safeColl(e.whenTrue, seen) && safeColl(e.whenFalse, seen);
    if (ts.isBinaryExpression(e)) return safeColl(e.left, seen) && safeColl(e.right, seen);
    if (ts.isIdentifier(e)) { const d = E.decl(e); if (!d) return e.text === "undefined"; if (ts.isVariableDeclaration(d) && d.initializer) return safeColl(d.initializer, seen) && added(d, seen); if (ts.isParameter(d)) return paramSafe(d, seen, safeColl); }
    return false;
  };
  // an element of a list of keys, or of (key, value) pairs
  const firstSafe = (r, seen) => { r = strip(r); return ts.isArrayLiteralExpression(r) && r.elements.length === 2 ? safeKey(r.elements[0], seen) : safeKey(r, seen); };
  // what is added to a collection later on
  const added = (d, seen) => E.refsOf(d, d.getSourceFile()).every((r) => { const p = r.parent; if (ts.isPropertyAccessExpression(p) && p.expression === r && ts.isCallExpression(p.parent) && p.parent.expression === p && ["push", "add", "unshift"].includes(p.name.text)) return p.parent.arguments.every((a) => ts.isSpreadElement(a) ? safeColl(a.expression, seen) : safeKey(a, seen)); if (ts.isPropertyAccessExpression(p) && p.expression === r && ts.isCallExpression(p.parent) && p.name.text === "set") return safeKey(p.parent.arguments[0], seen); return true; });
  const elemType = (t) => { t = c.getNonNullableType(t); const n = c.getIndexTypeOfType(t, ts.IndexKind.Number); if (n) return n; if (/^(Map|ReadonlyMap)$/.test(t.symbol ? t.symbol.name : "")) return null; return null; };
  const pairType = (t) => c.isTupleType(t) && (c.getTypeArguments(t) || []).length >= 2 && (c.getTypeArguments(t)).some((x) => isParserType(x));
  const isParserType = (t) => { t = c.getNonNullableType(t); if (t.isUnion()) return t.types.some(isParserType); return !!(t.getProperty && t.getProperty("initialState")) || !!(t.getProperty && t.getProperty("dependencyMetadata")); };
  const rets = (g) => { const out = []; if (!ts.isBlock(g.body)) return [g.body]; const w = (n) => { if (n !== g && ts.isFunctionLike(n)) return; if (ts.isReturnStatement(n) && n.expression) out.push(n.expression); ts.forEachChild(n, w); }; w(g.body); return out; };
  const paramSafe = (p, seen, how) => {
    const f = p.parent; const i = f.parameters.indexOf(p);
    const it = E.iterationReceiver(f, i); if (it) return safeColl(it, seen);
    if (isMethod(f)) return false; const cs = callsOf(f);
    if (!cs.length) return false;
    return cs.every((k) => { const a = k.arguments[i]; if (!a) return true; return ts.isSpreadElement(a) ? safeColl(a.expression, seen) : how(a, seen); });
  };
  // a key that is one of an enumerated set, a constant, or a name chosen by the application
  const safeKey = (e, seen = new Set()) => {
    e = strip(e); if (!e || seen.has(e)) return true; seen = new Set(seen).add(e);
    if (!stringy(c.getTypeAtLocation(e))) return true;
    if (ts.isStringLiteralLike(e) || ts.isNumericLiteral(e)) return true;
    if (ts.isTemplateExpression(e)) return /[^a-zA-Z]|^$/.test(e.head.text) ? e.head.text !== "" && !"__proto__".startsWith(e.head.text) && !/^__(define|lookup)/.test(e.head.text) : e.templateSpans.every((s) => safeKey(s.expression, seen)) && e.templateSpans.every((s) => s.literal.text === "");
    if (ts.isConditionalExpression(e)) return safeKey(e.whenTrue, seen) && safeKey(e.whenFalse, seen);
    if (ts.isBinaryExpression(e)) { const k = e.operatorToken.kind; if (k === S.QuestionQuestionToken || k === S.BarBarToken || k === S.AmpersandAmpersandToken) return safeKey(e.left, seen) && safeKey(e.right, seen); return false; }
    if (ts.isCallExpression(e)) { const gs = E.callees(e); if (gs.length) return gs.every((g) => rets(g).every((r) => safeKey(r, seen))); if (ts.isPropertyAccessExpression(e.expression) && ["toLowerCase", "toUpperCase", "trim"].includes(e.expression.name.text)) return safeKey(e.expression.expression, seen); return false; }
    if (ts.isIdentifier(e)) {
      const d = E.decl(e); if (!d) return false;
      if (ts.isParameter(d)) { if (d.type && ts.isTypeOperatorNode(d.type) && d.type.operator === S.KeyOfKeyword && ts.isTypeReferenceNode(d.type.type)) return true; return paramSafe(d, seen, safeKey); }
      if (ts.isBindingElement(d)) { let top = d; while (ts.isBindingElement(top)) top = top.parent.parent; const idx = ts.isArrayBindingPattern(d.parent) ? d.parent.elements.indexOf(d) : -1; if (ts.isVariableDeclaration(top) && top.parent.parent && ts.isForOfStatement(top.parent.parent)) return safeColl(top.parent.parent.expression, seen) && idx >= 0; if (ts.isParameter(top) && idx >= 0) { const it = E.iterationReceiver(top.parent, top.parent.parameters.indexOf(top)); return !!it && safeColl(it, seen); } return false; }
      if (ts.isVariableDeclaration(d)) { const st = d.parent.parent; if (st && ts.isForInStatement(st)) return true; if (st && ts.isForOfStatement(st)) return safeColl(st.expression, seen); if (d.initializer) return safeKey(d.initializer, seen) && (E.assigned.get(d) || []).every((r) => safeKey(r, seen)); return (E.assigned.get(d) || []).length > 0 && E.assigned.get(d).every((r) => safeKey(r, seen)); }
      return false;
    }
    if (ts.isPropertyAccessExpression(e)) { // configuration chosen by the application when it built the parser
      let r = e; while (ts.isPropertyAccessExpression(r)) r = strip(r.expression); if (ts.isIdentifier(r)) { const d = E.decl(r); const p = d && (ts.isParameter(d) ? d : E.paramOfBinding(d)); if (p && p.parent && (ts.isFunctionDeclaration(p.parent)) && E.fnOf(e) !== p.parent && /options|config/i.test(r.text)) return true; } return false; }
    return false;
  };
  // does the object have a prototype with members?
  const nullProto = (o, use) => { o = strip(o); if (ts.isCallExpression(o) && o.expression.kind === S.ImportKeyword) return true; if (ts.isCallExpression(o) && /^Object\.create$/.test(o.expression.getText()) && strip(o.arguments[0]).kind === S.NullKeyword) return true; if (ts.isCallExpression(o) && /^Object\.(assign|freeze|seal)$/.test(o.expression.getText())) return nullProto(o.arguments[0], use); if (ts.isObjectLiteralExpression(o)) return o.properties.some((p) => ts.isPropertyAssignment(p) && p.name.getText().replace(/["']/g, "") === "__proto__" && strip(p.initializer).kind === S.NullKeyword); if (ts.isCallExpression(o)) { const gs = E.callees(o); return gs.length > 0 && gs.every((g) => { const r = rets(g); return r.length > 0 && r.every((x) => nullProto(x, use)); }); }
    if (ts.isAwaitExpression(o)) { const t = strip(o.expression); if (ts.isCallExpression(t) && t.expression.kind === S.ImportKeyword) return true; return nullProto(o.expression, use); }
    if (ts.isIdentifier(o)) { const d = E.decl(o); if (!d) return false; const as = E.assigned.get(d) || []; if (ts.isVariableDeclaration(d) && d.initializer) return nullProto(d.initializer, use) && as.every((r) => nullProto(r, use)); if (ts.isParameter(d)) return as.length > 0 && as.every((r) => nullProto(r, use) && straight(r, d.parent, use)); } return false; };
  // the reassignment is an unconditional statement of the function body before the use
  const straight = (r, f, use) => { let st = r; while (st.parent && !(ts.isBlock(st.parent) && st.parent === f.body)) st = st.parent; return !!st.parent && ts.isExpressionStatement(st) && r.pos < use.pos; };
  const constOf = (e) => { e = strip(e); for (let i = 0; i < 4 && ts.isIdentifier(e); i++) { const d = E.decl(e); if (d && ts.isVariableDeclaration(d) && d.initializer && d.parent.flags & ts.NodeFlags.Const) e = strip(d.initializer); else break; } return e; };
  const same = (a, b) => same0(a, b) || same0(constOf(a), constOf(b));
  const same0 = (a, b) => { a = strip(a); b = strip(b); if (a.kind !== b.kind) return false; if (ts.isIdentifier(a)) return E.decl(a) === E.decl(b) && !!E.decl(a); if (ts.isPropertyAccessExpression(a)) return a.name.text === b.name.text && same(a.expression, b.expression); if (a.kind === S.ThisKeyword) return true; if (ts.isCallExpression(a)) return a.getText() === b.getText(); return false; };
  // own-key guards that must have held
  const ownTest = (e, obj, key) => { // is e true only if key is an own key of obj?
    e = constOf(e); if (ts.isPrefixUnaryExpression(e) && e.operator === S.ExclamationToken) return ownFalse(e.operand, obj, key);
    if (ts.isBinaryExpression(e) && (e.operatorToken.kind === S.EqualsEqualsEqualsToken || e.operatorToken.kind === S.EqualsEqualsToken)) { if (strip(e.right).kind === S.TrueKeyword) return ownTest(e.left, obj, key); if (strip(e.right).kind === S.FalseKeyword) return ownFalse(e.left, obj, key); }
    if (ts.isBinaryExpression(e) && e.operatorToken.kind === S.AmpersandAmpersandToken) return ownTest(e.left, obj, key) || ownTest(e.right, obj, key);
    if (ts.isCallExpression(e)) { const t = e.expression.getText(); if (/(^|\.)hasOwn$/.test(t) && e.arguments.length === 2) return same(e.arguments[0], obj) && same(e.arguments[1], key); if (/hasOwnProperty(\.call)?$/.test(t)) return /\.call$/.test(t) ? same(e.arguments[0], obj) && same(e.arguments[1], key) : same(e.expression.expression, obj) && same(e.arguments[0], key); if (/\.(includes|has)$/.test(t)) { const coll = e.expression.expression; if (same(e.arguments[0], key) && safeColl(coll, new Set())) return true; }
      for (const g of E.callees(e)) { const rs = rets(g); if (rs.length === 1 && g.parameters.length >= 1) { const sub = (x, want) => { x = strip(x); if (!ts.isIdentifier(x)) return false; const d = E.decl(x); const i = g.parameters.indexOf(d); return i >= 0 && e.arguments[i] && same(e.arguments[i], want); }; const r = strip(rs[0]); if (ts.isCallExpression(r) && /(^|\.)hasOwn$/.test(r.expression.getText()) && (sub(r.arguments[0], obj) || same(r.arguments[0], obj)) && sub(r.arguments[1], key)) return true; } } }
    return false; };
  const ownFalse = (e, obj, key) => { e = constOf(e); if (ts.isBinaryExpression(e) && e.operatorToken.kind === S.EqualsEqualsEqualsToken && strip(e.right).kind === S.FalseKeyword) return ownTest(e.left, obj, key); if (ts.isPrefixUnaryExpression(e) && e.operator === S.ExclamationToken) return ownTest(e.operand, obj, key); if (ts.isBinaryExpression(e) && e.operatorToken.kind === S.BarBarToken) return ownFalse(e.left, obj, key) || ownFalse(e.right, obj, key); return false; }; // e false => own
  const leaves = (st) => { if (ts.isReturnStatement(st) || ts.isThrowStatement(st) || ts.isContinueStatement(st) || ts.isBreakStatement(st)) return true; if (ts.isBlock(st)) return st.statements.length > 0 && leaves(st.statements[st.statements.length - 1]); if (ts.isIfStatement(st)) return !!st.elseStatement && leaves(st.thenStatement) && leaves(st.elseStatement); return false; };
  const guarded = (n, obj, key) => {
    for (let q = n; q && q.parent && !ts.isSourceFile(q.parent); q = q.parent) { const p = q.parent;
      if (ts.isConditionalExpression(p)) { if (p.whenTrue === q && ownTest(p.condition, obj, key)) return true; if (p.whenFalse === q && ownFalse(p.condition, obj, key)) return true; }
      if (ts.isIfStatement(p)) { if (p.thenStatement === q && ownTest(p.expression, obj, key)) return true; if (p.elseStatement === q && ownFalse(p.expression, obj, key)) return true; }
      if (ts.isWhileStatement(p) && p.statement === q && ownTest(p.expression, obj, key)) return true;
      if (ts.isBinaryExpression(p) && p.right === q && (p.operatorToken.kind === S.AmpersandAmpersandToken && ownTest(p.left, obj, key) || p.operatorToken.kind === S.BarBarToken && ownFalse(p.left, obj, key))) return true;
      if (ts.isBlock(p) || ts.isCaseClause(p) || ts.isSourceFile(p)) { const i = p.statements.indexOf(q); for (const s of p.statements.slice(0, Math.max(i, 0))) if (ts.isIfStatement(s) && leaves(s.thenStatement) && ownFalse(s.expression, obj, key)) return true; } }
    return false; };
  // in a helper, the guard may be at its call sites
  const guardedAtCallers = (n, obj, key, depth = 0) => {
    obj = strip(obj); key = strip(key); if (depth > 2 || !ts.isIdentifier(key)) return false;
    const dk = E.decl(key); if (!dk || !ts.isParameter(dk)) return false; const f = dk.parent; if (isMethod(f) || E.fnOf(n) !== f) return false;
    const dobj = ts.isIdentifier(obj) ? E.decl(obj) : null; const io = dobj && ts.isParameter(dobj) && dobj.parent === f ? f.parameters.indexOf(dobj) : -1; const ik = f.parameters.indexOf(dk);
    const cs = callsOf(f); if (!cs.length) return false;
    return cs.every((k) => { const a = k.arguments[ik], o = io >= 0 ? k.arguments[io] : obj; if (!a || !o) return true; return safeKey(a) || (io >= 0 && nullProto(o, k)) || guarded(k, o, a) || guardedAtCallers(k, o, a, depth + 1); });
  };
  let n = 0;
  for (const sf of P.sources) { const w = (x) => {
    if (ts.isTypeNode(x)) return;
    let obj, key, what;
    if (ts.isElementAccessExpression(x)) { const p = x.parent; const wr = ts.isBinaryExpression(p) && p.left === x && p.operatorToken.kind === S.EqualsToken; if (!wr && !ts.isDeleteExpression(p)) { obj = x.expression; key = x.argumentExpression; what = "reads"; } }
    else if (ts.isBinaryExpression(x) && x.operatorToken.kind === S.InKeyword && !ts.isPrivateIdentifier(x.left)) { obj = x.right; key = x.left; what = "tests"; }
    else if (ts.isCallExpression(x) && /^Reflect\.(get|has)$/.test(x.expression.getText()) && x.arguments.length >= 2 && !(E.fnOf(x).parent && E.fnOf(x).parent.parent && ts.isNewExpression(E.fnOf(x).parent.parent) || ts.isMethodDeclaration(E.fnOf(x)))) { obj = x.arguments[0]; key = x.arguments[1]; what = "reads"; }
    if (obj && stringy(c.getTypeAtLocation(key)) && !indexed(c.getTypeAtLocation(obj))) {
      n++;
      // environment variables are a host dictionary
      const envRecord = /(^|[.?])env$/.test(strip(obj).getText().replace(/\?/g, ""));
      const ok = envRecord || nullProto(obj, x) || guarded(x, obj, key) || safeKey(key) || guardedAtCallers(x, obj, key);
      R.obligation("names from input are looked up among own keys only", ok, loc(x), `${enclosing(x)} ${what} ${x.getText().replace(/\s+/g, " ").slice(0, 60)}: the key may name a member of Object.prototype`, `${rel(x)} ${enclosing(x)} ${x.getText().replace(/\s+/g, " ").slice(0, 60)}`);
    }
    ts.forEachChild(x, w); }; w(sf); }
  R.atLeast("lookups with computed keys", n, 60);
};
