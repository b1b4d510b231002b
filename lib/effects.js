"use strict";
// Ownership and effect analysis: which storage may a function write, and who owns it?
// An owner of an expression is one of
//   {k:"fresh"}                created by the function itself
//   {k:"param",fn,i,deep}      (reachable from) a parameter
//   {k:"captured",decl,fn}     a variable of an enclosing function
//   {k:"module",decl}          a module variable
//   {k:"this"} / {k:"unknown"}
const { ts } = require("./program.js");
const S = ts.SyntaxKind;
const MUT_ARRAY = new Set(["push", "pop", "shift", "unshift", "splice", "sort", "reverse", "fill", "copyWithin"]);
const MUT_COLL = new Set(["set", "add", "delete", "clear", "append"]);
function strip(e) { while (e && (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isTypeAssertionExpression(e) || ts.isSatisfiesExpression(e) || ts.isAwaitExpression(e))) e = e.expression; return e; }
const isAssign = (k) => k >= S.FirstAssignment && k <= S.LastAssignment;

class Effects {
  constructor(P) { this.P = P; this.checker = P.checker; this.sum = new Map(); this.originCache = new Map(); this.fns = []; this.assigned = new Map(); this.collect(); }
  sym(n) { let s = this.checker.getSymbolAtLocation(n); if (n.parent && ts.isShorthandPropertyAssignment(n.parent) && n.parent.name === n) s = this.checker.getShorthandAssignmentValueSymbol(n.parent); if (s && s.flags & ts.SymbolFlags.Alias) { try { s = this.checker.getAliasedSymbol(s); } catch { /* */ } } return s; }
  decl(n) { const s = this.sym(n); if (!s || !s.declarations) return null; return s.declarations.find((d) => ts.isFunctionLike(d) && d.body) || s.valueDeclaration || s.declarations[0]; }
  own(n) { return this.P.own.has(n.getSourceFile().fileName); }
  fnOf(n) { let p = n.parent; while (p && !ts.isFunctionLike(p) && !ts.isSourceFile(p)) p = p.parent; return p; }
  collect() {
    for (const sf of this.P.sources) { const w = (n) => { if (ts.isFunctionLike(n) && n.body) this.fns.push(n); if (ts.isBinaryExpression(n) && isAssign(n.operatorToken.kind)) { const l = strip(n.left); if (ts.isIdentifier(l)) { const d = this.decl(l); if (d) { if (!this.assigned.has(d)) this.assigned.set(d, []); this.assigned.get(d).push(n.right); } } } ts.forEachChild(n, w); }; w(sf); }
  }
  // function literals a call may reach (repository functions only)
  callees(call) {
    const e = strip(call.expression); const out = [];
    const add = (d) => { if (d && ts.isFunctionLike(d) && d.body && this.own(d)) out.push(d); };
    if (ts.isFunctionLike(e)) { add(e); return out; }
    const from = (x, depth) => { x = strip(x); if (!x || depth > 3) return; if (ts.isFunctionLike(x)) return add(x); if (ts.isConditionalExpression(x)) { from(x.whenTrue, depth + 1); from(x.whenFalse, depth + 1); return; } if (ts.isIdentifier(x)) { const d = this.decl(x); if (!d) return; if (ts.isFunctionLike(d)) add(d); else if (ts.isVariableDeclaration(d) && d.initializer) from(d.initializer, depth + 1); } if (ts.isPropertyAccessExpression(x)) { const d = this.decl(x.name); if (d && ts.isPropertyAssignment(d)) from(d.initializer, depth + 1); else if (d && ts.isFunctionLike(d)) add(d); } };
    from(e, 0);
    return out;
  }
  // owners of the object denoted by e
  owners(e, seen = new Set()) {
    e = strip(e); if (!e || seen.has(e)) return []; seen.add(e);
    const U = (xs) => { const m = new Map(); for (const x of xs) m.set(x.k + "|" + (x.decl ? x.decl.pos + x.decl.getSourceFile().fileName : "") + "|" + (x.i ?? "") + "|" + (x.deep ? 1 : 0), x); return [...m.values()]; };
    const rec = (x) => this.owners(x, seen);
    switch (e.kind) {
      case S.ObjectLiteralExpression: case S.ArrayLiteralExpression: case S.NewExpression: case S.ArrowFunction: case S.FunctionExpression: case S.RegularExpressionLiteral: case S.TemplateExpression: case S.StringLiteral: case S.NoSubstitutionTemplateLiteral: case S.NumericLiteral: case S.ClassExpression: return [{ k: "fresh", node: e }];
      case S.ThisKeyword: return [{ k: "this" }];
      case S.ConditionalExpression: return U([...rec(e.whenTrue), ...rec(e.whenFalse)]);
      case S.BinaryExpression: { const k = e.operatorToken.kind; if (k === S.BarBarToken || k === S.QuestionQuestionToken) return U([...rec(e.left), ...rec(e.right)]); if (k === S.AmpersandAmpersandToken || k === S.CommaToken) return rec(e.right); if (isAssign(k)) return rec(e.right); return []; }
      case S.PropertyAccessExpression: case S.ElementAccessExpression: {
        const base = rec(e.expression); // part of something
        const out = []; for (const b of base) { if (b.k === "fresh") { const inner = this.field(b.node, ts.isPropertyAccessExpression(e) ? e.name.text : null, seen); if (inner) out.push(...inner); else out.push({ k: "fresh", node: undefined, part: true }); } else out.push({ ...b, deep: true }); }
        return U(out);
      }
      case S.Identifier: {
        if (e.text === "undefined") return [];
        const d = this.decl(e); if (!d) return [{ k: "unknown" }]; if (!this.own(d)) return [{ k: "module", decl: d, global: true }];
        return this.declOwners(d, e, seen);
      }
      case S.CallExpression: {
        const cs = this.callees(e);
        if (cs.length) { const out = []; for (const f of cs) { const r = this.returns(f); for (const o of r) { if (o.k === "param" && o.fn === f) { const a = e.arguments[o.i]; if (a) out.push(...rec(ts.isSpreadElement(a) ? a.expression : a).map((x) => o.deep && x.k !== "fresh" ? { ...x, deep: true } : x)); } else out.push(o); } } return U(out); }
        const x = strip(e.expression);
        if (ts.isPropertyAccessExpression(x)) {
          const nm = x.name.text;
          if (ts.isIdentifier(x.expression) && x.expression.text === "Object" && ["assign", "freeze", "defineProperty", "defineProperties", "setPrototypeOf", "seal"].includes(nm)) return rec(e.arguments[0]);
          if (["get", "at", "find", "findLast", "pop", "shift", "next", "getOrInsert"].includes(nm)) return U(rec(x.expression).map((o) => o.k === "fresh" ? { k: "fresh", part: true } : { ...o, deep: true }));
          if (["sort", "reverse", "fill", "splice", "set", "add"].includes(nm)) return rec(x.expression);
          if (ts.isIdentifier(x.expression) && ["Object", "Intl", "JSON", "Reflect", "Array", "Promise"].includes(x.expression.text) && this.isBuiltin(x)) return [{ k: "fresh", shallow: true }];
          if (["map", "filter", "slice", "concat", "flat", "flatMap", "toSorted", "toReversed", "split", "entries", "keys", "values", "from", "of", "fromEntries", "create", "all", "match", "matchAll", "exec"].includes(nm)) return [{ k: "fresh", node: undefined, shallow: true }];
        }
        if (ts.isIdentifier(x) && x.text === "Array") return [{ k: "fresh" }];
        return [{ k: "unknown", call: e }];
      }
    }
    return [];
  }
  declOwners(d, use, seen) {
    const usefn = this.fnOf(use);
    if (ts.isParameter(d) || this.paramOfBinding(d)) {
      const p = ts.isParameter(d) ? d : this.paramOfBinding(d); const fn = p.parent; const i = fn.parameters.indexOf(p);
      // a callback parameter of a built-in iteration stands for a part of the receiver
      const it = this.iterationReceiver(fn, i); if (it) return this.owners(it, seen).map((o) => o.k === "fresh" ? { k: "fresh", part: true } : { ...o, deep: true });
      return [{ k: "param", fn, i, decl: p, deep: !ts.isParameter(d) }];
    }
    let v = d; while (v && ts.isBindingElement(v)) v = v.parent.parent;
    if (v && ts.isVariableDeclaration(v)) {
      const owner = this.fnOf(v); const scope = owner; const inMine = scope === usefn || this.within(usefn, scope);
      if (ts.isSourceFile(owner)) { const init = v.initializer && strip(v.initializer); return [{ k: "module", decl: v, init }]; }
      const isBinding = v !== d; const out = [];
      const srcs = []; if (v.initializer) srcs.push(v.initializer); for (const r of this.assigned.get(v) || []) srcs.push(r); for (const r of this.assigned.get(d) || []) if (d !== v) srcs.push(r);
      if (v.parent && v.parent.parent && (ts.isForOfStatement(v.parent.parent) || ts.isForInStatement(v.parent.parent))) { for (const o of this.owners(v.parent.parent.expression, seen)) out.push(o.k === "fresh" ? (o.shallow ? { k: "fresh", part: true } : { k: "fresh", part: true }) : { ...o, deep: true }); }
      for (const s of srcs) for (const o of this.owners(s, seen)) out.push(isBinding && o.k !== "fresh" ? { ...o, deep: true } : o);
      // a fresh object of an enclosing function is captured state
      if (usefn !== owner) { const res = out.map((o) => o.k === "fresh" ? { k: "captured", decl: v, fn: owner, init: v.initializer } : o); return res.length ? res : [{ k: "captured", decl: v, fn: owner }]; }
      return out.length ? out : [{ k: "fresh" }];
    }
    if (v && ts.isCatchClause(v.parent || v)) return [{ k: "unknown" }];
    return [{ k: "unknown" }];
  }
  classOf(g) { let p = g; while (p && !ts.isClassLike(p) && !ts.isObjectLiteralExpression(p)) p = p.parent; return p || g; }
  within(inner, outer) { let p = inner; while (p) { if (p === outer) return true; p = p.parent; } return false; }
  paramOfBinding(d) { let q = d; while (q && (ts.isBindingElement(q) || ts.isObjectBindingPattern(q) || ts.isArrayBindingPattern(q))) q = q.parent; return q && ts.isParameter(q) ? q : null; }
  iterationReceiver(fn, i) {
    const c = fn.parent; if (!c || !ts.isCallExpression(c) || !c.arguments.includes(fn)) return null;
    const x = strip(c.expression); if (!ts.isPropertyAccessExpression(x)) return null;
    const nm = x.name.text; if (["map", "forEach", "filter", "find", "findIndex", "findLast", "some", "every", "flatMap", "sort", "toSorted"].includes(nm)) return i === 0 || nm.includes("ort") ? x.expression : null;
    if (nm === "reduce") return i === 0 ? c.arguments[1] || x.expression : i === 1 ? x.expression : null;
    if (nm === "from" && i === 0) return c.arguments[0];
    return null;
  }
  // owners of a field of an object literal
  field(lit, name, seen) {
    if (!lit || !ts.isObjectLiteralExpression(lit) || !name) return null;
    let res = null;
    for (const p of lit.properties) {
      if (ts.isSpreadAssignment(p)) { const o = this.owners(p.expression, seen).filter((x) => x.k !== "fresh").map((x) => ({ ...x, deep: true })); if (o.length) res = [...(res || []), ...o]; }
      else if (p.name && !ts.isComputedPropertyName(p.name) && p.name.text === name) res = ts.isPropertyAssignment(p) ? this.owners(p.initializer, seen) : ts.isShorthandPropertyAssignment(p) ? this.owners(p.name, seen) : [{ k: "fresh" }];
    }
    return res;
  }
  returns(f) {
    if (this.originCache.has(f)) return this.originCache.get(f);
    this.originCache.set(f, []);
    const out = []; const seen = new Set();
    const w = (n) => { if (n !== f && ts.isFunctionLike(n)) return; if (ts.isReturnStatement(n) && n.expression) out.push(...this.owners(n.expression, new Set(seen))); ts.forEachChild(n, w); };
    if (f.asteriskToken) out.push({ k: "fresh" }); else if (ts.isBlock(f.body)) w(f.body); else out.push(...this.owners(f.body, new Set(seen)));
    // values owned by the function itself are fresh for the caller
    const res = out.map((o) => o.k === "fresh" ? { k: "fresh" } : o);
    this.originCache.set(f, res); return res;
  }
  // direct writes of one function: [{node, target, owners, what}]
  writes(f) {
    const out = []; const body = f.body;
    const add = (node, target, what) => out.push({ node, target, what, owners: this.owners(target) });
    const lhs = (l, node) => { l = strip(l);
      if (ts.isIdentifier(l)) { const d = this.decl(l); if (!d) return; const fn = this.fnOf(ts.isBindingElement(d) ? d : d); let v = d; while (v && ts.isBindingElement(v)) v = v.parent.parent; if (ts.isParameter(d) || this.paramOfBinding(d)) { const p = ts.isParameter(d) ? d : this.paramOfBinding(d); if (p.parent !== f && !this.sameActivation(p.parent, f)) out.push({ node, target: l, what: "assigns", owners: [{ k: "captured", decl: d, fn: p.parent, variable: true }] }); return; } if (v && ts.isVariableDeclaration(v)) { const o = this.fnOf(v); if (ts.isSourceFile(o)) out.push({ node, target: l, what: "assigns", owners: [{ k: "module", decl: v, variable: true }] }); else if (o !== f) out.push({ node, target: l, what: "assigns", owners: [{ k: "captured", decl: v, fn: o, variable: true }] }); } return; }
      if (ts.isPropertyAccessExpression(l) || ts.isElementAccessExpression(l)) add(node, l.expression, "assigns " + (ts.isPropertyAccessExpression(l) ? "." + l.name.text : "an element"));
      else if (ts.isArrayLiteralExpression(l)) l.elements.forEach((x) => lhs(x, node)); else if (ts.isObjectLiteralExpression(l)) l.properties.forEach((x) => ts.isPropertyAssignment(x) ? lhs(x.initializer, node) : 0); };
    const w = (n) => {
      if (n !== f && ts.isFunctionLike(n)) return;
      if (ts.isBinaryExpression(n) && isAssign(n.operatorToken.kind)) lhs(n.left, n);
      else if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === S.PlusPlusToken || n.operator === S.MinusMinusToken)) lhs(n.operand, n);
      else if (ts.isDeleteExpression(n)) { const t = strip(n.expression); if (t.expression) add(n, t.expression, "deletes a property of"); }
      else if (ts.isCallExpression(n)) {
        const x = strip(n.expression);
        if (ts.isPropertyAccessExpression(x)) {
          const nm = x.name.text; const recvT = () => this.checker.getTypeAtLocation(x.expression);
          if (ts.isIdentifier(x.expression) && (x.expression.text === "Object" || x.expression.text === "Reflect")) { if (["assign", "defineProperty", "defineProperties", "setPrototypeOf", "set", "deleteProperty", "freeze"].includes(nm) && n.arguments[0] && nm !== "freeze") add(n, n.arguments[0], "Object." + nm); }
          else if (MUT_ARRAY.has(nm) && !this.callees(n).length && this.isBuiltin(x)) add(n, x.expression, "." + nm + "()");
          else if (MUT_COLL.has(nm) && !this.callees(n).length && this.isBuiltin(x)) add(n, x.expression, "." + nm + "()");
        }
      }
      ts.forEachChild(n, w);
    };
    w(f); return out;
  }
  isBuiltin(x) { const d = this.decl(x.name); return !d || !this.P.own.has(d.getSourceFile().fileName); }
  sameActivation() { return false; }
  // summary: writes that are visible outside an activation of f, including those of callees
  summary(f) {
    if (this.sum.has(f)) return this.sum.get(f);
    const res = []; this.sum.set(f, res); const keys = new Set();
    const add = (x) => { const k = x.owner.k + "|" + (x.owner.decl ? x.owner.decl.pos + ":" + x.owner.decl.getSourceFile().fileName : "") + "|" + (x.owner.i ?? "") + "|" + (x.owner.fn ? x.owner.fn.pos : "") + "|" + x.node.pos + x.node.getSourceFile().fileName; if (!keys.has(k)) { keys.add(k); res.push(x); } };
    for (const wr of this.writes(f)) for (const o of wr.owners) if (o.k !== "fresh" && !(o.k === "captured" && o.fn === f)) add({ owner: o, node: wr.node, what: wr.what, path: [], target: wr.target });
    const w = (n) => {
      if (n !== f && ts.isFunctionLike(n)) { return; }
      if (ts.isCallExpression(n)) this.applyCall(n, f, add);
      ts.forEachChild(n, w);
    };
    w(f.body);
    // function literals created here run on behalf of this activation
    const inner = (n) => { if (n !== f && ts.isFunctionLike(n) && n.body) { if (this.runsInline(n)) for (const x of this.summary(n)) { if (x.owner.k === "captured" && x.owner.fn === f) continue; if (x.owner.k === "param" && x.owner.fn === n) continue; add({ ...x, path: [n, ...x.path].slice(0, 6) }); } return; } ts.forEachChild(n, inner); };
    inner(f.body);
    return res;
  }
  runsInline(n) { const c = n.parent; return ts.isCallExpression(c) || ts.isParenthesizedExpression(c); }
  applyCall(n, f, add) {
    for (const g of this.callees(n)) {
      for (const x of this.summary(g)) {
        if (x.owner.k === "param" && x.owner.fn === g) {
          const a = n.arguments[x.owner.i]; if (!a) continue;
          for (const o of this.owners(ts.isSpreadElement(a) ? a.expression : a)) if (o.k !== "fresh" && !(o.k === "captured" && o.fn === f)) add({ owner: x.owner.deep ? { ...o, deep: true } : o, node: x.node, what: x.what, path: [n, ...x.path].slice(0, 6), target: x.target });
        } else if (x.owner.k === "this" && !this.within(f, this.classOf(g)) ) {
          const r = strip(n.expression); if (!ts.isPropertyAccessExpression(r)) continue; if (r.expression.kind === S.SuperKeyword) { add({ ...x, path: [n, ...x.path].slice(0, 6) }); continue; }
          for (const o of this.owners(r.expression)) if (o.k !== "fresh" && !(o.k === "captured" && o.fn === f)) add({ owner: { ...o, deep: true }, node: x.node, what: x.what, path: [n, ...x.path].slice(0, 6), target: x.target });
        } else if (!(x.owner.k === "captured" && x.owner.fn === f)) add({ ...x, path: [n, ...x.path].slice(0, 6) });
      }
    }
  }
  // ---- lifetimes -------------------------------------------------------
  // Does a closure g, created by an activation of F, outlive that activation?
  survives(g, F, seen = new Set()) {
    let h = g;
    while (h && h !== F) { if (this.escapes(h, F, seen)) return true; h = this.fnOf(h); if (!h || ts.isSourceFile(h)) return false; }
    return false;
  }
  refsOf(decl, scope) {
    if (!this.refCache) this.refCache = new Map();
    const sf = decl.getSourceFile();
    if (!this.refCache.has(sf)) { const m = new Map(); const w = (n) => { if (ts.isIdentifier(n) && n.parent && n.parent.name !== n || (ts.isIdentifier(n) && n.parent && ts.isShorthandPropertyAssignment(n.parent))) { const d = this.decl(n); if (d) { if (!m.has(d)) m.set(d, []); m.get(d).push(n); } } ts.forEachChild(n, w); }; w(sf); this.refCache.set(sf, m); }
    return (this.refCache.get(sf).get(decl) || []).filter((n) => this.within(n, scope));
  }
  escapes(h, F, seen) {
    if (seen.has(h)) return false; seen.add(h);
    if (ts.isFunctionDeclaration(h)) return this.refsOf(h, F).some((r) => this.refEscapes(r, F, seen));
    if (ts.isMethodDeclaration(h) || ts.isGetAccessor(h) || ts.isSetAccessor(h) || ts.isConstructorDeclaration(h)) return ts.isObjectLiteralExpression(h.parent) ? this.valueEscapes(h.parent, F, seen) : true;
    return this.valueEscapes(h, F, seen);
  }
  refEscapes(r, F, seen) {
    const p = r.parent;
    const call = ts.isCallExpression(p) && strip(p.expression) === r;
    if (call) { const g = this.fnOf(r); return g !== F && !ts.isSourceFile(g) ? this.survives(g, F, seen) : false; }
    return this.valueEscapes(r, F, seen) || (() => { const g = this.fnOf(r); return g !== F && g && !ts.isSourceFile(g) && this.within(g, F) ? this.survives(g, F, seen) : false; })();
  }
  // the value of expression e (a function, or an object holding it) leaves F
  valueEscapes(e, F, seen) {
    const p = e.parent; if (!p) return false;
    if (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isSatisfiesExpression(p) || ts.isNonNullExpression(p) || ts.isConditionalExpression(p) && p.condition !== e || ts.isAwaitExpression(p)) return this.valueEscapes(p, F, seen);
    if (ts.isBinaryExpression(p)) { const k = p.operatorToken.kind; if (k === S.BarBarToken || k === S.QuestionQuestionToken || k === S.AmpersandAmpersandToken || k === S.CommaToken) return this.valueEscapes(p, F, seen); if (isAssign(k)) { if (p.right !== e) return false; const l = strip(p.left); if (ts.isIdentifier(l)) { const d = this.decl(l); if (d && this.within(d, F)) return this.varEscapes(d, F, seen); return true; } return this.targetEscapes(l, F, seen); } return false; }
    if (ts.isPropertyAssignment(p) && p.initializer === e || ts.isShorthandPropertyAssignment(p) || ts.isSpreadAssignment(p)) return this.valueEscapes(p.parent, F, seen);
    if (ts.isArrayLiteralExpression(p)) return this.valueEscapes(p, F, seen);
    if (ts.isSpreadElement(p)) return this.valueEscapes(p, F, seen);
    if (ts.isReturnStatement(p) || ts.isYieldExpression(p) || (ts.isArrowFunction(p) && p.body === e)) { const g = this.fnOf(e); if (g === F) return true; // returned by an inner function: follows that function's result
      return this.callResultsEscape(g, F, seen); }
    if (ts.isVariableDeclaration(p) && p.initializer === e) { if (ts.isIdentifier(p.name)) return this.varEscapes(p, F, seen); return true; }
    if (ts.isCallExpression(p) || ts.isNewExpression(p)) {
      if (strip(p.expression) === strip(e)) return false; // called on the spot
      const i = (p.arguments || []).indexOf(e); const cs = ts.isCallExpression(p) ? this.callees(p) : [];
      const x = strip(p.expression);
      if (ts.isNewExpression(p)) { if (ts.isIdentifier(x) && x.text === "Promise") return false; return this.valueEscapes(p, F, seen); }
      if (ts.isPropertyAccessExpression(x) && ts.isIdentifier(x.expression) && x.expression.text === "Object") { if (i > 0 && p.arguments[0]) return this.targetEscapes(p.arguments[0], F, seen) || this.valueEscapes(p, F, seen); return this.valueEscapes(p, F, seen); }
      if (cs.length) { if (cs.some((g) => this.returnsParam(g, i))) return this.valueEscapes(p, F, seen); return false; }
      if (ts.isPropertyAccessExpression(x) && this.isBuiltin(x) && ["push", "set", "add", "unshift"].includes(x.name.text)) return this.targetEscapes(x.expression, F, seen);
      if (ts.isPropertyAccessExpression(x) && this.isBuiltin(x) && x.name.text === "bind") return this.valueEscapes(p, F, seen);
      return false;
    }
    if (ts.isPropertyAccessExpression(p) && p.expression === e) { const q = p.parent; if (ts.isCallExpression(q) && q.expression === p) { if (p.name.text === "bind") return this.valueEscapes(q, F, seen); return false; } return this.valueEscapes(p, F, seen); }
    if (ts.isElementAccessExpression(p) && p.expression === e) return this.valueEscapes(p, F, seen);
    if (ts.isPropertyDeclaration(p)) return true;
    return false;
  }
  // does the storage denoted by expression t outlive F?
  targetEscapes(t, F, seen) { t = strip(t); while (ts.isPropertyAccessExpression(t) || ts.isElementAccessExpression(t)) t = strip(t.expression); if (t.kind === S.ThisKeyword) return true; if (ts.isIdentifier(t)) { const d = this.decl(t); if (!d) return true; if (ts.isParameter(d)) return this.within(d, F) && d.parent !== F ? false : true; if (this.within(d, F)) return this.varEscapes(d, F, seen); return true; } return this.valueEscapes(t, F, seen); }
  varEscapes(d, F, seen) { if (seen.has(d)) return false; seen.add(d); return this.refsOf(d, F).some((r) => this.refEscapes(r, F, seen)); }
  callResultsEscape(g, F, seen) { // results of inner function g
    if (seen.has("r" + g.pos)) return false; seen.add("r" + g.pos);
    if (ts.isFunctionDeclaration(g)) return this.refsOf(g, F).some((r) => ts.isCallExpression(r.parent) && strip(r.parent.expression) === r ? this.valueEscapes(r.parent, F, seen) : this.valueEscapes(r, F, seen));
    const p = g.parent; if (ts.isVariableDeclaration(p) && ts.isIdentifier(p.name)) return this.refsOf(p, F).some((r) => ts.isCallExpression(r.parent) && strip(r.parent.expression) === r ? this.valueEscapes(r.parent, F, seen) : this.valueEscapes(r, F, seen));
    if (ts.isCallExpression(p) && p.arguments.includes(g)) return this.valueEscapes(p, F, seen);
    if (ts.isParenthesizedExpression(p) && ts.isCallExpression(p.parent)) return this.valueEscapes(p.parent, F, seen);
    return this.valueEscapes(g, F, seen);
  }
  returnsParam(g, i) { return this.returns(g).some((o) => o.k === "param" && o.fn === g && o.i === i) || this.holdsParam(g, i); }
  // the result of g holds on to parameter i (object literal field, closure)
  holdsParam(g, i) {
    const p = g.parameters[i]; if (!p || !g.body) return false; const key = g; this.holdCache ||= new Map(); if (!this.holdCache.has(key)) this.holdCache.set(key, new Map()); const m = this.holdCache.get(key); if (m.has(i)) return m.get(i); m.set(i, false);
    const r = ts.isIdentifier(p.name) ? this.refsOf(p, g).some((x) => this.refEscapes(x, g, new Set())) : true; m.set(i, r); return r;
  }
}
module.exports = { Effects, strip };
