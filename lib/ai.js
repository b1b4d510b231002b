"use strict";
// Abstract interpreter over the type-checked TypeScript AST.
//
// This is a classical dataflow analysis: abstract values, a flow-sensitive
// abstract store that is JOINED at every control-flow merge, loops run to a
// widened fixpoint, calls analysed through their resolved callees.  It never
// runs the program and never enumerates paths.
//
// Abstract values are finite sets of atoms:
//   {k:"c",v}            a known primitive
//   {k:"s",parts}        a string made of literal text and holes
//   {k:"re",src,flags}   a regular expression
//   {k:"fn",node,env}    a function of the repository with its closure scope
//   {k:"nat",name,call}  a modelled built-in
//   {k:"o",id}           an object/array/map/set of the abstract heap
//   {k:"y",p}            an opaque input; p says where it came from
//   {k:"t",L,ty}         anything; L = origins that may have influenced it
const { ts } = require("./program.js");
const S = ts.SyntaxKind;

const OBJECT_METHODS = new Set(["hasOwnProperty", "toString", "valueOf", "toLocaleString", "isPrototypeOf", "propertyIsEnumerable", "constructor"]);
const MAXATOMS = 16;
const C = (v) => [{ k: "c", v }];
const UNDEF = C(undefined), TRUE = C(true), FALSE = C(false), NULL = C(null);
const BOT = [];
const hashStr = (s) => { let h = 5381; for (let i = 0; i < s.length; i++) h = ((h * 33) ^ s.charCodeAt(i)) >>> 0; return h.toString(36); };
const clip = (p) => p.length > 220 ? p.slice(0, 160) + "~" + hashStr(p) : p;
const Y = (p) => [{ k: "y", p: clip(p) }];
const T = (L, ty) => [{ k: "t", L: L instanceof Set ? L : new Set(L || []), ty }];

let nodeIds = new WeakMap(), nodeCtr = 0;
const nid = (n) => { let i = nodeIds.get(n); if (!i) { i = ++nodeCtr; nodeIds.set(n, i); } return i; };

function partKey(p) {
  if (p.lit !== undefined) return "L" + JSON.stringify(p.lit);
  if (p.rep) return "R" + JSON.stringify(p.sep || "") + p.rep.map((x) => "[" + x.map(partKey).join("") + "]").join("|");
  return "H" + [...p.L].sort().join(",") + (p.raw ? "" : "?") + (p.lang ? "@" + p.lang.key : "");
}
function atomKey(a) {
  if (a.key) return a.key;
  let k;
  switch (a.k) {
    case "c": k = "c" + typeof a.v + ":" + String(a.v) + (Object.is(a.v, -0) ? "-" : ""); break;
    case "s": k = "s" + a.parts.map(partKey).join(""); break;
    case "re": k = "re/" + a.src + "/" + a.flags; break;
    case "fn": k = "fn" + nid(a.node) + "@" + (a.env ? a.env.id : 0); break;
    case "nat": k = "nat" + a.name + (a.uid || ""); break;
    case "o": k = "o" + a.id; break;
    case "y": k = "y" + a.p; break;
    case "t": k = "t" + (a.ty || "") + [...a.L].sort().join(","); break;
  }
  a.key = k;
  return k;
}
const valKey = (v) => v.map(atomKey).sort().join("&");

function join(a, b) {
  if (a === b || b.length === 0) return a;
  if (a.length === 0) return b;
  const m = new Map();
  let tops = null;
  for (const x of a) m.set(atomKey(x), x);
  for (const x of b) m.set(atomKey(x), x);
  for (const [k, x] of m) if (x.k === "t") { m.delete(k); tops = tops ? { k: "t", L: new Set([...tops.L, ...x.L]), ty: tops.ty === x.ty ? x.ty : undefined } : x; }
  let out = [...m.values()];
  if (tops) out.push(tops);
  if (out.length > MAXATOMS && (out.length > 96 || !out.every((x) => x.k === "s" || (x.k === "c" && typeof x.v === "string")))) {
    // collapse primitives/strings/opaque first, keep functions and objects
    const keep = out.filter((x) => x.k === "fn" || x.k === "o" || x.k === "nat");
    const rest = out.filter((x) => !(x.k === "fn" || x.k === "o" || x.k === "nat"));
    const L = new Set(); for (const x of rest) for (const l of labelsShallow(x)) L.add(l);
    out = [...keep, { k: "t", L }];
  }
  return out;
}
let litLabels = () => [];
function labelsShallow(x) {
  switch (x.k) {
    case "y": return [x.p];
    case "t": return [...x.L];
    case "s": return partsLabels(x.parts);
    case "c": return typeof x.v === "string" ? litLabels(x.v) : [];
  }
  return [];
}
function partsLabels(ps) {
  const r = [];
  for (const p of ps) {
    if (p.lit !== undefined) r.push(...litLabels(p.lit));
    else if (p.rep) for (const q of p.rep) r.push(...partsLabels(q));
    else r.push(...p.L);
  }
  return r;
}

function truth(a, st) {
  switch (a.k) {
    case "c": return !!a.v;
    case "s": return a.parts.some((p) => p.lit) ? true : undefined;
    case "re": case "fn": case "nat": case "o": return true;
    case "y": {
      const f = st && st.facts.get(a.p);
      if (f) { if ("eq" in f) return !!f.eq; if (f.truthy !== undefined) return f.truthy; if (f.nullish === true) return false; if (f.undef === true) return false; }
      if (a.p.startsWith("symbol:")) return true;
      return undefined;
    }
    case "t": return a.ty === "object" || a.ty === "function" ? true : undefined;
  }
}
function nullish(a, st) { // true/false/undefined
  switch (a.k) {
    case "c": return a.v === undefined || a.v === null;
    case "y": {
      const f = st && st.facts.get(a.p);
      if (f) { if ("eq" in f) return f.eq === undefined || f.eq === null; if (f.truthy === true || f.nullish === false || f.typeof) return f.typeof ? (f.typeof === "undefined") : false; if (f.nullish === true || f.undef === true) return true; }
      if (a.p.startsWith("symbol:")) return false;
      return undefined;
    }
    case "t": return a.ty ? false : undefined;
  }
  return false;
}

const { CowMap } = require("./cowmap.js");
class State {
  constructor(vars, heap, facts) { this.vars = vars || new CowMap(); this.heap = heap || new CowMap(); this.facts = facts || new CowMap(); }
  clone() { return new State(this.vars.copy(), this.heap.copy(), this.facts.copy()); }
}
function joinRec(a, b) {
  if (a === b) return a;
  const props = new Map(a.props);
  for (const [k, v] of b.props) props.set(k, props.has(k) ? join(props.get(k), v) : join(v, UNDEF));
  for (const k of a.props.keys()) if (!b.props.has(k)) props.set(k, join(a.props.get(k), UNDEF));
  let items = a.items && b.items && a.items.length === b.items.length ? a.items.map((x, i) => join(x, b.items[i])) : null;
  const ae = elemOf(a), be = elemOf(b);
  return { kind: a.kind, props, items, elem: items ? BOT : join(ae, be), keys: a.keys && b.keys ? join(a.keys, b.keys) : (a.keys || b.keys), rest: a.rest && b.rest ? join(a.rest, b.rest) : (a.rest || b.rest), summary: a.summary || b.summary, maybeEmpty: a.maybeEmpty || b.maybeEmpty || (!!a.items && a.items.length === 0) || (!!b.items && b.items.length === 0), node: a.node, site: a.site, bare: a.bare && b.bare };
}
function elemOf(r) { return r.items ? r.items.reduce(join, BOT) : (r.elem || BOT); }
function joinState(a, b) {
  if (!a) return b; if (!b || a === b) return a;
  const s = a.clone();
  for (const [k, v] of b.vars) { const o = s.vars.get(k); if (o === undefined) s.vars.set(k, v); else if (o !== v) s.vars.set(k, join(o, v)); }
  for (const [k, v] of b.heap) { const o = s.heap.get(k); if (o === undefined) s.heap.set(k, v); else if (o !== v) s.heap.set(k, joinRec(o, v)); }
  for (const [k, f] of a.facts) {
    const g = b.facts.get(k);
    if (!g) { s.facts.delete(k); continue; }
    if (g === f) continue;
    const h = {};
    for (const kk of Object.keys(f)) if (kk in g && (Object.is(f[kk], g[kk]) || (f[kk] && f[kk].key && f[kk].key === g[kk].key))) h[kk] = f[kk];
    if (factTruthy(f) !== undefined && factTruthy(f) === factTruthy(g)) h.truthy = factTruthy(f);
    if (factNullish(f) !== undefined && factNullish(f) === factNullish(g)) h.nullish = factNullish(f);
    if (Object.keys(h).length) s.facts.set(k, h); else s.facts.delete(k);
  }
  return s;
}
const factStr = (f) => JSON.stringify(f, (q, z) => typeof z === "bigint" ? z.toString(36) + "n" : z && z.key ? z.key : z === undefined ? "undef" : z);
const factTruthy = (f) => "eq" in f ? !!f.eq : f.truthy;
const factNullish = (f) => "eq" in f ? f.eq == null : f.truthy === true ? false : f.nullish;
function sameState(a, b) {
  if (a.vars.size !== b.vars.size || a.heap.size !== b.heap.size || a.facts.size !== b.facts.size) return false;
  for (const [k, v] of a.vars) { const w = b.vars.get(k); if (w !== v && (w === undefined || valKey(w) !== valKey(v))) return false; }
  for (const [k, r] of a.heap) { const q = b.heap.get(k); if (q !== r && (!q || recKey(q) !== recKey(r))) return false; }
  for (const [k, f] of a.facts) { const g = b.facts.get(k); if (!g || (g !== f && factStr(f) !== factStr(g))) return false; }
  return true;
}
function recKey(r) { return r.kind + "{" + [...r.props].map(([k, v]) => k + "=" + valKey(v)).sort().join(";") + "}" + (r.items ? "I" + r.items.map(valKey).join("|") : "E" + valKey(r.elem || BOT)) + "K" + valKey(r.keys || BOT) + "R" + valKey(r.rest || BOT); }

class Interp {
  // opts: opaque(decl,name)->bool, onCall(info)->Value|undefined, maxDepth,
  //       litLabels(str)->labels, charHom: object with string-domain ops
  constructor(P, opts = {}) {
    this.P = P; this.checker = P.checker; this.opts = opts;
    this.maxDepth = opts.maxDepth || 40; this.depth = 0; this.stack = [];
    this.exact = opts.concrete ? 200 : 8; this.actCtr = 0; this.handlers = []; this.globals = new Map(); this.events = [];
    this.steps = 0; this.maxSteps = opts.maxSteps || 3e6; this.unmodelled = new Map();
    this.fnSeen = new Set();
  }
  newState() { return new State(); }
  budget() { if (++this.steps > this.maxSteps) throw new Error("abstract interpretation step budget exceeded"); }

  // ---------- symbols ----------
  symOf(id) { const m = this.checker.__syms || (this.checker.__syms = new Map()); if (m.has(id)) return m.get(id); const s = this.symOf0(id); m.set(id, s); return s; }
  symOf0(id) {
    let s = this.checker.getSymbolAtLocation(id);
    if (id.parent && ts.isShorthandPropertyAssignment(id.parent) && id.parent.name === id) s = this.checker.getShorthandAssignmentValueSymbol(id.parent);
    if (s && s.flags & ts.SymbolFlags.Alias) { try { s = this.checker.getAliasedSymbol(s); } catch { /* unresolved */ } }
    return s;
  }
  declOf(sym) {
    if (!sym || !sym.declarations) return undefined;
    return sym.declarations.find((d) => (ts.isFunctionDeclaration(d) || ts.isMethodDeclaration(d)) && d.body) ||
      sym.declarations.find((d) => ts.isVariableDeclaration(d) || ts.isParameter(d) || ts.isBindingElement(d)) || sym.declarations[0];
  }
  ownerFn(n) { const m = this.checker.__owners || (this.checker.__owners = new Map()); let o = m.get(n); if (o === undefined) { o = this.ownerFn0(n); m.set(n, o); } return o; }
  ownerFn0(n) { let p = n.parent; if (ts.isParameter(n)) return p; if (ts.isBindingElement(n)) { let q = n; while (ts.isBindingElement(q) || ts.isObjectBindingPattern(q) || ts.isArrayBindingPattern(q)) q = q.parent; if (ts.isParameter(q)) return q.parent; } while (p && !ts.isFunctionLike(p) && !ts.isSourceFile(p)) p = p.parent; return p; }
  varKey(decl, env) {
    const o = this.ownerFn(decl);
    if (ts.isSourceFile(o)) return null;
    for (let e = env; e; e = e.parent) if (e.node === o) return e.id + ":" + nid(decl);
    return undefined;
  }
  lookup(id, st, env) {
    if (id.text === "undefined") return UNDEF;
    if (id.text === "NaN") return C(NaN);
    if (id.text === "Infinity") return C(Infinity);
    const sym = this.symOf(id);
    if (!sym) return Y("unresolved:" + id.text);
    const d = this.declOf(sym);
    if (!d) return Y("global:" + id.text);
    if (this.P.own.has(d.getSourceFile().fileName) || (this.P.extraOwn && this.P.extraOwn.has(d.getSourceFile().fileName))) {
      if (ts.isFunctionDeclaration(d)) {
        // local function declaration closes over the environment
        const o = this.ownerFn(d);
        if (!ts.isSourceFile(o)) { for (let e = env; e; e = e.parent) if (e.node === o) return [{ k: "fn", node: d, env: e }]; }
        return [{ k: "fn", node: d, env: null }];
      }
      if (ts.isVariableDeclaration(d) || ts.isParameter(d) || ts.isBindingElement(d)) {
        const key = this.varKey(d, env);
        if (key === null) return this.globalVar(d, id.text);
        if (key === undefined) return Y("unbound:" + id.text);
        const v = st.vars.get(key);
        return v === undefined ? Y("uninit:" + id.text) : v;
      }
      if (ts.isClassDeclaration(d)) return Y("class:" + id.text);
      if (ts.isEnumDeclaration(d)) return Y("enum:" + id.text);
    }
    return Y("global:" + id.text);
  }
  globalVar(d, name) {
    let g = this.globals.get(d);
    if (g) return g.v;
    const isConst = ts.isVariableDeclaration(d) && (ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const);
    g = { v: Y("module:" + name) };
    this.globals.set(d, g);
    if (isConst && d.initializer && ts.isIdentifier(d.name)) {
      const gs = this.globalState || (this.globalState = new State());
      const save = this.handlers, env0 = this.curEnv; this.handlers = []; this.curEnv = null;
      const cur = this.opts.onCall; 
      try { const r = this.ev(d.initializer, gs, { id: 0, node: d.getSourceFile(), parent: null }); if (r.s) { g.v = r.v; this.globalState = r.s; } } finally { this.handlers = save; this.curEnv = env0; this.opts.onCall = cur; }
    }
    return g.v;
  }
  // objects created by module initialisers live in globalState.heap
  rec(st, id) { let r = st.heap.get(id); if (!r && this.globalState) r = this.globalState.heap.get(id); return r; }

  alloc(st, node, kind, init = {}) {
    const id = kind[0] + nid(node) + "." + (this.opts.concrete ? "u" + (++this.actCtr) : this.curEnv ? this.curEnv.ctx : 0);
    const old = st.heap.get(id);
    let r = { kind, props: init.props || new Map(), items: init.items === undefined ? (kind === "array" ? [] : null) : init.items, elem: init.elem || BOT, keys: init.keys, rest: init.rest, summary: false, maybeEmpty: init.maybeEmpty, node, bare: init.bare };
    if (old) { r = joinRec(old, r); r.summary = true; }
    st.heap.set(id, r);
    return [{ k: "o", id }];
  }
  mkObj(st, node, props) { const m = new Map(); for (const k in props) m.set(k, props[k]); return this.alloc(st, node, "object", { props: m }); }
  freshObj(st, props, kind = "object", extra = {}) { // for clients
    const id = "x" + (++this.actCtr); const m = new Map(); for (const k of Object.keys(props || {})) m.set(k, props[k]);
    st.heap.set(id, { kind, props: m, items: extra.items === undefined ? (kind === "array" ? [] : null) : extra.items, elem: extra.elem || BOT, rest: extra.rest, keys: extra.keys, summary: false });
    return [{ k: "o", id }];
  }

  labels(v, st, depth = 3, seen = new Set()) {
    const L = new Set();
    for (const a of v) {
      for (const l of labelsShallow(a)) L.add(l);
      if (a.k === "o" && depth > 0 && !seen.has(a.id)) {
        seen.add(a.id); const r = this.rec(st, a.id);
        if (r) { for (const x of r.props.values()) for (const l of this.labels(x, st, depth - 1, seen)) L.add(l); for (const x of [elemOf(r), r.rest || BOT, r.keys || BOT]) for (const l of this.labels(x, st, depth - 1, seen)) L.add(l); }
      }
    }
    return L;
  }
  describe(v, st, depth = 2) {
    return v.map((a) => {
      if (a.k === "c") return typeof a.v === "string" ? JSON.stringify(a.v) : String(a.v);
      if (a.k === "y") return "<" + a.p + ">";
      if (a.k === "t") return "TOP(" + [...a.L].slice(0, 6).join(",") + ")";
      if (a.k === "s") return "`" + a.parts.map((p) => p.lit !== undefined ? p.lit : p.rep ? "(" + p.rep.length + " alts)*" : "${" + [...p.L].join(",") + "}").join("") + "`";
      if (a.k === "fn") return "fn@" + (a.node.name ? a.node.name.text : this.loc(a.node));
      if (a.k === "nat") return "native " + a.name;
      if (a.k === "re") return "/" + a.src + "/" + a.flags;
      const r = this.rec(st, a.id); if (!r) return "obj?";
      if (depth <= 0) return r.kind;
      if (r.kind === "object") return "{" + [...r.props].map(([k, x]) => k + ":" + this.describe(x, st, depth - 1)).join(", ") + (r.rest ? ", ..." + this.describe(r.rest, st, depth - 1) : "") + "}";
      return r.kind + "[" + (r.items ? r.items.map((x) => this.describe(x, st, depth - 1)).join(", ") : "*" + this.describe(elemOf(r), st, depth - 1)) + "]";
    }).join(" | ") || "⊥";
  }
  loc(n) { const sf = n.getSourceFile(); const { line, character } = sf.getLineAndCharacterOfPosition(n.getStart()); return sf.fileName.replace(this.P.REPO + "/", "") + ":" + (line + 1) + ":" + (character + 1); }

  // ---------- throw bookkeeping ----------
  // the entries of a literal set or map equal to a key, or null when that is not known
  member(q, key, st) {
    if (!q.items) return null; const out = [];
    for (const it of q.items) {
      let k = it; if (q.kind === "map") { const h = it.length === 1 && it[0].k === "o" && st.heap.get(it[0].id); if (!h || !h.items || !h.items.length) return null; k = h.items[0]; }
      if (k.length !== 1 || key.length !== 1) return null;
      const e = this.eqAtoms(k[0], key[0], true, st); if (e === true) out.push(it); else if (e !== false) return null;
    }
    return out;
  }
  // property descriptors of a known value, and back
  descOf(v, s) { const g = v.filter((x) => x.getter); return this.freshObj(s, g.length ? { get: g.map((x) => ({ ...x, getter: undefined })), set: UNDEF, enumerable: T([], "boolean"), configurable: T([], "boolean") } : { value: v, writable: TRUE, enumerable: T([], "boolean"), configurable: T([], "boolean") }); }
  descValue(d, k, s) { let v = BOT; for (const a of d) { const h = a.k === "o" && this.rec(s, a.id); if (!h) continue; if (h.props.has("value")) v = join(v, h.props.get("value")); if (h.props.has("get")) v = join(v, h.props.get("get").map((f) => (f.k === "fn" ? { ...f, getter: true, key: "get" + nid(f.node) + "@" + (f.env ? f.env.id : 0) } : f))); } return v; }
  raise(st, v, explicit) { if (this.handlers.length) this.handlers[this.handlers.length - 1].push({ s: st.clone(), v, explicit }); }

  // ---------- calling repository functions ----------
  // returns array of {s,v}
  callFn(atom, args, thisV, st, callNode) {
    const mk = this.opts.memo ? this.memoKey(atom, args, st) : null;
    if (mk) {
      const m = this.memoTab || (this.memoTab = new Map()); const hit = m.get(mk);
      if (hit) return hit.length ? [{ s: st, v: hit[0] }] : [];
      let rs = this.callFn0(atom, args, thisV, st, callNode);
      const rec = this.stack.filter((n) => n === atom.node).length;
      if (rs.every((r) => r.v.every((x) => x.k !== "o" && x.k !== "fn"))) { const j = this.joinRets(rs); const v = this.opts.collapse ? this.opts.collapse(j.v, j.s || st, this) : j.v; if (rec === 0) m.set(mk, j.s ? [v] : []); return j.s ? [{ s: st, v }] : []; }
      return rs;
    }
    return this.callFn0(atom, args, thisV, st, callNode);
  }
  memoKey(atom, args, st) {
    if (atom.env || !atom.node.body || this.handlers.length) return null;
    let k = nid(atom.node) + "(";
    for (const a of args) { for (const x of a) { if (x.k === "o" || x.k === "fn" || x.k === "nat") return null; if (x.k === "y") { k += x.p + "{"; for (const [p, f] of st.facts) if (p.includes(x.p)) k += p + JSON.stringify(f, (q, z) => typeof z === "bigint" ? z.toString(36) : z && z.key ? z.key : z === undefined ? "undef" : z) + ";"; k += "}"; } else k += atomKey(x); k += "|"; } k += ","; }
    return k;
  }
  callFn0(atom, args, thisV, st, callNode) {
    const node = atom.node;
    this.budget();
    if (!node.body) return [{ s: st, v: T([], undefined) }];
    this.fnSeen.add(node);
    // a number computed from primitives only: the value is summarised, not traced
    if (this.opts.pureNumeric && this.returnsNumber(node) && args.every((x) => x.every((a) => a.k === "c" || a.k === "s" || a.k === "y" || a.k === "t"))) { const L = new Set(); for (const x of args) for (const l of this.labels(x, st)) L.add(l); return [{ s: st, v: T(L, "number") }]; }
    const rec = this.stack.filter((n) => n === node).length;
    if (this.depth >= this.maxDepth || rec >= (this.opts.maxRec || 2)) {
      const L = new Set(); for (const a of args) for (const l of this.labels(a, st)) L.add(l);
      if (this.opts.onCutoff) { const v = this.opts.onCutoff(node, args, st, this); if (v) return [{ s: st, v }]; }
      return [{ s: st, v: T(L) }];
    }
    const ctx = (this.opts.callSiteHeap === false ? 0 : hashStr((this.curEnv ? this.curEnv.ctx : "") + "/" + (callNode ? nid(callNode) : 0) + (this.cbIdx ? "#" + this.cbIdx : ""))); this.cbIdx = 0;
    const env = { id: ++this.actCtr, node, parent: atom.env, ctx: (this.stack.length > 12 ? (this.curEnv ? this.curEnv.ctx : 0) : ctx), yields: BOT, thisV, genAtom: null };
    const saveEnv = this.curEnv; this.curEnv = env;
    this.stack.push(node); this.depth++;
    const saveH = this.handlers; let rejected = null;
    if (this.opts.promises && !node.asteriskToken && node.modifiers && node.modifiers.some((m) => m.kind === S.AsyncKeyword)) this.handlers = [...saveH, (rejected = [])];
    const promised = (rs) => (rejected ? [...rs.map((r) => { const s2 = r.s.clone(); return { v: this.promiseOf(s2, r.v), s: s2 }; }), ...rejected.map((q) => { const s2 = q.s.clone(); return { v: this.promiseOf(s2, q.v, true), s: s2 }; })] : rs);
    try {
      let s = st.clone();
      s = this.bindParams(node, args, s, env);
      if (!s) return promised([]);
      let results = [];
      const isGen = !!node.asteriskToken;
      if (isGen) { s = s.clone(); env.genAtom = this.alloc(s, node, "array", { items: [] })[0]; }
      if (ts.isBlock(node.body)) {
        // hoist nested function declarations implicitly via lookup
        const r = this.block(node.body.statements, s, env);
        for (const x of r.rets) results.push(x);
        if (r.n) results.push({ s: r.n, v: UNDEF });
      } else {
        const r = this.ev(node.body, s, env);
        if (r.s) results.push({ s: r.s, v: r.v });
      }
      if (isGen) {
        let j = null; for (const x of results) j = joinState(j, x.s);
        if (!j) j = st.clone();
        if (!j.heap.has(env.genAtom.id)) { const a = this.alloc(j, node, "array", { items: null, elem: env.yields, maybeEmpty: true }); results = [{ s: j, v: a }]; }
        else results = [{ s: j, v: [env.genAtom] }];
      }
      return promised(results);
    } finally { this.stack.pop(); this.depth--; this.curEnv = saveEnv; this.handlers = saveH; }
  }
  returnsNumber(node) {
    const m = this.numFns || (this.numFns = new Map()); let r = m.get(node);
    if (r === undefined) { r = false; try { const sg = this.checker.getSignatureFromDeclaration(node); const t = sg && sg.getReturnType(); r = !!t && !!(t.flags & ts.TypeFlags.NumberLike); } catch { /* unknown */ } m.set(node, r); }
    return r;
  }
  bindParams(node, args, s, env) {
    for (let i = 0; i < node.parameters.length; i++) {
      const p = node.parameters[i];
      if (ts.isIdentifier(p.name) && p.name.text === "this") continue;
      let v;
      if (p.dotDotDotToken) v = this.alloc(s, p, "array", args.spread ? { items: null, elem: [...args.slice(i)].reduce(join, BOT) } : { items: args.slice(i) });
      else if (i < args.length) v = args[i]; else v = args.spread ? join(args[args.length - 1] || BOT, UNDEF) : UNDEF;
      if (p.initializer && v.some((a) => a.k !== "c" || a.v === undefined)) {
        const hasUndef = v.some((a) => a.k === "c" && a.v === undefined);
        if (hasUndef) {
          const r = this.ev(p.initializer, s, env);
          if (r.s) { s = r.s; v = join(v.filter((a) => !(a.k === "c" && a.v === undefined)), r.v); }
        }
      }
      s = this.bind(p.name, v, s, env);
      if (!s) return null;
    }
    return s;
  }
  bind(name, v, st, env) {
    if (ts.isIdentifier(name)) {
      const d = name.parent; const key = this.varKey(d, env);
      if (key) st.vars.set(key, v);
      return st;
    }
    if (ts.isObjectBindingPattern(name)) {
      const used = [];
      for (const e of name.elements) {
        if (e.dotDotDotToken) { st = this.bind(e.name, this.restObj(v, used, st, e), st, env); continue; }
        let key;
        const pn = e.propertyName || e.name;
        if (ts.isComputedPropertyName(pn)) { const r = this.ev(pn.expression, st, env); if (!r.s) return null; st = r.s; key = this.keysOf(r.v); }
        else key = [pn.text];
        let x = BOT; if (key) for (const k of key) { used.push(k); x = join(x, this.getProp(v, k, st)); } else x = T(this.labels(v, st));
        if (e.initializer && x.some((a) => nullish(a, st) !== false)) {
          const r = this.ev(e.initializer, st, env); if (r.s) { st = r.s; x = join(x.filter((a) => !(a.k === "c" && a.v === undefined)), r.v); }
        }
        st = this.bind(e.name, x, st, env);
      }
      return st;
    }
    let i = 0;
    for (const e of name.elements) {
      if (ts.isOmittedExpression(e)) { i++; continue; }
      let x;
      if (e.dotDotDotToken) x = this.sliceFrom(v, i, st, e);
      else {
        x = this.getIndex(v, i, st);
        if (e.initializer) { const r = this.ev(e.initializer, st, env); if (r.s) { st = r.s; x = join(x.filter((a) => !(a.k === "c" && a.v === undefined)), r.v); } }
      }
      st = this.bind(e.name, x, st, env); i++;
    }
    return st;
  }
  restObj(v, used, st, node) {
    const props = new Map(); let rest = BOT;
    for (const a of v) {
      if (a.k === "o") { const r = this.rec(st, a.id); if (r) { for (const [k, x] of r.props) if (!used.includes(k)) props.set(k, props.has(k) ? join(props.get(k), x) : x); if (r.rest) rest = join(rest, r.rest); } }
      else if (a.k === "y" || a.k === "t") rest = join(rest, [a]);
    }
    return this.alloc(st, node, "object", { props, rest: rest.length ? rest : undefined });
  }
  sliceFrom(v, i, st, node) {
    let res = BOT;
    for (const a of v) {
      if (a.k === "o") { const r = this.rec(st, a.id); if (r && r.items) { res = join(res, this.alloc(st, node, "array", { items: r.items.slice(i) })); continue; } if (r) { res = join(res, this.alloc(st, node, "array", { items: null, elem: elemOf(r), maybeEmpty: true })); continue; } }
      if (a.k === "y") res = join(res, Y(a.p + ".slice(" + i + ")"));
      else if (a.k === "t") res = join(res, [a]);
    }
    return res;
  }

  // ---------- property access ----------
  keysOf(v) { // possible property keys, or null when unknown
    const out = [];
    for (const a of v) {
      let cs;
      if (a.k === "c") out.push(String(a.v));
      else if (a.k === "s" && this.opts.constOf && (cs = this.opts.constOf(a)) !== null) out.push(cs);
      else if (a.k === "y" && a.p.startsWith("symbol:")) out.push("@@" + a.p);
      else if (a.k === "y" && a.p.startsWith("global:Symbol.")) out.push("@@" + a.p);
      else return null;
    }
    return out;
  }
  symProp(a, key, st) {
    const p = clip(a.p + "." + key);
    if (this.opts.symProp) { const r = this.opts.symProp(a.p, key, st, this); if (r) return r; }
    const f = st.facts.get(p);
    if (f && "eq" in f) return C(f.eq);
    return Y(p);
  }
  // objects that are not created bare have the members of every object
  inherits(r, key) { return !!this.opts.concrete && r.kind === "object" && !r.bare && OBJECT_METHODS.has(key); }
  getProp(v, key, st) {
    let res = BOT;
    for (const a of v) {
      switch (a.k) {
        case "o": {
          const r = this.rec(st, a.id);
          if (!r) { res = join(res, T([])); break; }
          if (key === "length" && (r.kind === "array")) { res = join(res, r.items ? C(r.items.length) : Y("len:" + a.id)); break; }
          if (key === "size" && (r.kind === "map" || r.kind === "set")) { res = join(res, r.items ? C(r.items.length) : Y("len:" + a.id)); break; }
          if (r.props.has(key)) { res = join(res, this.getterOr(r.props.get(key), a, st)); break; }
          if (r.kind === "array" && /^\d+$/.test(key)) { res = join(res, r.items ? (r.items[+key] || UNDEF) : join(elemOf(r), UNDEF)); break; }
          if (r.rest) { res = join(res, this.getProp(r.rest, key, st)); break; }
          res = join(res, r.anyKey ? join(r.anyKey, UNDEF) : this.inherits(r, key) ? T(["inherited:" + key], "function") : UNDEF);
          break;
        }
        case "y": res = join(res, this.symProp(a, key, st)); break;
        case "t": res = join(res, [{ k: "t", L: a.L }]); break;
        case "s": case "c":
          if (key === "length" && a.k === "c" && typeof a.v === "string") res = join(res, C(a.v.length));
          else if (a.k === "c" && typeof a.v === "string" && /^\d+$/.test(key)) res = join(res, C(a.v[+key]));
          else if (a.k === "c" && a.v == null) { /* would throw */ }
          else res = join(res, T(labelsShallow(a)));
          break;
        case "fn": res = join(res, key === "length" ? C(a.node.parameters.length) : key === "name" ? T([], "string") : UNDEF); break;
        case "re": res = join(res, key === "source" ? C(a.src) : key === "flags" ? C(a.flags) : key === "global" ? C(a.flags.includes("g")) : key === "sticky" ? C(a.flags.includes("y")) : T([])); break;
        default: res = join(res, T([]));
      }
    }
    return res;
  }
  getterOr(v, self, st) {
    let out = BOT;
    for (const a of v) {
      if (a.k === "fn" && a.getter) { const rs = this.callFn({ k: "fn", node: a.node, env: a.env }, [], [self], st, a.node); for (const r of rs) out = join(out, r.v); if (this.opts.concrete && rs.length === 1) { const n = rs[0].s.clone(); st.vars = n.vars; st.heap = n.heap; st.facts = n.facts; } }
      else out = join(out, [a]);
    }
    return out;
  }
  getIndex(v, i, st) {
    let res = BOT;
    for (const a of v) {
      if (a.k === "o") { const r = this.rec(st, a.id); if (r && r.props.has(String(i))) { res = join(res, r.props.get(String(i))); continue; } if (r && (r.kind === "array" || r.kind === "map" || r.kind === "set")) { res = join(res, r.items ? (r.items[i] || UNDEF) : join(elemOf(r), r.nonEmpty ? BOT : UNDEF)); continue; } }
      res = join(res, this.getProp([a], String(i), st));
    }
    return res;
  }
  getElem(ov, kv, st) {
    const ks = this.keysOf(kv);
    if (ks) { let r = BOT; for (const k of ks) r = join(r, this.getProp(ov, k, st)); return r; }
    let res = BOT;
    for (const a of ov) {
      if (a.k === "o") {
        const r = this.rec(st, a.id);
        if (!r) { res = join(res, T([])); continue; }
        let x = elemOf(r); for (const y of r.props.values()) x = join(x, this.getterOr(y, a, st));
        if (r.rest) x = join(x, this.getElem(r.rest, kv, st));
        res = join(res, join(x, UNDEF));
      } else if (a.k === "y") res = join(res, this.symProp(a, "[" + this.termOf(kv) + "]", st));
      else if (a.k === "t") res = join(res, [{ k: "t", L: new Set([...a.L, ...this.labels(kv, st)]) }]);
      else res = join(res, T(new Set([...labelsShallow(a), ...this.labels(kv, st)]), a.k === "s" || a.k === "c" ? "string" : undefined));
    }
    return res;
  }
  // the JavaScript value of a wholly known plain value, or null
  jsonOf(v, st, d) {
    if (v.length !== 1 || d === 0) return null; const a = v[0]; if (a.k === "c") return typeof a.v === "bigint" || typeof a.v === "symbol" ? null : { v: a.v };
    if (a.k !== "o") return null; const h = this.rec(st, a.id); if (!h || h.rest || h.anyKey || (h.kind && h.kind !== "array" && h.kind !== "object") || h.props.has("toJSON")) return null;
    if (h.kind === "array") { if (!h.items) return null; const out = []; for (const x of h.items) { const y = this.jsonOf(x, st, d - 1); if (!y) return null; out.push(y.v); } return { v: out }; }
    const o = {}; for (const [k, x] of h.props) { if (k.startsWith("@@") || k === "__proto__") continue; const y = this.jsonOf(x, st, d - 1); if (!y) return null; o[k] = y.v; } return { v: o };
  }
  termOf(v) { return v.map((a) => a.k === "c" ? JSON.stringify(a.v) === undefined ? String(a.v) : JSON.stringify(a.v) : a.k === "y" ? a.p : a.k === "o" ? "obj" : a.k === "fn" ? "fn" : a.k === "s" ? "str(" + partsLabels(a.parts).join(",") + ")" : a.k === "t" ? "T(" + [...a.L].sort().slice(0, 3).join(",") + ")" : a.k).sort().join("|"); }
  setProp(ov, keys, v, st) {
    for (const a of ov) {
      if (a.k === "y") { if (keys) for (const k of keys) { const p = clip(a.p + "." + k); st.facts.delete(p); } this.event("symwrite", { path: a.p, keys, v, st }); continue; }
      if (a.k !== "o") continue;
      const r = this.rec(st, a.id); if (!r) continue;
      const n = { ...r, props: new Map(r.props), splitOf: undefined };
      const strong = ov.length === 1 && !r.summary && keys && keys.length === 1;
      if (!keys) { n.anyKey = join(n.anyKey || BOT, v); if (n.kind === "array") { n.elem = join(elemOf(n), v); n.items = null; } else n.elem = join(n.elem || BOT, v); }
      else for (const k of keys) {
        if (n.kind === "array" && /^\d+$/.test(k)) { if (n.items && strong && +k <= n.items.length) { n.items = n.items.slice(); n.items[+k] = v; } else { n.elem = join(elemOf(n), v); n.items = null; } }
        else if (n.kind === "array" && k === "length") { const w = v.length === 1 && v[0].k === "c" && n.items && strong && Number.isInteger(v[0].v) && v[0].v >= 0 && v[0].v <= n.items.length + 200 ? v[0].v : -1; n.items = w < 0 ? null : Array.from({ length: w }, (_, i) => n.items[i] || UNDEF); }
        else n.props.set(k, strong ? v : join(n.props.has(k) ? n.props.get(k) : UNDEF, v));
      }
      st.heap.set(a.id, n);
    }
  }
  pushElems(a, vals, st, front) {
    const r = this.rec(st, a.id); if (!r) return;
    const n = { ...r, splitOf: undefined };
    if (n.items && !n.summary && n.items.length + vals.length <= (this.opts.concrete ? 400 : 24)) n.items = front ? [...vals, ...n.items] : [...n.items, ...vals];
    else { n.elem = [elemOf(n), ...vals].reduce(join, BOT); n.items = null; n.maybeEmpty = true; }
    st.heap.set(a.id, n);
  }
  event(kind, info) { if (this.opts.onEvent) this.opts.onEvent(kind, info, this); }

  // ---------- statements ----------
  // result: {n: State|null, rets:[{s,v}], brk: Map(label->State), cont: Map}
  block(stmts, st, env) {
    const out = { n: st, rets: [], brk: new Map(), cont: new Map() };
    for (const x of stmts) {
      if (!out.n) break;
      const r = this.stmt(x, out.n, env);
      this.merge(out, r); out.n = r.n;
    }
    return out;
  }
  merge(o, r) {
    for (const x of r.rets) o.rets.push(x);
    for (const [k, s] of r.brk) o.brk.set(k, joinState(o.brk.get(k), s));
    for (const [k, s] of r.cont) o.cont.set(k, joinState(o.cont.get(k), s));
    if (o.rets.length > 24) { // keep returns with distinguishable value keys separate
      const m = new Map();
      for (const x of o.rets) { const k = valKey(x.v); const e = m.get(k); m.set(k, e ? { s: joinState(e.s, x.s), v: x.v } : x); }
      let l = [...m.values()];
      if (l.length > 24) { let s = null, v = BOT; for (const x of l) { s = joinState(s, x.s); v = join(v, x.v); } l = [{ s, v }]; }
      o.rets = l;
    }
  }
  N(n) { return { n, rets: [], brk: new Map(), cont: new Map() }; }
  stmt(x, st, env, label) {
    this.budget();
    if (this.opts.onStmt) this.opts.onStmt(x, st, this);
    switch (x.kind) {
      case S.Block: return this.block(x.statements, st, env);
      case S.EmptyStatement: case S.FunctionDeclaration: case S.TypeAliasDeclaration: case S.InterfaceDeclaration: case S.ClassDeclaration: case S.ImportDeclaration: case S.ExportDeclaration: case S.DebuggerStatement: return this.N(st);
      case S.VariableStatement: {
        for (const d of x.declarationList.declarations) {
          let v = UNDEF;
          if (d.initializer) { const r = this.ev(d.initializer, st, env); if (!r.s) return this.N(null); st = r.s; v = r.v; }
          st = st.clone(); st = this.bind(d.name, v, st, env); if (!st) return this.N(null);
        }
        return this.N(st);
      }
      case S.ExpressionStatement: { const r = this.ev(x.expression, st, env); return this.N(r.s); }
      case S.ReturnStatement: {
        let r = x.expression ? this.evRets(x.expression, st, env) : [{ s: st, v: UNDEF }];
        return { n: null, rets: r, brk: new Map(), cont: new Map() };
      }
      case S.IfStatement: {
        const c = this.cond(x.expression, st, env);
        const out = this.N(null);
        if (c.t) { const r = this.stmt(x.thenStatement, c.t, env); this.merge(out, r); out.n = r.n; }
        if (c.f) { if (x.elseStatement) { const r = this.stmt(x.elseStatement, c.f, env); this.merge(out, r); out.n = joinState(out.n, r.n); } else out.n = joinState(out.n, c.f); }
        return out;
      }
      case S.ThrowStatement: { const r = this.ev(x.expression, st, env); if (r.s) { this.event("throw", { node: x, v: r.v, st: r.s }); this.raise(r.s, r.v, true); } return this.N(null); }
      case S.BreakStatement: { const o = this.N(null); o.brk.set(x.label ? x.label.text : "", st); return o; }
      case S.ContinueStatement: { const o = this.N(null); o.cont.set(x.label ? x.label.text : "", st); return o; }
      case S.LabeledStatement: { const r = this.stmt(x.statement, st, env, x.label.text); const s = r.brk.get(x.label.text); if (s) { r.brk.delete(x.label.text); r.n = joinState(r.n, s); } return r; }
      case S.WhileStatement: case S.DoStatement: case S.ForStatement: case S.ForOfStatement: case S.ForInStatement: return this.loop(x, st, env, label);
      case S.SwitchStatement: return this.switchStmt(x, st, env);
      case S.TryStatement: return this.tryStmt(x, st, env);
      default: this.note(x); return this.N(st);
    }
  }
  note(x) { const k = S[x.kind]; this.unmodelled.set(k, (this.unmodelled.get(k) || 0) + 1); }
  loop(x, st, env, label) {
    const out = this.N(null);
    if (x.kind === S.ForStatement && x.initializer) {
      if (ts.isVariableDeclarationList(x.initializer)) { for (const d of x.initializer.declarations) { let v = UNDEF; if (d.initializer) { const r = this.ev(d.initializer, st, env); if (!r.s) return out; st = r.s; v = r.v; } st = st.clone(); st = this.bind(d.name, v, st, env); } }
      else { const r = this.ev(x.initializer, st, env); if (!r.s) return out; st = r.s; }
    }
    let iter = null, mapKeys = null;
    if (x.kind === S.ForOfStatement || x.kind === S.ForInStatement) {
      const r = this.ev(x.expression, st, env); if (!r.s) return out; st = r.s; iter = r.v;
    }
    const bindIter = (s, v) => {
      s = s.clone();
      if (ts.isVariableDeclarationList(x.initializer)) return this.bind(x.initializer.declarations[0].name, v, s, env);
      return this.assign(x.initializer, v, s, env);
    };
    const runBody = (s) => {
      const r = this.stmt(x.statement, s, env);
      for (const q of r.rets) out.rets.push(q);
      let next = r.n;
      for (const lb of ["", label]) if (lb !== undefined) { next = joinState(next, r.cont.get(lb)); r.cont.delete(lb); const b = r.brk.get(lb); if (b) { out.n = joinState(out.n, b); r.brk.delete(lb); } }
      for (const [k, s2] of r.brk) out.brk.set(k, joinState(out.brk.get(k), s2));
      for (const [k, s2] of r.cont) out.cont.set(k, joinState(out.cont.get(k), s2));
      return next;
    };
    if (this.opts.concrete && x.kind === S.ForInStatement && iter.length === 1 && iter[0].k === "o") {
      const r = this.rec(st, iter[0].id);
      if (r && r.kind === "object" && !r.rest && !r.anyKey && !r.summary) {
        let s = st; const c0 = env.ctx; let k = 0;
        for (const key of r.props.keys()) { if (!s) break; if (key.startsWith("@@")) continue; if (k++) env.ctx = hashStr(c0 + "#" + k); s = runBody(bindIter(s, C(key))); }
        env.ctx = c0; out.n = joinState(out.n, s); return this.compact(out);
      }
    }
    // exact unrolling over short known arrays
    if (x.kind === S.ForOfStatement && iter.length === 1 && iter[0].k === "o") {
      const r = this.rec(st, iter[0].id);
      if (r && r.items && r.items.length <= this.exact) {
        let s = st;
        const c0 = env.ctx; let k = 0;
        for (const it of r.items) { if (!s) break; if (k++) env.ctx = hashStr(c0 + "#" + k); s = runBody(bindIter(s, it)); }
        env.ctx = c0;
        out.n = joinState(out.n, s);
        return this.compact(out);
      }
    }
    const elem = iter ? this.iterElem(iter, st, x) : null;
    const canSkipAll = iter ? true : undefined;
    let head = st, prev = null;
    if (!iter && x.kind !== S.DoStatement && (x.condition || x.kind === S.WhileStatement) && (x.kind === S.ForStatement ? x.condition : x.expression).kind !== S.TrueKeyword) {
      const c0 = env.ctx;
      for (let i = 0; i < (this.opts.concrete ? 200 : 12) && head; i++) {
        if (i) env.ctx = hashStr(c0 + "#" + i);
        const c = this.cond(x.kind === S.ForStatement ? x.condition : x.expression, head, env);
        if (!c.t) { env.ctx = c0; out.n = joinState(out.n, c.f); return this.compact(out); }
        if (c.f) break;
        let next = runBody(c.t);
        if (next && x.kind === S.ForStatement && x.incrementor) { const r = this.ev(x.incrementor, next, env); next = r.s; }
        head = next;
      }
      env.ctx = c0;
      if (!head) return this.compact(out);
    }
    if (this.opts.concrete && !iter) {
      const bare = x.kind === S.DoStatement || (x.kind === S.ForStatement && !x.condition) || (x.kind === S.WhileStatement && x.expression.kind === S.TrueKeyword) || (x.kind === S.ForStatement && x.condition.kind === S.TrueKeyword);
      if (bare) for (let i = 0; i < 200 && head; i++) {
        let next = runBody(head);
        if (next && x.kind === S.ForStatement && x.incrementor) next = this.ev(x.incrementor, next, env).s;
        if (next && x.kind === S.DoStatement) { const c = this.cond(x.expression, next, env); out.n = joinState(out.n, c.f); next = c.t; if (c.f && c.t) { head = next; break; } }
        head = next;
      }
      if (!head) return this.compact(out);
    }
    for (let i = 0; ; i++) {
      let bodyIn, exit;
      if (iter) { exit = head; bodyIn = elem.length ? bindIter(head, elem) : null; if (this.iterNonEmpty(iter, st) && i === 0) exit = null; }
      else if (x.kind === S.DoStatement) { bodyIn = head; exit = null; }
      else if (x.kind === S.ForStatement && !x.condition) { bodyIn = head; exit = null; }
      else { const c = this.cond(x.kind === S.ForStatement ? x.condition : x.expression, head, env); bodyIn = c.t; exit = c.f; }
      out.n = joinState(out.n, exit);
      let next = bodyIn ? runBody(bodyIn) : null;
      if (next && x.kind === S.ForStatement && x.incrementor) { const r = this.ev(x.incrementor, next, env); next = r.s; }
      if (next && x.kind === S.DoStatement) { const c = this.cond(x.expression, next, env); out.n = joinState(out.n, c.f); next = c.t; }
      if (!next) break;
      let nh = joinState(head, next);
      if (i >= (this.opts.widenAt ?? 2)) nh = this.widen(head, nh);
      if (sameState(nh, head)) { out.n = joinState(out.n, iter ? head : null); break; }
      head = nh;
      if (i > 12) { break; }
    }
    return this.compact(out);
  }
  compact(out) { const o = this.N(out.n); o.brk = out.brk; o.cont = out.cont; this.merge(o, { rets: out.rets, brk: new Map(), cont: new Map() }); return o; }
  iterNonEmpty(v, st) { return v.length > 0 && v.every((a) => a.k === "o" && (() => { const r = this.rec(st, a.id); return r && r.items && r.items.length > 0; })()); }
  iterElem(v, st, x) {
    let e = BOT;
    if (x.kind === S.ForInStatement) { for (const a of v) { if (a.k === "o") { const r = this.rec(st, a.id); if (r) { for (const k of r.props.keys()) if (!k.startsWith("@@")) e = join(e, C(k)); if (r.rest || r.kind === "array") e = join(e, T(["key"], "string")); } } else e = join(e, a.k === "y" ? Y("key(" + a.p + ")") : T(labelsShallow(a), "string")); } return e; }
    for (const a of v) e = join(e, this.elemAtom(a, st));
    return e;
  }
  elemAtom(a, st) {
    if (a.k === "o") { const r = this.rec(st, a.id); if (!r) return T([]); if (r.kind === "map") return elemOf(r); return r.kind === "array" || r.kind === "set" ? elemOf(r) : r.rest ? this.elemAtom(r.rest[0], st) : BOT; }
    if (a.k === "y") { if (this.opts.symElem) { const q = this.opts.symElem(a.p, st, this); if (q) return q; } return Y("elem(" + a.p + ")"); }
    if (a.k === "t") return [{ k: "t", L: a.L }];
    if (a.k === "s" || (a.k === "c" && typeof a.v === "string")) return this.opts.charElem ? this.opts.charElem(a, st, this) : T(labelsShallow(a), "string");
    return BOT;
  }
  widen(a, b) {
    const s = b.clone();
    for (const [k, v] of b.vars) { const o = a.vars.get(k); if (o !== undefined && o !== v && valKey(o) !== valKey(v)) s.vars.set(k, this.widenV(o, v, b)); }
    for (const [k, r] of b.heap) {
      const o = a.heap.get(k); if (!o || o === r || recKey(o) === recKey(r)) continue;
      const n = { ...r, props: new Map(r.props) };
      for (const [p, v] of r.props) { const q = o.props.get(p); if (q === undefined || valKey(q) !== valKey(v)) n.props.set(p, this.widenV(q || BOT, v, b)); }
      if (r.items && (!o.items || o.items.length !== r.items.length)) { n.elem = elemOf(r); n.items = null; n.maybeEmpty = true; }
      if (!n.items) { const oe = elemOf(o), ne = elemOf(n); if (valKey(oe) !== valKey(ne)) n.elem = this.widenV(oe, ne, b); }
      s.heap.set(k, n);
    }
    return s;
  }
  widenV(o, v, st) {
    const ok = new Set(o.map(atomKey)); const news = v.filter((a) => !ok.has(atomKey(a)));
    const keep = v.filter((a) => a.k === "fn" || a.k === "o" || a.k === "nat" || a.k === "re" || (a.k === "c" && typeof a.v !== "string" && typeof a.v !== "number") );
    let rest = v.filter((a) => !keep.includes(a));
    if (news.every((a) => keep.includes(a))) return v;
    // number counters
    const L = new Set(); let ty; let first = true;
    const strs = rest.filter((a) => a.k === "s" || (a.k === "c" && typeof a.v === "string") || (a.k === "t" && a.ty === "string"));
    for (const a of rest) { for (const l of labelsShallow(a)) L.add(l); const t = a.k === "s" ? "string" : a.k === "c" ? typeof a.v : a.k === "t" ? a.ty : undefined; ty = first ? t : ty === t ? t : undefined; first = false; }
    // opaque symbols: keep when few
    if (rest.every((a) => a.k === "y") && rest.length <= 6) { const paths = rest.filter((a) => news.includes(a) && /(\(elem|\.next|#).*\1/.test(a.p)); if (paths.length === 0) return v; }
    if (strs.length === rest.length && this.opts.widenStrings) { let w = this.opts.widenStrings(strs, this); if (!w && this.opts.repFallback && strs.every((a) => a.k !== 's' || a.parts.every((p) => !p.rep || p.rep.every((q) => q.every((z) => !z.rep))))) w = [{ k: "s", parts: [{ rep: strs.map((a) => this.partsOfAtom(a, st)), sep: "" }] }]; if (w) return [...keep, ...w]; }
    return [...keep, { k: "t", L, ty }];
  }
  switchStmt(x, st, env) {
    const out = this.N(null);
    const r = this.ev(x.expression, st, env); if (!r.s) return out;
    let cur = r.s, fall = null, def = null, defIdx = -1; const entries = [];
    const clauses = x.caseBlock.clauses;
    const entry = new Map();
    for (const c of clauses) {
      if (ts.isDefaultClause(c)) continue;
      if (!cur) { entry.set(c, null); continue; }
      const cr = this.condEq(x.expression, c.expression, true, cur, env);
      entry.set(c, cr.t); cur = cr.f;
    }
    let hasDef = false;
    for (const c of clauses) if (ts.isDefaultClause(c)) { entry.set(c, cur); hasDef = true; }
    if (!hasDef) out.n = joinState(out.n, cur);
    for (const c of clauses) {
      let s = joinState(fall, entry.get(c)); fall = null;
      if (!s) continue;
      const b = this.block(c.statements, s, env);
      const br = b.brk.get(""); if (br) { out.n = joinState(out.n, br); b.brk.delete(""); }
      this.merge(out, b); fall = b.n;
    }
    out.n = joinState(out.n, fall);
    return out;
  }
  tryStmt(x, st, env) {
    const h = []; const saved = this.handlers;
    this.handlers = [...saved, h];
    const r = this.block(x.tryBlock.statements, st, env);
    this.handlers = saved;
    let out = r;
    const pendingThrows = [];
    if (x.catchClause) {
      let cs = null, cv = BOT;
      for (const t of h) { cs = joinState(cs, t.s); cv = join(cv, t.v || BOT); }
      if (cs) {
        cs = cs.clone();
        if (x.catchClause.variableDeclaration) cs = this.bind(x.catchClause.variableDeclaration.name, cv.length ? cv : Y("caught"), cs, env);
        const fh = []; if (x.finallyBlock) this.handlers = [...saved, fh];
        const cr = this.block(x.catchClause.block.statements, cs, env);
        this.handlers = saved; pendingThrows.push(...fh);
        const o = this.N(joinState(r.n, cr.n)); this.merge(o, r); this.merge(o, cr); out = o;
      }
    } else pendingThrows.push(...h);
    if (x.finallyBlock) {
      const o = this.N(null);
      const runF = (s) => this.block(x.finallyBlock.statements, s, env);
      if (out.n) { const f = runF(out.n); this.merge(o, f); o.n = f.n; }
      for (const q of out.rets) { const f = runF(q.s); this.merge(o, f); if (f.n) o.rets.push({ s: f.n, v: q.v }); }
      for (const m of ["brk", "cont"]) for (const [k, s] of out[m]) { const f = runF(s); this.merge(o, f); if (f.n) o[m].set(k, joinState(o[m].get(k), f.n)); }
      let ts_ = null, tv = BOT; for (const t of pendingThrows) { ts_ = joinState(ts_, t.s); tv = join(tv, t.v || BOT); }
      if (ts_) { const f = runF(ts_); this.merge(o, f); if (f.n) this.raise(f.n, tv); }
      return o;
    }
    if (!x.catchClause) for (const t of pendingThrows) this.raise(t.s, t.v);
    return out;
  }

  // ---------- conditions ----------
  cond(e, st, env) {
    this.budget();
    switch (e.kind) {
      case S.ParenthesizedExpression: case S.AsExpression: case S.NonNullExpression: case S.TypeAssertionExpression: case S.SatisfiesExpression: return this.cond(e.expression, st, env);
      case S.AwaitExpression: if (this.opts.promises) break; return this.cond(e.expression, st, env);
      case S.PrefixUnaryExpression: if (e.operator === S.ExclamationToken) { const c = this.cond(e.operand, st, env); return { t: c.f, f: c.t }; } break;
      case S.BinaryExpression: {
        const op = e.operatorToken.kind;
        if (op === S.AmpersandAmpersandToken) { const a = this.cond(e.left, st, env); if (!a.t) return { t: null, f: a.f }; const b = this.cond(e.right, a.t, env); return { t: b.t, f: joinState(a.f, b.f) }; }
        if (op === S.BarBarToken) { const a = this.cond(e.left, st, env); if (!a.f) return { t: a.t, f: null }; const b = this.cond(e.right, a.f, env); return { t: joinState(a.t, b.t), f: b.f }; }
        if (op === S.CommaToken) { const r = this.ev(e.left, st, env); return r.s ? this.cond(e.right, r.s, env) : { t: null, f: null }; }
        if (op === S.EqualsEqualsEqualsToken || op === S.EqualsEqualsToken) return this.condEq(e.left, e.right, op === S.EqualsEqualsEqualsToken, st, env);
        if (op === S.ExclamationEqualsEqualsToken || op === S.ExclamationEqualsToken) { const c = this.condEq(e.left, e.right, op === S.ExclamationEqualsEqualsToken, st, env); return { t: c.f, f: c.t }; }
        break;
      }
      case S.ConditionalExpression: { const c = this.cond(e.condition, st, env); let t = null, f = null; if (c.t) { const a = this.cond(e.whenTrue, c.t, env); t = joinState(t, a.t); f = joinState(f, a.f); } if (c.f) { const a = this.cond(e.whenFalse, c.f, env); t = joinState(t, a.t); f = joinState(f, a.f); } return { t, f }; }
      case S.CallExpression: {
        const rs = this.callExpr(e, st, env);
        let t = null, f = null;
        const pr = this.opts.strPredicate ? this.opts.strPredicate(e, st, env, this) : null;
        for (const { s, v } of rs) {
          const sp = this.splitTruth(v, s);
          if (sp.t.length) t = joinState(t, this.refineSym(v, sp.t, true, s, e, env));
          if (sp.f.length) f = joinState(f, this.refineSym(v, sp.f, false, s, e, env));
        }
        if (pr) { if (t) t = this.refineLang(pr.target, pr.yes, t, env); if (f) f = this.refineLang(pr.target, pr.no, f, env); }
        return { t, f };
      }
    }
    const r = this.ev(e, st, env);
    if (!r.s) return { t: null, f: null };
    const sp = this.splitTruth(r.v, r.s);
    return { t: sp.t.length ? this.refine(e, sp.t, true, r.s, env) : null, f: sp.f.length ? this.refine(e, sp.f, false, r.s, env) : null };
  }
  splitTruth(v, st) {
    const t = [], f = [];
    for (const a of v) { const x = truth(a, st); if (x !== false) t.push(a); if (x !== true) f.push(a); }
    return { t, f };
  }
  // narrow the storage that expression e denotes to the given atoms, and if the
  // narrowed value is one opaque input record its truthiness
  refine(e, atoms, truthy, st, env) {
    let s = st;
    e = strip(e);
    if (ts.isIdentifier(e)) { const d = this.declOf(this.symOf(e)); if (d && (ts.isVariableDeclaration(d) || ts.isParameter(d) || ts.isBindingElement(d))) { const k = this.varKey(d, env); if (k) { const old = st.vars.get(k); if (old && old.length !== atoms.length) { s = s.clone(); s.vars.set(k, atoms); } } } }
    else if (ts.isPropertyAccessExpression(e)) s = this.refineProp(e, atoms, s, env);
    if (atoms.length === 1 && atoms[0].k === "y") s = this.addFact(s, atoms[0].p, { truthy });
    if (truthy === true && ts.isPropertyAccessExpression(e) && e.questionDotToken) s = this.refineNonNull(e.expression, s, env);
    return s;
  }
  refineNonNull(e, st, env) {
    const r = this.ev(e, st, env); if (!r.s) return st;
    const at = r.v.filter((a) => nullish(a, st) !== true);
    let s = st; const e2 = strip(e);
    if (ts.isIdentifier(e2)) { const d = this.declOf(this.symOf(e2)); const k = d && (ts.isVariableDeclaration(d) || ts.isParameter(d) || ts.isBindingElement(d)) ? this.varKey(d, env) : null; if (k && at.length && at.length !== r.v.length) { s = s.clone(); s.vars.set(k, at); } }
    if (at.length === 1 && at[0].k === "y") s = this.addFact(s, at[0].p, { nullish: false });
    return s;
  }
  refineProp(e, atoms, st, env) {
    // o.p narrowed: strong update when o is one known non-summary object
    if (!ts.isIdentifier(e.expression) && !ts.isPropertyAccessExpression(e.expression)) return st;
    const save = this.opts.onEvent; this.opts.onEvent = undefined;
    let r; try { r = this.ev(e.expression, st, env); } finally { this.opts.onEvent = save; }
    if (!r.s || r.v.length !== 1 || r.v[0].k !== "o") {
      // drop object alternatives that cannot have the narrowed value
      if (r.s && r.v.length > 1 && ts.isIdentifier(e.expression)) {
        const want = new Set(atoms.map(atomKey));
        const keep = r.v.filter((a) => { if (a.k !== "o") return a.k === "c" && a.v == null ? false : true; const pv = this.getProp([a], e.name.text, r.s); return pv.some((x) => want.has(atomKey(x))); });
        if (keep.length && keep.length < r.v.length) { const d = this.declOf(this.symOf(e.expression)); const k = d && (ts.isVariableDeclaration(d) || ts.isParameter(d) || ts.isBindingElement(d)) ? this.varKey(d, env) : null; if (k) { const s = st.clone(); s.vars.set(k, keep); return s; } }
      }
      return st;
    }
    const rec = this.rec(st, r.v[0].id); if (!rec || rec.summary || !rec.props.has(e.name.text)) return st;
    const s = st.clone(); const n = { ...rec, props: new Map(rec.props) }; n.props.set(e.name.text, atoms); s.heap.set(r.v[0].id, n); return s;
  }
  // keep only the texts of language l in the storage denoted by e
  refineLang(e, l, st, env) {
    e = strip(e);
    const save = this.opts.onEvent; this.opts.onEvent = undefined;
    let r; try { r = this.ev(e, st, env); } finally { this.opts.onEvent = save; }
    if (!r.s) return st;
    let s = st; const out = []; let changed = false;
    for (const a of r.v) {
      const q = this.opts.strRestrict(a, l, s, this);
      if (q === null) { changed = true; continue; }
      if (q !== a) changed = true;
      if (a.k === "y" && q.fact) { if (r.v.length === 1) { s = s.clone(); s.facts.set(a.p, { ...(s.facts.get(a.p) || {}), lang: q.fact }); } out.push(a); continue; }
      out.push(q);
    }
    if (out.length === 0) return null;
    if (!changed) return s;
    if (ts.isIdentifier(e)) { const d = this.declOf(this.symOf(e)); const k = d && (ts.isVariableDeclaration(d) || ts.isParameter(d) || ts.isBindingElement(d)) ? this.varKey(d, env) : null; if (k) { s = s.clone(); s.vars.set(k, out); } }
    else if (ts.isPropertyAccessExpression(e)) s = this.refineProp(e, out, s, env);
    return s;
  }
  refineSym(v, atoms, truthy, st) {
    let s = st;
    if (atoms.length === 1 && atoms[0].k === "y") s = this.addFact(s, atoms[0].p, { truthy });
    return s;
  }
  addFact(st, p, f) {
    const old = st.facts.get(p); const n = { ...(old || {}), ...f };
    if (old && factStr(old) === factStr(n)) return st;
    const s = st.clone(); s.facts.set(p, n);
    if (this.opts.onFact) return this.opts.onFact(s, p, f, this) || s;
    return s;
  }
  // equality condition
  condEq(le, re, strict, st, env) {
    // typeof x === "string"
    const L0 = strip(le), R0 = strip(re);
    for (const [a, b] of [[L0, R0], [R0, L0]]) if (ts.isTypeOfExpression(a) && ts.isStringLiteralLike(b)) return this.condTypeof(a.expression, b.text, st, env);
    const lr = this.ev(le, st, env); if (!lr.s) return { t: null, f: null };
    const rr = this.ev(re, lr.s, env); if (!rr.s) return { t: null, f: null };
    const s = rr.s; let canT = false, canF = false; const lt = new Set(), lf = new Set(), rt = new Set(), rf = new Set();
    for (const a of lr.v) for (const b of rr.v) {
      const q = this.eqAtoms(a, b, strict, s);
      if (q !== false) { canT = true; lt.add(a); rt.add(b); }
      if (q !== true) { canF = true; lf.add(a); rf.add(b); }
    }
    const mk = (can, la, ra, eq) => {
      if (!can) return null;
      let x = s;
      x = this.refineEq(le, [...la], rr.v, eq, strict, x, env);
      x = this.refineEq(re, [...ra], lr.v, eq, strict, x, env);
      return x;
    };
    return { t: mk(canT, lt, rt, true), f: mk(canF, lf, rf, false) };
  }
  refineEq(e, atoms, other, eq, strict, st, env) {
    let s = st; e = strip(e);
    if (this.opts.strRefine && other.length === 1 && other[0].k === "c" && typeof other[0].v === "string") atoms = atoms.map((x) => x.k === "s" ? this.opts.strRefine(x, other[0].v, eq, this) : x);
    if (ts.isIdentifier(e)) { const d = this.declOf(this.symOf(e)); if (d && (ts.isVariableDeclaration(d) || ts.isParameter(d) || ts.isBindingElement(d))) { const k = this.varKey(d, env); if (k) { const old = st.vars.get(k); if (old && atoms.length && old.length !== atoms.length) { s = s.clone(); s.vars.set(k, atoms); } } } }
    else if (ts.isPropertyAccessExpression(e) && atoms.length) s = this.refineProp(e, atoms, s, env);
    if (atoms.length === 1 && atoms[0].k === "y" && other.length === 1 && other[0].k === "c") {
      const c = other[0].v;
      if (!strict && c == null) s = this.addFact(s, atoms[0].p, eq ? { nullish: true } : { nullish: false });
      else if (eq) s = this.addFact(s, atoms[0].p, { eq: c });
      else if (c === undefined || c === null) s = this.addFact(s, atoms[0].p, { ["ne" + String(c)]: true });
      else if (typeof c === "boolean") s = this.addFact(s, atoms[0].p, { ["ne" + String(c)]: true });
      else s = this.addFact(s, atoms[0].p, { ["ne:" + typeof c + ":" + String(c)]: true });
    }
    return s;
  }
  eqAtoms(a, b, strict, st) {
    const val = (x) => { if (x.k === "c") return x; if (x.k === "y") { const f = st.facts.get(x.p); if (f && "eq" in f) return { k: "c", v: f.eq }; } return x; };
    a = val(a); b = val(b);
    if (a.k === "nat" && b.k === "nat") return a === b || a.call === b.call;
    if (a.k === "c" && b.k === "c") return strict ? a.v === b.v : a.v == b.v; // eslint-disable-line eqeqeq
    for (const [x, y] of [[a, b], [b, a]]) if (y.k === "c") {
      if (x.k === "o" || x.k === "fn" || x.k === "nat" || x.k === "re") return false;
      if (x.k === "s" && typeof y.v !== "string") return false;
      if (x.k === "s" && typeof y.v === "string" && this.opts.strEq) { const q = this.opts.strEq(x, y.v, this); if (q !== undefined) return q; }
      if (x.k === "t" && x.ty && (y.v == null || typeof y.v !== x.ty)) return false;
      if (x.k === "y") {
        if (x.p.startsWith("symbol:")) return false;
        if (x.p.startsWith("len:") && y.v === 0) { const f = st.facts.get(x.p); if (f && f.truthy !== undefined) return !f.truthy; }
        const f = st.facts.get(x.p);
        if (f) {
          if (y.v == null) { if (!strict) { const n = nullish(x, st); if (n !== undefined) return n; } else { if (f["ne" + String(y.v)] || nullish(x, st) === false) return false; } }
          else { if (f.nullish === true || f.undef) return false; if (f["ne:" + typeof y.v + ":" + String(y.v)] || f["ne" + String(y.v)]) return false; if (f.typeof && f.typeof !== typeof y.v && !(f.typeof === "object")) return false; if (f.typeof === "object") return false; }
          if (f.truthy === true && !y.v) return false;
          if (f.truthy === false && y.v) return false;
        }
      }
    }
    if (a.k === "o" && b.k === "o") { if (a.id !== b.id) return false; const r = this.rec(st, a.id); return r && !r.summary ? true : undefined; }
    if (a.k === "y" && b.k === "y" && a.p === b.p && !/\(/.test(a.p)) return true;
    if (a.k === "y" && b.k === "y" && a.p.startsWith("symbol:") && b.p.startsWith("symbol:")) return a.p === b.p;
    if ((a.k === "o" && (b.k === "fn" || b.k === "s")) || (b.k === "o" && (a.k === "fn" || a.k === "s"))) return false;
    if (a.k === "fn" && b.k === "fn") return atomKey(a) === atomKey(b) ? true : (a.node !== b.node ? false : undefined);
    return undefined;
  }
  typeOfAtom(a, st) {
    switch (a.k) {
      case "c": return a.v === null ? "object" : typeof a.v;
      case "s": return "string";
      case "fn": case "nat": return "function";
      case "o": case "re": return "object";
      case "y": { if (a.p.startsWith("symbol:")) return "symbol"; if (a.p.startsWith("len:")) return "number"; const f = st.facts.get(a.p); if (f) { if (f.typeof) return f.typeof; if ("eq" in f) return f.eq === null ? "object" : typeof f.eq; } return this.opts.symTypeof ? this.opts.symTypeof(a.p, st) : undefined; }
      case "t": return a.ty;
    }
  }
  condTypeof(e, want, st, env) {
    const r = this.ev(e, st, env); if (!r.s) return { t: null, f: null };
    const t = [], f = [];
    for (const a of r.v) { const q = this.typeOfAtom(a, r.s); const fact = a.k === "y" ? r.s.facts.get(a.p) : undefined;
      let d = q === undefined ? undefined : q === want;
      if (d === undefined && a.k === "y") { const n = nullish(a, r.s); if (want === "undefined" && n === false) d = false; if (n === true && want !== "undefined" && want !== "object") d = false; if (fact && fact["nt:" + want]) d = false; }
      if (d !== false) t.push(a); if (d !== true) f.push(a); }
    const mk = (atoms, is) => {
      if (!atoms.length) return null;
      let s = this.refine(e, atoms, undefined, r.s, env);
      if (atoms.length === 1 && atoms[0].k === "y") s = this.addFact(s, atoms[0].p, is ? (want === "undefined" ? { eq: undefined } : want === "object" ? { typeof: want } : { typeof: want, nullish: false }) : { ["nt:" + want]: true });
      return s;
    };
    return { t: mk(t, true), f: mk(f, false) };
  }

  // ---------- expressions ----------
  ev(e, st, env) {
    this.budget();
    switch (e.kind) {
      case S.ParenthesizedExpression: case S.AsExpression: case S.NonNullExpression: case S.TypeAssertionExpression: case S.SatisfiesExpression: return this.ev(e.expression, st, env);
      case S.AwaitExpression: { const r = this.ev(e.expression, st, env); if (this.opts.promises) return r.s ? this.joinRets(this.settle(r.v, r.s, e)) : r; if (r.s && this.handlers.length && !this.opts.noRejections) this.raise(r.s, Y("rejection")); return r; }
      case S.NumericLiteral: return { v: C(Number(e.text.replace(/_/g, ""))), s: st };
      case S.BigIntLiteral: return { v: C(BigInt(e.text.slice(0, -1).replace(/_/g, ""))), s: st };
      case S.StringLiteral: case S.NoSubstitutionTemplateLiteral: return { v: C(e.text), s: st };
      case S.TrueKeyword: return { v: TRUE, s: st };
      case S.FalseKeyword: return { v: FALSE, s: st };
      case S.NullKeyword: return { v: NULL, s: st };
      case S.RegularExpressionLiteral: { const m = /^\/(.*)\/([a-z]*)$/s.exec(e.text); return { v: [{ k: "re", src: m[1], flags: m[2], node: e }], s: st }; }
      case S.Identifier: return { v: this.lookup(e, st, env), s: st };
      case S.ThisKeyword: { for (let x = env; x; x = x.parent) if (x.node.kind !== S.ArrowFunction) return { v: x.thisV || Y("this"), s: st }; return { v: Y("this"), s: st }; }
      case S.ArrowFunction: case S.FunctionExpression: return { v: [{ k: "fn", node: e, env }], s: st };
      case S.ClassExpression: return { v: Y("class:expr"), s: st };
      case S.TemplateExpression: {
        let parts = [{ lit: e.head.text }];
        let vals = [C(e.head.text)];
        for (const sp of e.templateSpans) { const r = this.ev(sp.expression, st, env); if (!r.s) return r; st = r.s; vals.push(this.opts.numText && r.v.some((a) => a.k === "y" || a.k === "t") && this.tyOf(sp.expression) === "number" ? this.opts.numText(r.v, st) : r.v); vals.push(C(sp.literal.text)); }
        return { v: this.concat(vals, st), s: st };
      }
      case S.TaggedTemplateExpression: return this.tagged(e, st, env);
      case S.ObjectLiteralExpression: return this.objLit(e, st, env);
      case S.ArrayLiteralExpression: return this.arrLit(e, st, env);
      case S.PropertyAccessExpression: return this.propAccess(e, st, env);
      case S.ElementAccessExpression: {
        const o = this.ev(e.expression, st, env); if (!o.s) return o;
        const k = this.ev(e.argumentExpression, o.s, env); if (!k.s) return k;
        let ov = o.v, extra = BOT;
        if (e.questionDotToken || inChain(e)) { if (ov.some((a) => nullish(a, k.s) !== false)) extra = UNDEF; ov = ov.filter((a) => nullish(a, k.s) !== true); }
        this.event("index", { node: e, obj: ov, key: k.v, st: k.s });
        return { v: join(this.getElem(ov, k.v, k.s), extra), s: k.s };
      }
      case S.CallExpression: return this.joinRets(this.callExpr(e, st, env));
      case S.NewExpression: return this.newExpr(e, st, env);
      case S.PrefixUnaryExpression: return this.unary(e, st, env);
      case S.PostfixUnaryExpression: { const r = this.ev(e.operand, st, env); if (!r.s) return r; const nv = r.v.every((a) => a.k === "c" && typeof a.v === "number") ? r.v.map((a) => ({ k: "c", v: e.operator === S.PlusPlusToken ? a.v + 1 : a.v - 1 })) : T(this.labels(r.v, r.s), "number"); const s = this.assign(e.operand, nv, r.s.clone(), env); return { v: r.v, s }; }
      case S.BinaryExpression: return this.binary(e, st, env);
      case S.ConditionalExpression: {
        const c = this.cond(e.condition, st, env); let v = BOT, s = null;
        if (c.t) { const r = this.ev(e.whenTrue, c.t, env); if (r.s) { v = join(v, r.v); s = joinState(s, r.s); } }
        if (c.f) { const r = this.ev(e.whenFalse, c.f, env); if (r.s) { v = join(v, r.v); s = joinState(s, r.s); } }
        return { v, s };
      }
      case S.TypeOfExpression: { const r = this.ev(e.expression, st, env); if (!r.s) return r; let v = BOT; for (const a of r.v) { const t = this.typeOfAtom(a, r.s); v = join(v, t === undefined ? T(["typeof"], "string") : C(t)); } return { v, s: r.s }; }
      case S.VoidExpression: { const r = this.ev(e.expression, st, env); return { v: UNDEF, s: r.s }; }
      case S.DeleteExpression: { const t = strip(e.expression); if (ts.isPropertyAccessExpression(t) || ts.isElementAccessExpression(t)) { const o = this.ev(t.expression, st, env); if (!o.s) return o; st = o.s.clone(); let ks; if (ts.isPropertyAccessExpression(t)) ks = [t.name.text]; else { const k = this.ev(t.argumentExpression, st, env); if (!k.s) return k; ks = this.keysOf(k.v); st = k.s.clone(); } for (const a of o.v) if (a.k === "o" && ks) { const r = this.rec(st, a.id); if (!r) continue; const n = { ...r, props: new Map(r.props) }; for (const k of ks) { if (o.v.length === 1 && !r.summary && ks.length === 1) { n.props.delete(k); if (n.rest) n.props.set(k, UNDEF); } else if (n.props.has(k)) n.props.set(k, join(n.props.get(k), UNDEF)); } st.heap.set(a.id, n); } } return { v: TRUE, s: st }; }
      case S.YieldExpression: {
        let v = UNDEF; if (e.expression) { const r = this.ev(e.expression, st, env); if (!r.s) return r; v = r.v; st = r.s; }
        const star = v;
        let fenv = env; while (fenv && fenv.node.kind === S.ArrowFunction) fenv = fenv.parent;
        if (e.asteriskToken) { let x = BOT; for (const a of v) x = join(x, this.elemAtom(a, st)); this.event("yield", { node: e, v: x, st, star: true, env: fenv }); v = x; }
        else this.event("yield", { node: e, v, st, env: fenv });
        fenv.yields = join(fenv.yields || BOT, v);
        if (fenv.genAtom) {
          st = st.clone(); const src = e.asteriskToken && e.expression ? star : null;
          if (!e.asteriskToken) this.pushElems(fenv.genAtom, [v], st);
          else if (src && src.length === 1 && src[0].k === "o" && this.rec(st, src[0].id) && this.rec(st, src[0].id).items) this.pushElems(fenv.genAtom, this.rec(st, src[0].id).items, st);
          else { const r0 = this.rec(st, fenv.genAtom.id); if (r0) st.heap.set(fenv.genAtom.id, { ...r0, elem: join(elemOf(r0), v), items: null, maybeEmpty: true }); }
        }
        return { v: T([]), s: st };
      }
      case S.SpreadElement: return this.ev(e.expression, st, env);
      case S.MetaProperty: return { v: Y("import.meta"), s: st };
      case S.SuperKeyword: return { v: Y("super"), s: st };
      case S.ImportKeyword: return { v: Y("global:import"), s: st };
      case S.OmittedExpression: return { v: UNDEF, s: st };
      default: this.note(e); return { v: T([]), s: st };
    }
  }
  evRets(e, st, env) {
    const x = strip(e);
    if (ts.isCallExpression(x)) return this.callExpr(x, st, env);
    if (ts.isAwaitExpression(x)) { const rs = this.evRets(x.expression, st, env); return this.opts.promises ? rs.flatMap((r) => this.settle(r.v, r.s, x)) : rs; }
    if (ts.isConditionalExpression(x)) { const c = this.cond(x.condition, st, env); return [...(c.t ? this.evRets(x.whenTrue, c.t, env) : []), ...(c.f ? this.evRets(x.whenFalse, c.f, env) : [])]; }
    if (isBoolish(x)) { const c = this.cond(x, st, env); const o = []; if (c.t) o.push({ s: c.t, v: TRUE }); if (c.f) o.push({ s: c.f, v: FALSE }); return o; }
    const r = this.ev(e, st, env); return r.s ? [{ s: r.s, v: r.v }] : [];
  }
  joinRets(rs) { let s = null, v = BOT; for (const r of rs) { s = joinState(s, r.s); v = join(v, r.v); } return { v, s }; }
  concat(vals, st) {
    // cartesian product bounded
    let alts = [[]];
    for (const v of vals) {
      const opts = [];
      for (const a of v) {
        if (a.k === "c") opts.push([{ lit: String(a.v) }]);
        else if (a.k === "s") opts.push(a.parts);
        else if (a.k === "y") { const f = st.facts.get(a.p); opts.push([f && "eq" in f ? { lit: String(f.eq) } : { L: new Set([a.p]), raw: true, lang: f && f.lang }]); }
        else if (a.k === "t") opts.push([{ L: a.L, raw: true, top: true }]);
        else opts.push([{ L: this.labels([a], st), raw: true, top: true }]);
      }
      if (opts.length === 0) return BOT;
      const next = [];
      for (const p of alts) for (const o of opts) next.push([...p, ...o]);
      alts = next;
      if (alts.length > 64 && this.opts.repFallback) { const ps = vals.map((x) => x.length > 1 ? { rep: x.map((a) => this.partsOfAtom(a, st)), sep: "" } : null); return [mkStr(vals.flatMap((x, i) => ps[i] ? [ps[i]] : this.partsOfAtom(x[0], st)))]; }
      if (alts.length > 64) { const L = new Set(); for (const x of vals) for (const l of this.labels(x, st)) L.add(l); return T(L, "string"); }
    }
    let out = BOT;
    for (const p of alts) out = join(out, [mkStr(p)]);
    return out;
  }
  partsOfAtom(a, st) {
    if (a.k === "c") return [{ lit: String(a.v) }];
    if (a.k === "s") return a.parts;
    if (a.k === "y") { const f = st.facts.get(a.p); return [f && "eq" in f ? { lit: String(f.eq) } : { L: new Set([a.p]), raw: true, lang: f && f.lang }]; }
    return [{ L: this.labels([a], st), raw: true, top: true }];
  }
  tagged(e, st, env) {
    const tag = this.ev(e.tag, st, env); if (!tag.s) return tag; st = tag.s;
    const vals = [];
    const strs = [];
    if (ts.isTemplateExpression(e.template)) { strs.push(e.template.head.text); for (const sp of e.template.templateSpans) { const r = this.ev(sp.expression, st, env); if (!r.s) return r; st = r.s; vals.push(r.v); strs.push(sp.literal.text); } } else strs.push(e.template.text);
    if (this.opts.onTagged) { const v = this.opts.onTagged({ node: e, strs, vals, st, interp: this, tag: tag.v }); if (v) return { v, s: st }; }
    const L = new Set(); for (const v of vals) for (const l of this.labels(v, st)) L.add(l);
    for (const x of strs) for (const l of litLabels(x)) L.add(l);
    st = st.clone();
    return { v: [{ k: "t", L: new Set([...L, "message"]), ty: "object" }], s: st };
  }
  objLit(e, st, env) {
    st = st.clone();
    const props = new Map(); let rest = BOT;
    const put = (k, v) => props.set(k, v);
    for (const p of e.properties) {
      if (ts.isSpreadAssignment(p)) {
        const r = this.ev(p.expression, st, env); if (!r.s) return r; st = r.s;
        const vs = r.v.filter((a) => !(a.k === "c"));
        const maybeNone = r.v.some((a) => a.k === "c");
        for (const a of vs) {
          if (a.k === "o") { const q = this.rec(st, a.id); if (q) { for (const [k, v] of q.props) { const vv = this.getterOr(v, a, st); put(k, (vs.length > 1 || maybeNone) ? join(props.has(k) ? props.get(k) : UNDEF, vv) : vv); } if (q.rest) rest = join(rest, q.rest); if (q.items) q.items.forEach((x, i) => put(String(i), x)); } }
          else if (a.k === "y" || a.k === "t") { rest = join(rest, [a]); if (vs.length === 1 && !maybeNone) for (const k of [...props.keys()]) props.set(k, join(props.get(k), this.getProp([a], k, st))); else for (const k of [...props.keys()]) props.set(k, join(props.get(k), this.getProp([a], k, st))); }
        }
        continue;
      }
      let key = null, keys = null;
      const nm = p.name;
      if (nm && ts.isComputedPropertyName(nm)) { const r = this.ev(nm.expression, st, env); if (!r.s) return r; st = r.s; keys = this.keysOf(r.v); }
      else if (nm) keys = [nm.text];
      let v;
      if (ts.isPropertyAssignment(p)) { const r = this.ev(p.initializer, st, env); if (!r.s) return r; st = r.s; v = r.v; }
      else if (ts.isShorthandPropertyAssignment(p)) v = this.lookup(p.name, st, env);
      else if (ts.isMethodDeclaration(p)) v = [{ k: "fn", node: p, env }];
      else if (ts.isGetAccessorDeclaration(p)) v = [{ k: "fn", node: p, env, getter: true, key: "get" + nid(p) + "@" + env.id }];
      else continue;
      if (keys) for (const k of keys) put(k, keys.length === 1 ? v : join(props.has(k) ? props.get(k) : UNDEF, v));
      else rest = join(rest, T(this.labels(v, st)));
    }
    st = st.clone();
    const v = this.alloc(st, e, "object", { props, rest: rest.length ? rest : undefined });
    return { v, s: st };
  }
  arrLit(e, st, env) {
    let items = [], elem = BOT, exact = true;
    for (const x of e.elements) {
      if (ts.isSpreadElement(x)) {
        const r = this.ev(x.expression, st, env); if (!r.s) return r; st = r.s;
        if (r.v.length === 1 && r.v[0].k === "o") { const q = this.rec(st, r.v[0].id); if (q && q.items) { items.push(...q.items); continue; } }
        exact = false; for (const a of r.v) elem = join(elem, this.elemAtom(a, st));
      } else { const r = this.ev(x, st, env); if (!r.s) return r; st = r.s; items.push(r.v); }
    }
    st = st.clone();
    const nonEmpty = items.length > 0;
    const v = this.alloc(st, e, "array", exact && items.length <= 40 ? { items } : { items: null, elem: items.reduce(join, elem), maybeEmpty: !nonEmpty });
    if (!exact && nonEmpty) { const r = { ...st.heap.get(v[0].id), nonEmpty: true }; st.heap.set(v[0].id, r); st = this.addFact(st, "len:" + v[0].id, { truthy: true }); }
    return { v, s: st };
  }
  propAccess(e, st, env) {
    const o = this.ev(e.expression, st, env); if (!o.s) return o;
    let ov = o.v, extra = BOT;
    if (e.questionDotToken || inChain(e)) {
      if (ov.some((a) => nullish(a, o.s) !== false)) extra = UNDEF;
      ov = ov.filter((a) => nullish(a, o.s) !== true);
    } else if (this.handlers.length && ov.some((a) => nullish(a, o.s) === true)) this.raise(o.s, Y("TypeError"));
    const v = this.getProp(ov, e.name.text, o.s);
    return { v: join(v, extra), s: o.s };
  }
  unary(e, st, env) {
    if (e.operator === S.ExclamationToken) { const c = this.cond(e.operand, st, env); const s = joinState(c.t, c.f); return { v: [...(c.f ? TRUE : BOT), ...(c.t ? FALSE : BOT)], s }; }
    const r = this.ev(e.operand, st, env); if (!r.s) return r;
    if (e.operator === S.PlusPlusToken || e.operator === S.MinusMinusToken) { const nv = r.v.every((a) => a.k === "c" && typeof a.v === "number") ? r.v.map((a) => ({ k: "c", v: e.operator === S.PlusPlusToken ? a.v + 1 : a.v - 1 })) : T(this.labels(r.v, r.s), "number"); return { v: nv, s: this.assign(e.operand, nv, r.s.clone(), env) }; }
    let out = BOT;
    for (const a of r.v) { if (a.k === "c" && typeof a.v === "number") out = join(out, C(e.operator === S.MinusToken ? -a.v : e.operator === S.PlusToken ? +a.v : ~a.v)); else out = join(out, T(labelsShallow(a), "number")); }
    return { v: out, s: r.s };
  }
  assign(target, v, st, env) {
    target = strip(target);
    if (ts.isIdentifier(target)) { const d = this.declOf(this.symOf(target)); if (d) { const k = this.varKey(d, env); if (k) st.vars.set(k, v); else this.event("modulewrite", { node: target, st }); } return st; }
    if (ts.isPropertyAccessExpression(target)) { const o = this.ev(target.expression, st, env); if (!o.s) return null; st = o.s.clone(); this.event("propwrite", { node: target, obj: o.v, key: target.name.text, v, st }); this.setProp(o.v, [target.name.text], v, st); return st; }
    if (ts.isElementAccessExpression(target)) { const o = this.ev(target.expression, st, env); if (!o.s) return null; const k = this.ev(target.argumentExpression, o.s, env); if (!k.s) return null; st = k.s.clone(); this.event("indexwrite", { node: target, obj: o.v, key: k.v, v, st }); this.setProp(o.v, this.keysOf(k.v), v, st); return st; }
    if (ts.isArrayLiteralExpression(target)) { let i = 0; for (const el of target.elements) { if (!ts.isOmittedExpression(el)) st = this.assign(ts.isSpreadElement(el) ? el.expression : el, this.getIndex(v, i, st), st, env); i++; } return st; }
    if (ts.isObjectLiteralExpression(target)) { for (const p of target.properties) { if (ts.isShorthandPropertyAssignment(p)) { const d = this.declOf(this.checker.getShorthandAssignmentValueSymbol(p)); const k = d && this.varKey(d, env); if (k) st.vars.set(k, this.getProp(v, p.name.text, st)); } else if (ts.isPropertyAssignment(p)) st = this.assign(p.initializer, this.getProp(v, p.name.text, st), st, env); } return st; }
    return st;
  }
  binary(e, st, env) {
    const op = e.operatorToken.kind;
    switch (op) {
      case S.AmpersandAmpersandToken: {
        const l = this.ev(e.left, st, env); if (!l.s) return l;
        const sp = this.splitTruth(l.v, l.s); let v = sp.f.filter((a) => true), s = sp.f.length ? this.refine(e.left, sp.f, false, l.s, env) : null;
        const c = this.cond(e.left, st, env);
        s = c.f; if (!c.f) v = BOT;
        v = v.map((a) => a.k === "y" || a.k === "t" ? a : a);
        if (c.t) { const r = this.ev(e.right, c.t, env); if (r.s) { v = join(v, r.v); s = joinState(s, r.s); } }
        return { v, s };
      }
      case S.BarBarToken: {
        const l = this.ev(e.left, st, env); if (!l.s) return l; const sp = this.splitTruth(l.v, l.s);
        const c = this.cond(e.left, st, env); let v = c.t ? sp.t : BOT, s = c.t;
        if (c.f) { const r = this.ev(e.right, c.f, env); if (r.s) { v = join(v, r.v); s = joinState(s, r.s); } }
        return { v, s };
      }
      case S.QuestionQuestionToken: {
        const l = this.ev(e.left, st, env); if (!l.s) return l;
        const nn = l.v.filter((a) => nullish(a, l.s) !== true), mayNull = l.v.some((a) => nullish(a, l.s) !== false);
        let v = nn, s = nn.length ? l.s : null;
        if (mayNull) { let ns = l.s; const ys = l.v.filter((a) => nullish(a, l.s) !== false); if (ys.length === 1 && ys[0].k === "y" ) ns = this.addFact(ns, ys[0].p, { nullish: true }); const r = this.ev(e.right, ns, env); if (r.s) { v = join(v, r.v); s = joinState(s, r.s); } }
        return { v, s };
      }
      case S.CommaToken: { const l = this.ev(e.left, st, env); if (!l.s) return l; return this.ev(e.right, l.s, env); }
      case S.EqualsToken: {
        const r = this.ev(e.right, st, env); if (!r.s) return r;
        const s = this.assign(e.left, r.v, r.s.clone(), env); return { v: r.v, s };
      }
      case S.EqualsEqualsEqualsToken: case S.EqualsEqualsToken: case S.ExclamationEqualsEqualsToken: case S.ExclamationEqualsToken: { const c = this.cond(e, st, env); return { v: [...(c.t ? TRUE : BOT), ...(c.f ? FALSE : BOT)], s: joinState(c.t, c.f) }; }
      case S.QuestionQuestionEqualsToken: case S.BarBarEqualsToken: case S.AmpersandAmpersandEqualsToken: {
        const l = this.ev(e.left, st, env); if (!l.s) return l; const r = this.ev(e.right, l.s, env); if (!r.s) return { v: l.v, s: l.s };
        const keep = l.v.filter((a) => op === S.QuestionQuestionEqualsToken ? nullish(a, l.s) !== true : op === S.BarBarEqualsToken ? truth(a, l.s) !== false : truth(a, l.s) !== true);
        const must = l.v.every((a) => op === S.QuestionQuestionEqualsToken ? nullish(a, l.s) === true : op === S.BarBarEqualsToken ? truth(a, l.s) === false : truth(a, l.s) === true);
        const v = must ? r.v : join(keep, r.v); return { v, s: this.assign(e.left, v, r.s.clone(), env) };
      }
    }
    const l = this.ev(e.left, st, env); if (!l.s) return l;
    const r = this.ev(e.right, l.s, env); if (!r.s) return r;
    const s = r.s;
    if (op === S.InKeyword) {
      let v = BOT; const ks = this.keysOf(l.v);
      for (const a of r.v) {
        if (a.k === "o" && ks) { const q = this.rec(s, a.id); if (q) { for (const k of ks) v = join(v, q.props.has(k) ? (q.props.get(k).some((z) => z.k === "c" && z.v === undefined) && q.props.get(k).length > 1 ? [...TRUE, ...FALSE] : TRUE) : q.rest || q.anyKey ? T([], "boolean") : this.inherits(q, k) ? TRUE : FALSE); continue; } }
        if (a.k === "y" && ks && ks.length === 1) { v = join(v, this.symIn(a, ks[0], s)); continue; }
        v = join(v, T([], "boolean"));
      }
      return { v, s };
    }
    if (op === S.InstanceOfKeyword) { let v = BOT; for (const a of r.v.length ? l.v : []) v = join(v, a.k === "c" || a.k === "s" ? FALSE : a.k === "y" ? Y("instanceof(" + a.p + "," + this.termOf(r.v) + ")") : this.opts.instanceOf ? this.opts.instanceOf(a, r.v, s, this) : T([], "boolean")); return { v, s }; }
    if (op === S.PlusToken || op === S.PlusEqualsToken) {
      let v;
      const num = (x) => x.every((a) => (a.k === "c" && typeof a.v === "number") || (a.k === "t" && a.ty === "number") || (a.k === "y" && a.p.startsWith("len:")));
      if (num(l.v) && num(r.v)) { if (l.v.length === 1 && r.v.length === 1 && l.v[0].k === "c" && r.v[0].k === "c") v = C(l.v[0].v + r.v[0].v); else v = T(new Set([...this.labels(l.v, s), ...this.labels(r.v, s)]), "number"); }
      else if (this.isStr(e.left, l.v) || this.isStr(e.right, r.v)) v = this.concat([l.v, r.v], s);
      else v = T(new Set([...this.labels(l.v, s), ...this.labels(r.v, s)]), this.tyOf(e));
      if (op === S.PlusEqualsToken) return { v, s: this.assign(e.left, v, s.clone(), env) };
      return { v, s };
    }
    const cmp = { [S.LessThanToken]: (a, b) => a < b, [S.GreaterThanToken]: (a, b) => a > b, [S.LessThanEqualsToken]: (a, b) => a <= b, [S.GreaterThanEqualsToken]: (a, b) => a >= b }[op];
    if (cmp) {
      let v = BOT;
      for (const a of l.v) for (const b of r.v) {
        if (a.k === "c" && b.k === "c") v = join(v, C(cmp(a.v, b.v)));
        else {
          // len:x > 0, len:x >= 1, len:x < 1, 0 < len:x
          const q = this.lenCmp(a, b, op) || this.cmpSym(a, b, op);
          v = join(v, q || T([], "boolean"));
        }
      }
      return { v, s };
    }
    const arith = { [S.MinusToken]: (a, b) => a - b, [S.AsteriskToken]: (a, b) => a * b, [S.SlashToken]: (a, b) => a / b, [S.PercentToken]: (a, b) => a % b }[op];
    if (arith && l.v.length === 1 && r.v.length === 1 && l.v[0].k === "c" && r.v[0].k === "c" && typeof l.v[0].v === typeof r.v[0].v) return { v: C(arith(l.v[0].v, r.v[0].v)), s };
    const v = T(new Set([...this.labels(l.v, s), ...this.labels(r.v, s)]), "number");
    if (op >= S.FirstAssignment && op <= S.LastAssignment) return { v, s: this.assign(e.left, v, s.clone(), env) };
    return { v, s };
  }
  symIn(a, k, st) { return Y("has(" + a.p + "," + k + ")"); }
  lenCmp(a, b, op) {
    const swap = { [S.LessThanToken]: S.GreaterThanToken, [S.GreaterThanToken]: S.LessThanToken, [S.LessThanEqualsToken]: S.GreaterThanEqualsToken, [S.GreaterThanEqualsToken]: S.LessThanEqualsToken };
    const isLen = (x) => x.k === "y" && (x.p.startsWith("len:") || x.p.endsWith(".length") || x.p.endsWith(".consumed"));
    if (isLen(b) && a.k === "c") { [a, b] = [b, a]; op = swap[op]; }
    if (!isLen(a) || b.k !== "c") return null;
    // truthiness of the length itself
    if ((op === S.GreaterThanToken && b.v === 0) || (op === S.GreaterThanEqualsToken && b.v === 1)) return [a];
    if ((op === S.LessThanEqualsToken && b.v === 0) || (op === S.LessThanToken && b.v === 1)) return Y("not:" + a.p);
    return null;
  }
  cmpSym(a, b, op) {
    const nm = { [S.LessThanToken]: "<", [S.GreaterThanToken]: ">", [S.LessThanEqualsToken]: "<=", [S.GreaterThanEqualsToken]: ">=" }[op];
    if (a.k === "t" || b.k === "t" || (a.k !== "y" && b.k !== "y")) return null;
    return Y("cmp(" + this.termOf([a]) + nm + this.termOf([b]) + ")");
  }
  isStr(e, v) { if (v.some((a) => a.k === "s" || (a.k === "c" && typeof a.v === "string") || (a.k === "t" && a.ty === "string"))) return true; return this.tyOf(e) === "string"; }
  tyOf(e) { try { const t = this.checker.getTypeAtLocation(e); const all = (fl) => !!(t.flags & fl) || (t.isUnion() && t.types.every((x) => x.flags & fl)); if (all(ts.TypeFlags.StringLike)) return "string"; if (all(ts.TypeFlags.NumberLike)) return "number"; if (t.flags & ts.TypeFlags.BooleanLike) return "boolean"; } catch { /* ignore */ } return undefined; }

  // ---------- calls ----------
  evArgs(args, st, env) {
    const out = []; let spread = false;
    for (const a of args || []) {
      if (ts.isSpreadElement(a)) {
        const r = this.ev(a.expression, st, env); if (!r.s) return null; st = r.s;
        if (r.v.length === 1 && r.v[0].k === "o") { const q = this.rec(st, r.v[0].id); if (q && q.items) { out.push(...q.items); continue; } }
        let el = BOT; for (const x of r.v) el = join(el, this.elemAtom(x, st)); out.push(el); spread = true;
      } else { const r = this.ev(a, st, env); if (!r.s) return null; st = r.s; out.push(r.v); }
    }
    if (spread) out.spread = true;
    return { args: out, s: st };
  }
  callExpr(e, st, env) {
    const ce = strip(e.expression);
    let thisV = null, fv, name, recvUndef = false, opt = false;
    if (ts.isPropertyAccessExpression(ce)) {
      const settled = this.opts.noRejections && /^(then|catch|finally)$/.test(ce.name.text) ? [] : null;
      const P_ = this.opts.promises;
      if (settled && !P_) this.handlers.push(settled); let o = this.ev(ce.expression, st, env); if (settled && !P_) this.handlers.pop();
      if (settled && P_) { if (!o.s) return []; if (o.v.some((a) => a.k === "o" && this.rec(o.s, a.id) && this.rec(o.s, a.id).props.has("settle$"))) { this.handlers.push(settled); o = this.joinRets(this.settle(o.v, o.s, e)); this.handlers.pop(); return this.afterPromise(o, settled, ce.name.text, e, env); } }
      else if (settled && settled.length) return this.afterPromise(o, settled, ce.name.text, e, env);
      if (!o.s) return []; st = o.s; thisV = o.v; name = ce.name.text;
      if (ce.questionDotToken || inChain(ce)) { if (thisV.some((a) => nullish(a, st) !== false)) recvUndef = true; thisV = thisV.filter((a) => nullish(a, st) !== true); }
    } else if (ts.isElementAccessExpression(ce)) {
      const r = this.ev(ce, st, env); if (!r.s) return []; st = r.s; fv = r.v; const o = this.ev(ce.expression, st, env); thisV = o.v || null; 
    } else { const r = this.ev(ce, st, env); if (!r.s) return []; st = r.s; fv = r.v; name = ts.isIdentifier(ce) ? ce.text : "<expr>"; }
    const ar = this.evArgs(e.arguments, st, env); if (!ar) return recvUndef ? [{ s: st, v: UNDEF }] : [];
    st = ar.s; const args = ar.args;
    const out = [];
    if (recvUndef) out.push({ s: st, v: UNDEF });
    const bySym = new Map();
    if (thisV && name !== undefined && fv === undefined) {
      for (const a of thisV) {
        if (this.opts.numText && (name === "toString" || name === "toFixed") && (a.k === "y" || a.k === "t") && this.tyOf(ce.expression) === "number") { out.push({ s: st, v: this.opts.numText([a], st) }); continue; }
        const rs = this.callMethod(a, name, args, st, e, env, thisV);
        for (const r of rs) out.push(r);
      }
      if (thisV.length === 0 && !recvUndef) return [];
    } else {
      for (const a of fv) {
        if (a.k === "c" && a.v == null) { if (e.questionDotToken) out.push({ s: st, v: UNDEF }); else this.raise(st, Y("TypeError")); continue; }
        for (const r of this.callAtom(a, args, thisV, st, e, name)) out.push(r);
      }
    }
    return this.foldRets(out);
  }
  // a promise that is settled: fulfilled with v, or rejected with it
  promiseOf(st, v, bad) {
    const I = this; const go = [{ k: "nat", name: "settle", uid: String(++this.actCtr), call: (as, s) => { if (bad) { I.raise(s, v, true); return []; } return I.settle(v, s); } }];
    return this.freshObj(st, { settle$: go, then: [{ k: "nat", name: "then", uid: String(this.actCtr), call: (as, s, e) => { const r = bad ? as[1] : as[0]; return r ? r.filter((f) => f.k !== "c").flatMap((f) => I.callAtom(f, [v], null, s, e)) : [{ s, v }]; } }] }, "promise");
  }
  // what awaiting v gives
  settle(v, st, e) {
    const out = [], plain = [];
    for (const a of v) { const h = a.k === "o" && this.rec(st, a.id); if (h && h.props.has("settle$")) for (const f of h.props.get("settle$")) out.push(...this.callAtom(f, [], null, st, e)); else plain.push(a); }
    if (plain.length) out.push({ s: st, v: plain });
    return this.foldRets(out);
  }
  // p.then/catch/finally(…) where p may reject with a known error
  afterPromise(o, settled, name, e, env) {
    if (this.opts.promises && !this.inAfter) { const bad = []; this.inAfter = true; this.handlers.push(bad); let rs; try { rs = this.afterPromise(o, settled, name, e, env); } finally { this.handlers.pop(); this.inAfter = false; } return [...rs.map((r) => { const s2 = r.s.clone(); return { v: this.promiseOf(s2, r.v), s: s2 }; }), ...bad.map((q) => { const s2 = q.s.clone(); return { v: this.promiseOf(s2, q.v, true), s: s2 }; })]; }
    this.inAfter = false; const out = [];
    for (const [v, s, bad] of [...(o.s ? [[o.v, o.s, false]] : []), ...settled.map((q) => [q.v, q.s, true])]) {
      const ar = this.evArgs(e.arguments, s, env); if (!ar) continue; const [a, b] = ar.args;
      const cb = name === "then" ? (bad ? b : a) : name === "catch" ? (bad ? a : null) : a;
      if (name === "finally") { const j = cb ? this.applyCb(cb, [], ar.s, e) : { s: ar.s }; if (!j.s) continue; if (bad) this.raise(j.s, v, true); else out.push({ s: j.s, v }); continue; }
      if (!cb || !cb.some((f) => f.k !== "c")) { if (bad) this.raise(ar.s, v, true); else out.push({ s: ar.s, v }); continue; }
      for (const f of cb) if (f.k !== "c") out.push(...this.callAtom(f, [v], null, ar.s, e));
    }
    return this.foldRets(out);
  }
  foldRets(out) {
    if (out.length <= 8) return out;
    const m = new Map();
    for (const x of out) { const k = valKey(x.v); const q = m.get(k); m.set(k, q ? { s: joinState(q.s, x.s), v: x.v } : x); }
    let l = [...m.values()];
    if (l.length > 12) { const j = this.joinRets(l); l = j.s ? [j] : []; }
    return l;
  }
  callAtom(a, args, thisV, st, e, name) {
    switch (a.k) {
      case "fn": {
        const d = a.node;
        if (this.opts.onCall) { const r = this.opts.onCall({ kind: "fn", node: e, decl: d, name: d.name ? (d.name.text || name) : name, args, st, thisV, interp: this }); if (r) return r.rets || [{ s: r.s || st, v: r.v || r }]; }
        return this.callFn(a, args, thisV, st, e);
      }
      case "nat": return a.call(args, st, e, this);
      case "y": return this.opaque(a.p, args, st, e, thisV);
      case "t": return this.opaque("T", args, st, e, thisV, a);
    }
    return [];
  }
  opaque(path, args, st, e, thisV, top) {
    const info = { kind: "opaque", path, node: e, args, st, thisV, interp: this };
    let r = this.opts.onCall ? this.opts.onCall(info) : undefined;
    this.event("call", info);
    if (this.handlers.length && !this.opts.noRejections) this.raise(st, Y("thrown(" + path + ")"));
    if (r) return r.rets || [{ s: r.s || st, v: r.v || r }];
    const nat = this.native(path, args, st, e);
    if (nat) return nat;
    const L = new Set(top ? top.L : []); for (const x of args) for (const l of this.labels(x, st)) L.add(l);
    // unknown callee may call callbacks with anything
    let s = st;
    for (const x of args) for (const f of x) if (f.k === "fn" && this.opts.callbacks !== false) { for (const q of this.callFn(f, f.node.parameters.map((_, i) => T(L)), null, s, e)) s = joinState(s, q.s); }
    if (top) return [{ s, v: T(L) }];
    return [{ s, v: Y(path + "(" + args.map((x) => this.termOf(x)).join(",") + ")") }];
  }
  callMethod(a, name, args, st, e, env, thisV) {
    if (a.k !== "o" && a.k !== "y" && a.k !== "t" && (name === "then" || name === "catch" || name === "finally")) return this.promiseMethod(a, name, args, st, e);
    switch (a.k) {
      case "o": {
        const r = this.rec(st, a.id);
        if (!r) return [{ s: st, v: T([]) }];
        if (r.props.has(name)) { const out = []; for (const f of this.getterOr(r.props.get(name), a, st)) { if (f.k === "c" && f.v == null) { if (e.questionDotToken) out.push({ s: st, v: UNDEF }); else this.raise(st, Y("TypeError")); continue; } out.push(...this.callAtom(f, args, [a], st, e, name)); } return out; }
        const b = this.builtinMethod(a, r, name, args, st, e, env);
        if (b) return b;
        if (this.opts.concrete && r.kind === "object" && !r.rest && !r.anyKey && !OBJECT_METHODS.has(name)) { if (e.questionDotToken) return [{ s: st, v: UNDEF }]; this.raise(st, Y("TypeError")); return []; }
        if (r.rest) { const out = []; for (const x of r.rest) out.push(...this.callMethod(x, name, args, st, e, env, [a])); return out; }
        return [{ s: st, v: T(this.labels([a], st)) }];
      }
      case "fn": case "nat": if (name === "bind" && a.k === "fn" && args.length < 2) return [{ s: st, v: args[0] && args[0].some((x) => x.k === "o") ? [{ k: "nat", name: "bound", uid: atomKey(a) + "|" + valKey(args[0]), call: (as, s2, e2, I) => I.callAtom(a, as, args[0], s2, e2) }] : [a] }]; if (name === "bind") return [{ s: st, v: args.length < 2 ? [a] : [{ k: "nat", name: "bound", uid: atomKey(a) + "|" + args.map(valKey).join(), call: (as, s2, e2, I) => I.callAtom(a, Object.assign([...args.slice(1), ...as], { spread: as.spread }), args[0], s2, e2) }] }]; if (name === "call") return this.callAtom(a, Object.assign(args.slice(1), { spread: args.spread }), args[0], st, e); if (name === "apply") return this.callAtom(a, args[1] ? Object.assign([this.joinElems(args[1], st)], { spread: true }) : [], args[0], st, e); return [{ s: st, v: T([]) }];
      case "y": {
        if (name === "bind") { const f = this.symProp(a, "bind", st); }
        const p = clip(a.p + "." + name);
        if (name === "call" && !this.opts.keepCall) return this.opaque(a.p, Object.assign(args.slice(1), {}), st, e, args[0]);
        if (name === "bind") return [{ s: st, v: [a] }];
        if (name === "then" || name === "catch" || name === "finally") return this.promiseMethod(a, name, args, st, e);
        const cb = this.symMethod(a, name, args, st, e, p);
        if (cb) return cb;
        return this.opaque(p, args, st, e, [a]);
      }
      case "s": case "c": {
        if (a.k === "c" && typeof a.v !== "string") {
          if (a.v == null) { this.raise(st, Y("TypeError")); return []; }
          if (name === "toString") return [{ s: st, v: C(String(a.v)) }];
          if (name === "toLocaleString" && Number.isInteger(a.v) && Math.abs(a.v) < 1000) return [{ s: st, v: C(String(a.v)) }];
          return [{ s: st, v: T(labelsShallow(a)) }];
        }
        return this.strMethod(a, name, args, st, e);
      }
      case "re": return this.reMethod(a, name, args, st, e);
      case "t": {
        if (name === "then" || name === "catch" || name === "finally") return this.promiseMethod(a, name, args, st, e);
        if (a.ty === "string") return this.strMethod(a, name, args, st, e);
        const isStrType = this.tyOf(strip(e.expression).expression) === "string";
        if (isStrType) return this.strMethod({ ...a, ty: "string", key: undefined }, name, args, st, e);
        return this.topMethod(a, name, args, st, e);
      }
    }
    return [{ s: st, v: T([]) }];
  }
  // methods on unknown receiver: callbacks get TOP elements carrying the labels
  topMethod(a, name, args, st, e) {
    const info = { kind: "opaque", path: "T." + name, node: e, args, st, thisV: [a], interp: this };
    const r = this.opts.onCall ? this.opts.onCall(info) : undefined; this.event("call", info);
    if (this.handlers.length && !this.opts.noRejections) this.raise(st, Y("thrown(" + name + ")"));
    if (r) return r.rets || [{ s: r.s || st, v: r.v || r }];
    const L = new Set(a.L); for (const x of args) for (const l of this.labels(x, st)) L.add(l);
    let s = st, rv = BOT;
    for (const x of args) for (const f of x) if (f.k === "fn") { for (const q of this.callFn(f, f.node.parameters.map(() => T(a.L)), null, s, e)) { s = joinState(s, q.s); rv = join(rv, q.v); } }
    for (const l of this.labels(rv, s)) L.add(l);
    return [{ s, v: join(T(L, ["join", "toString"].includes(name) ? "string" : undefined), BOT) }];
  }
  symMethod(a, name, args, st, e, p) {
    // iteration helpers on opaque arrays; string methods on opaque strings
    const cbs = ["map", "filter", "forEach", "some", "every", "find", "flatMap", "findIndex", "findLast", "findLastIndex", "reduce", "sort", "toSorted"];
    if (cbs.includes(name) && args[0] && args[0].some((f) => f.k === "fn")) {
      st = st.clone(); const id = this.alloc(st, e.expression, "array", { items: null, elem: this.elemAtom(a, st), maybeEmpty: true });
      return this.builtinMethod(id[0], st.heap.get(id[0].id), name, args, st, e);
    }
    if (this.opts.symStr !== false) {
      const recv = strip(e.expression).expression;
      const strM = ["replace", "replaceAll", "split", "trim", "toLowerCase", "toUpperCase", "slice", "substring", "padEnd", "padStart", "repeat", "charAt", "normalize", "trimEnd", "trimStart", "concat"];
      if (strM.includes(name) && this.tyOf(recv) === "string") { const f = st.facts.get(a.p); return this.strMethod({ k: "s", parts: [{ L: new Set([a.p]), raw: true, lang: f && f.lang }] }, name, args, st, e); }
      if (name === "join" || name === "slice" || name === "concat" || name === "toReversed" || name === "flat") {
        if (name === "join") { const el = this.elemAtom(a, st); const sep = args[0] || C(","); return [{ s: st, v: [mkRep(el, sep, st, this)] }]; }
      }
    }
    return null;
  }
  joinElems(v, st) { let x = BOT; for (const a of v) x = join(x, this.elemAtom(a, st)); return x; }
  promiseMethod(a, name, args, st, e) {
    if (name === "then") { const out = []; for (const f of args[0] || []) out.push(...this.callAtom(f, [[a]], null, st, e)); if (args[1] && !this.opts.noRejections) for (const f of args[1]) out.push(...this.callAtom(f, [Y("rejection")], null, st, e)); return out.length ? out : [{ s: st, v: [a] }]; }
    if (name === "catch" && this.opts.noRejections) return [{ s: st, v: [a] }];
    if (name === "catch") { const out = [{ s: st, v: [a] }]; for (const f of args[0] || []) out.push(...this.callAtom(f, [Y("rejection")], null, st, e)); return out; }
    for (const f of args[0] || []) { const rs = this.callAtom(f, [], null, st, e); const j = this.joinRets(rs); if (j.s) st = j.s; }
    return [{ s: st, v: [a] }];
  }
  // known items, with those of known lists among them in their place
  flatItems(vs, s) {
    const out = [];
    for (const v of vs) { if (v.length !== 1) return null; if (v[0].k === "o") { const h = this.rec(s, v[0].id); if (!h) return null; if (h.kind === "array") { if (!h.items || h.summary) return null; out.push(...h.items); continue; } } else if (v[0].k !== "c" && v[0].k !== "fn" && v[0].k !== "nat") return null; out.push(v); }
    return out;
  }
  // the pairs of a known list, set or map of known keys; null when anything is unknown
  entryList(v, s) {
    const h = v.length === 1 && v[0].k === "o" && this.rec(s, v[0].id); if (!h || !h.items || h.summary || !["array", "map"].includes(h.kind)) return null; const out = [];
    for (const it of h.items) { const q = it.length === 1 && it[0].k === "o" && this.rec(s, it[0].id); if (!q || !q.items || q.items.length < 2) return null; const ks = this.keysOf(q.items[0]); if (!ks || ks.length !== 1) return null; out.push([ks[0], q.items[1]]); }
    return out;
  }
  // a stable order of known items, where every comparison has one known outcome
  sortItems(items, f, st, e) {
    const out = []; let s = st; const isC = (x) => x.length === 1 && x[0].k === "c";
    for (const x of items) {
      let i = out.length;
      for (; i > 0; i--) {
        let d; if (f && !(isC(f) && f[0].v === undefined)) { const q = this.applyCb(f, [out[i - 1], x], s, e); if (!q.s || !isC(q.v)) return null; s = q.s; d = Number(q.v[0].v); }
        else { if (!isC(x) || !isC(out[i - 1])) return null; const a = String(out[i - 1][0].v), b = String(x[0].v); d = a < b ? -1 : a > b ? 1 : 0; }
        if (!(d > 0)) break;
      }
      out.splice(i, 0, x);
    }
    return { items: out, s };
  }
  applyCb(f, argv, st, e) { const out = []; for (const x of f) out.push(...this.callAtom(x, argv, null, st, e)); return this.joinRets(out); }
  builtinMethod(a, r, name, args, st, e) {
    const R = (v, s = st) => [{ s, v }];
    const s0 = st;
    if (name === "then" || name === "catch" || name === "finally") return this.promiseMethod(a, name, args, st, e);
    if (r.kind === "array") {
      const items = r.items; const el = elemOf(r);
      switch (name) {
        case "push": case "unshift": { const s = st.clone(); this.event("mutate", { node: e, obj: [a], st: s, name, args }); if (args.spread) { const q = this.rec(s, a.id); s.heap.set(a.id, { ...q, items: null, elem: [elemOf(q), ...args].reduce(join, BOT), maybeEmpty: true }); } else this.pushElems(a, args, s, name === "unshift"); return R(T([], "number"), s); }
        case "pop": case "shift": { const s = st.clone(); this.event("mutate", { node: e, obj: [a], st: s, name }); const q = this.rec(s, a.id); if (q.items && !q.summary) { const it = q.items.slice(); const v = name === "pop" ? it.pop() : it.shift(); s.heap.set(a.id, { ...q, items: it }); return R(v || UNDEF, s); } return R(join(el, UNDEF), s); }
        case "splice": case "sort": case "reverse": case "fill": { if (this.opts.concrete && items && !r.summary) { const k = (x) => x && x.length === 1 && x[0].k === "c"; if (name === "reverse") { const s = st.clone(); s.heap.set(a.id, { ...r, items: items.slice().reverse() }); return R([a], s); } if (name === "splice" && (!args[0] || k(args[0])) && (!args[1] || k(args[1]))) { const s = st.clone(); const it = items.slice(); const cut = args.length < 2 ? it.splice(args[0] ? args[0][0].v : 0) : it.splice(args[0][0].v, args[1][0].v, ...args.slice(2)); s.heap.set(a.id, { ...r, items: it }); return R(this.alloc(s, e, "array", { items: cut }), s); } if (name === "sort" && items.length < 2) return R([a]); if (name === "sort") { const q = this.sortItems(items, args[0], st, e); if (q) { const s = q.s.clone(); s.heap.set(a.id, { ...this.rec(s, a.id), items: q.items }); return R([a], s); } } } const s = st.clone(); this.event("mutate", { node: e, obj: [a], st: s, name }); const q = this.rec(s, a.id); let x = elemOf(q); for (const y of args.slice(2)) x = join(x, y); s.heap.set(a.id, { ...q, items: null, elem: x, maybeEmpty: true }); if (name === "splice") return R(this.alloc(s, e, "array", { items: null, elem: x, maybeEmpty: true }), s); return R([a], s); }
        case "map": case "flatMap": {
          let s = st, out = [];
          if (items && items.length <= this.exact && args[0]) { for (let i = 0; i < items.length; i++) { this.cbIdx = i; const q = this.applyCb(args[0], [items[i], C(i), [a]], s, e); if (!q.s) return []; s = q.s; out.push(q.v); } s = s.clone(); if (name === "map") return R(this.alloc(s, e, "array", { items: out }), s); const fl = this.opts.concrete && this.flatItems(out, s); if (fl) return R(this.alloc(s, e, "array", { items: fl }), s); let x = BOT; for (const v of out) x = join(x, this.joinElems(v, s)); return R(this.alloc(s, e, "array", { items: null, elem: x, maybeEmpty: true }), s); }
          if (el.length === 0) { s = s.clone(); return R(this.alloc(s, e, "array", { items: [] }), s); }
          const q = this.applyCb(args[0] || [], [el, T([], "number"), [a]], s, e); s = joinState(s, q.s).clone(); const x = name === "map" ? q.v : join(this.joinElems(q.v.filter((z) => z.k !== "c"), s), q.v.filter((z) => z.k === "c")); return R(this.alloc(s, e, "array", { items: null, elem: x, maybeEmpty: true }), s);
        }
        case "filter": case "find": case "some": case "every": case "findIndex": case "findLast": case "findLastIndex": {
          let s = st, kept = BOT;
          if (items && items.length === 0) { s = s.clone(); return R(name === "filter" ? this.alloc(s, e, "array", { items: [] }) : name === "some" ? FALSE : name === "every" ? TRUE : name.startsWith("findI") || name.startsWith("findLastI") ? C(-1) : UNDEF, s); }
          let anyT = false, anyF = false; 
          if (items && items.length <= this.exact && name !== "findIndex") {
            const keptItems = []; let exact = true, allT = true, allF = true;
            for (let i = 0; i < items.length; i++) { this.cbIdx = i; const q = this.applyCb(args[0] || [], [items[i], C(i), [a]], s, e); if (!q.s) return []; s = this.opts.concrete ? q.s : joinState(s, q.s); const sp = this.splitTruth(q.v, q.s); if (sp.t.length && sp.f.length) exact = false; if (sp.t.length) { keptItems.push(items[i]); allF = false; } if (sp.f.length) allT = false; if (this.opts.concrete && exact && (name === "every" ? !allT : (name === "some" || name === "find") && !allF)) break; }
            s = s.clone();
            if (name === "filter") return R(exact ? this.alloc(s, e, "array", { items: keptItems }) : this.alloc(s, e, "array", { items: null, elem: keptItems.reduce(join, BOT), maybeEmpty: true }), s);
            if (name === "some") return R(allF ? FALSE : (exact && !allF) ? TRUE : T([], "boolean"), s);
            if (name === "every") return R(allT ? TRUE : exact && !allT ? FALSE : T([], "boolean"), s);
            return R(exact && keptItems.length ? keptItems[name === "findLast" ? keptItems.length - 1 : 0] : exact && !keptItems.length ? UNDEF : join(keptItems.reduce(join, BOT), UNDEF), s);
          }
          const q = this.applyCb(args[0] || [], [el, T([], "number"), [a]], s, e); s = joinState(s, q.s).clone();
          const sp = q.s ? this.splitTruth(q.v, q.s) : { t: [], f: [] };
          if (name === "filter") return R(this.alloc(s, e, "array", { items: null, elem: sp.t.length ? this.filterElem(el, args[0], s, e) : BOT, maybeEmpty: true }), s);
          if (name === "some") return R(sp.t.length ? Y("some(" + this.termOf([a]) + "@" + nid(e) + ")") : FALSE, s);
          if (name === "every") return R(sp.f.length ? Y("every(" + this.termOf([a]) + "@" + nid(e) + ")") : TRUE, s);
          if (name.startsWith("findI") || name.startsWith("findLastI")) return R(T([], "number"), s);
          return R(join(sp.t.length ? this.filterElem(el, args[0], s, e) : BOT, UNDEF), s);
        }
        case "forEach": { let s = st; if (items && items.length <= this.exact) { for (let i = 0; i < items.length; i++) { this.cbIdx = i; const q = this.applyCb(args[0], [items[i], C(i), [a]], s, e); if (!q.s) return []; s = q.s; } return R(UNDEF, s); } if (el.length === 0) return R(UNDEF); for (let i = 0; i < 3; i++) { const q = this.applyCb(args[0], [el, T([], "number"), [a]], s, e); const n = joinState(s, q.s); if (sameState(n, s)) break; s = i >= 1 ? this.widen(s, n) : n; } return R(UNDEF, s); }
        case "reduce": case "reduceRight": { let s = st; let acc = args[1] || BOT; if (items && items.length <= this.exact) { const ix = items.map((_, i) => i); if (name === "reduceRight") ix.reverse(); if (!args[1]) { acc = ix.length ? items[ix.shift()] : UNDEF; } for (const i of ix) { this.cbIdx = i; const q = this.applyCb(args[0], [acc, items[i], C(i), [a]], s, e); if (!q.s) return []; s = q.s; acc = q.v; } return R(acc, s); } if (!args[1]) acc = el; for (let i = 0; i < 4; i++) { const q = this.applyCb(args[0], [acc, el, T([], "number"), [a]], s, e); if (!q.s) break; const n = join(acc, q.v); s = joinState(s, q.s); if (valKey(n) === valKey(acc)) break; acc = i >= 1 ? this.widenV(acc, n, s) : n; } return R(acc, s); }
        case "join": { const sep = args[0] || C(","); if (r.splitOf && this.opts.joinSplit) { const v = this.opts.joinSplit(r.splitOf, sep, st); if (v) return R(v); } if (items && items.length <= 24) { const vals = []; items.forEach((x, i) => { if (i) vals.push(sep); vals.push(x.some((z) => z.k === "c" && z.v == null) ? join(x.filter((z) => !(z.k === "c" && z.v == null)), C("")) : x); }); return R(vals.length ? this.concat(vals, st) : C("")); } if (el.length === 0) return R(C("")); return R([mkRep(el, sep, st, this)]); }
        case "slice": { const s = st.clone(); if (items && (!args[0] || (args[0].length === 1 && args[0][0].k === "c")) && (!args[1] || (args[1].length === 1 && args[1][0].k === "c"))) return R(this.alloc(s, e, "array", { items: items.slice(args[0] && args[0][0].v, args[1] && args[1][0].v) }), s); return R(this.alloc(s, e, "array", { items: null, elem: el, maybeEmpty: true }), s); }
        case "concat": { const s = st.clone(); if (this.opts.concrete && items) { const all = items.slice(); let ok = true; for (const y of args) { const h = y.length === 1 && y[0].k === "o" && s.heap.get(y[0].id); if (h && h.kind === "array") { if (h.items) all.push(...h.items); else ok = false; } else if (y.length === 1 && (y[0].k !== "y" && y[0].k !== "t")) all.push(y); else ok = false; } if (ok) return R(this.alloc(s, e, "array", { items: all }), s); } let x = el; for (const y of args) for (const z of y) x = join(x, z.k === "o" || z.k === "y" || z.k === "t" ? this.elemAtom(z, s) : [z]); return R(this.alloc(s, e, "array", { items: null, elem: x, maybeEmpty: true }), s); }
        case "toSorted": if (this.opts.concrete && name === "toSorted" && items) { const q = this.sortItems(items, args[0], st, e); if (q) { const s = q.s.clone(); return R(this.alloc(s, e, "array", { items: q.items }), s); } } case "toReversed": case "flat": case "toSpliced": case "with": { const s = st.clone(); let x = el; if (name === "flat" && this.opts.concrete && items && (!args.length || (args[0].length === 1 && args[0][0].v === 1))) { const fl = this.flatItems(items, s); if (fl) return R(this.alloc(s, e, "array", { items: fl }), s); } if (items && ((name === "toSorted" && items.length <= 1) || name === "toReversed")) return R(this.alloc(s, e, "array", { items: name === "toSorted" ? items : items.slice().reverse() }), s); if (name === "flat") x = join(this.joinElems(el.filter((z) => z.k !== "c" && z.k !== "s"), s), el.filter((z) => z.k === "c" || z.k === "s")); if (args[0] && args[0][0] && args[0][0].k === "fn" && el.length) this.applyCb(args[0], [el, el], s, e); return R(this.alloc(s, e, "array", { items: null, elem: x, maybeEmpty: true }), s); }
        case "at": { if (items && args[0] && args[0].length === 1 && args[0][0].k === "c") return R(items.at(args[0][0].v) || UNDEF); return R(join(el, UNDEF)); }
        case "includes": { if (items) { let res = BOT, any = false, unk = false; for (const it of items) for (const x of it) for (const y of args[0]) { const q = this.eqAtoms(x, y, true, st); if (q === true && it.length === 1 && args[0].length === 1) any = true; else if (q !== false) unk = true; } return R(any ? TRUE : unk ? Y("includes(" + this.termOf(args[0] || []) + "@" + nid(e) + ")") : FALSE); } return R(Y("includes(" + a.id + "," + this.termOf(args[0] || []) + ")")); }
        case "indexOf": case "lastIndexOf": if (this.opts.concrete && items && args[0]) { const q = items.map((it) => (it.length === 1 && args[0].length === 1 ? this.eqAtoms(it[0], args[0][0], true, st) : undefined)); if (!q.includes(undefined)) return R(C(name === "indexOf" ? q.indexOf(true) : q.lastIndexOf(true))); } return R(items && items.length === 0 ? C(-1) : T([], "number"));
        case "entries": { const s = st.clone(); if (this.opts.concrete && items) return R(this.alloc(s, e.expression, "array", { items: items.map((it, i) => this.freshObj(s, {}, "array", { items: [C(i), it] })) }), s); const pair = this.alloc(s, e, "array", { items: [T([], "number"), el] }); return R(this.alloc(s, e.expression, "array", { items: null, elem: pair, maybeEmpty: true }), s); }
        case "values": return R([a]);
        case "keys": { const s = st.clone(); return R(this.alloc(s, e, "array", { items: null, elem: T([], "number"), maybeEmpty: true }), s); }
        case "next": return R(T(this.labels(el, st)));
        case "return": case "throw": return R(T([]));
      }
      if (/^@@/.test(name)) return null;
    }
    if (r.kind === "set" || r.kind === "map") {
      const s = st.clone(); const q = this.rec(s, a.id);
      switch (name) {
        case "add": this.event("mutate", { node: e, obj: [a], st: s, name, args }); if (this.opts.concrete && !q.summary) { const d = this.member(q, args[0] || UNDEF, s); if (d) { if (!d.length) s.heap.set(a.id, { ...q, items: [...q.items, args[0] || UNDEF] }); return R([a], s); } } s.heap.set(a.id, { ...q, items: null, elem: join(elemOf(q), args[0] || BOT), maybeEmpty: true }); return R([a], s);
        case "set": { this.event("mutate", { node: e, obj: [a], st: s, name, args }); const ks = this.keysOf(args[0] || []); const pair = this.alloc(s, e, "array", { items: [args[0] || UNDEF, args[1] || UNDEF] }); if (this.opts.concrete && !q.summary) { const d = this.member(q, args[0] || UNDEF, s); if (d) { s.heap.set(a.id, { ...q, items: d.length ? q.items.map((it) => (it === d[0] ? pair : it)) : [...q.items, pair] }); return R([a], s); } } const n = { ...q, items: null, elem: join(elemOf(q), pair), mapv: join(q.mapv || BOT, args[1] || UNDEF), maybeEmpty: true }; s.heap.set(a.id, n); return R([a], s); }
        case "get": { const d = this.member(q, args[0] || UNDEF, s); if (d) { if (!d.length) return R(UNDEF, s); const p = d[d.length - 1], h = p.length === 1 && p[0].k === "o" && s.heap.get(p[0].id); if (h && h.items && h.items.length === 2) return R(h.items[1], s); } return R( join(q.mapv || this.mapVals(q, s), UNDEF), s); }
        case "has": { const d = this.member(q, args[0] || UNDEF, s); return R(d !== null ? C(d.length > 0) : Y("has(" + a.id + "," + this.termOf(args[0] || []) + ")"), s); }
        case "delete": case "clear": this.event("mutate", { node: e, obj: [a], st: s, name, args }); if (this.opts.concrete && !q.summary) { if (name === "clear") { s.heap.set(a.id, { ...q, items: [], elem: BOT, mapv: BOT }); return R(UNDEF, s); } const d = this.member(q, args[0] || UNDEF, s); if (d) { s.heap.set(a.id, { ...q, items: q.items.filter((it) => !d.includes(it)) }); return R(C(d.length > 0), s); } } s.heap.set(a.id, { ...q, elem: elemOf(q), items: null, maybeEmpty: true }); return R(T([], "boolean"), s);
        case "forEach": { if (this.opts.concrete && q.items) { let z = s; for (const it of q.items) { let k = it, v = it; if (r.kind === "map") { const h = z.heap.get(it[0].id); k = h.items[0]; v = h.items[1]; } const j = this.applyCb(args[0], [v, k, [a]], z, e); if (!j.s) return []; z = j.s; } return R(UNDEF, z); } const el = elemOf(q); let vv = r.kind === "map" ? this.mapVals(q, s) : el; if (vv.length === 0) return R(UNDEF, s); const z = this.applyCb(args[0], [vv, r.kind === "map" ? this.mapKeys(q, s) : el, [a]], s, e); return R(UNDEF, joinState(s, z.s)); }
        case "entries": return R([a], s);
        case "values": case "keys": if (this.opts.concrete && r.kind === "map" && q.items) return R(this.alloc(s, e, "array", { items: q.items.map((it) => s.heap.get(it[0].id).items[name === "keys" ? 0 : 1]) }), s); if (name === "keys") { if (r.kind === "set") return R([a], s); return R(this.alloc(s, e, "array", { items: null, elem: this.mapKeys(q, s), maybeEmpty: true }), s); } if (r.kind === "set") return R([a], s); return R(this.alloc(s, e, "array", { items: null, elem: this.mapVals(q, s), maybeEmpty: true }), s);
      }
    }
    if (r.kind === "weak") { if (name === "get") return R(join(T([]), UNDEF)); if (name === "has") return R(T([], "boolean")); return R([a]); }
    if (name === "hasOwnProperty") { const ks = this.keysOf(args[0] || []); return R(ks && !r.rest ? (ks.some((k) => r.props.has(k)) ? TRUE : FALSE) : T([], "boolean")); }
    if (name === "toString") return R(T(this.labels([a], st), "string"));
    return null;
  }
  filterElem(el, cb, st, e) {
    // keep only atoms for which the predicate may hold
    let out = BOT;
    for (const x of el) { const q = this.applyCb(cb, [[x], T([], "number")], st, e); if (!q.s) continue; if (this.splitTruth(q.v, q.s).t.length) out = join(out, [x]); }
    return out;
  }
  mapVals(q, s) { let x = BOT; for (const p of elemOf(q)) x = join(x, p.k === "o" ? this.getIndex([p], 1, s) : T(labelsShallow(p))); return x; }
  mapKeys(q, s) { let x = BOT; for (const p of elemOf(q)) x = join(x, p.k === "o" ? this.getIndex([p], 0, s) : T(labelsShallow(p))); return x; }

  strMethod(a, name, args, st, e) {
    const R = (v, s = st) => [{ s, v }];
    const L = new Set(a.k === "t" ? a.L : labelsShallow(a)); for (const x of args) for (const l of this.labels(x, st)) L.add(l);
    if (this.opts.strOp) { const v = this.opts.strOp(a, name, args, st, e, this); if (v) return v.s ? [v] : R(v); }
    const allConst = a.k === "c" && args.every((x) => x.length === 1 && (x[0].k === "c" || x[0].k === "re"));
    if (allConst && ["startsWith", "endsWith", "includes", "slice", "toLowerCase", "toUpperCase", "trim", "indexOf", "charAt", "repeat", "substring", "at", "padEnd", "padStart", "charCodeAt", "codePointAt", "lastIndexOf", "replaceAll", "replace", "split"].includes(name) && !args.some((x) => x[0].k === "fn")) {
      try { const v = a.v[name](...args.map((x) => x[0].k === "re" ? new RegExp(x[0].src, x[0].flags) : x[0].v)); if (Array.isArray(v)) { const s = st.clone(); return R(this.alloc(s, e, "array", { items: v.map((z) => C(z)) }), s); } return R(C(v)); } catch { /* fall through */ }
    }
    switch (name) {
      case "startsWith": case "endsWith": case "includes": return R(Y("str." + name + "(" + this.termOf([a]) + "," + this.termOf(args[0] || []) + ")"));
      case "split": case "match": case "matchAll": { const s = st.clone(); const arr = this.alloc(s, e, "array", { items: null, elem: T(L, "string"), maybeEmpty: name !== "split" }); return R(name === "match" ? join(arr, NULL) : arr, s); }
      case "indexOf": case "lastIndexOf": case "charCodeAt": case "codePointAt": case "localeCompare": case "search": return R(T([], "number"));
      case "at": return R(join(T(L, "string"), UNDEF));
      case "toString": case "valueOf": return R([a]);
      case "concat": return R(this.concat([[a], ...args], st));
      case "trim": case "trimEnd": case "trimStart": case "slice": case "substring": case "normalize": if (a.k === "s" && a.parts.length === 1 && a.parts[0].lit === undefined && !a.parts[0].rep) return R([a]); break;
      case "padEnd": case "padStart": return R(T(L, "string"));
      case "replace": case "replaceAll": {
        // callbacks
        if (args[1]) for (const f of args[1]) if (f.k === "fn") { const q = this.callFn(f, f.node.parameters.map(() => T(L, "string")), null, st, e); for (const z of q) { for (const l of this.labels(z.v, z.s)) L.add(l); } }
        break;
      }
    }
    return R(T(L, "string"));
  }
  reMethod(a, name, args, st, e) {
    const R = (v, s = st) => [{ s, v }];
    if (name === "test") {
      if (args[0] && args[0].length === 1 && args[0][0].k === "c") { try { return R(C(new RegExp(a.src, a.flags.replace(/[gy]/g, "")).test(String(args[0][0].v)))); } catch { /* */ } }
      return R(Y("re.test(" + a.src + "~" + a.flags + "," + this.termOf(args[0] || []) + ")"));
    }
    if (name === "exec") { const s = st.clone(); const L = new Set(); for (const x of args) for (const l of this.labels(x, st)) L.add(l); const m0 = (this.opts.substr && this.opts.substr(args[0] || BOT, st)) || T(L, "string"); const g = join(T(L, "string"), UNDEF); return R(join(this.alloc(s, e, "array", { items: null, elem: g, props: new Map([["0", m0], ["index", T(L, "number")], ["input", args[0] || BOT], ["groups", T(L)]]), maybeEmpty: false }), NULL), s); }
    return R(T([]));
  }
  tagRet(v, s) { return [{ s, v }]; }
  native(path, args, st, e) {
    const R = (v, s = st) => [{ s, v }];
    if (!path.startsWith("global:")) return null;
    const n = path.slice(7);
    const a0 = args[0] || BOT;
    switch (n) {
      case "Symbol": case "Symbol.for": {
        if (n === "Symbol.for" && a0.length === 1 && a0[0].k === "c") return R(Y("symbol:for:" + a0[0].v));
        return R(Y("symbol:" + nid(e) + "." + (this.curEnv && !ts.isSourceFile(this.curEnv.node) ? this.curEnv.ctx : 0)));
      }
      case "Array.isArray": { let v = BOT; for (const a of a0) { if (a.k === "o") { const r = this.rec(st, a.id); v = join(v, r ? C(r.kind === "array") : T([], "boolean")); } else if (a.k === "y") v = join(v, Y("isArray(" + a.p + ")")); else if (a.k === "t") v = join(v, T([], "boolean")); else v = join(v, FALSE); } return R(v); }
      case "Array.from": { const s = st.clone(); const src = a0; let el = BOT, items = null; if (src.length === 1 && src[0].k === "o") { const r = this.rec(s, src[0].id); if (r && r.items) items = r.items; } el = this.joinElems(src, s); if (args[1] && args[1].some((f) => f.k === "fn")) { const q = this.applyCb(args[1], [el.length ? el : UNDEF, T([], "number")], s, e); return R(this.alloc(q.s || s, e, "array", { items: null, elem: q.v, maybeEmpty: true }), q.s || s); } return R(this.alloc(s, e, "array", items ? { items } : { items: null, elem: el, maybeEmpty: true }), s); }
      case "Array.of": { const s = st.clone(); return R(this.alloc(s, e, "array", { items: args.slice() }), s); }
      case "Object.freeze": case "Object.seal": case "Object.preventExtensions": return R(a0);
      case "Object.create": { const s = st.clone(); if (this.opts.concrete) { const props = new Map(); let ok = true; for (const d of args[1] || []) { const h = d.k === "o" && s.heap.get(d.id); if (!h || h.rest || h.anyKey) { if (!(d.k === "c" && d.v === undefined)) ok = false; continue; } for (const [k, v] of h.props) { const g = this.descValue(v, k, s); if (g.length) props.set(k, g); } } if (ok) return R(this.alloc(s, e, "object", { props, bare: a0.length === 1 && a0[0].k === "c" && a0[0].v === null }), s); } return R(this.alloc(s, e, "object", { bare: a0.length === 1 && a0[0].k === "c" && a0[0].v === null, props: new Map(), rest: a0.some((a) => a.k === "y" || a.k === "t") ? a0.filter((a) => a.k === "y" || a.k === "t") : undefined }), s); }
      case "Object.assign": { const s = st.clone(); for (const src of args.slice(1)) for (const b of src) { if (b.k === "o") { const r = this.rec(s, b.id); if (r) for (const [k, v] of r.props) this.setProp(a0, [k], v, s); } else if (b.k === "y" || b.k === "t") for (const t of a0) if (t.k === "o") { const r = this.rec(s, t.id); s.heap.set(t.id, { ...r, rest: join(r.rest || BOT, [b]) }); } } return R(a0, s); }
      case "Object.defineProperty": { const s = st.clone(); const ks = this.keysOf(args[1] || []); let v = BOT; for (const d of args[2] || []) { if (d.k === "o") { const r = this.rec(s, d.id); if (r) { if (r.props.has("value")) v = join(v, r.props.get("value")); if (r.props.has("get")) v = join(v, r.props.get("get").map((f) => f.k === "fn" ? { ...f, getter: true, key: "get" + nid(f.node) + "@" + (f.env ? f.env.id : 0) } : f)); if (!r.props.has("value") && !r.props.has("get")) v = join(v, r.rest ? this.getProp(r.rest, "value", s) : UNDEF); } } else v = join(v, this.getProp([d], "value", s)); } this.setProp(a0, ks, v, s); return R(a0, s); }
      case "Object.defineProperties": return R(a0);
      case "Object.keys": case "Object.getOwnPropertyNames": case "Reflect.ownKeys": case "Object.getOwnPropertySymbols": { const s = st.clone(); let items = [], exact = true, el = BOT; if (this.opts.concrete && a0.length === 1 && a0[0].k === "o") { const h = this.rec(s, a0[0].id); if (h && h.kind === "array" && h.items && !n.endsWith("Symbols")) { items = h.items.map((_, i) => C(String(i))); if (n !== "Object.keys") items.push(C("length")); for (const k of h.props.keys()) items.push(k.startsWith("@@") ? Y(k.slice(2)) : C(k)); return R(this.alloc(s, e, "array", { items }), s); } } for (const a of a0) { if (a.k === "o") { const r = this.rec(s, a.id); if (!r || r.rest || r.summary || r.anyKey || r.kind !== "object") { exact = false; } if (r) for (const k of r.props.keys()) { if (k.startsWith("@@")) { if (n === "Reflect.ownKeys" || n.endsWith("Symbols")) { items.push(Y(k.slice(2))); } } else if (!n.endsWith("Symbols")) items.push(C(k)); } if (r && r.rest) el = join(el, Y("key(" + this.termOf(r.rest) + ")")); } else { exact = false; el = join(el, a.k === "y" ? Y("key(" + a.p + ")") : T(labelsShallow(a))); } } return R(this.alloc(s, e, "array", exact && a0.length === 1 ? { items } : { items: null, elem: items.reduce(join, el), maybeEmpty: true }), s); }
      case "Object.values": case "Object.entries": { const s = st.clone(); let el = BOT, items = [], exact = a0.length === 1; for (const a of a0) { if (a.k === "o") { const r = this.rec(s, a.id); if (!r || r.rest || r.summary || r.anyKey || r.kind !== "object") exact = false; if (r) { for (const [k, v] of r.props) { if (k.startsWith("@@")) continue; const vv = this.getterOr(v, a, s); if (n === "Object.values") { items.push(vv); el = join(el, vv); } else { const p = this.freshObj(s, {}, "array", { items: [C(k), vv] }); items.push(p); el = join(el, p); } } if (r.rest) { const rv = Y("elem(" + this.termOf(r.rest) + ")"); el = join(el, n === "Object.values" ? rv : this.freshObj(s, {}, "array", { items: [Y("key(" + this.termOf(r.rest) + ")"), rv] })); } } } else { exact = false; const rv = a.k === "y" ? Y("elem(" + a.p + ")") : T(labelsShallow(a)); el = join(el, n === "Object.values" ? rv : this.freshObj(s, {}, "array", { items: [a.k === "y" ? Y("key(" + a.p + ")") : rv, rv] })); } } return R(this.alloc(s, e, "array", exact && items.length <= 24 ? { items } : { items: null, elem: el, maybeEmpty: true }), s); }
      case "Object.fromEntries": { const s = st.clone(); if (this.opts.concrete) { const es = this.entryList(a0, s); if (es) { const o = this.freshObj(s, {}); for (const [k, v] of es) s.heap.get(o[0].id).props.set(k, v); return R(o, s); } } const L = this.labels(a0, s); const o = this.alloc(s, e, "object", { props: new Map(), rest: T(L) }); return R(o, s); }
      case "Object.hasOwn": { const ks = this.keysOf(args[1] || []); let v = BOT; for (const a of a0) { if (a.k === "o" && ks) { const r = this.rec(st, a.id); for (const k of ks) v = join(v, r && r.props.has(k) ? (r.props.get(k).length > 1 ? [...TRUE, ...FALSE] : TRUE) : r && (r.rest || r.anyKey) ? T([], "boolean") : FALSE); } else v = join(v, a.k === "y" ? Y("hasOwn(" + a.p + "," + this.termOf(args[1] || []) + ")") : T([], "boolean")); } return R(v); }
      case "Object.getPrototypeOf": if (this.opts.concrete && a0.length === 1 && a0[0].k === "o") { const h = this.rec(st, a0[0].id); if (h) return R(h.proto || Y("global:" + h.kind[0].toUpperCase() + h.kind.slice(1) + ".prototype")); } return R(Y("proto(" + this.termOf(a0) + ")"));
      case "Object.getOwnPropertyDescriptor": { const s = st.clone(); if (this.opts.concrete && a0.length === 1 && a0[0].k === "o") { const h = this.rec(s, a0[0].id), ks = this.keysOf(args[1] || []); if (h && !h.rest && !h.anyKey && ks && ks.length === 1) { const v = h.props.has(ks[0]) ? h.props.get(ks[0]) : h.kind === "array" && h.items && /^\d+$/.test(ks[0]) ? h.items[+ks[0]] : h.kind === "array" && h.items && ks[0] === "length" ? C(h.items.length) : undefined; return R(v === undefined ? UNDEF : this.descOf(v, s), s); } } const ks = this.keysOf(args[1] || []); const v = ks ? ks.reduce((x, k) => join(x, this.getProp(a0, k, s)), BOT) : this.getElem(a0, args[1] || T([]), s); return R(join(this.freshObj(s, { value: v, enumerable: T([], "boolean"), configurable: T([], "boolean") }), UNDEF), s); }
      case "Object.getOwnPropertyDescriptors": { const s = st.clone(); if (this.opts.concrete && a0.length === 1 && a0[0].k === "o") { const h = this.rec(s, a0[0].id); if (h && !h.rest && !h.anyKey && h.kind === "object") { const o = this.freshObj(s, {}); for (const [k, v] of h.props) s.heap.get(o[0].id).props.set(k, this.descOf(v, s)); return R(o, s); } } let rest = a0.filter((a) => a.k !== "c"); return R(this.freshObj(s, {}, "object", { rest: T(this.labels(rest, s)) }), s); }
      case "Object.is": { let v = BOT; for (const a of a0) for (const b of args[1] || BOT) { const q = a.k === "c" && b.k === "c" ? Object.is(a.v, b.v) : this.eqAtoms(a, b, true, st); v = join(v, q === undefined ? T([], "boolean") : C(q)); } return R(v); }
      case "Reflect.get": return R(this.getElem(a0, args[1] || T([]), st));
      case "Reflect.set": { const s = st.clone(); this.setProp(a0, this.keysOf(args[1] || []), args[2] || UNDEF, s); return R(TRUE, s); }
      case "Reflect.has": return R(T([], "boolean"));
      case "Reflect.apply": { const out = []; for (const f of a0) out.push(...this.callAtom(f, Object.assign([this.joinElems(args[2] || [], st)], { spread: true }), args[1], st, e)); return out; }
      case "Promise.resolve": if (this.opts.promises) { const s = st.clone(); return R(this.promiseOf(s, args.length ? a0 : UNDEF), s); } return R(args.length ? a0 : UNDEF);
      case "Promise.reject": if (this.opts.promises) { const s = st.clone(); return R(this.promiseOf(s, a0, true), s); } this.raise(st, a0, true); return [];
      case "Promise.all": case "Promise.allSettled": { let s = st.clone();
        if (this.opts.promises && a0.length === 1 && a0[0].k === "o" && this.rec(s, a0[0].id) && this.rec(s, a0[0].id).items) {
          const items = [], all = n === "Promise.all"; let failed = null;
          for (const it of this.rec(s, a0[0].id).items) { const bad = []; this.handlers.push(bad); const ok = this.joinRets(this.settle(it, s, e)); this.handlers.pop(); let s2 = ok.s; for (const q of bad) s2 = joinState(s2, q.s); if (!s2) return []; s = s2.clone();
            if (all) { if (bad.length && !failed) failed = bad.reduce((x, q) => join(x, q.v), BOT); items.push(ok.v); }
            else items.push([...(ok.s ? this.freshObj(s, { status: C("fulfilled"), value: ok.v }) : []), ...bad.flatMap((q) => this.freshObj(s, { status: C("rejected"), reason: q.v }))]); }
          return R(failed ? this.promiseOf(s, failed, true) : this.promiseOf(s, this.alloc(s, e, "array", { items })), s);
        } if (a0.length === 1 && a0[0].k === "o") { const r = this.rec(s, a0[0].id); if (r && r.items) return R(this.alloc(s, e, "array", { items: r.items }), s); } return R(this.alloc(s, e, "array", { items: null, elem: this.joinElems(a0, s), maybeEmpty: true }), s); }
      case "String": { if (this.opts.concrete && a0.length === 1 && a0[0].k === "o") { const j = this.jsonOf(a0, st, 6); if (j && !(this.rec(st, a0[0].id).props.has("toString"))) return R(C(String(j.v))); } if (this.opts.numText && e.arguments && e.arguments[0] && this.tyOf(e.arguments[0]) === "number" && a0.some((a) => a.k === "y" || a.k === "t")) return R(this.opts.numText(a0, st)); let v = BOT; for (const a of a0) v = join(v, a.k === "c" ? C(String(a.v)) : a.k === "s" ? [a] : a.k === "y" ? this.concat([[a]], st) : T(this.labels([a], st), "string")); return R(v); }
      case "String.raw": return R(T(this.labels(args.flat(), st), "string"));
      case "JSON.stringify": { if (this.opts.concrete && args.length === 1) { const j = this.jsonOf(a0, st, 6); if (j !== null && j.v !== undefined) return R(C(JSON.stringify(j.v))); } if (this.opts.jsonStringify) { const v = this.opts.jsonStringify(a0, st, this); if (v) return R(v); } return R(T(new Set([...this.labels(a0, st)]), "string")); }
      case "JSON.parse": return R(T(this.labels(a0, st)));
      case "Number": if (this.opts.concrete && a0.length === 1 && a0[0].k === "c" && typeof a0[0].v !== "symbol") return R(C(Number(a0[0].v))); /* falls through */
      case "parseInt": case "parseFloat": case "Number.parseInt": case "Number.parseFloat": return R(T(this.labels(a0, st), "number"));
      case "BigInt": return R(T(this.labels(a0, st)));
      case "Boolean": { let v = BOT; for (const a of a0) { const t = truth(a, st); v = join(v, t === undefined ? (a.k === "y" ? [a] : T([], "boolean")) : C(t)); } return R(v); }
      case "Number.isInteger": case "Number.isFinite": case "Number.isNaN": case "isNaN": case "isFinite": case "Number.isSafeInteger": { if (a0.length === 1 && a0[0].k === "c" && typeof a0[0].v === "number") { const f = { "Number.isInteger": Number.isInteger, "Number.isFinite": Number.isFinite, "Number.isNaN": Number.isNaN, isNaN, isFinite, "Number.isSafeInteger": Number.isSafeInteger }[n]; return R(C(f(a0[0].v))); } return R(Y(n + "(" + this.termOf(a0) + ")")); }
      case "URL.canParse": return R(Y(n + "(" + this.termOf(a0) + ")"));
      case "Error": case "TypeError": case "RangeError": return R(Y("new:" + n));
    }
    if (/^Math\./.test(n)) { if (args.length && args.every((x) => x.length === 1 && x[0].k === "c" && typeof x[0].v === "number") && n !== "Math.random") return R(C(Math[n.slice(5)](...args.map((x) => x[0].v)))); return R(T(n === "Math.random" ? ["random"] : this.labels(args.flat(), st), "number")); }
    return null;
  }
  newExpr(e, st, env) {
    const cr = this.ev(e.expression, st, env); if (!cr.s) return cr;
    const ar = this.evArgs(e.arguments, cr.s, env); if (!ar) return { v: BOT, s: null };
    st = ar.s; const args = ar.args; const nm = e.expression.getText();
    this.event("new", { node: e, name: nm, args, st });
    if (this.opts.onNew) { const r = this.opts.onNew({ node: e, name: nm, args, st, interp: this }); if (r) return { v: r.v || r, s: r.s || st }; }
    if (nm === "Set" || nm === "Map") {
      const s = st.clone(); let el = BOT, items = [];
      if (args[0]) { el = this.joinElems(args[0], s); items = null; if (args[0].length === 1 && args[0][0].k === "o") { const r = this.rec(s, args[0][0].id); if (r && r.items && nm === "Set") { if (!this.opts.concrete) items = r.items; else { items = []; for (const it of r.items) { const d = this.member({ kind: "set", items }, it, s); if (!d) { items = null; break; } if (!d.length) items.push(it); } } } else if (r && r.items && this.opts.concrete) items = r.items; else if (r && r.items && r.items.length === 0) items = []; } if (args[0].every((a) => a.k === "c" && a.v == null)) items = []; }
      const init = { items, elem: el, maybeEmpty: true };
      const v = this.alloc(s, e, nm.toLowerCase(), init);
      return { v, s };
    }
    if ((nm === "WeakMap" || nm === "WeakSet") && this.opts.concrete && !args.length) { const s = st.clone(); return { v: this.alloc(s, e, nm.slice(4).toLowerCase(), { items: [] }), s }; }
    if (nm === "WeakMap" || nm === "WeakSet") { const s = st.clone(); return { v: this.alloc(s, e, "weak", {}), s }; }
    if (nm === "Array" && this.opts.concrete && args.length === 1 && args[0].length === 1 && args[0][0].k === "c" && typeof args[0][0].v === "number") { const s = st.clone(); return { v: this.alloc(s, e, "array", { items: Array.from({ length: args[0][0].v }, () => UNDEF) }), s }; }
    if (nm === "Array") { const s = st.clone(); return { v: this.alloc(s, e, "array", { items: null, elem: UNDEF, maybeEmpty: true }), s }; }
    if (nm === "RegExp") { const a = args[0] || BOT; let v = BOT; for (const x of a) { if (x.k === "c") v = join(v, [{ k: "re", src: String(x.v), flags: args[1] && args[1].length === 1 && args[1][0].k === "c" ? String(args[1][0].v ?? "") : args[1] ? "?" : "" }]); else if (x.k === "re") v = join(v, [{ k: "re", src: x.src, flags: args[1] && args[1].length === 1 && args[1][0].k === "c" ? String(args[1][0].v) : x.flags }]); else v = join(v, Y("new:RegExp(" + this.termOf([x]) + ")")); } return { v, s: st }; }
    if (nm === "Promise") { let s = st; const L = new Set(); const rv = { v: BOT }; const res = [{ k: "nat", name: "resolve", uid: nid(e), call: (as, s2) => { rv.v = join(rv.v, as[0] || UNDEF); return [{ s: s2, v: UNDEF }]; } }]; const rej = [{ k: "nat", name: "reject", uid: nid(e), call: (as, s2, n, it) => { it.raise(s2, as[0] || BOT); return [{ s: s2, v: UNDEF }]; } }]; for (const f of args[0] || []) { const q = this.joinRets(this.callAtom(f, [res, rej], null, s, e)); if (q.s) s = q.s; } return { v: rv.v.length ? rv.v : T(L), s }; }
    if (/Error$/.test(nm)) { const s = st.clone(); const v = this.alloc(s, e, "object", { props: new Map([["message", args[0] || UNDEF]]) }); return { v, s }; }
    if (this.handlers.length && !this.opts.noRejections) this.raise(st, Y("thrown(new " + nm + ")"));
    return { v: Y("new:" + nm + "(" + args.map((x) => this.termOf(x)).join(",") + ")"), s: st };
  }
}
function mkStr(parts) {
  const out = [];
  for (const p of parts) { if (p.lit !== undefined) { if (p.lit === "") continue; const q = out[out.length - 1]; if (q && q.lit !== undefined) out[out.length - 1] = { lit: q.lit + p.lit }; else out.push(p); } else out.push(p); }
  if (out.length === 0) return { k: "c", v: "" };
  if (out.length === 1 && out[0].lit !== undefined) return { k: "c", v: out[0].lit };
  return { k: "s", parts: out };
}
function mkRep(el, sep, st, it) {
  const alts = [];
  for (const a of el) {
    if (a.k === "c") alts.push([{ lit: a.v == null ? "" : String(a.v) }]);
    else if (a.k === "s") alts.push(a.parts);
    else if (a.k === "y") { const f = st.facts.get(a.p); alts.push([{ L: new Set([a.p]), raw: true, lang: f && f.lang }]); }
    else if (a.k === "t") alts.push([{ L: a.L, raw: true, top: true }]);
    else alts.push([{ L: it.labels([a], st), raw: true, top: true }]);
  }
  const sp = sep.length === 1 && sep[0].k === "c" ? String(sep[0].v) : null;
  if (sp === null) { const L = it.labels(el, st); for (const l of it.labels(sep, st)) L.add(l); return { k: "t", L, ty: "string" }; }
  return { k: "s", parts: [{ rep: alts, sep: sp }] };
}
function strip(e) { while (e && (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isTypeAssertionExpression(e) || ts.isSatisfiesExpression(e))) e = e.expression; return e; }
function inChain(e) { // part of an optional chain whose earlier link may have short-circuited
  return !!(e.flags & ts.NodeFlags.OptionalChain);
}
function isBoolish(x) {
  if (ts.isPrefixUnaryExpression(x)) return x.operator === S.ExclamationToken;
  if (ts.isBinaryExpression(x)) { const o = x.operatorToken.kind; if ([S.EqualsEqualsEqualsToken, S.EqualsEqualsToken, S.ExclamationEqualsEqualsToken, S.ExclamationEqualsToken, S.LessThanToken, S.GreaterThanToken, S.LessThanEqualsToken, S.GreaterThanEqualsToken, S.InKeyword, S.InstanceOfKeyword].includes(o)) return true; if (o === S.AmpersandAmpersandToken || o === S.BarBarToken) return isBoolish(strip(x.left)) && isBoolish(strip(x.right)); }
  return false;
}
module.exports = { Interp, State, join, C, Y, T, UNDEF, TRUE, FALSE, NULL, BOT, atomKey, valKey, truth, nullish, joinState, mkStr, mkRep, strip, elemOf, labelsShallow, partsLabels, setLitLabels: (f) => { litLabels = f; }, nid, clip };
