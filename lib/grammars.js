"use strict";
// The parser trees analysed by C17, C21 and C22, and the argument lists tried on each.
const C = require("./combench.js"); const { F, O, A, obj, tup, seq, or, lm, merge, cat, may, def, mul, map, grp, cmd, full, inside } = C;
const a = F("--a"), b = F("--b"), s = F("--s"), z = F("--z"), v = O("--v"), x = A();
const hand = [
  obj({ a, b }), obj({ a, x }), obj({ v, x }), obj({ x, y: A() }), obj({ a: may(a), x }), obj({ a: def(v), x: may(x) }), obj({ a, xs: mul(x) }), obj({ vs: mul(v), x }), obj({ vs: mul(v, 1), xs: mul(x, 1, 2) }),
  tup(a, x), tup(may(a), mul(x, 1)), seq(a, x), seq(may(a), x), seq(x, a, A()), seq(x, may(v), A()),
  or(a, b), or(obj({ a, x }), obj({ b, y: A() })), or(cmd("go", obj({ a: may(a) })), cmd("do", obj({ x }))), or(x, a), or(v, seq(b, x)), or(a, b, s),
  lm(obj({ a }), obj({ a, b })), lm(a, seq(a, x)), lm(a, b, s), lm(cmd("go", a), cmd("do", x)),
  merge(obj({ a }), obj({ b })), merge(obj({ a }), or(obj({ b }), obj({ s }))), merge(obj({ a: may(a) }), obj({ x })), merge(obj({ a }), obj({ b: may(b) }), obj({ x })),
  cat(tup(a), tup(x)), cat(tup(a, x), tup(b)), cat(tup(a), tup(b, may(s))),
  map(a), obj({ a: map(may(a)), x }), grp(obj({ a, x })), cmd("go", obj({ a })), obj({ a: may(a), c: cmd("go", obj({ x })) }), full(obj({ a: may(a), b: may(b) })),
  may(obj({ a, b })), mul(seq(a, x)), mul(v, 1, 2), mul(or(a, b)), mul(lm(a, b)), obj({ o: or(a, b), x }), obj({ o: may(or(a, v)), x }), def(or(a, b)), def(lm(a, v)), obj({ i: obj({ a, x }), b }),
  cat(tup(may(x)), tup(cmd("go", a))), tup(may(x), cmd("go", a)), obj({ x: may(x), c: cmd("go", a) }), merge(obj({ x: may(x) }), obj({ c: cmd("go", a) })), seq(may(v), b), mul(obj({ v, b })), merge(obj({ v }), obj({ b: may(b) })),
];
// alternatives and nested structures whose parts are reached by several calls
const nested = [];
for (const X of [or, lm]) nested.push(
  obj({ o: X(a, b), z }), obj({ o: X(obj({ a, s }), obj({ s, b })), z }), obj({ o: X(obj({ a, v }), obj({ v, b })), z }), obj({ o: may(X(obj({ a, s }), obj({ b }))), z }), merge(X(obj({ a, s }), obj({ s, b })), obj({ z })), tup(X(obj({ a, s }), obj({ s, b })), z),
  obj({ o: mul(X(a, b)), z }), obj({ o: X(obj({ a, x }), obj({ b, x })), z }), obj({ o: X(cmd("go", obj({ a: may(a) })), cmd("do", obj({ b: may(b) }))), z }), obj({ o: X(X(a, b), s), z }), obj({ o: X(obj({ a: may(a), s }), obj({ s, b: may(b) })), z }), map(X(obj({ a, s }), obj({ s, b }))), obj({ o: grp(X(obj({ a, s }), obj({ b }))), z }), obj({ o: X(mul(a, 1), mul(b, 1)), z }));
nested.push(merge(obj({ a, v }), obj({ b, z: may(z) })), obj({ i: obj({ a, b: may(b) }), j: obj({ z, s: may(s) }) }), obj({ i: tup(a, b), z }), obj({ i: merge(obj({ a }), obj({ b })), z }), obj({ i: mul(obj({ a, b })), z }), obj({ i: may(tup(a, b)), z }), obj({ i: cat(tup(a), tup(b)), z }), obj({ i: def(obj({ a, b })), z }), obj({ i: full(obj({ a: may(a), b: may(b) })), z }),
  obj({ c: cmd("go", obj({ a, x: may(x) })), z: may(z) }), or(cmd("go", seq(a, x)), cmd("do", mul(x, 1))), merge(obj({ z }), cmd("go", obj({ a: may(a) }))), obj({ xs: mul(x, 2), a: may(a) }), obj({ i: mul(v, 2), x }), merge(obj({ z: may(z) }), or(obj({ a }), obj({ b }))), merge(obj({ z: may(z) }), merge(obj({ a }), obj({ b: may(b) }))), tup(mul(a, 1), mul(x)), seq(obj({ a: may(a) }), cmd("go", obj({ b: may(b) }))), seq(mul(x, 1, 2), a, may(b)));
// three alternatives with shared parts, reached in three separate steps
const c = F("--c"), w = F("--w"); const steps = [or, lm].flatMap((X) => [obj({ o: X(obj({ s, a: may(a) }), obj({ s, b }), obj({ b, c })), z, w }), obj({ o: X(obj({ s, v }), obj({ v, b: may(b) }), obj({ b, c: may(c), s: may(s) })), z, w })]);
const stepLists = (g) => { const ts = [...tokens(g.fields.o)].filter((t) => t !== "x").map((t) => (t === "--v" ? [t, "x"] : [t])), out = []; for (const p of ts) for (const q of ts) for (const r of ts) if (new Set([p, q, r]).size === 3) { out.push([...p, "--z", ...q, "--w", ...r]); } return out; };
// every binary combinator over every pair of wrapped leaves
const wraps = [(g) => g, may, def, (g) => mul(g), map, (g) => mul(g, 1, 2)];
const both = { object: (g, h) => obj({ l: g, r: h }), tuple: tup, seq, or, longestMatch: lm, merge: (g, h) => merge(obj({ l: g }), obj({ r: h })), concat: (g, h) => cat(tup(g), tup(h)) };
const pairs = (leaves) => { const out = []; for (const k of Object.keys(both)) for (const u of wraps) for (const w of wraps) for (const [l, r] of leaves) out.push(both[k](u(l), w(r))); return out; };
const quickPairs = () => { const all = [[a, b], [a, x], [v, x], [x, a]]; const out = []; let i = 0; for (const k of Object.keys(both)) for (const u of wraps) for (const w of wraps) { const [l, r] = all[i++ % 4]; out.push(both[k](u(l), w(r))); i += i % 24 === 0 ? 1 : 0; } return out; };
const tokens = (g, out = new Set()) => { if (g.name) out.add(g.name); if (g.k === "arg" || g.k === "opt") out.add("x"); for (const y of inside(g)) tokens(y, out); return out; };
const has = (g, f) => f(g) || inside(g).some((y) => has(y, f));
function lists(g, kind) {
  if (kind === "steps") return stepLists(g);
  const al = [...tokens(g)], more = kind === "hand" ? [...al, ...(al.includes("x") ? ["bad"] : []), "--zz"] : al, seen = new Set(), out = []; const add = (l) => { const k = l.join(" "); if (!seen.has(k)) { seen.add(k); out.push(l); } };
  const ref = (l) => C.reference(g, l).length > 0; const alt = has(g, (y) => y.k === "or" || y.k === "longestMatch");
  add([]); add(["--zz"]);
  for (const c of more) { add([c]); for (const d of more) add([c, d]); }
  for (const c of al) for (const d of al) for (const e of al) { if (ref([c, d, e]) || (kind === "nested" && new Set([c, d, e]).size > 2)) add([c, d, e]); if (kind === "nested") for (const f of al) if (ref([c, d, e, f]) || (alt && new Set([c, d, e, f]).size === 4)) add([c, d, e, f]); }
  return out;
}
// alternatives that may also match nothing: with nothing to take, none is preferred
const ambiguousEmpty = (g) => has(g, (y) => (y.k === "or" || y.k === "longestMatch") && y.gs.some((h) => C.reference(h, []).length > 0));
module.exports = { hand, nested, steps, pairs, quickPairs, leaves: [[a, b], [a, x], [v, x], [x, a]], lists, tokens, has, ambiguousEmpty };
