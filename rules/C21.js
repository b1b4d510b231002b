"use strict";
// C21: asynchronous parsers behave as synchronous ones do.
const G = require("../lib/grammars.js"); const C = require("../lib/combench.js"); const { shares } = require("../lib/pool.js"); const { where, units } = require("./C17.js");
exports.explanation = "Abstract interpretation of the synchronous and asynchronous twins of every combinator and of the parse, suggest and documentation loops from source, over stub leaf parsers that answer at once or with a promise; the outcomes of both sides are compared, error messages included.";
exports.run = (P, R) => { shares("C21", R.tier, R); R.atLeast("parser trees", R.counts["trees interpreted"] || 0, 150); R.atLeast("compared outcomes", R.counts["outcomes compared"] || 0, 3000); };
const leaves = (g) => (g.k === "flag" || g.k === "opt" || g.k === "arg" ? 1 : C.inside(g).reduce((n, y) => n + leaves(y), 0));
const one = (v) => [{ k: "c", v }];
exports.share = (P, S, mine) => {
  units(S.tier).forEach(([g, kind], i) => {
    if (!mine(i)) return; const loc = where(P, g), n = leaves(g), thorough = S.tier === "thorough", whole = kind !== "pair" || thorough; if (!whole && i % 3) return;
    const bench = (f) => { let k = 0; const b = new C.CombBench(P, { mode: "sync", asyncLeaf: () => f(k++) }); return { b, p: b.build(g) }; };
    const sides = [["every part asynchronous", () => true]]; const some = [["only the first part asynchronous", (k) => k === 0], ["only the last part asynchronous", (k) => k === n - 1]]; if (whole && n > 1) sides.push(...(thorough ? some : [some[i % 2]]));
    let base, others;
    try { base = bench(() => false); others = sides.map(([t, f]) => [t, bench(f)]); } catch (e) { S.obligation("the tree can be built", false, loc, `${C.text(g)} cannot be built: ${String(e.message).slice(0, 200)}`, `${C.text(g)} build`); return; }
    S.analysed(1, "trees interpreted");
    const args1 = (b, l) => (st) => [b.arr(st, l.map(one))];
    const compare = (rule, l, syncApi, asyncApi, extra) => {
      const at = `${C.text(g)} | ${l.join(" ")}`; const run = ({ b, p }, api) => { try { return b.run(api, p, args1(b, l)); } catch (e) { return ["not decided: " + String(e.message).slice(0, 200)]; } };
      const want = run(base, syncApi); const ok = (x) => x.length === 1 && !x[0].startsWith("not decided") && !x[0].includes("?");
      const tell = (t, got) => { S.analysed(1, "outcomes compared"); S.obligation(rule, ok(want) && ok(got) && got[0] === want[0], loc, `${at}: with ${t}, ${asyncApi} gives ${got.join(" or ").slice(0, 180)}, where ${syncApi} gives ${want.join(" or ").slice(0, 180)}`, `${rule} ${t} ${at}`); };
      for (const [t, o] of others) if (thorough || t.startsWith("every") || l.length < 3) tell(t, run(o, asyncApi)); if (extra) tell("every part synchronous", run(base, asyncApi));
    };
    const ls = G.lists(g, kind), few = whole ? ls : ls.filter((l) => l.length < 3);
    for (const l of kind === "nested" && !thorough ? few.filter((l) => l.length < 3 || (l.length < 4 && C.reference(g, l).length)) : few) compare("the same value or error", l, "parseSync", "parseAsync", kind === "hand" && l.length < 2);
    if (kind === "pair" || kind === "steps") return;
    const al = [...G.tokens(g)]; const pre = [[], ...al.map((t) => [t]), ...(kind === "hand" && (thorough || n < 3) ? al.flatMap((t) => al.map((u) => [t, u])) : [])];
    for (const l of pre) for (const last of ["", "-"]) compare("the same suggestions", [...l, last], "suggestSync", "suggestAsync", false);
    for (const l of [[], ...al.map((t) => [t])]) compare("the same documentation", l, "getDocPageSync", "getDocPageAsync", false);
  });
};
