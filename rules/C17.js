"use strict";
// C17: every argument is taken by exactly one part of the parser, or parsing fails.
const G = require("../lib/grammars.js"); const C = require("../lib/combench.js"); const { exported } = require("../lib/find.js"); const { shares } = require("../lib/pool.js");
exports.explanation = "Abstract interpretation of the combinators and the parse loop from source, over stub leaf parsers that stand for any option, flag or argument parser, on a bounded set of parser trees and token sequences; the value (which names the tokens each leaf took) is compared with the values the grammar allows.";
const where = (P, g) => { try { const f = exported(P, "packages/core/", g.k === "flag" || g.k === "opt" || g.k === "arg" ? "parseSync" : g.k); const d = f.node, sf = d.getSourceFile(); return sf.fileName.slice(P.REPO.length + 1) + ":" + (sf.getLineAndCharacterOfPosition(d.getStart()).line + 1) + " " + g.k + "()"; } catch { return "packages/core/src " + g.k + "()"; } };
exports.where = where;
exports.units = (tier) => [...G.hand.map((g) => [g, "hand"]), ...G.nested.map((g) => [g, "nested"]), ...G.steps.map((g) => [g, "steps"]), ...(tier === "thorough" ? G.pairs(G.leaves) : G.quickPairs()).map((g) => [g, "pair"])];
exports.run = (P, R) => { shares("C17", R.tier, R); R.atLeast("parser trees", R.counts["trees interpreted"] || 0, 250); R.atLeast("argument lists", R.counts["lists decided"] || 0, 3000); };
exports.share = (P, S, mine) => {
  exports.units(S.tier).forEach(([g, kind], i) => {
    if (!mine(i)) return; const loc = where(P, g); let b, p;
    try { b = new C.CombBench(P, { mode: "sync", asyncLeaf: () => false }); p = b.build(g); } catch (e) { S.obligation("the tree can be built", false, loc, `${C.text(g)} cannot be built: ${String(e.message).slice(0, 200)}`, `${C.text(g)} build`); return; }
    S.analysed(1, "trees interpreted");
    for (const args of G.lists(g, kind)) {
      const want = C.reference(g, args), at_ = `${C.text(g)} | ${args.join(" ")}`; let got; S.analysed(1, "lists decided");
      try { got = b.parse("parseSync", p, args); } catch (e) { S.obligation("parsing is decided", false, loc, `${at_}: not decided: ${String(e.message).slice(0, 200)}`, at_); continue; }
      const m = got.length === 1 && /^\{(?:deferred:[^,]*,)?(?:deferredKeys:[^,]*,)?success:true,value:(.*)\}$/.exec(got[0]), no = got.length === 1 && /[{,]success:false\}$/.test(got[0]);
      if (m) S.obligation("a value accounts for every argument once", want.includes(m[1]), loc, `${at_}: gives ${m[1].slice(0, 160)}, where the grammar allows ${want.length ? want.join(" or ").slice(0, 160) : "no value"}`, at_);
      else if (no) { if (want.length && !args.length && G.ambiguousEmpty(g)) continue; if (want.length && (kind === "steps" || (kind === "nested" && G.ambiguousEmpty(g)))) continue; S.obligation("arguments the grammar allows are accepted, others rejected", want.length === 0, loc, `${at_}: rejected, where the grammar allows ${want.join(" or ").slice(0, 200)}`, at_); }
      else S.obligation("parsing ends with one result", false, loc, `${at_}: ends with ${got.join(" or ").slice(0, 200) || "nothing"}`, at_);
    }
  });
};
