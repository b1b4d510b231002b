"use strict";
// Man pages: application text never becomes roff markup.
const AI = require("../lib/ai.js"); const { ts } = require("../lib/program.js"); const { OPTS, G } = require("../lib/strdom.js");
const { exported } = require("../lib/find.js");
// what a nested term is assumed to be (shown for the outermost call, so by induction for all)
const OKREC = G.union([G.lit(""), G.cat([G.single(G.ALL & ~G.BOTH(G.chset(".'\\\n"))), G.topOf(G.ALL & ~G.BOTH(G.chset("\\\n")))])]);
const B = { nl: 10, bs: 92, dq: 34, dot: 46, sq: 39 };
// monitor: characters are either written by the formatter (code) or application data
function step(m, c, code) {
  const data = !code;
  switch (m) {
    case "L": if (c === B.dot || c === B.sq) return data ? { bad: "starts a line and is read as a roff control character" } : "C"; // falls through
    case "T": if (c === B.bs) return data ? { bad: "is an unescaped roff escape character" } : "E"; return c === B.nl ? "L" : "T";
    case "E": if (data) return { bad: "is consumed by a roff escape of the formatter" }; return c === 102 ? "F" : c === 40 ? "P" : "T";
    case "F": return data ? { bad: "is consumed by a roff font escape" } : "T";
    case "P": return data ? { bad: "is consumed by a roff glyph escape" } : "P2";
    case "P2": return data ? { bad: "is consumed by a roff glyph escape" } : "T";
    case "C": if (c === B.nl) return data ? { bad: "breaks a roff request line" } : "L"; if (c === B.dq) return data ? { bad: "opens a quoted request argument" } : "Q"; if (c === B.bs) return data ? { bad: "is an unescaped escape character on a request line" } : "CE"; if (data && (c === 32 || c === 9)) return { bad: "splits an unquoted request argument" }; return "C";
    case "CE": case "CP": case "CP2": if (data) return { bad: "is consumed by a roff escape" }; return m === "CE" ? (c === 40 ? "CP" : "C") : m === "CP" ? "CP2" : "C";
    case "Q": if (c === B.nl) return data ? { bad: "breaks a roff request line" } : "L"; if (c === B.dq) return data ? { bad: "terminates a quoted request argument" } : "C"; if (c === B.bs) return data ? { bad: "is an unescaped escape character in a request argument" } : "QE"; return "Q";
    case "QE": case "QP": case "QP2": if (data) return { bad: "is consumed by a roff escape" }; return m === "QE" ? (c === 40 ? "QP" : "Q") : m === "QP" ? "QP2" : "Q";
  }
}
module.exports = {
  id: "C03",
  run(P, R) {
    let total = 0;
    for (const [name, starts, min] of [["formatDocPageAsMan", ["L"], 25], ["formatMessageAsRoff", ["L"], 1], ["formatUsageTermAsRoff", ["L"], 1], ["escapeRoff", ["L"], 1]]) {
      const fn = exported(P, "packages/man/", name);
      if (!fn) { R.violation("packages/man", `public formatter ${name} not found`, "anchor:" + name); continue; }
      const it = new AI.Interp(P, { ...OPTS, maxRec: 1, memo: true, onCutoff: () => [{ k: "s", parts: [{ L: new Set(["(nested usage term, by induction)"]), raw: true, lang: OKREC }] }] });
      const st = it.newState(); const rets = it.callFn(fn, fn.node.parameters.map((p, i) => AI.Y(i ? "options" : name === "formatDocPageAsMan" ? "page" : "input")), null, st, null);
      R.obligation(`${name} returns text`, rets.length > 0, it.loc(fn.node));
      let pieces = 0, holes = 0; const sources = new Set();
      for (const { v, s } of rets) for (const a of v) {
        if (a.k === "t") { R.violation(it.loc(fn.node), `${name}: the page text is built by an operation the analysis cannot follow (${[...a.L].slice(0, 5).join(", ")})`, name + ":opaque"); continue; }
        if (a.k === "y") { R.violation(it.loc(fn.node), `${name}: ${a.p} reaches the page without any escaping`, name + ":raw:" + a.p); continue; }
        if (a.k !== "s") continue;
        const walk = (ps, m0, depth) => {
          let ms = m0;
          for (const p of ps) {
            if (p.lit !== undefined) { ms = G.monitor(G.lit(p.lit, true), ms, step).ends; continue; }
            if (p.rep) {
              let out = new Set(ms);
              for (let k = 0; k < 8; k++) { const before = out.size; const from = k ? new Set(G.monitor(G.lit(p.sep || "", true), out, step).ends) : ms; if (k) for (const x of ms) from.add(x); for (const alt of p.rep) { if (depth === 0) pieces++; for (const x of walk(alt, from, depth + 1)) out.add(x); } if (out.size === before && k) break; }
              ms = out; continue;
            }
            holes++; for (const l of p.L) sources.add(l);
            const r = G.monitor(p.lang || G.TOPDATA, ms, step);
            const what = [...p.L].filter((l) => !l.startsWith("(")).slice(0, 2).join(", ");
            R.obligation(`${name}: application text is inert`, !r.bad, it.loc(fn.node), r.bad && `${name}: text from ${what}: character ${JSON.stringify(r.bad.text.slice(-1))} after ${JSON.stringify(r.bad.text.slice(0, -1).slice(-20))} ${r.bad.why}`, name + ":" + what.replace(/~.*/, ""));
            ms = r.bad ? new Set(["T"]) : r.ends;
          }
          return ms;
        };
        walk(a.parts, new Set(starts), 0);
      }
      R.analysed(holes, "data-bearing text pieces"); total += holes; R.analysed(it.fnSeen.size, "functions");
      if (name === "formatDocPageAsMan") {
        R.atLeast("kinds of lines in a man page", pieces, 20);
        for (const w of ["options.name", "options.version", "options.manual", "options.date", "page.sections", "page.usage", "options.brief", "page.description", "options.seeAlso"]) R.obligation(`man page contains ${w}`, [...sources].some((l) => l.includes(w)), it.loc(fn.node), `${w} no longer reaches the man page text; nothing was checked for it`, "source:" + w);
      }
    }
    R.counts["data-bearing text pieces"] = total;
  },
};
