"use strict";
// Completion scripts: caller-supplied words are inert in every generated script.
const AI = require("../lib/ai.js"); const { OPTS, partLang, G } = require("../lib/strdom.js");
const { findCompletions } = require("../lib/find.js"); const { SHELLS } = require("../lib/shellq.js");
const NAME = G.norm(G.intersect(G.searchLang("^[A-Za-z0-9_][A-Za-z0-9_.-]*$", ""), G.TOPDATA));
module.exports = {
  id: "C01",
  run(P, R) {
    const shells = findCompletions(P, R);
    R.atLeast("shell dialects with a script generator", shells.length, 5);
    for (const sh of shells) {
      const it = new AI.Interp(P, { ...OPTS });
      const st = it.newState();
      const args = it.freshObj(st, {}, "array", { items: null, elem: AI.Y("completionArg") });
      const rets = it.callFn(sh.generate, [AI.Y("programName"), args], sh.self, st, null);
      const step = SHELLS[sh.name];
      if (!step) { R.violation(sh.loc, `no quoting model for shell "${sh.name}"`, sh.name + ":dialect"); continue; }
      R.obligation(`${sh.name}: a script can be produced`, rets.length > 0, sh.loc, "generateScript never returns");
      let nameHoles = 0, argHoles = 0;
      for (const { v, s } of rets) for (const a of v) {
        if (a.k === "t") { R.violation(sh.loc, `${sh.name}: the script text is built by an operation the analysis cannot follow`, sh.name + ":opaque"); continue; }
        const parts = a.k === "c" ? [{ lit: String(a.v) }] : a.k === "s" ? a.parts : [];
        const nameLang = s.facts.get("programName") && s.facts.get("programName").lang;
        // the text of each line up to a data-bearing part is what the shell has read
        const walk = (ps, m0) => {
          let ms = m0;
          for (const p of ps) {
            if (p.lit !== undefined) {
              const nl = p.lit.lastIndexOf("\n");
              if (nl >= 0) ms = new Set(["u"]);
              const r = G.monitor(G.lit(p.lit.slice(nl + 1).slice(-1500), true), ms, step); ms = r.ends;
            } else if (p.rep) {
              for (let k = 0; k < 4; k++) { let out = new Set(ms); for (const alt of p.rep) { const e = walk(alt, k ? sepStates(out, p.sep) : out); for (const x of e) out.add(x); } if (out.size === ms.size) break; ms = out; }
            } else {
              const isName = [...p.L].some((l) => l === "programName"), L = [...p.L];
              const only = L.every((l) => l === "programName" || l === "completionArg");
              if (!only || !L.length) { /* other input: treated like an argument */ }
              let lang = p.lang || G.TOPDATA;
              if (isName && !L.includes("completionArg")) {
                nameHoles++;
                if (!p.lang && nameLang) lang = nameLang;
                const bad = G.intersect(lang, G.complement(G.union([NAME])));
                const chars = G.usedSyms(lang) & G.ALLDATA & ~G.DATA(G.chset("_.-") | G.RANGE(48, 57) | G.RANGE(65, 90) | G.RANGE(97, 122));
                const raw = !p.lang || p.lang === nameLang;
                R.obligation(`${sh.name}: program name in the script is restricted to safe characters`, !(chars || (raw && !G.isEmpty(bad))), sh.loc, `${sh.name}: program name text such as ${JSON.stringify(G.sample(chars ? G.intersect(lang, G.cat([G.topOf(G.ALL), G.single(chars), G.topOf(G.ALL)])) : bad))} is written into the script unquoted`, sh.name + ":name");
                continue;
              }
              argHoles++;
              // a line break inside a quoted word is inert; outside quotes it is caught by the monitor
              const r = G.monitor(lang, ms, step);
              R.obligation(`${sh.name}: argument text stays inside its quotes`, !r.bad, sh.loc, r.bad && `${sh.name}: completion argument text: character ${JSON.stringify(r.bad.text.slice(-1))} (after output ${JSON.stringify(r.bad.text.slice(0, -1))}) ${r.bad.why}`, sh.name + ":arg");
              ms = r.bad ? new Set(["s"]) : r.ends;
            }
          }
          return ms;
        };
        const sepStates = (ms, sep) => sep ? new Set([...G.monitor(G.lit(sep, true), ms, step).ends, ...ms]) : ms;
        walk(parts, new Set(["u"]));
      }
      R.obligation(`${sh.name}: program name occurs`, nameHoles > 0, sh.loc, `${sh.name}: program name never reaches the script; nothing was checked`);
      R.obligation(`${sh.name}: arguments occur`, argHoles > 0, sh.loc, `${sh.name}: completion arguments never reach the script; nothing was checked`);
      R.analysed(it.fnSeen.size, "functions");
    }
  },
};
