"use strict";
// Completion transport: no suggestion text can forge a record, a field or a directive field.
const AI = require("../lib/ai.js"); const { OPTS, partLang, G } = require("../lib/strdom.js");
const { findCompletions } = require("../lib/find.js");
const CTRL = G.chset("\t\n\r\0");
const show = (c) => JSON.stringify(c);
module.exports = {
  id: "C02",
  run(P, R) {
    const shells = findCompletions(P, R);
    R.atLeast("shell dialects with a suggestion encoder", shells.length, 5);
    for (const sh of shells) {
      const it0 = {}; const seen = new Set();
      const pieces = [];
      const it = new AI.Interp(P, { ...OPTS,
        onCall: (i) => { // message rendering is opaque text here (its own control characters are data)
          if (i.kind === "fn" && i.decl && i.decl.name && i.decl.name.text === "formatMessage") return AI.Y("suggestion.description(rendered)");
        } });
      void it0;
      const st = it.newState();
      const sugg = it.freshObj(st, {}, "array", { items: null, elem: AI.Y("suggestion") });
      const rets = it.callFn(sh.encode, [sugg], sh.self, st, null);
      for (const { v, s } of rets) for (const a of v) {
        if (a.k !== "o") { R.violation(sh.loc, `${sh.name}: encoder output cannot be followed`, sh.name + ":opaque"); continue; }
        const rec = it.rec(s, a.id); for (const y of AI.elemOf(rec)) pieces.push({ y, s });
      }
      const labels = new Set(); let holes = 0, records = 0;
      for (const { y, s } of pieces) {
        if (y.k === "t") { for (const l of y.L) labels.add(l); R.violation(sh.loc, `${sh.name}: a transmitted piece is built by an operation the analysis cannot follow (${[...y.L].join(", ")})`, sh.name + ":opaque"); continue; }
        const parts = y.k === "c" ? [{ lit: String(y.v) }] : y.k === "s" ? y.parts : [{ L: new Set([y.p]), raw: true, lang: s.facts.get(y.p) && s.facts.get(y.p).lang }];
        if (y.k === "s" || y.k === "y") records++;
        let colonField = 0; // number of ':' written by the encoder so far in this directive
        let directive = false;
        const visit = (ps) => { for (const p of ps) {
          if (p.lit !== undefined) { if (p.lit.includes("__FILE__:")) { directive = true; colonField = 0; } if (/[\t\n\0]/.test(p.lit)) directive = false; if (directive) colonField += (p.lit.match(/:/g) || []).length; continue; }
          if (p.rep) { for (const q of p.rep) visit(q); continue; }
          holes++; for (const l of p.L) labels.add(l);
          const lang = partLang(p); const src = [...p.L].join(", ");
          const isType = [...p.L].every((l) => /\.type$/.test(l)); // closed set of words in the Suggestion type
          if (isType) { R.obligation(`${sh.name}: file suggestion type is a closed word set`, closedType(P, sh), sh.loc, `${sh.name}: the type field of a file directive is not a closed set of words`, sh.name + ":type"); continue; }
          const bad = G.usedSyms(lang) & G.DATA(CTRL);
          R.obligation(`${sh.name}: transmitted text has no record or field separator`, !bad, sh.loc, bad && `${sh.name}: text from ${src} may carry ${G.bits(bad).map((i) => show(G.idxCh(i))).join(" ")} into the transport stream`, sh.name + ":ctrl:" + src);
          if (directive) {
            const ext = p.L.size && [...p.L].some((l) => /extensions/.test(l));
            const b2 = ext ? 0n : G.usedSyms(lang) & G.DATA(G.chset(":%"));
            R.obligation(`${sh.name}: directive field cannot contain the field separator`, !b2, sh.loc, b2 && `${sh.name}: text from ${src} may carry ${G.bits(b2).map((i) => show(G.idxCh(i))).join(" ")} unencoded into a field of the file directive`, sh.name + ":field:" + src);
          }
        } };
        visit(parts);
      }
      for (const want of ["text", "extensions", "pattern"]) R.obligation(`${sh.name}: suggestion ${want} is transmitted`, [...labels].some((l) => new RegExp("suggestion\\)?\\.?.*" + want).test(l)), sh.loc, `${sh.name}: suggestion ${want} no longer reaches the transport; nothing was checked for it`, sh.name + ":" + want);
      R.analysed(holes, "data fields"); R.analysed(records, "record shapes");
    }
  },
};
function closedType(P, sh) {
  const { ts } = require("../lib/program.js"); let ok = false;
  const p = sh.encode.node.parameters[0]; const t = P.checker.getTypeAtLocation(p); const el = P.checker.getIndexTypeOfType(t, ts.IndexKind.Number);
  for (const m of el && el.isUnion() ? el.types : [el]) { const ty = m && m.getProperty("type"); if (!ty) continue; const tt = P.checker.getTypeOfSymbolAtLocation(ty, p); ok = (tt.isUnion() ? tt.types : [tt]).every((x) => x.isStringLiteral() && /^[a-z]+$/.test(x.value)); }
  return ok;
}
