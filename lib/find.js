"use strict";
const AI = require("./ai.js"); const { ts } = require("./program.js");
// constants of the repository whose type has the members of a shell completion
function findCompletions(P, R) {
  const out = [];
  for (const sf of P.sources) for (const stt of sf.statements) {
    if (!ts.isVariableStatement(stt)) continue;
    for (const d of stt.declarationList.declarations) {
      const t = P.checker.getTypeAtLocation(d.name);
      if (!t.getProperty("generateScript") || !t.getProperty("encodeSuggestions")) continue;
      const it = new AI.Interp(P, {}); const v = it.globalVar(d, d.name.text);
      const o = v.find((a) => a.k === "o"); if (!o) { R.violation(it.loc(d), "shell completion object cannot be resolved", d.name.text); continue; }
      const st = it.globalState; const rec = st.heap.get(o.id);
      const nm = rec.props.get("name"); const g = rec.props.get("generateScript"), e = rec.props.get("encodeSuggestions");
      if (!g || !e || g[0].k !== "fn" || e[0].k !== "fn") { R.violation(it.loc(d), "shell completion members cannot be resolved", d.name.text); continue; }
      out.push({ name: nm && nm[0].k === "c" ? nm[0].v : d.name.text, generate: g[0], encode: e[0], self: [o], loc: it.loc(d), decl: d });
    }
  }
  return out;
}
module.exports = { findCompletions };
// exported function `name` of a package directory, as a callable atom
function exported(P, dir, name) {
  for (const sf of P.sources) {
    if (!sf.fileName.startsWith(P.REPO + "/" + dir)) continue;
    const sym = P.checker.getSymbolAtLocation(sf); if (!sym) continue;
    for (let ex of P.checker.getExportsOfModule(sym)) {
      if (ex.escapedName !== name) continue;
      if (ex.flags & ts.SymbolFlags.Alias) ex = P.checker.getAliasedSymbol(ex);
      for (const d of ex.declarations || []) {
        if (ts.isFunctionDeclaration(d) && d.body) return { k: "fn", node: d, env: null };
        if (ts.isVariableDeclaration(d) && d.initializer) { const it = new AI.Interp(P, {}); const v = it.globalVar(d, name); if (v[0] && v[0].k === "fn") return v[0]; }
      }
    }
  }
  return null;
}
module.exports.exported = exported;
