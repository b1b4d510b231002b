"use strict";
// Quote-state monitors for the shell dialects the completion scripts target.
// Symbols carry provenance: only characters that came from data can violate.
const G = require("./lang.js");
const has = (cls, c) => (cls >> BigInt(c)) & 1n;
const SAFE = G.RANGE(48, 57) | G.RANGE(65, 90) | G.RANGE(97, 122) | G.chset("_./=:@%+,-");
const SQ = G.chset("'"), DQ = G.chset('"'), BS = G.chset("\\"), NLc = G.chset("\n");
const PSQ = G.chset("'\u2018\u2019\u201a\u201b"), PDQ = G.chset('"\u201c\u201d\u201e');
// states: u unquoted, ue after escape, s single, se escape in single (fish),
// sp pending quote in single (pwsh), d double, de escape in double
function make(o) {
  const sq = o.sq || SQ, dq = o.dq || DQ;
  return function step(m, c, code) {
    const data = !code;
    if (c === 10 && code && m === "u") return "u";
    for (;;) switch (m) {
      case "u":
        if (has(sq, c)) return data ? { bad: "opens a quote outside quotes" } : "s";
        if (has(dq, c)) return data ? { bad: "opens a quote outside quotes" } : "d";
        if (o.esc && c === o.esc) return data ? { bad: "escape character outside quotes" } : "ue";
        if (data && !has(SAFE, c)) return { bad: "reaches the script outside quotes" };
        return "u";
      case "ue": return data ? { bad: "is consumed by an escape character of the script" } : "u";
      case "s":
        if (o.fish && c === 92) return data ? { bad: "is an active backslash inside a quoted string" } : "se";
        if (has(sq, c)) { if (data) return o.pend ? "sd" : { bad: "terminates the quoted string" }; return o.pend ? "sp" : "s0"; }
        return "s";
      case "s0": // just closed: an immediately following quote re-opens
        m = "u"; continue;
      // in fish single quotes \\ and \' stand for the character itself
      case "se": return data && c !== 92 && !has(sq, c) ? { bad: "is consumed by a backslash of the script" } : "s";
      case "sp":
        if (has(sq, c)) return data ? { bad: "terminates the quoted string" } : "s"; // doubled quote
        m = "u"; continue;
      case "sd": return has(sq, c) && data ? "s" : { bad: "follows an undoubled quote character that ended the string" };
      case "d":
        if (o.esc && c === o.esc && !o.rawDq) return data ? { bad: "is an active escape inside double quotes" } : "de";
        if (has(dq, c)) return data ? { bad: "terminates the quoted string" } : "u";
        if (data && (c === 36 || c === 96)) return { bad: "is expanded inside double quotes" };
        return "d";
      case "de": return data ? { bad: "is consumed by an escape of the script" } : "d";
    }
  };
}
const SHELLS = {
  bash: make({ esc: 92 }), zsh: make({ esc: 92 }), fish: make({ esc: 92, fish: true }),
  nu: make({}), pwsh: make({ esc: 96, sq: PSQ, dq: PDQ, pend: true }),
};
// generic fallback for an unknown dialect: the strictest reading of all
module.exports = { SHELLS, make, SAFE, NLc, BS };
