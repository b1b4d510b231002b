"use strict";
// Usage terms of every kind in every container, with their application-supplied
// texts marked, for the visibility rules.
const AI = require("./ai.js");
const arr = (it, st, items) => it.freshObj(st, {}, "array", { items });
// a leaf term; `mark` names the origin of its texts
function leaf(it, st, kind, mark, hidden) {
  const props = { type: AI.C(kind) };
  if (kind !== "literal" && kind !== "ellipsis" && hidden !== undefined) props.hidden = AI.C(hidden);
  if (kind === "option") { props.names = arr(it, st, [AI.Y(mark + ".name")]); props.metavar = AI.Y(mark + ".metavar"); }
  if (kind === "argument") props.metavar = AI.Y(mark + ".metavar");
  if (kind === "command") { props.name = AI.Y(mark + ".command"); props.aliases = arr(it, st, [AI.Y(mark + ".alias")]); props.hiddenAliases = arr(it, st, [AI.Y("HIDDENALIAS." + mark)]); }
  if (kind === "literal") props.value = AI.Y(mark + ".literal");
  return it.freshObj(st, props);
}
const CONTAINERS = ["none", "optional", "multiple", "sequence", "exclusive"];
function wrap(it, st, k, ...terms) {
  if (k === "none") return terms[0];
  const l = arr(it, st, terms);
  if (k === "exclusive") return it.freshObj(st, { type: AI.C(k), terms: arr(it, st, [l]) });
  const props = { type: AI.C(k), terms: l }; if (k === "multiple") props.min = AI.C(0);
  return it.freshObj(st, props);
}
const usage = (it, st, ...terms) => arr(it, st, terms);
// origins that can be read off the results of a call, and the texts written into it
function seen(it, rets, depth = 6) {
  const L = new Set(); const per = []; let text = "";
  for (const { v, s } of rets) {
    const l = it.labels(v, s, depth); per.push(l); for (const x of l) L.add(x);
    for (const a of v) if (a.k === "s") for (const p of a.parts) text += p.lit !== undefined ? p.lit : p.rep ? p.rep.map((x) => x.map((q) => q.lit || "").join("")).join("") : ""; else if (a.k === "c" && typeof a.v === "string") text += a.v;
  }
  return { L, per, text, has: (re) => [...L].some((l) => re.test(l)) };
}
const interp = (P, o) => new AI.Interp(P, { maxRec: 4, pureNumeric: true, maxSteps: 8e6, ...o });
module.exports = { arr, leaf, wrap, usage, seen, interp, CONTAINERS };
