"use strict";
class Report {
  constructor(id) { this.id = id; this.violations = []; this.obligations = 0; this.discharged = 0; this.rules = new Map(); this.counts = {}; this.keys = new Set(); this.samples = []; this.notes = []; }
  violation(loc, msg, key) { const k = key || loc + msg; if (this.keys.has(k)) return; this.keys.add(k); this.violations.push({ loc: String(loc), msg, key: k }); }
  obligation(rule, ok, loc, msg, key) {
    this.obligations++; const e = this.rules.get(rule) || [0, 0]; e[0]++; if (ok) { e[1]++; this.discharged++; } this.rules.set(rule, e);
    if (this.samples.length < 12 && e[0] === 1) this.samples.push({ rule, at: String(loc), held: !!ok });
    if (!ok) this.violation(loc, msg || rule, key || rule);
  }
  atLeast(what, n, min) { this.counts[what] = n; this.obligation(`${what}: at least ${min} found`, n >= min, "(whole program)", `only ${n} ${what} found, ${min} expected: the rule lost its anchors`, "anchors:" + what); }
  analysed(n, what) { this.counts[what] = (this.counts[what] || 0) + n; }
}
module.exports = { Report };
