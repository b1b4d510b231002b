"use strict";
// node bin/share.js <rule> <i> <n> <tier>: decides one share of a rule's units and prints it
const { load } = require("../lib/program.js"); const [, , id, i, n, tier] = process.argv;
const rule = require("../rules/" + id + ".js"); const P = load(rule.extraFiles || []);
const out = { counts: {}, rules: {}, at: {}, failures: [] };
const S = { tier, analysed: (k, what) => { out.counts[what] = (out.counts[what] || 0) + k; }, obligation: (r, ok, loc, msg, key) => { const e = out.rules[r] || (out.rules[r] = [0, 0]); e[0]++; out.at[r] = out.at[r] || String(loc); if (ok) e[1]++; else out.failures.push({ rule: r, loc: String(loc), msg, key }); } };
rule.share(P, S, (k) => k % Number(n) === Number(i));
process.stdout.write(JSON.stringify(out));
