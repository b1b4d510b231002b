"use strict";
// node bin/check.js <property> : decides one property from /repo's current source
const fs = require("fs"), path = require("path");
const id = process.argv[2]; const ROOT = path.dirname(__dirname);
const tier = process.env.VERIF_TIER === "thorough" || process.argv[3] === "thorough" ? "thorough" : "quick";
const t0 = Date.now();
const { load } = require("../lib/program.js"); const { Report } = require("../lib/report.js");
const rule = require("../rules/" + id + ".js");
const R = new Report(id);
const P = load(rule.extraFiles || []);
R.tier = tier;
rule.run(P, R);
const known = fs.existsSync(path.join(ROOT, "known-findings.txt")) ? fs.readFileSync(path.join(ROOT, "known-findings.txt"), "utf8").split("\n").filter((l) => l.startsWith(`known: property=${id} `)).map((l) => l.slice(`known: property=${id} `.length)) : [];
const out = []; let bad = 0; const kn = [];
const replayDir = path.join(ROOT, "evidence"); fs.mkdirSync(replayDir, { recursive: true });
for (const v of R.violations) {
  const k = known.find((l) => l.startsWith("key=" + v.key + " "));
  if (k) { kn.push(v); out.push(`KNOWN-FINDING: property=${id} ${v.msg} (${v.loc})`); } else { bad++; }
}
const real = R.violations.filter((v) => !kn.includes(v));
const replay = path.join("evidence", id + ".violations.txt");
if (real.length) { fs.writeFileSync(path.join(ROOT, replay), real.map((v) => `${v.loc}: ${v.msg}  [${v.key}]`).join("\n") + "\n"); for (const v of real.slice(0, 40)) out.push(`${v.loc}: ${v.msg} [${v.key}]`); out.push(`VIOLATION property=${id} replay=${replay}`); }
else if (fs.existsSync(path.join(ROOT, replay))) fs.unlinkSync(path.join(ROOT, replay));
const ev = { property: id, tier, seed: Number(process.env.VERIF_SEED || 1), level: "other", wall_s: (Date.now() - t0) / 1000,
  coverage: { explanation: rule.explanation || "static analysis of the resolved program; see DESIGN.md", obligations_decided: R.obligations, obligations_held: R.discharged, rules: Object.fromEntries([...R.rules].map(([k, [n, m]]) => [k, { instances: n, held: m }])), analysed: { sources: P.sources.length, ...R.counts }, samples: R.samples, notes: R.notes },
  violations: real.length };
fs.writeFileSync(path.join(ROOT, "evidence", id + ".json"), JSON.stringify(ev, null, 1) + "\n");
out.push(`${id}: ${R.discharged}/${R.obligations} obligations held, ${real.length} violations, ${kn.length} known findings, ${((Date.now() - t0) / 1000).toFixed(1)} s`);
process.stdout.write(out.join("\n") + "\n", () => process.exit(bad ? 1 : 0));
