"use strict";
// Splits a rule's units over several processes; each prints the outcome of its share.
const fs = require("fs"), path = require("path"), os = require("os"); const { execFileSync } = require("child_process");
exports.shares = (rule, tier, R) => {
  const n = Math.max(1, Math.min(6, os.availableParallelism ? os.availableParallelism() : os.cpus().length)), dir = fs.mkdtempSync(path.join(os.tmpdir(), "optique-check-"));
  try {
    const w = path.join(__dirname, "..", "bin", "share.js"); const q = (t) => "'" + t.replace(/'/g, "'\\''") + "'"; let sh = "";
    for (let i = 0; i < n; i++) sh += `${q(process.execPath)} ${q(w)} ${rule} ${i} ${n} ${tier} > ${q(path.join(dir, i + ".json"))} 2> ${q(path.join(dir, i + ".err"))} &\n`;
    execFileSync("sh", ["-c", sh + "wait\n"], { stdio: "ignore", env: process.env });
    for (let i = 0; i < n; i++) {
      let r; try { r = JSON.parse(fs.readFileSync(path.join(dir, i + ".json"), "utf8")); } catch { throw new Error(`share ${i} of ${rule} gave no answer: ` + fs.readFileSync(path.join(dir, i + ".err"), "utf8").slice(0, 600)); }
      for (const [what, k] of Object.entries(r.counts)) R.analysed(k, what);
      for (const [rule_, [tot, held]] of Object.entries(r.rules)) { for (let j = 0; j < held; j++) R.obligation(rule_, true, r.at[rule_] || "", "", ""); void tot; }
      for (const f of r.failures) R.obligation(f.rule, false, f.loc, f.msg, f.key);
    }
  } finally { fs.rmSync(dir, { recursive: true, force: true }); }
};
