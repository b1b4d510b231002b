"use strict";
// writes properties.jsonl and MANIFEST.json from meta/props.js
const fs = require("fs"), path = require("path"); const ROOT = path.dirname(__dirname);
const { P, NA } = require("../meta/props.js");
const sorted = P.slice().sort((a, b) => a.id < b.id ? -1 : 1);
for (const q of sorted) { if (q.title.length > 80) throw new Error("title too long " + q.id + " " + q.title.length); }
fs.writeFileSync(path.join(ROOT, "properties.jsonl"), sorted.map((q) => JSON.stringify({ id: q.id, title: q.title, statement: q.statement, quantifier: { over: q.over, text: q.qtext }, why_tests_cant: q.why, anchors: { files: q.files, mechanism: q.mechanism, hook_needed: null } })).join("\n") + "\n");
const m = { version: 1, setup_cmd: "node bin/setup.js",
  checks: sorted.filter((q) => !q.na).map((q) => ({ property: q.id, quick_cmd: `node bin/check.js ${q.id}`, thorough_cmd: `node bin/check.js ${q.id} thorough`, evidence_file: `evidence/${q.id}.json`, technique: q.technique, level: "other", level_note: q.note })),
  not_applicable: NA,
  notes: "All checks are static analyses of /repo's current source; no program code of /repo is executed. No hooks are needed." };
fs.writeFileSync(path.join(ROOT, "MANIFEST.json"), JSON.stringify(m, null, 1) + "\n");
console.log(sorted.length, "properties,", m.checks.length, "claimed");
