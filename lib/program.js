"use strict";
// Loads every non-test source file of every workspace package of the
// repository as ONE TypeScript program, with cross-package imports resolved to
// the source tree (never to dist/), so that the rules below see the program
// that the current working tree defines.
const path = require("node:path");
const fs = require("node:fs");
const TS_DIR = "/opt/veriftools/node/node_modules/typescript";
const ts = require(TS_DIR);

const REPO = process.env.OPTIQUE_REPO || "/repo";

function listSources() {
  const out = [];
  const pk = path.join(REPO, "packages");
  for (const p of fs.readdirSync(pk).sort()) {
    const src = path.join(pk, p, "src");
    if (!fs.existsSync(path.join(pk, p, "package.json"))) continue;
    if (!fs.existsSync(src)) continue;
    (function walk(d) {
      for (const e of fs.readdirSync(d, { withFileTypes: true }).sort((a, b) => a.name < b.name ? -1 : 1)) {
        const f = path.join(d, e.name);
        if (e.isDirectory()) {
          if (e.name === "node_modules" || e.name.startsWith("test-") || e.name === "__fixtures__" || e.name === "fixtures") continue;
          walk(f);
        } else if (/\.[cm]?ts$/.test(e.name) && !/\.d\.[cm]?ts$/.test(e.name) && !/\.(test|spec|test-d|bench)\.[cm]?ts$/.test(e.name)) out.push(f);
      }
    })(src);
  }
  return out;
}

// package.json "exports"/"imports" subpaths of workspace packages -> source file
function workspacePaths() {
  const paths = {};
  const pk = path.join(REPO, "packages");
  for (const p of fs.readdirSync(pk)) {
    const pj = path.join(pk, p, "package.json");
    if (!fs.existsSync(pj)) continue;
    const j = JSON.parse(fs.readFileSync(pj, "utf8"));
    if (!j.name || !j.exports) continue;
    for (const [k, v] of Object.entries(j.exports)) {
      let t = v && typeof v === "object" ? (v.import || v.default || v) : v;
      if (t && typeof t === "object") t = t.import || t.default;
      if (typeof t !== "string") continue;
      const m = /^\.\/dist\/(.*)\.js$/.exec(t);
      if (!m) continue;
      const f = path.join(pk, p, "src", m[1] + ".ts");
      if (fs.existsSync(f)) paths[j.name + k.slice(1)] = [f];
    }
  }
  return paths;
}

let cached;
function load(extraFiles = []) {
  if (cached && extraFiles.length === 0) return cached;
  const files = listSources();
  const wp = workspacePaths();
  const options = {
    target: ts.ScriptTarget.ESNext, module: ts.ModuleKind.ESNext,
    moduleResolution: ts.ModuleResolutionKind.Bundler,
    lib: ["lib.esnext.d.ts", "lib.dom.d.ts", "lib.dom.iterable.d.ts", "lib.dom.asynciterable.d.ts", "lib.esnext.disposable.d.ts"],
    strict: true, noEmit: true, skipLibCheck: true, allowImportingTsExtensions: true,
    types: ["node"], typeRoots: [path.join(REPO, "packages/core/node_modules/@types")],
    baseUrl: "/", paths: wp, noImplicitOverride: false, resolveJsonModule: true,
    preserveSymlinks: false, verbatimModuleSyntax: false,
  };
  const host = ts.createCompilerHost(options, true);
  const program = ts.createProgram({ rootNames: [...files, ...extraFiles], options, host });
  const checker = program.getTypeChecker();
  const own = new Set(files);
  const sources = program.getSourceFiles().filter((s) => own.has(s.fileName));
  const r = { ts, program, checker, sources, files, own, REPO, options };
  if (extraFiles.length === 0) cached = r;
  return r;
}
module.exports = { ts, load, REPO, listSources, workspacePaths };
