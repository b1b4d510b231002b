"use strict";
// C12: ambient host access.  A capability analysis over resolved symbols.
const { ts } = require("../lib/program.js"); const { Effects, strip } = require("../lib/effects.js"); const S = ts.SyntaxKind;
exports.explanation = "Capability analysis: every identifier, import and construct of the host-free packages is resolved to its declaration; a declaration outside ECMAScript (DOM or Node typings), a host module, the clock, randomness, the local time zone or dynamic code is a violation. Module-level code of every package is checked to be free of effects, and process termination to occur only in the runner and command-line entry points.";
const PURE = new Set(["core", "prompt", "derived-defaults", "standard-schema", "zod", "valibot"]);
// host declarations that behave identically on every supported runtime and hold no ambient state
const NEUTRAL = new Set(["URL", "URLSearchParams", "TextEncoder", "TextDecoder", "structuredClone", "AbortController", "AbortSignal", "DOMException"]);
const THIRD = { zod: ["zod"], valibot: ["valibot"], "standard-schema": ["@standard-schema/spec"] };
const LOCAL_TIME = /^(get|set)(FullYear|Month|Date|Day|Hours|Minutes|Seconds|Milliseconds|TimezoneOffset|Year)$/;
exports.run = (P, R) => {
  const E = new Effects(P); const c = P.checker;
  const loc = (n) => { const sf = n.getSourceFile(); return sf.fileName.slice(P.REPO.length + 1) + ":" + (sf.getLineAndCharacterOfPosition(n.getStart()).line + 1); };
  const pkgOf = (sf) => sf.fileName.split("/packages/")[1].split("/")[0]; const rel = (sf) => sf.fileName.slice(P.REPO.length + 1);
  const enclosing = (n) => { let f = E.fnOf(n); while (f && !ts.isSourceFile(f)) { if (f.name) return f.name.getText(); if (f.parent && f.parent.name) return f.parent.name.getText(); f = E.fnOf(f); } return "(module)"; };
  const isES = (d) => /\/lib\.(es|decorators|scripthost)[^/]*\.d\.ts$/.test(d.getSourceFile().fileName);
  const isHost = (d) => /\/lib\.(dom|webworker)[^/]*\.d\.ts$/.test(d.getSourceFile().fileName) || /\/node_modules\/(@types\/(node|deno|bun)|undici-types|bun-types)\//.test(d.getSourceFile().fileName);
  const erased = (n) => ts.isPartOfTypeNode(n) || ts.isPartOfTypeQuery && ts.isPartOfTypeQuery(n);
  // host uses of one node, [what] or null
  const hostUse = (n) => {
    if (ts.isIdentifier(n) && !(n.parent.name === n && !ts.isShorthandPropertyAssignment(n.parent)) && !(ts.isPropertyAccessExpression(n.parent) && n.parent.name === n) && !(ts.isBindingElement(n.parent) && n.parent.propertyName === n)) {
      if (n.text === "globalThis" || ((n.text === "Deno" || n.text === "Bun") && !E.decl(n))) return "the global object " + n.text;
      const d = E.decl(n); if (!d || P.own.has(d.getSourceFile().fileName)) return null;
      if (isHost(d) && !NEUTRAL.has(n.text)) return n.text + " of the host";
      if (isES(d) && (n.text === "eval" || n.text === "Function") && ((ts.isCallExpression(n.parent) || ts.isNewExpression(n.parent)) && n.parent.expression === n)) return "dynamic code (" + n.text + ")";
    }
    if (ts.isPropertyAccessExpression(n)) {
      const t = n.getText();
      const d = E.decl(n.name); const builtin = d && !P.own.has(d.getSourceFile().fileName);
      if (builtin && isES(d)) {
        if (ts.isIdentifier(n.expression)) { if (n.expression.text === "Math" && n.name.text === "random") return "randomness (Math.random)"; if (n.expression.text === "Date" && n.name.text === "now") return "the clock (Date.now)"; }
        const own = d.parent && d.parent.name && d.parent.name.text;
        if (own === "Date" && LOCAL_TIME.test(n.name.text)) return "the local time zone (" + n.name.text + ")";
      }
      if (/^Temporal\.Now\b/.test(t)) return "the clock (Temporal.Now)";
    }
    if (ts.isElementAccessExpression(n) && n.expression.getText() === "globalThis") return "the global object";
    if ((ts.isNewExpression(n) || ts.isCallExpression(n)) && ts.isIdentifier(n.expression) && n.expression.text === "Date") { const d = E.decl(n.expression); if (d && isES(d) && (ts.isCallExpression(n) || !(n.arguments && n.arguments.length))) return "the clock (Date)"; if (d && isES(d) && n.arguments && n.arguments.length > 1) return "the local time zone (new Date with components)"; }
    if ((ts.isNewExpression(n) || ts.isCallExpression(n)) && /^Intl\.DateTimeFormat$/.test(n.expression.getText())) return "the host's date format and time zone";
    const noLocale = (a) => !a || strip(a).kind === S.Identifier && strip(a).text === "undefined" || strip(a).kind === S.ArrayLiteralExpression && !strip(a).elements.length;
    if ((ts.isNewExpression(n) || ts.isCallExpression(n)) && /^Intl\.(Collator|ListFormat|NumberFormat|PluralRules|RelativeTimeFormat|Segmenter|DurationFormat)$/.test(n.expression.getText()) && noLocale(n.arguments && n.arguments[0])) { const o = n.arguments && n.arguments[1]; if (!(/Segmenter$/.test(n.expression.getText()) && (!o || /granularity:\s*"grapheme"/.test(o.getText())))) return "the host's locale (" + n.expression.getText() + " without a locale)"; }
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "localeCompare" && noLocale(n.arguments[1])) return "the host's locale (localeCompare without a locale)";
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && /^toLocale(String|DateString|TimeString|UpperCase|LowerCase)$/.test(n.expression.name.text) && noLocale(n.arguments[0])) return "the host's locale (" + n.expression.name.text + " without a locale)";
    if (ts.isMetaProperty(n)) return "import.meta";
    if (ts.isCallExpression(n) && n.expression.kind === S.ImportKeyword) return "a dynamic import";
    if (ts.isCallExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === "require") return "require";
    return null;
  };
  let ids = 0;
  for (const sf of P.sources) {
    const pk = pkgOf(sf); const pure = PURE.has(pk);
    const w = (n) => {
      if ((ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) && n.moduleSpecifier) {
        const typeOnly = ts.isImportDeclaration(n) ? n.importClause && n.importClause.isTypeOnly : n.isTypeOnly;
        const spec = n.moduleSpecifier.text;
        if (ts.isImportDeclaration(n)) R.obligation("no import is made for its side effects", !!n.importClause, loc(n), `${spec} is imported only for its side effects`, rel(sf) + " bare import " + spec);
        if (pure && !typeOnly) {
          const valueUse = !ts.isImportDeclaration(n) || !n.importClause || n.importClause.name || !n.importClause.namedBindings || !ts.isNamedImports(n.importClause.namedBindings) || n.importClause.namedBindings.elements.some((e) => !e.isTypeOnly);
          const sym = c.getSymbolAtLocation(n.moduleSpecifier); const target = sym && sym.declarations && sym.declarations[0] && sym.declarations[0].getSourceFile();
          const ok = !valueUse || (target && P.own.has(target.fileName) && PURE.has(pkgOf(target))) || (THIRD[pk] || []).some((t) => spec === t || spec.startsWith(t + "/"));
          R.obligation("host-free packages import only host-free modules", ok, loc(n), `${pk} imports ${spec}`, rel(sf) + " import " + spec);
        }
        return;
      }
      if (ts.isTypeNode(n) && !ts.isExpressionWithTypeArguments(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) return;
      if (ts.isIdentifier(n)) ids++;
      if (pure) { const h = hostUse(n); if (h) {
        // the default output functions of the runner
        const p = n.parent; let up = p; while (up && (ts.isTemplateSpan(up) || ts.isTemplateExpression(up) || ts.isCallExpression(up) && up.expression.getText() !== "Symbol" && /^Math\.random\(\)/.test(up.getText()) || ts.isPropertyAccessExpression(up))) up = up.parent;
        // a random description of a Symbol only names it
        if (/randomness/.test(h) && up && ts.isCallExpression(up) && up.expression.getText() === "Symbol") { ts.forEachChild(n, w); return; }
        const dflt = n.text === "console" && ts.isPropertyAccessExpression(p) && /^(log|error)$/.test(p.name.text) && (ts.isBindingElement(p.parent) && p.parent.initializer === p || ts.isParameter(p.parent) && p.parent.initializer === p || ts.isBinaryExpression(p.parent) && p.parent.operatorToken.kind === S.QuestionQuestionToken && p.parent.right === p);
        R.obligation("host-free packages use no ambient host state", !!dflt, loc(n), `${enclosing(n)} uses ${h}`, `${rel(sf)} ${enclosing(n)} ${h}`); } }
      // termination
      if (ts.isIdentifier(n) && ts.isPropertyAccessExpression(n.parent) && n.parent.expression === n && /^(exit|exitCode|abort|kill|reallyExit)$/.test(n.parent.name.text)) { const d = E.decl(n); const t = c.getTypeAtLocation(n); const isProc = n.text === "process" || n.text === "Deno" || (t.symbol && t.symbol.name === "Process"); if (isProc) R.obligation("only runners terminate the process", pk === "run" || /\/cli\.ts$/.test(sf.fileName) , loc(n), `${enclosing(n)} ends the process`, `${rel(sf)} ${enclosing(n)} exit`); }
      ts.forEachChild(n, w);
    };
    w(sf);
    // module-level code
    if (!/\/cli\.ts$/.test(sf.fileName)) for (const st of sf.statements) {
      if (ts.isVariableStatement(st) || ts.isClassDeclaration(st) || ts.isExpressionStatement(st) || ts.isIfStatement(st) || ts.isForOfStatement(st) || ts.isForStatement(st) || ts.isTryStatement(st) || ts.isBlock(st) || ts.isExportAssignment(st)) {
        const bad = effects(st); R.obligation("loading a module has no effect", !bad, loc(st), `loading this module ${bad}`, rel(sf) + " load " + bad);
      }
    }
  }
  function effects(st) { // effects of evaluating a statement at load time
    let bad = null; const seen = new Set();
    const w = (n, top) => {
      if (bad) return; if (ts.isFunctionLike(n) && !top) return; if (ts.isTypeNode(n)) return;
      let q = n; while (ts.isPropertyAccessExpression(q.parent) && q.parent.expression === q) q = q.parent;
      const runs = !ts.isIdentifier(n) || ((ts.isCallExpression(q.parent) || ts.isNewExpression(q.parent)) && q.parent.expression === q);
      const h = runs && hostUse(n); if (h) { bad = "uses " + h; return; }
      if (ts.isAwaitExpression(n)) { bad = "waits"; return; }
      if (ts.isBinaryExpression(n) && n.operatorToken.kind >= S.FirstAssignment && n.operatorToken.kind <= S.LastAssignment) { const l = strip(n.left); if (ts.isPropertyAccessExpression(l) || ts.isElementAccessExpression(l)) for (const o of E.owners(l.expression)) if (o.global || o.k === "unknown") { bad = "modifies " + l.expression.getText(); return; } }
      if (ts.isCallExpression(n) && /^(Object|Reflect)\.(assign|defineProperty|defineProperties|setPrototypeOf|set)$/.test(n.expression.getText())) for (const o of E.owners(n.arguments[0])) if (o.global || o.k === "unknown") { bad = "modifies " + n.arguments[0].getText(); return; }
      if (ts.isCallExpression(n)) for (const g of E.callees(n)) if (!seen.has(g)) { seen.add(g); w(g, true); if (bad) return; }
      if (ts.isPropertyDeclaration(n) && !(n.modifiers || []).some((m) => m.kind === S.StaticKeyword)) return;
      ts.forEachChild(n, (x) => w(x, false));
    };
    w(st, false); return bad;
  }
  R.analysed(ids, "identifiers resolved"); R.atLeast("host-free packages", [...new Set(P.sources.map(pkgOf))].filter((x) => PURE.has(x)).length, 6);
};
