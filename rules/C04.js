"use strict";
// Colours: escape sequences only when asked for, and always switched off again.
const AI = require("../lib/ai.js"); const { ts } = require("../lib/program.js"); const { OPTS, G, partsOf } = require("../lib/strdom.js");
const { exported } = require("../lib/find.js");
const ESC = 27;
// terminal state: style P(lain)/S(tyled), followed by L inside a hyperlink; mode and text of an unfinished sequence
function step(m, c, code) {
  const [base, mode, buf] = m.split("|"); const ch = c < 128 ? String.fromCharCode(c) : "x"; const link = base.slice(1);
  if (!code) { if (mode === "]") return base + "|]|" + (buf.startsWith("8;;") || buf === "8;;" ? "8;;u" : buf); if (mode === "[" || mode === "E") return { bad: "is inside an unfinished colour sequence" }; return m; }
  switch (mode) {
    case "": return c === ESC ? base + "|E|" : m;
    case "E": if (ch === "[") return base + "|[|"; if (ch === "]") return base + "|]|"; if (ch === "\\") return base + "||"; return { bad: "is not a known escape sequence" };
    case "[": if (/[0-9;]/.test(ch)) return base + "|[|" + buf + ch; if (ch === "m") { const off = buf === "" || buf.split(";").every((x) => x === "" || x === "0"); return (off ? "P" : "S") + link + "||"; } return { bad: "ends a control sequence that is not a colour" };
    case "]": if (c === ESC) return base + "|]E|" + buf; return base + "|]|" + (buf.length < 3 ? buf + ch : buf.startsWith("8;;") ? "8;;u" : buf);
    case "]E": if (ch === "\\") { if (buf === "8;;") return base[0] + "||"; if (buf === "8;;u") return base[0] + "L||"; return { bad: "ends an unknown terminal command" }; } return { bad: "breaks a terminal command" };
  }
  return m;
}
// members of a union type that carry a literal `type` property
function variants(P, name, file) {
  for (const sf of P.sources) { if (!sf.fileName.endsWith(file)) continue;
    for (const s of sf.statements) if (ts.isTypeAliasDeclaration(s) && s.name.text === name) { const t = P.checker.getTypeAtLocation(s.name); return (t.isUnion() ? t.types : [t]).map((m) => ({ t: m, props: m.getProperties().map((p) => ({ name: p.name, type: P.checker.getTypeOfSymbolAtLocation(p, s) })) })); }
  }
  return [];
}
function build(it, st, v, n) {
  const props = {}; let kind = "?";
  for (const p of v.props) {
    if (p.type.isStringLiteral && p.type.isStringLiteral()) { props[p.name] = AI.C(p.type.value); if (p.name === "type") kind = p.type.value; }
    else if (it.checker.isArrayType(p.type) || /^readonly .*\[\]$/.test(it.checker.typeToString(p.type))) { const items = n === null ? null : Array.from({ length: n }, (_, i) => AI.Y("term." + p.name + "[" + i + "]")); props[p.name] = items ? it.freshObj(st, {}, "array", { items }) : AI.Y("term." + p.name); }
    else props[p.name] = AI.Y("term." + p.name);
  }
  return { obj: it.freshObj(st, props), kind };
}
function hasArray(it, v) { return v.props.some((p) => it.checker.isArrayType(p.type) || /^readonly .*\[\]$/.test(it.checker.typeToString(p.type))); }
// walk a string value with the terminal monitor
function terminal(parts, ms, onBad) {
  for (const p of parts) {
    if (p.lit !== undefined) { const r = G.monitor(G.lit(p.lit, true), ms, step); if (r.bad) onBad(r.bad, p); ms = r.ends; continue; }
    if (p.rep) { let out = new Set(ms); for (let k = 0; k < 6; k++) { const n = out.size; const from = k && p.sep ? G.monitor(G.lit(p.sep, true), out, step).ends : out; const all = new Set(k ? [...from, ...ms] : ms); for (const alt of p.rep) for (const x of terminal(alt, all, onBad)) out.add(x); if (out.size === n && k) break; } ms = out; continue; }
    if (p.neutral) { const out = new Set(); for (const m of ms) { if (p.neutral.suffix && !m.startsWith("S")) onBad({ text: "", why: "a nested message that restores a surrounding style is written outside that style" }, p); if (!p.neutral.suffix && m.startsWith("S|")) onBad({ text: "", why: "a nested message that resets all styles is written inside a style" }, p); out.add(m); } ms = out; continue; }
    const r = G.monitor(p.lang || G.TOPDATA, ms, step); if (r.bad) onBad(r.bad, p); ms = r.ends;
  }
  return ms;
}
// what a nested call of a formatter is assumed to return (shown for the outermost one)
const NEUTRAL = () => [{ k: "s", parts: [{ L: new Set(["(nested term)"]), raw: true, neutral: {} }] }];
function nested(node, st, it) {
  if (!node.asteriskToken) return NEUTRAL();
  const t = it.checker.getReturnTypeOfSignature(it.checker.getSignatureFromDeclaration(node)); const y = it.checker.getTypeArguments(t)[0];
  if (!y || !(y.flags & ts.TypeFlags.Object)) return it.freshObj(st, {}, "array", { items: null, elem: NEUTRAL() });
  const props = {}; for (const p of y.getProperties()) props[p.name] = it.checker.getTypeOfSymbolAtLocation(p, node).flags & ts.TypeFlags.StringLike ? NEUTRAL() : AI.T([], "number");
  return it.freshObj(st, {}, "array", { items: null, elem: it.freshObj(st, props) });
}
const FORMATTERS = ["formatMessage", "formatUsage", "formatUsageTerm", "formatDocPage"];
// an expression that is only ever on when a caller's colour option (or, for run, a terminal) asks for it
function follows(P, e, seen = new Set()) {
  e = AI.strip(e); if (seen.has(e)) return true; seen.add(e);
  const f = (x) => follows(P, x, seen);
  if (e.kind === ts.SyntaxKind.FalseKeyword || e.kind === ts.SyntaxKind.NullKeyword || (ts.isIdentifier(e) && e.text === "undefined")) return true;
  if (ts.isPropertyAccessExpression(e)) return e.name.text === "colors" || e.name.text === "isTTY";
  if (ts.isElementAccessExpression(e)) return ts.isStringLiteralLike(e.argumentExpression) && ["colors", "isTTY"].includes(e.argumentExpression.text);
  if (ts.isConditionalExpression(e)) return f(e.whenFalse) && (f(e.condition) || f(e.whenTrue));
  if (ts.isBinaryExpression(e)) { const k = e.operatorToken.kind; if (k === ts.SyntaxKind.QuestionQuestionToken || k === ts.SyntaxKind.BarBarToken) return f(e.left) && f(e.right); if (k === ts.SyntaxKind.AmpersandAmpersandToken) return f(e.left) || f(e.right); if (k === ts.SyntaxKind.EqualsEqualsEqualsToken || k === ts.SyntaxKind.EqualsEqualsToken) return e.right.kind === ts.SyntaxKind.TrueKeyword && f(e.left); return false; }
  if (ts.isPrefixUnaryExpression(e) && e.operator === ts.SyntaxKind.ExclamationToken && ts.isPrefixUnaryExpression(AI.strip(e.operand))) return f(AI.strip(e.operand).operand);
  if (ts.isCallExpression(e)) { if (ts.isIdentifier(e.expression) && e.expression.text === "Boolean" && e.arguments.length === 1) return f(e.arguments[0]); const d = P.checker.getResolvedSignature(e)?.declaration; if (d && d.body) { const rs = []; const w = (n) => { if (n !== d.body && ts.isFunctionLike(n)) return; if (ts.isReturnStatement(n)) rs.push(n.expression); ts.forEachChild(n, w); }; if (ts.isBlock(d.body)) w(d.body); else rs.push(d.body); return rs.length > 0 && rs.every((x) => !x || f(x)); } return false; }
  if (ts.isIdentifier(e)) {
    let s = P.checker.getSymbolAtLocation(e); if (ts.isShorthandPropertyAssignment(e.parent)) s = P.checker.getShorthandAssignmentValueSymbol(e.parent);
    const d = s && s.declarations && s.declarations[0]; if (!d) return false;
    if (ts.isBindingElement(d)) { const key = (d.propertyName || d.name).getText(); return key === "colors" && (!d.initializer || f(d.initializer)); }
    if (ts.isVariableDeclaration(d)) { if (!d.initializer) { return assigns(P, d).every(f); } return f(d.initializer) && assigns(P, d).every(f); }
    if (ts.isParameter(d)) { if (d.initializer && !f(d.initializer)) return false; const i = d.parent.parameters.indexOf(d); const cs = calls(P, d.parent); if (!cs) return true; return cs.every((c) => !c.arguments[i] || f(c.arguments[i])); }
  }
  return false;
}
function assigns(P, d) { const out = []; const sym = P.checker.getSymbolAtLocation(d.name); const w = (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isIdentifier(n.left) && P.checker.getSymbolAtLocation(n.left) === sym) out.push(n.right); ts.forEachChild(n, w); }; w(d.getSourceFile()); return out; }
function calls(P, fn) { // call sites of a repository function, or null when it is an entry point
  const out = []; const sym = fn.name && P.checker.getSymbolAtLocation(fn.name); if (!sym) return null;
  for (const sf of P.sources) { const w = (n) => { if (ts.isCallExpression(n) && ts.isIdentifier(n.expression)) { let s = P.checker.getSymbolAtLocation(n.expression); if (s && s.flags & ts.SymbolFlags.Alias) s = P.checker.getAliasedSymbol(s); if (s === sym) out.push(n); } ts.forEachChild(n, w); }; w(sf); }
  return out.length ? out : null;
}
module.exports = {
  id: "C04",
  explanation: "abstract interpretation of every text formatter with colours off (no escape character written by the formatter may reach the result) and on (terminal-state monitor over all texts of each message and usage term kind), plus a dataflow check of the colour setting at every formatter call site",
  run(P, R) {
    const fns = {}; for (const n of FORMATTERS) { fns[n] = exported(P, "packages/core/", n); if (!fns[n]) R.violation("packages/core/src", `formatter ${n} not found`, "anchor:" + n); }
    if (R.violations.length) return;
    // 1. colours off
    AI.setLitLabels((s) => s.includes("\x1b") || s.includes("\x9b") ? ["<terminal escape sequence>"] : []);
    let offRuns = 0;
    for (const n of FORMATTERS) for (const [how, val] of [["false", AI.FALSE], ["absent", AI.UNDEF]]) {
      const falsy = (x) => x.k === "c" && !x.v; let passed = 0;
      const it = new AI.Interp(P, { maxRec: 1, pureNumeric: true, memo: false, maxSteps: 6e6, onCall: n !== "formatDocPage" ? undefined : (i) => { if (i.kind !== "fn" || !FORMATTERS.includes(i.name) || i.name === "formatDocPage") return undefined;
        passed++; const o = i.args[i.args.length - 1] || []; const c = i.args.length < 2 ? [] : i.interp.getProp(o, "colors", i.st);
        R.obligation("formatDocPage: the colour setting is handed on", c.every(falsy), i.interp.loc(i.node), `formatDocPage with colours ${how} calls ${i.name} with colours that may be on`, "off:page:" + i.name);
        return { v: [{ k: "s", parts: [{ L: new Set([i.name, ...i.interp.labels(i.args[0] || [], i.st)]), raw: true, lang: G.topOf(G.ALLDATA) }] }] }; } });
      const st = it.newState(); const opts = it.freshObj(st, { colors: val }, "object", { rest: AI.Y("options") });
      const fn = fns[n]; const args = fn.node.parameters.map((p, i) => /option/i.test(p.name.getText()) ? opts : AI.Y("arg" + i));
      if (how === "absent" && !args.includes(opts)) continue;
      let rets; try { rets = it.callFn(fn, args, null, st, null); } catch (e) { R.violation(it.loc(fn.node), `${n}: ${e.message}`, n + ":budget"); continue; }
      offRuns++;
      R.obligation(`${n} returns with colours ${how}`, rets.length > 0, it.loc(fn.node));
      const L = new Set(); for (const { v, s } of rets) for (const l of it.labels(v, s)) L.add(l);
      R.obligation(`${n}: no escape sequence with colours ${how}`, !L.has("<terminal escape sequence>"), it.loc(fn.node), `${n}: with colours ${how} the formatter can still write a terminal escape sequence`, "off:" + n);
      R.obligation(`${n}: the analysed text contains its input`, [...L].some((l) => l.includes("arg0")), it.loc(fn.node), `${n}: the formatted text no longer depends on its input; nothing was checked`, "input:" + n);
      R.analysed(it.fnSeen.size, "functions (colours off)");
    }
    // 2. colours on: every kind of term leaves the terminal as it found it
    for (const [n, tname, file, wrap] of [["formatMessage", "MessageTerm", "core/src/message.ts", true], ["formatUsageTerm", "UsageTerm", "core/src/usage.ts", false]]) {
      const vs = variants(P, tname, file); R.atLeast("kinds of " + tname, vs.length, 8);
      for (const v of vs) for (const cnt of [1, 2, 3, null]) for (const cv of n === "formatMessage" ? ["true", "suffix"] : ["true"]) {
        const it = new AI.Interp(P, { ...OPTS, maxRec: 1, pureNumeric: true, maxSteps: 6e6, widenAt: 0, onCutoff: (node, _a, s0, itp) => nested(node, s0, itp) });
        if (!hasArray(it, v) && cnt !== 1) continue;
        const st = it.newState(); const { obj, kind } = build(it, st, v, cnt);
        const opts = it.freshObj(st, { maxWidth: AI.UNDEF, colors: cv === "true" ? AI.TRUE : it.freshObj(st, { resetSuffix: AI.C("\x1b[2m") }) }, "object", { rest: AI.Y("options") });
        const arg = wrap ? it.freshObj(st, {}, "array", { items: [obj] }) : obj;
        let rets; try { rets = it.callFn(fns[n], [arg, opts], null, st, null); } catch (e) { R.violation(it.loc(fns[n].node), `${n} ${kind}: ${e.message}`, n + ":" + kind + ":budget"); continue; }
        if (cnt === null && kind === "values") { continue; } // lists of unknown length are covered by lengths 1, 2 and 3
        for (const { v: val, s } of rets) for (const a of val) {
          if (a.k === "t" && a.ty === "string" && !a.L.has("<terminal escape sequence>")) continue; // plain text, no styling in it
          if (a.k === "t") { R.obligation(`${n}: text can be followed`, false, it.loc(fns[n].node), `${n}: text of a ${kind} term is built by an operation the analysis cannot follow`, n + ":opaque:" + kind); continue; }
          let bad = null; const home = cv === "true" ? "P||" : "S||"; const ends = terminal(partsOf(a, s), new Set([home]), (b) => { bad = bad || b; });
          R.obligation(`${n}: sequences of a term are well formed`, !bad, it.loc(fns[n].node), bad && `${n}: ${kind} term: ${JSON.stringify(bad.text)} ${bad.why}`, `${n}:${kind}:form`);
          if (!bad) R.obligation(`${n}: styling ends with the term`, [...ends].every((x) => x === home), it.loc(fns[n].node), `${n}: a ${kind} term${cnt ? " with " + cnt + " element(s)" : ""} leaves the terminal ${[...ends].some((x) => x[1] === "L") ? "inside a hyperlink" : cv === "true" ? "styled" : "without the style it was asked to restore"} after its text`, `${n}:${kind}:reset`);
        }
        R.analysed(1, "term kind runs (colours on)");
      }
    }
    // 3. the page formatter composes the parts
    // once for every shape of an entry (which texts it has), with all other parts of the page present
    for (let shape = 0; shape < 8; shape++) for (const [sd, sc] of [[1, 1], [1, 0], [0, 1]]) {
      if ((!sd && !(shape & 2)) || (!sc && !(shape & 4))) continue;
      const it = new AI.Interp(P, { ...OPTS, maxRec: 1, pureNumeric: true, widenAt: 0, repFallback: true, maxSteps: 8e6, onCall: (i) => { if (i.kind !== "fn" || !FORMATTERS.includes(i.name) || i.decl === fns.formatDocPage.node) return undefined; if (i.decl !== fns[i.name].node && !fns[i.name].node.symbol?.declarations?.includes(i.decl)) { /* overload or re-export */ }
        const o = i.args[i.args.length - 1] || []; let suffix = false; for (const x of i.interp.getProp(o, "colors", i.st)) if (x.k === "o") { const r = i.interp.getProp([x], "resetSuffix", i.st); if (r.some((y) => !(y.k === "c" && !y.v))) suffix = true; }
        return { v: [{ k: "s", parts: [{ L: new Set([i.name]), raw: true, neutral: { suffix }, lang: G.topOf(G.ALLDATA) }] }] }; } });
      const st = it.newState(); const opts = it.freshObj(st, { maxWidth: AI.UNDEF, colors: AI.TRUE, showDefault: sd ? AI.TRUE : AI.FALSE, showChoices: sc ? AI.TRUE : AI.FALSE }, "object", { rest: AI.Y("options") });
      const msg = (w) => it.freshObj(st, {}, "array", { items: [it.freshObj(st, { type: AI.C("text"), text: AI.Y(w) })] });
      const entry = it.freshObj(st, { term: it.freshObj(st, { type: AI.C("argument"), metavar: AI.Y("metavar"), hidden: AI.UNDEF }), description: shape & 1 ? msg("description") : AI.UNDEF, default: shape & 2 ? msg("default") : AI.UNDEF, choices: shape & 4 ? msg("choices") : AI.UNDEF });
      const section = it.freshObj(st, { title: shape ? AI.Y("title") : AI.UNDEF, entries: it.freshObj(st, {}, "array", { items: [entry] }) });
      const page = it.freshObj(st, { usage: it.freshObj(st, {}, "array", { items: [it.freshObj(st, { type: AI.C("argument"), metavar: AI.Y("m2"), hidden: AI.UNDEF })] }), sections: it.freshObj(st, {}, "array", { items: [section] }), ...Object.fromEntries(["brief", "description", "examples", "author", "bugs", "footer"].map((k) => [k, msg(k)])) });
      const rets = it.callFn(fns.formatDocPage, [AI.Y("programName"), page, opts], null, st, null); let n = 0;
      for (const { v, s } of rets) for (const a of v) { if (a.k === "t") { R.notes.push("page text with colours on is only followed per field"); continue; } n++; let bad = null; const ends = terminal(partsOf(a, s), new Set(["P||"]), (b) => { bad = bad || b; }); R.obligation("formatDocPage: sequences are well formed", !bad, it.loc(fns.formatDocPage.node), bad && `formatDocPage: ${JSON.stringify(bad.text)} ${bad.why}`, "page:form"); if (!bad) R.obligation("formatDocPage: styling ends with the page", [...ends].every((x) => x === "P||"), it.loc(fns.formatDocPage.node), "formatDocPage leaves the terminal styled after the page", "page:reset"); }
      R.analysed(n, "page texts (colours on)");
    }
    AI.setLitLabels(() => []);
    // 4. every use of a formatter follows the caller's colour option
    let sites = 0;
    for (const sf of P.sources) {
      const w = (n) => {
        ts.forEachChild(n, w);
        if (!ts.isCallExpression(n)) return;
        let s = P.checker.getSymbolAtLocation(ts.isPropertyAccessExpression(n.expression) ? n.expression.name : n.expression); if (s && s.flags & ts.SymbolFlags.Alias) s = P.checker.getAliasedSymbol(s);
        if (!s || !FORMATTERS.some((k) => P.checker.getSymbolAtLocation(fns[k].node.name) === s)) return;
        const o = n.arguments[n.arguments.length - 1]; const objs = o && n.arguments.length > 1 ? [AI.strip(o)] : [];
        if (objs[0] && ts.isIdentifier(objs[0])) { const d = P.checker.getSymbolAtLocation(objs[0])?.declarations?.[0]; if (d && ts.isVariableDeclaration(d) && d.initializer && ts.isObjectLiteralExpression(AI.strip(d.initializer))) objs[0] = AI.strip(d.initializer); }
        sites++;
        for (const ob of objs) if (ts.isObjectLiteralExpression(ob)) for (const p of ob.properties) if ((ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p)) && p.name.getText() === "colors") {
          const fo = follows(P, ts.isPropertyAssignment(p) ? p.initializer : p.name); const { line } = sf.getLineAndCharacterOfPosition(n.getStart()); const at = sf.fileName.replace(P.REPO + "/", "") + ":" + (line + 1);
          R.obligation("formatter call sites follow the colour option", fo, at, `${n.expression.getText()} is called with colours that can be on although no caller asked for colours`, "site:" + sf.fileName.replace(P.REPO + "/", "") + ":" + n.expression.getText());
        }
      };
      w(sf);
    }
    R.atLeast("formatter call sites", sites, 20);
  },
};
