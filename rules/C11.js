"use strict";
// How a plain run ends: which stream is written, which callback is called with which code, what is returned.
const AI = require("../lib/ai.js"); const { exported } = require("../lib/find.js"); const { RunBench } = require("../lib/runbench.js"); const { one } = require("../lib/scenario.js");
const CORE = "packages/core/"; const V = (l) => AI.T([l], "string");
const APIS = [["runParser", "sync", false], ["runParser", "async", false], ["runParser", "sync", true], ["runParser", "async", true], ["runParserSync", "sync", false], ["runParserAsync", "sync", false], ["runParserAsync", "async", false]];
// the library's own parsers and formatters, by what they are for
const BUILDERS = ["object", "option", "flag", "command", "argument", "multiple", "withDefault", "optional", "constant", "string", "group", "longestMatch"];
const TEXTS = { formatDocPage: "DOCTEXT", formatUsage: "USAGETEXT" };
class EndBench extends RunBench {
  constructor(P, o) {
    super(P, { run: "real", ...o, onCall: (i) => this.call(i) });
    this.takes = new Map(); if (P.endDecls) { this.decls = P.endDecls; return; } this.decls = P.endDecls = new Map();
    for (const n of [...BUILDERS, ...Object.keys(TEXTS), "formatMessage", "getDocPage"]) { const f = exported(P, CORE + "src/", n); if (f) this.decls.set(f.node, n); }
  }
  call(info) {
    const con = /^(?:global:)?console\.(log|error)$/.exec(info.path || "");
    if (con) { this.log(info.st, con[1] === "log" ? "stdout" : "stderr", { text: info.args[0] || AI.UNDEF }); return { rets: [{ s: info.st, v: AI.UNDEF }] }; }
    if (info.kind !== "fn") return undefined; const n = this.decls.get(info.decl); if (!n) return undefined;
    const s = info.st, a = info.args;
    if (TEXTS[n]) return { rets: [{ s, v: n === "formatUsage" ? one(TEXTS[n]) : V(TEXTS[n]) }] };
    if (n === "formatMessage") { const d = this.it.describe(a[0], s, 5); return { rets: [{ s, v: one(/PARSEERROR/.test(d) ? "MSG PARSEERROR" : /COMPLETEERROR/.test(d) ? "MSG COMPLETEERROR" : "MSG") }] }; }
    if (n === "getDocPage") { this.log(s, "doc", { of: this.takes.get(a[0][0].id), args: a[1] }); const d = this.o.doc === "none" ? AI.UNDEF : this.obj(s, { sections: this.arr(s, []) }); const m = this.it.getProp(a[0], "mode", s); return { rets: this.answer(s, d, null, null, m.length !== 1 || m[0].v !== "sync") }; }
    return { rets: [{ s, v: this.built(n, a, s) }] };
  }
  // a library parser: which tokens it takes is all that matters
  built(n, a, s) {
    const takes = new Set(); let mode = "sync";
    const inner = (v) => { if (v.length === 1 && v[0].k === "o") { const t = this.takes.get(v[0].id); if (t) { for (const x of t.takes) takes.add(x); if (t.mode === "async") mode = "async"; return; } } };
    if (n === "command" || n === "option" || n === "flag") for (const v of a) for (const x of v) if (x.k === "c" && typeof x.v === "string") takes.add(x.v);
    if (n === "group") inner(a[1]); else if (n === "longestMatch") for (const v of a) inner(v);
    else if (n === "object" && a[0].length === 1 && a[0][0].k === "o") for (const v of this.it.rec(s, a[0][0].id).props.values()) inner(v);
    return this.stub(n, takes, mode, s);
  }
  stub(name, takes, mode, s) {
    const b = this;
    const p = this.obj(s, {
      mode: one(mode), $valueType: this.arr(s, []), $stateType: this.arr(s, []), priority: one(1), usage: this.arr(s, []), leadingNames: this.it.freshObj(s, {}, "set", { items: [] }), acceptingAnyToken: AI.FALSE, initialState: this.obj(s, { own: AI.Y("INITIAL") }),
      parse: this.nat("parse", (a, s2) => {
        const buf = b.it.rec(s2, b.it.getProp(a[0], "buffer", s2)[0].id).items, ended = b.it.getProp(a[0], "optionsTerminated", s2)[0].v; const tok = buf.length ? buf[0][0].v : null;
        if (tok === null && name === "user") return { rets: b.answer(s2, b.obj(s2, { success: AI.TRUE, next: a[0], consumed: b.arr(s2, []) }), null, null, mode === "async") };
        if (tok === null || !(takes.has(tok) || (ended && takes.has("*")))) return { rets: b.answer(s2, b.obj(s2, { success: AI.FALSE, consumed: one(0), error: b.message("PARSEERROR", s2) }), null, null, mode === "async") };
        const next = b.obj(s2, { ...Object.fromEntries(b.it.rec(s2, a[0][0].id).props), buffer: b.arr(s2, buf.slice(1)), ...(tok === "--" ? { optionsTerminated: AI.TRUE } : {}) });
        return { rets: b.answer(s2, b.obj(s2, { success: AI.TRUE, next, consumed: b.arr(s2, buf.slice(0, 1)) }), null, null, mode === "async") };
      }),
      complete: this.nat("complete", (a, s2) => ({ rets: b.answer(s2, b.o.complete === "fail" ? b.obj(s2, { success: AI.FALSE, error: b.message("COMPLETEERROR", s2) }) : b.obj(s2, { success: AI.TRUE, value: V("VALUE") }), null, null, mode === "async") })),
      suggest: this.nat("suggest", (a, s2) => b.arr(s2, [b.obj(s2, { kind: one("literal"), text: one("sugg") })])),
      getDocFragments: this.nat("docs", () => AI.Y("docs")),
    });
    this.takes.set(p[0].id, { name, takes, mode }); return p;
  }
  message(text, s) { return this.arr(s, [this.obj(s, { type: one("text"), text: one(text) })]); }
  sink(ev) { return this.nat(ev, (a, s) => { this.log(s, ev, { text: a[0] || AI.UNDEF }); return AI.UNDEF; }); }
  callback(ev) {
    return this.nat(ev, (a, s) => { this.log(s, ev, { code: a[0] || AI.UNDEF }); if (this.o.callbacks === "throw") return this.raise(s, "CALLBACKERROR:" + ev); return { rets: this.answer(s, V("RET " + ev), null, null, this.o.callbacks === "promise") }; });
  }
  end(name, program) {
    const fn = exported(this.P, CORE, name), st = this.st, o = this.o, cb = o.callbacks !== "none";
    const form = (f) => (f === true ? AI.TRUE : f ? this.obj(st, { names: this.arr(st, f.map((x) => one(x))) }) : undefined);
    const meta = (k, m, extra = {}) => (m ? { [k]: this.obj(st, { ...(m.option ? { option: form(m.option) } : {}), ...(m.command ? { command: form(m.command) } : {}), ...(cb ? { onShow: this.callback(k) } : {}), ...extra }) } : {});
    const shell = () => this.obj(st, { name: one("mysh"), generateScript: this.nat("script", (a, s) => { this.log(s, "script"); return V("SCRIPT"); }), encodeSuggestions: this.nat("encode", (a, s) => this.arr(s, [V("CHUNK1"), V("CHUNK2")])) });
    const opts = this.obj(st, {
      ...(o.streams === "default" ? {} : { stdout: this.sink("stdout"), stderr: this.sink("stderr") }), ...(cb ? { onError: this.callback("onError") } : {}), ...(o.above ? { aboveError: one(o.above) } : {}),
      ...meta("help", o.help), ...meta("version", o.version, { value: one("1.2.3") }), ...meta("completion", o.completion, { shells: this.obj(st, { mysh: shell() }) }),
    });
    const p = this.stub("user", new Set(o.takes || []), o.mode, st), args = this.arr(st, o.args.map((x) => one(x)));
    const first = program ? [this.obj(st, { parser: p, metadata: this.obj(st, { name: one("prog") }) }), args, opts] : [p, one("prog"), args, opts];
    this.thrown = []; this.it.handlers = [this.thrown];
    const rs = this.it.callFn(fn, first, null, st, null).flatMap((r) => { this.shape = r.v; return o.mode === "async" || name === "runParserAsync" ? this.it.settle(r.v, r.s, null) : [r]; }); this.it.handlers = [];
    return [...rs.map((r) => "return " + this.it.describe(r.v, r.s)), ...this.thrown.map((t) => "throw " + this.error(t.v, t.s))];
  }
}
const HELP = { option: true, command: true }, ALL = { help: HELP, version: HELP, completion: HELP };
// what is asked for, and how the run must end
const CASES = [];
const add = (what, o, end) => CASES.push([what, o, end]);
const help = (of) => ({ kind: "help", of }), version = { kind: "version" }, script = { kind: "script" }, suggest = { kind: "suggest" }, error = { kind: "error" }, value = { kind: "value" };
for (const [name, o] of [["nothing enabled", {}], ["everything enabled", ALL]]) {
  add(`accepted arguments, ${name}`, { ...o, takes: ["x"], args: ["x"] }, value); add(`no arguments, ${name}`, { ...o, args: [] }, value);
  add(`a rejected argument, ${name}`, { ...o, args: ["bad"] }, error); add(`a rejected later argument, ${name}`, { ...o, takes: ["x"], args: ["x", "bad"] }, error);
  add(`incomplete arguments, ${name}`, { ...o, takes: ["x"], args: ["x"], complete: "fail" }, error); add(`incomplete without arguments, ${name}`, { ...o, args: [], complete: "fail" }, error);
}
for (const [k, own, end] of [["help", ["--help"], help("top")], ["help", ["help"], help("top")], ["version", ["--version"], version], ["version", ["version"], version], ["completion", ["--completion", "mysh"], script], ["completion", ["--completion=mysh"], script], ["completion", ["completion", "mysh"], script]]) {
  const t = own.join(" ");
  add(`${t}, everything enabled`, { ...ALL, args: own }, end); add(`${t}, only that enabled`, { [k]: HELP, args: own }, end);
  const isOpt = own[0].startsWith("-");
  add(`${t}, only that form enabled`, { [k]: isOpt ? { option: true } : { command: true }, args: own }, end);
  add(`${t}, only the other form enabled`, { [k]: isOpt ? { command: true } : { option: true }, args: own }, error);
  add(`${t}, not enabled`, { ...ALL, [k]: undefined, args: own }, error); add(`${t}, nothing enabled`, { args: own }, error);
  const named = isOpt ? own.map((x, i) => (i ? x : x.replace(/^--\w/, (m) => "--my" + m[2]))) : own.map((x, i) => (i ? x : "my" + x));
  for (const which of [0, 1]) { const names = which ? ["--other", named[0].split("=")[0]] : [named[0].split("=")[0], "--other"]; const nn = isOpt ? names : names.map((x) => x.replace(/^--/, "")); add(`${named.join(" ")}, so named${which ? " second" : ""}`, { ...ALL, [k]: { [isOpt ? "option" : "command"]: nn }, args: named }, end); add(`${t}, named otherwise${which ? " second" : ""}`, { ...ALL, [k]: { [isOpt ? "option" : "command"]: nn }, args: own }, error); }
  add(`${t}, taken by the parser`, { ...ALL, takes: own, args: own }, value);
  if (isOpt && !t.includes("=")) add(`${t} after a terminator`, { ...ALL, takes: ["x"], args: ["bad", "--", ...own] }, error);
  if (isOpt) { add(`${t} between two terminators`, { ...ALL, takes: ["x"], args: ["--bad", "--", ...own, "--", "x"] }, error); add(`${t} after a leading terminator`, { ...ALL, args: ["--", ...own] }, error); if (k !== "completion") add(`${t} before a terminator`, { ...ALL, args: ["--bad", ...own, "--", "x"] }, end); }
  if (isOpt) { add(`${t} after a terminator the parser took`, { ...ALL, takes: ["x", "--"], args: ["x", "--", ...own] }, error); add(`${t} after an accepted argument`, { ...ALL, takes: ["x"], args: ["x", ...own] }, end.kind === "help" ? help("x") : end); }
  else add(`${t} after an accepted argument`, { ...ALL, takes: ["x"], args: ["x", ...own] }, error);
  if (isOpt && k !== "completion") add(`${t} after a rejected option`, { ...ALL, args: ["--bad", ...own] }, end);
}
add("the later of two requests: help", { ...ALL, args: ["--version", "--help"] }, help("top")); add("the later of two requests: version", { ...ALL, args: ["--help", "--version"] }, version);
add("the latest of three requests", { ...ALL, args: ["--help", "--version", "--help"] }, help("top")); add("repeated requests", { ...ALL, args: ["--version", "--version"] }, version);
add("help of a known command", { ...ALL, takes: ["go"], args: ["help", "go"] }, help("go")); add("help of nested commands", { ...ALL, takes: ["go", "fast"], args: ["help", "go", "fast"] }, help("go"));
add("help of an unknown command", { ...ALL, takes: ["go"], args: ["help", "stop"] }, error); add("help of an unknown nested command", { ...ALL, takes: ["go"], args: ["help", "go", "stop"] }, error); add("help after an unknown word", { ...ALL, takes: ["go"], args: ["stop", "--help"] }, error);
for (const c of ["completion", "version"]) add(`help of the ${c} command`, { ...ALL, args: [c, "--help"] }, help(c)); add("help of the help command", { ...ALL, args: ["help", "help"] }, help("help"));
add("the version command with a further word", { ...ALL, args: ["version", "bad"] }, error);
for (const [n, f] of [["option", ["--completion"]], ["command", ["completion"]]]) {
  add(`completion ${n} without a shell`, { ...ALL, args: f }, error); add(`completion ${n} with an empty shell`, { ...ALL, args: [...f, ""] }, error); add(`completion ${n} with an unknown shell`, { ...ALL, args: [...f, "nosh"] }, error); add(`completion ${n} with an inherited name`, { ...ALL, args: [...f, "toString"] }, error);
  add(`completion ${n} with words to complete`, { ...ALL, takes: ["x"], args: [...f, "mysh", "x", ""] }, suggest); add(`completion ${n} with one word to complete`, { ...ALL, takes: ["x"], args: [...f, "mysh", "su"] }, suggest); add(`completion ${n} with rejected words`, { ...ALL, args: [...f, "mysh", "bad", ""] }, suggest); add(`completion ${n} where the words ask for help`, { ...ALL, args: [...f, "mysh", "--help", ""] }, suggest);
}
add("completion option joined with an unknown shell", { ...ALL, args: ["--completion=nosh"] }, error); add("completion option joined with no shell", { ...ALL, args: ["--completion="] }, error); add("completion option joined, words to complete", { ...ALL, args: ["--completion=mysh", "su"] }, suggest);
for (const above of ["usage", "help", "none"]) for (const doc of ["some", "none"]) { add(`a rejected argument, ${above} above, documentation ${doc}`, { ...ALL, above, doc, args: ["bad"] }, error); add(`no arguments but needed, ${above} above, documentation ${doc}`, { above, doc, args: [], complete: "fail" }, error); add(`help, documentation ${doc}, ${above} above`, { ...ALL, above, doc, args: ["--help"] }, help("top")); }
// outcomes that differ only in the request need not be repeated for every kind of callback
const FEW = new Set(CASES.filter(([, , e], i) => CASES.findIndex(([, , f]) => f.kind === e.kind) === i || CASES.map(([, , f]) => f.kind).lastIndexOf(e.kind) === i).map(([w]) => w)); for (const w of ["a rejected argument, help above, documentation some", "help of an unknown command", "completion option without a shell", "completion command with an unknown shell", "help of a known command", "completion command with words to complete"]) FEW.add(w);
const CALLBACKS = ["value", "none", "promise", "throw"];
function run(P, R) {
  let n = 0; const missing = [...BUILDERS, ...Object.keys(TEXTS), "formatMessage", "getDocPage"].filter((x) => !exported(P, CORE + "src/", x));
  R.obligation("the library's parsers and formatters are where the runner takes them from", missing.length === 0, CORE, `${missing.join(", ")} not found`, "anchors");
  for (const [api, mode, program] of APIS) {
    const fn = exported(P, CORE, api); R.obligation("the runner is exported", !!fn, CORE, `${api} is no longer exported`, "export:" + api); if (!fn) continue;
    const sf = fn.node.getSourceFile(), at = sf.fileName.replace(P.REPO + "/", "") + ":" + (sf.getLineAndCharacterOfPosition(fn.node.getStart(sf)).line + 1);
    const who = `${api}(${program ? "program" : "parser"}), ${mode} parser`;
    for (const callbacks of CALLBACKS) for (const streams of ["given", "default"]) for (const [what0, o, end] of CASES) {
      if (streams === "default" && (callbacks !== "value" || !FEW.has(what0))) continue; if ((callbacks === "throw" || callbacks === "promise") && !FEW.has(what0)) continue; if (callbacks === "none" && /named/.test(what0)) continue;
      const what = `${who}, ${what0}, callbacks ${callbacks}, ${streams} streams`; n++; R.analysed(1, "abstract scenarios");
      let b, got; try { b = new EndBench(P, { mode, callbacks, streams, ...o }); got = b.end(api, program); } catch (e) { R.obligation("the scenario can be decided", false, at, `${what}: ${e.message}`, "decide:" + what); continue; }
      const must = (rule, ok, msg) => R.obligation(rule, !!ok, at, `${what}: ${msg}`, rule + ":" + what);
      const text = (e) => (e ? b.it.describe(e.text, e.s) : "nothing"), outs = b.events.filter((e) => e.ev === "stdout"), errs = b.events.filter((e) => e.ev === "stderr"), calls = b.events.filter((e) => ["help", "version", "completion", "onError"].includes(e.ev));
      const own = { help: "help", version: "version", script: "completion", suggest: "completion", error: "onError", value: null }[end.kind];
      const shown = `${outs.length} writes to stdout, ${errs.length} to stderr, ${calls.map((e) => e.ev + "(" + b.it.describe(e.code, e.s) + ")").join(", ") || "no callback"}, ${got.join(" or ") || "no outcome"}`;
      if (end.kind === "value") { must("accepted arguments give their value and nothing else happens", outs.length + errs.length + calls.length === 0 && got.join() === "return TOP(VALUE)", shown); continue; }
      if (end.kind === "error") must("a failed run writes its message to stderr only", outs.length === 0 && errs.length > 0 && /Error|MSG/.test(text(errs[0]) + text(errs[errs.length - 1])), shown);
      else must("a request is answered on stdout only", errs.length === 0 && (outs.length > 0 || (end.kind === "help" && o.doc === "none")), shown);
      if (end.kind === "version") must("a version request prints the version", outs.map(text).join() === '"1.2.3"', outs.map(text).join());
      if (end.kind === "help" && o.doc !== "none") must("a help request prints the documentation", outs.map(text).join() === "TOP(DOCTEXT)", outs.map(text).join());
      if (end.kind === "script") must("a completion request prints the script", outs.map(text).join() === "TOP(SCRIPT)", outs.map(text).join());
      if (end.kind === "suggest") must("a completion request prints the suggestions", outs.map(text).join() === "TOP(CHUNK1),TOP(CHUNK2)", outs.map(text).join());
      if (end.kind === "error" && /argument/.test(what0) && !/completion|help/.test(what0) && o.args[0] !== "completion") must("the message tells why the arguments were rejected", /MSG (PARSE|COMPLETE)ERROR/.test(text(errs[errs.length - 1])), text(errs[errs.length - 1]));
      if (o.above) { const pre = errs.slice(0, -1).map(text).join(); const want = end.kind !== "error" ? "" : o.above === "none" ? "" : o.above === "help" && o.doc !== "none" ? "DOCTEXT" : "USAGETEXT"; if (end.kind === "error") must("what is shown above the message is as configured", want ? pre.includes(want) && errs.length === 2 : errs.length === 1, `${pre || "nothing"} instead of ${want || "nothing"}`); }
      const last = b.events.filter((e) => ["stdout", "stderr", "help", "version", "completion", "onError"].includes(e.ev)).pop();
      const code = own === "onError" ? "1" : "0";
      if (callbacks !== "none") {
        must("exactly one callback is called, once, after the output, with its exit code", calls.length === 1 && calls[0].ev === own && b.it.describe(calls[0].code, calls[0].s) === code && last === calls[0], shown);
        const want = callbacks === "throw" ? `throw <CALLBACKERROR:${own}>` : callbacks === "promise" && mode === "sync" ? /^throw RunParserError\(/ : `return TOP(RET ${own})`;
        must("the run ends with what the callback gives", got.length === 1 && (want instanceof RegExp ? want.test(got[0]) : got[0] === want), shown);
      } else {
        must("without callbacks a failed run throws and an answered request returns", got.length === 1 && (own === "onError" ? /^throw RunParserError\(/ : /^return /).test(got[0]), shown);
      }
    }
  }
  R.atLeast("ending scenarios", n, 1000);
}
module.exports = { run, explanation: "abstract interpretation (no execution) of the plain runners over a stub parser, stub streams and stub callbacks; records which stream is written, which callback is called with which code, and the outcome" };
