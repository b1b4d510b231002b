"use strict";
// The process-integrated runners give the core runner exactly what the caller configured.
const AI = require("../lib/ai.js"); const { ts } = require("../lib/program.js"); const { exported } = require("../lib/find.js"); const { RunBench } = require("../lib/runbench.js"); const { one } = require("../lib/scenario.js");
const CORE = "packages/core/", RUN = "packages/run/"; const V = (l) => AI.T([l], "string");
const PLAIN = ["runParser", "runParserSync", "runParserAsync"], CONTEXT = ["runWith", "runWithSync", "runWithAsync"];
class ProcBench extends RunBench {
  constructor(P, o) {
    super(P, { run: "real", ...o, onCall: (i) => this.call(i) });
    if (!P.coreRunners) { P.coreRunners = new Map(); for (const n of [...PLAIN, ...CONTEXT]) { const f = exported(P, CORE, n); if (f) P.coreRunners.set(f.node, n); } }
  }
  call(info) {
    const s = info.st, path = String(info.path || "").replace(/\(\)/g, "");
    if (info.kind === "fn") { const n = this.P.coreRunners.get(info.decl); if (!n) return undefined; this.log(s, "core", { name: n, args: info.args, st: s }); return { rets: this.answer(s, AI.Y("RESULT"), null, null, n === "runWith" || n === "runWithAsync" || n === "runParserAsync" || (n === "runParser" && this.o.mode === "async")) }; }
    if (/process.*\.stdout\.write$|process.*\.stderr\.write$/.test(path)) { this.log(s, /stdout/.test(path) ? "process.stdout" : "process.stderr", { text: info.args[0] }); return { rets: [{ s, v: AI.TRUE }] }; }
    if (/process.*\.exit$/.test(path)) { this.log(s, "process.exit", { code: info.args[0] || AI.UNDEF }); return { rets: [{ s, v: V("EXITED") }] }; }
    if (/process.*\.argv\.slice$/.test(path)) return { rets: [{ s, v: V("ARGV.slice(" + info.args.map((x) => this.it.describe(x, s)).join() + ")") }] };
    if (/basename$/.test(path)) return { rets: [{ s, v: V("BASENAME(" + this.it.describe(info.args[0], s) + ")") }] };
    return undefined;
  }
  user(ev, ret) { return this.nat(ev, (a, s) => { this.log(s, ev, { text: a[0] || AI.UNDEF }); return ret ? V(ret) : AI.UNDEF; }); }
}
// every option of the core runner that the process runner passes on under its own name
function optionNames(P, dir, name) {
  for (const sf of P.sources) if (sf.fileName.includes("/" + dir) && sf.fileName.endsWith(name[0])) for (const st of sf.statements) if (ts.isInterfaceDeclaration(st) && st.name.text === name[1]) return P.checker.getTypeAtLocation(st.name).getProperties().map((x) => x.name);
  return [];
}
const DOCS = ["brief", "description", "examples", "author", "bugs", "footer"];
// what each configured form means to the core runner
const FORMS = [["absent", undefined, {}], ["command", one("command"), { command: true }], ["option", one("option"), { option: true }], ["both", one("both"), { command: true, option: true }], ["object, option only", { option: true }, { option: true }], ["object, command only", { command: true }, { command: true }], ["object, named", { option: "NAMES", command: "CNAMES" }, { option: "NAMES", command: "CNAMES" }]];
function run(P, R) {
  let n = 0;
  const own = optionNames(P, RUN, ["/run.ts", "RunOptions"]), core = optionNames(P, CORE, ["/facade.ts", "RunOptions"]);
  R.obligation("the option types are found", own.length > 10 && core.length > 10, RUN, "RunOptions not found", "options");
  const SPECIAL = new Set(["stdout", "stderr", "onError", "help", "version", "completion"]); const SAME = core.filter((k) => own.includes(k) && !SPECIAL.has(k));
  for (const [api, mode] of [["run", "sync"], ["run", "async"], ["runSync", "sync"], ["runAsync", "sync"], ["runAsync", "async"]]) {
    const fn = exported(P, RUN, api); R.obligation("the runner is exported", !!fn, RUN, `${api} is no longer exported`, "export:" + api); if (!fn) continue;
    const sf = fn.node.getSourceFile(), at = sf.fileName.replace(P.REPO + "/", "") + ":" + (sf.getLineAndCharacterOfPosition(fn.node.getStart(sf)).line + 1);
    const go = (what, o, f) => {
      n++; R.analysed(1, "abstract scenarios"); const must = (rule, ok, msg) => R.obligation(rule, !!ok, at, `${api}, ${mode} parser, ${what}: ${msg}`, rule + ":" + api + mode + what);
      try {
        const b = new ProcBench(P, { mode, ...o }); const st = b.st; const parser = b.parser();
        const meta = {}; for (const k of o.meta || []) meta[k] = V("META " + k);
        const first = o.program ? b.obj(st, { parser, metadata: b.obj(st, { name: one("metaname"), ...meta }) }) : parser;
        const opts = o.options ? o.options(b, st) : {};
        b.thrown = []; b.it.handlers = [b.thrown];
        const rs = b.it.callFn(fn, o.bare ? [first] : [first, b.obj(st, opts)], null, st, null).flatMap((r) => (api === "runSync" || (api === "run" && mode === "sync" && !o.contexts) ? [r] : b.it.settle(r.v, r.s, null))); b.it.handlers = [];
        b.got = [...rs.map((r) => "return " + b.it.describe(r.v, r.s)), ...b.thrown.map((t) => "throw " + b.error(t.v, t.s))];
        const calls = b.events.filter((e) => e.ev === "core"); const c = calls[0];
        if (!o.refused) {
          must("the core runner is called once and its result returned", calls.length === 1 && b.got.join() === "return <RESULT>", `called ${calls.length} times, ${b.got.join(" or ")}`); if (calls.length !== 1) return;
          const names = o.contexts ? (api === "runSync" ? ["runWithSync"] : ["runWith", "runWithAsync"]) : PLAIN; must("the matching core runner is called", names.includes(c.name), `${c.name} called`); if (!names.includes(c.name)) return;
          let [p, name, third, fourth] = c.args; const w = c.s;
          // the core runner takes a program instead of a parser, too
          let fromMeta = {}; if (PLAIN.includes(c.name) && o.program && p[0] && p[0].k === "o" && p[0].id === first[0].id) { fourth = third; third = name; name = one("metaname"); fromMeta = meta; p = parser; }
          b.conf = fourth || []; b.w = w;
          b.opt = (k) => { const v = b.conf.length ? b.it.getProp(b.conf, k, w) : AI.UNDEF; return v.length === 1 && v[0].k === "c" && v[0].v == null && fromMeta[k] ? fromMeta[k] : v; };
          b.show = (v) => b.it.describe(v, w); b.name = b.show(name); b.args = o.contexts ? b.show(b.opt("args")) : b.show(third); b.contexts = o.contexts ? third : null;
          must("the core runner gets the caller's parser", p.length === 1 && p[0].k === "o" && p[0].id === parser[0].id, "another parser");
          // a function of the configuration, called as the core runner would
          b.callback = (v, args) => { const k = b.events.length; b.thrown = []; b.it.handlers = [b.thrown]; const r = v.filter((q) => q.k !== "c").flatMap((q) => b.it.callAtom(q, args, null, w, null)); b.it.handlers = []; return { r: r.map((x) => b.it.describe(x.v, x.s)).join(), ev: b.events.slice(k).map((e) => e.ev + "(" + b.it.describe(e.text || e.code || AI.UNDEF, e.s) + ")").join() }; };
        }
        f(b, must, calls);
      } catch (e) { must("the scenario can be decided", false, e.message); }
    };
    const two = [false, true];
    for (const program of two) for (const contexts of two) {
      const tag = `${program ? "program" : "parser"}${contexts ? ", contexts" : ""}`;
      const base = (b, st, more = {}) => ({ ...(contexts ? { contexts: b.arr(st, [b.contextOf({ id: "a", phase: "single-pass" })]), contextOptions: V("CTXOPTIONS") } : {}), ...more });
      const scene = (what, more, f, x = {}) => go(`${tag}, ${what}`, { program, contexts, options: (b, st) => base(b, st, more(b, st)), ...x }, f);
      const exit = (b) => ({ onExit: b.user("onExit", "EXITED") });
      // everything configured, with arbitrary values and with values that are easily mistaken for absent ones
      for (const [kind, val] of [["configured", (k) => V("OPT " + k)], ["configured to false", () => AI.FALSE], ["configured to zero", () => one(0)]]) scene(`options ${kind}`, (b, st) => Object.fromEntries(SAME.filter((k) => !(kind !== "configured" && (DOCS.includes(k) || k === "aboveError"))).map((k) => [k, val(k)])), (b, must) => {
        for (const k of SAME) { if (kind !== "configured" && (DOCS.includes(k) || k === "aboveError")) continue; const w = b.it.describe(val(k), b.w); must("every option reaches the core runner unchanged", b.show(b.opt(k)) === w, `${k} becomes ${b.show(b.opt(k))}`); }
      }, { meta: DOCS });
      if (program) scene("documentation from the program", () => ({}), (b, must) => { for (const k of DOCS) must("the program's documentation is used where the options have none", b.show(b.opt(k)) === `TOP(META ${k})`, `${k} is ${b.show(b.opt(k))}`); }, { meta: DOCS });
      scene("name and arguments given", (b, st) => ({ programName: one("mine"), args: b.arr(st, [one("x"), one("y")]) }), (b, must) => { must("the given program name and arguments are used", (b.name === '"mine"') && b.args === 'array["x", "y"]', `${b.name}, ${b.args}`); });
      scene("no arguments given explicitly", (b, st) => ({ args: b.arr(st, []) }), (b, must) => { must("an empty list of arguments is not replaced", b.args === "array[]" || b.args === "array()*" || /^array\[\s*\]$/.test(b.args), b.args); });
      scene("defaults", () => ({}), (b, must) => {
        must("the arguments default to those of the process", b.args === "TOP(ARGV.slice(2))", b.args);
        must("the program name defaults to the program's or the script's", program ? b.name === '"metaname"' : /^TOP\(BASENAME\(/.test(b.name) && /1/.test(b.name), b.name);
        let r;
        for (const l of ["one", "two\nlines"]) for (const s of ["stdout", "stderr"]) { r = b.callback(b.opt(s), [one(l)]); must("output goes to the process's streams, a line each", r.ev === `process.${s}(${JSON.stringify(l + "\n")})`, r.ev); }
        r = b.callback(b.opt("onError"), [one(1)]); must("a failed run exits with status 1", r.ev === "process.exit(1)", r.ev || "no exit");
      });
      for (const code of [0, 1, 2, 64]) scene(`error status ${code}`, (b) => ({ ...exit(b), errorExitCode: one(code) }), (b, must) => { const r = b.callback(b.opt("onError"), [one(1)]); must("a failed run exits with the configured status", r.ev === `onExit(${code})` && r.r === "TOP(EXITED)", `${r.ev || "no exit"}, gives ${r.r || "nothing"}`); });
      scene("exit given", (b) => ({ ...exit(b) }), (b, must) => { const r = b.callback(b.opt("onError"), [one(1)]); must("a failed run exits with the configured status", r.ev === "onExit(1)", r.ev || "no exit"); });
      scene("streams given", (b) => ({ stdout: b.user("out"), stderr: b.user("err") }), (b, must) => { for (const [k, e] of [["stdout", "out"], ["stderr", "err"]]) { const r = b.callback(b.opt(k), [one("LINE")]); must("given streams are used as they are", r.ev === e + '("LINE")', r.ev || "nothing"); } });
      for (const kind of ["help", "completion", "version"]) for (const [form, given, want] of FORMS) {
        const asObj = (b, st, g) => b.obj(st, { ...(kind === "version" ? { value: one("9.9") } : {}), ...(kind === "completion" ? { shells: V("SHELLS") } : {}), ...Object.fromEntries(Object.entries(g).map(([k, v]) => [k, v === true ? AI.TRUE : V(v)])) });
        if (kind === "version" && Array.isArray(given)) continue;
        scene(`${kind}: ${form}`, (b, st) => ({ ...exit(b), ...(given ? { [kind]: Array.isArray(given) ? given : asObj(b, st, given) } : {}) }), (b, must) => {
          const v = b.opt(kind);
          if (!given) { must("what is not configured stays off", v.length === 1 && v[0].k === "c" && v[0].v === undefined, b.show(v)); return; }
          const sub = (k) => b.show(b.it.getProp(v, k, b.w)); for (const k of ["option", "command"]) must("the requested forms and no others are enabled", sub(k) === (want[k] === true ? "true" : want[k] ? `TOP(${want[k]})` : "undefined"), `${k} becomes ${sub(k)}`);
          if (kind === "version") must("the version reaches the core runner", sub("value") === '"9.9"', sub("value")); if (kind === "completion" && !Array.isArray(given)) must("the shells reach the core runner", sub("shells") === "TOP(SHELLS)", sub("shells"));
          const r = b.callback(b.it.getProp(v, "onShow", b.w), [one(0)]); must("an answered request exits with status 0", r.ev === "onExit(0)" && r.r === "TOP(EXITED)", `${r.ev || "no exit"}, gives ${r.r || "nothing"}`);
        });
      }
      scene("version: text", (b) => ({ ...exit(b), version: one("1.2") }), (b, must) => { const v = b.opt("version"), sub = (k) => b.show(b.it.getProp(v, k, b.w)); must("the version reaches the core runner", sub("value") === '"1.2"' && sub("option") === "true" && sub("command") === "undefined", `${sub("value")}, option ${sub("option")}, command ${sub("command")}`); const r = b.callback(b.it.getProp(v, "onShow", b.w), [one(0)]); must("an answered request exits with status 0", r.ev === "onExit(0)", r.ev || "no exit"); });
      if (contexts) scene("contexts", () => ({}), (b, must) => { const it = b.contexts[0] && b.it.rec(b.w, b.contexts[0].id); must("the contexts and their options reach the core runner", it && it.items && it.items.length === 1 && b.show(b.opt("contextOptions")) === "TOP(CTXOPTIONS)", `${b.show(b.contexts)}, options ${b.show(b.opt("contextOptions"))}`); });
      else { go(`${tag}, no options`, { program, contexts, bare: true }, () => {}); scene("no contexts in the list", (b, st) => ({ contexts: b.arr(st, []) }), () => {}); }
      if (api === "runSync") go(`${tag}, an asynchronous parser`, { program, contexts, mode: "async", refused: true, options: (b, st) => base(b, st) }, (b, must, calls) => must("a synchronous run refuses an asynchronous parser", calls.length === 0 && b.got.length === 1 && /^throw TypeError\(/.test(b.got[0]), b.got.join(" or ")));
    }
  }
  R.atLeast("integration scenarios", n, 300); R.atLeast("options passed on by name", SAME.length, 10);
}
module.exports = { run, explanation: "abstract interpretation (no execution) of the process-integrated runners with the core runners as recording stubs; compares what the core runner is given, and what its callbacks do, with the configuration" };
