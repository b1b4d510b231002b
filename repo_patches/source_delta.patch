From d7828d37663ea8f1f82331eb0358180c6df1e475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 01/14] fix: escape backslashes in fish completion script
 arguments

A backslash in a completion argument was left as is inside a fish
single-quoted string, where \\' and \\\\ are escapes, so an argument could
terminate its quotes.
---
 packages/core/src/completion.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 59ae1af..6e4929a 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -534,7 +534,7 @@ export const fish: ShellCompletion = {
   name: "fish",
   generateScript(programName: string, args: readonly string[] = []): string {
     validateProgramName(programName);
-    const escapedArgs = args.map((arg) => `'${arg.replace(/'/g, "\\'")}'`)
+    const escapedArgs = args.map((arg) => `'${arg.replace(/[\\']/g, "\\$&")}'`)
       .join(" ");
     const functionName = `__${
       programName.replace(/[^a-zA-Z0-9]/g, "_")
-- 
2.43.0


From 909df00412cacdea017ffabc195f17c8cc9a8ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 02/14] fix: double every PowerShell single quote character in
 completion arguments

PowerShell also treats U+2018 through U+201B as single quotes, so an argument
with a typographic quote terminated its quoted string in the script.
---
 packages/core/src/completion.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 6e4929a..9e8ad3c 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -1183,7 +1183,7 @@ export const pwsh: ShellCompletion = {
   name: "pwsh",
   generateScript(programName: string, args: readonly string[] = []): string {
     validateProgramName(programName);
-    const escapedArgs = args.map((arg) => `'${arg.replace(/'/g, "''")}'`)
+    const escapedArgs = args.map((arg) => `'${arg.replace(/['\u2018-\u201b]/g, "$&$&")}'`)
       .join(", ");
     return `
 Register-ArgumentCompleter -Native -CommandName ${programName} -ScriptBlock {
-- 
2.43.0


From 7c1d45e1cd21f301c08fcd94c59e74b1520432b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 03/14] fix: strip record separators from file completion
 directives

The pattern of a file suggestion usually is the word being completed; a tab,
line break, or NUL in it forged extra fields or records in the completion
output.
---
 packages/core/src/completion.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 9e8ad3c..cd8076a 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -47,13 +47,18 @@ function validateProgramName(programName: string): void {
  * @internal
  */
 function encodePattern(pattern: string): string {
-  return pattern.replace(/%/g, "%25").replace(/:/g, "%3A");
+  return sanitizeForTransport(pattern).replace(/%/g, "%25").replace(
+    /:/g,
+    "%3A",
+  );
 }
 
 function encodeExtensions(
   extensions: readonly string[] | undefined,
 ): string {
-  return extensions?.map((ext) => ext.replace(/^\./, "")).join(",") ?? "";
+  return extensions?.map((ext) =>
+    sanitizeForTransport(ext.replace(/^\./, ""))
+  ).join(",") ?? "";
 }
 
 /**
-- 
2.43.0


From 9302d5acb525c72f0989d46d39b05ef796f4dc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:22 +0000
Subject: [PATCH 04/14] fix: escape backslashes in option names in man pages

Option names and option-name message terms went through escapeHyphens()
only, so a backslash in a name was read by roff as an escape sequence.
---
 packages/man/src/man.ts  | 6 +++---
 packages/man/src/roff.ts | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/man/src/man.ts b/packages/man/src/man.ts
index 8f57812..06852a4 100644
--- a/packages/man/src/man.ts
+++ b/packages/man/src/man.ts
@@ -222,7 +222,7 @@ function formatUsageTermAsRoffInternal(
 
     case "option": {
       const names = term.names
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeRoff(name))}\\fR`)
         .join(" | ");
       const metavarPart = term.metavar
         ? ` \\fI${escapeRoff(term.metavar)}\\fR`
@@ -349,7 +349,7 @@ function formatDocEntryTerm(term: UsageTerm): string {
   switch (term.type) {
     case "option": {
       const names = term.names
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeRoff(name))}\\fR`)
         .join(", ");
       const metavarPart = term.metavar
         ? ` \\fI${escapeRoff(term.metavar)}\\fR`
@@ -413,7 +413,7 @@ function formatDocUsageTermAsRoff(term: UsageTerm): string {
 
     case "option": {
       const names = term.names
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeRoff(name))}\\fR`)
         .join(", ");
       const metavarPart = term.metavar
         ? ` \\fI${escapeRoff(term.metavar)}\\fR`
diff --git a/packages/man/src/roff.ts b/packages/man/src/roff.ts
index 17b2181..fe1a476 100644
--- a/packages/man/src/roff.ts
+++ b/packages/man/src/roff.ts
@@ -145,12 +145,12 @@ function formatTermAsRoff(
 
     case "optionName":
       // Bold with escaped hyphens
-      return `\\fB${escapeHyphens(term.optionName)}\\fR`;
+      return `\\fB${escapeHyphens(escapeBackslashes(term.optionName))}\\fR`;
 
     case "optionNames":
       // Comma-separated bold option names
       return term.optionNames
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeBackslashes(name))}\\fR`)
         .join(", ");
 
     case "metavar":
-- 
2.43.0


From 7a48fd3b2fa316629b7ee23bd8e36e4d72c8dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 05/14] fix: escape a leading ellipsis in the man page synopsis

A usage line starting with the ellipsis term produced a line starting with
a period, which roff reads as a control line and drops.
---
 packages/man/src/man.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/man/src/man.ts b/packages/man/src/man.ts
index 06852a4..e0b9a9f 100644
--- a/packages/man/src/man.ts
+++ b/packages/man/src/man.ts
@@ -625,7 +625,8 @@ export function formatDocPageAsMan(
     lines.push(`.B "${escapeHyphens(escapeRequestArg(options.name))}"`);
     const usageStr = formatUsageAsRoff(page.usage);
     if (usageStr) {
-      lines.push(usageStr);
+      // A leading "..." would be read as a roff control line.
+      lines.push(usageStr.startsWith(".") ? `\\&${usageStr}` : usageStr);
     }
   }
 
-- 
2.43.0


From bfe756717327e59f4486b8545ce70f8f5e8a2cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:27 +0000
Subject: [PATCH 06/14] fix: reset colors after a single-element values term

---
 packages/core/src/message.ts | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/packages/core/src/message.ts b/packages/core/src/message.ts
index 5f5b12d..32dd840 100644
--- a/packages/core/src/message.ts
+++ b/packages/core/src/message.ts
@@ -706,11 +706,8 @@ export function formatMessage(
             : term.values[i];
           yield {
             text: useColors
-              ? i <= 0
-                ? `\x1b[32m${value}`
-                : i + 1 >= term.values.length
-                ? `${value}${resetSequence}`
-                : value
+              ? (i <= 0 ? "\x1b[32m" : "") + value +
+                (i + 1 >= term.values.length ? resetSequence : "")
               : value,
             width: getDisplayWidth(value),
           };
-- 
2.43.0


From e4875582b5b7fe20b7438afb7c3f2e673d05e420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:27 +0000
Subject: [PATCH 07/14] fix: report unsupported shells named like
 Object.prototype members

---
 packages/core/src/facade.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/facade.ts b/packages/core/src/facade.ts
index 5d1cb8f..b17bb52 100644
--- a/packages/core/src/facade.ts
+++ b/packages/core/src/facade.ts
@@ -1625,7 +1625,9 @@ function handleCompletion<M extends Mode, THelp, TError>(
     );
   }
 
-  const shell = availableShells[shellName];
+  const shell = Object.hasOwn(availableShells, shellName)
+    ? availableShells[shellName]
+    : undefined;
 
   if (!shell) {
     const available: MessageTerm[] = [];
-- 
2.43.0


From d221f0b1fb2051ca0f9934e15b58a0702b54f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:01 +0000
Subject: [PATCH 08/14] fix: keep seq() from annotating its shared initial
 state

Advancing past or completing a seq() element wrote the run's annotations
onto the states array, which may still be the parser's own initial state,
so a later run could see an earlier run's environment or config values.
---
 packages/core/src/constructs.ts | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 347eeba..df146c2 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -7368,7 +7368,8 @@ function advanceSeqContext(
     state: createSeqState(
       currentContext.state,
       nextIndex,
-      currentContext.state.states,
+      // The existing array may be shared with the parser's initial state.
+      [...currentContext.state.states],
     ),
   };
 }
@@ -7520,7 +7521,11 @@ function createSeqComplete(
     dispatchByMode(
       combinedMode,
       () => {
-        const stateArray = annotateFreshArray(state, state.states) as unknown[];
+        // The existing array may be shared with the parser's initial state.
+        const stateArray = annotateFreshArray(
+          state,
+          [...state.states],
+        ) as unknown[];
         const runtime = exec?.dependencyRuntime ??
           createDependencyRuntimeContext(exec?.dependencyRegistry);
         const childExec: ExecutionContext = {
@@ -7602,7 +7607,11 @@ function createSeqComplete(
         };
       },
       async () => {
-        const stateArray = annotateFreshArray(state, state.states) as unknown[];
+        // The existing array may be shared with the parser's initial state.
+        const stateArray = annotateFreshArray(
+          state,
+          [...state.states],
+        ) as unknown[];
         const runtime = exec?.dependencyRuntime ??
           createDependencyRuntimeContext(exec?.dependencyRegistry);
         const childExec: ExecutionContext = {
-- 
2.43.0


From f75cab56318dc7c65f385ca626d792bbd789730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:14 +0000
Subject: [PATCH 09/14] fix: look up conditional() branches and meta groups by
 own keys only

A discriminator value such as "toString" or "constructor" found an
Object.prototype member instead of a branch and crashed the parser; a
help or version group with such a label crashed the runner.
---
 packages/core/src/constructs.ts | 6 ++++++
 packages/core/src/facade.ts     | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index df146c2..f226787 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -13166,6 +13166,12 @@ export function conditional(
   readonly [string | undefined, unknown],
   ConditionalState<string>
 > {
+  // The discriminator value may come from the command line, so branches are
+  // looked up by their own keys only (not "constructor" or "toString").
+  branches = Object.assign(
+    Object.create(null) as Record<string, Parser<Mode, unknown, unknown>>,
+    branches,
+  );
   const branchParsers = Object.entries(branches);
   const allBranchParsers = defaultBranch
     ? [...branchParsers.map(([_, p]) => p), defaultBranch]
diff --git a/packages/core/src/facade.ts b/packages/core/src/facade.ts
index b17bb52..30dbfa3 100644
--- a/packages/core/src/facade.ts
+++ b/packages/core/src/facade.ts
@@ -2679,7 +2679,7 @@ export function runParser<
           const groupedMeta: Record<
             string,
             Parser<Mode, unknown, unknown>[]
-          > = {};
+          > = Object.create(null);
           const ungroupedMeta: Parser<Mode, unknown, unknown>[] = [];
 
           const addMeta = (
@@ -2731,7 +2731,7 @@ export function runParser<
           const groupedMetaOptions: Record<
             string,
             Parser<Mode, unknown, unknown>[]
-          > = {};
+          > = Object.create(null);
           const ungroupedMetaOptions: Parser<Mode, unknown, unknown>[] = [];
 
           const addMetaOption = (
-- 
2.43.0


From a96cb4d67cf2e38bb945ece34a3771db82ea89ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:39 +0000
Subject: [PATCH 10/14] fix: reject fileSize() units named like
 Object.prototype members

"5constructor" threw a TypeError instead of being reported as invalid.
---
 packages/core/src/valueparser.ts | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index ad4f78a..d248ef1 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -3211,9 +3211,10 @@ export function fileSize(
           if (options.defaultUnit == null) return invalidFormatError(input);
           mBig = bigintMultiplierMap[options.defaultUnit.toLowerCase()];
         } else {
-          const m = bigintMultiplierMap[unitStr];
-          if (m == null) return invalidFormatError(input);
-          mBig = m;
+          if (!Object.hasOwn(bigintMultiplierMap, unitStr)) {
+            return invalidFormatError(input);
+          }
+          mBig = bigintMultiplierMap[unitStr];
         }
         const bytes = parseExactBytesRaw(numStr, mBig);
         if (bytes == null) return invalidFormatError(input);
@@ -3262,9 +3263,10 @@ export function fileSize(
         if (options.defaultUnit == null) return invalidFormatError(input);
         multiplier = multiplierMap[options.defaultUnit.toLowerCase()];
       } else {
-        const m = multiplierMap[unitStr];
-        if (m == null) return invalidFormatError(input);
-        multiplier = m;
+        if (!Object.hasOwn(multiplierMap, unitStr)) {
+          return invalidFormatError(input);
+        }
+        multiplier = multiplierMap[unitStr];
       }
       const bytes = parseExactBytes(numStr, multiplier);
       if (bytes == null) return invalidFormatError(input);
-- 
2.43.0


From 7b066bb38ac95afe064b8c78bf7e25f94d28eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:17 +0000
Subject: [PATCH 11/14] fix: order similar names independently of the host
 locale

---
 packages/core/src/suggestion.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/core/src/suggestion.ts b/packages/core/src/suggestion.ts
index f1d8010..7e43d87 100644
--- a/packages/core/src/suggestion.ts
+++ b/packages/core/src/suggestion.ts
@@ -202,7 +202,7 @@ export function findSimilar(
       return lengthDiffA - lengthDiffB;
     }
 
-    return a.candidate.localeCompare(b.candidate);
+    return a.candidate.localeCompare(b.candidate, "en");
   });
 
   // Return top N suggestions
-- 
2.43.0


From f05bdede40725c29d884a849738a6cde52c328b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:57 +0000
Subject: [PATCH 12/14] fix: leave out a hidden command's arguments from the
 man page synopsis

---
 packages/man/src/man.ts | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/packages/man/src/man.ts b/packages/man/src/man.ts
index e0b9a9f..a6dd098 100644
--- a/packages/man/src/man.ts
+++ b/packages/man/src/man.ts
@@ -209,6 +209,19 @@ function hasSingleVisibleTermOfType(
   return visible.length === 1 && visible[0].type === type;
 }
 
+/**
+ * Returns whether an alternative belongs to a hidden command.  Such an
+ * alternative is skipped as a whole, since the terms that follow the command
+ * name are that command's own arguments and options.
+ */
+function startsWithHiddenCommand(
+  branch: Usage,
+  isHidden: typeof isUsageHidden,
+): boolean {
+  const first = branch[0];
+  return first?.type === "command" && isHidden(first.hidden);
+}
+
 function formatUsageTermAsRoffInternal(
   term: UsageTerm,
   insideBrackets: boolean,
@@ -288,6 +301,7 @@ function formatUsageTermAsRoffInternal(
 
     case "exclusive": {
       const alternatives = term.terms
+        .filter((t) => !startsWithHiddenCommand(t, isUsageHidden))
         .map((t) => formatUsageAsRoffInternal(t, false))
         .filter((s) => s !== "");
       if (alternatives.length === 0) return "";
@@ -398,6 +412,7 @@ function formatDocUsageTermAsRoff(term: UsageTerm): string {
 
     case "exclusive": {
       const alternatives = term.terms
+        .filter((t) => !startsWithHiddenCommand(t, isDocHidden))
         .map((t) => formatDocUsageAsRoff(t))
         .filter((s) => s !== "");
       if (alternatives.length === 0) return "";
-- 
2.43.0


From 08fd5997b04b646dd126c2b2cbcd56200b28c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:22 +0000
Subject: [PATCH 13/14] fix: or() forgot earlier input of the active branch
 when switching branches

---
 packages/core/src/constructs.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index f226787..5a65ae9 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -1231,10 +1231,20 @@ function createExclusiveState(
   parser: Parser<Mode, unknown, unknown>,
   result: ParserResult<unknown>,
 ): ExclusiveState {
+  // A branch that goes on from its own earlier state has consumed what it
+  // consumed then as well, so a later branch switch has to account for all
+  // of it, not only for the last piece.
+  const previous = normalizeExclusiveState(parentState);
   const annotatedResult = annotateExclusiveParserResult(
     parentState,
     parser,
-    result,
+    result.success && previous?.[0] === index && previous[1].success &&
+      previous[1].consumed.length > 0
+      ? {
+        ...result,
+        consumed: [...previous[1].consumed, ...result.consumed],
+      }
+      : result,
   );
   return annotateFreshArray(
     parentState,
-- 
2.43.0


From 33d812cfb3a4832645f9da49de3d37422a448d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:15 +0000
Subject: [PATCH 14/14] fix: longestMatch() dropped already consumed input when
 another branch took over

---
 packages/core/src/constructs.ts | 137 +++++++++++++++++++++++++++-----
 1 file changed, 116 insertions(+), 21 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 5a65ae9..de9436b 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -4441,21 +4441,61 @@ function createLongestMatch(
     } | null = null;
     let error = getInitialError(context);
     const activeState = normalizeExclusiveState(context.state);
+    const previouslyConsumed = activeState?.[1].success
+      ? activeState[1].consumed
+      : [];
 
     // Try all parsers and find the one with longest match
     for (let i = 0; i < syncParsers.length; i++) {
       const parser = syncParsers[i];
-      const result = parser.parse(
-        withChildContext(
-          context,
+      let childContext: ParserContext<unknown> = withChildContext(
+        context,
+        i,
+        activeState == null || activeState[0] !== i ||
+          !activeState[1].success
+          ? parser.initialState
+          : activeState[1].next.state,
+        parser,
+      );
+      if (previouslyConsumed.length > 0 && activeState?.[0] !== i) {
+        // Another branch has already consumed input.  This one can only take
+        // over if it accounts for that input as well (shared options).
+        const replayed = parser.parse({
+          ...childContext,
+          buffer: previouslyConsumed,
+        });
+        if (!replayed.success || replayed.next.buffer.length > 0) {
+          const conflict = parser.parse(childContext);
+          if (
+            conflict.success && conflict.consumed.length > 0 &&
+            error.consumed === 0
+          ) {
+            error = {
+              consumed: 0,
+              error: message`${values(previouslyConsumed)} and ${
+                values(conflict.consumed)
+              } cannot be used together.`,
+            };
+          }
+          continue;
+        }
+        const replayExec = mergeChildExec(context.exec, replayed.next.exec);
+        childContext = withChildContext(
+          {
+            ...context,
+            ...(replayExec != null
+              ? {
+                exec: replayExec,
+                dependencyRegistry: replayExec.dependencyRegistry,
+              }
+              : {}),
+          },
           i,
-          activeState == null || activeState[0] !== i ||
-            !activeState[1].success
-            ? parser.initialState
-            : activeState[1].next.state,
+          replayed.next.state,
           parser,
-        ),
-      );
+        );
+      }
+      const result = parser.parse(childContext);
 
       if (result.success) {
         const consumed = context.buffer.length - result.next.buffer.length;
@@ -4491,7 +4531,15 @@ function createLongestMatch(
             context.state,
             bestMatch.index,
             bestMatch.parser,
-            bestMatch.result,
+            activeState?.[0] === bestMatch.index
+              ? bestMatch.result
+              : {
+                ...bestMatch.result,
+                consumed: [
+                  ...previouslyConsumed,
+                  ...bestMatch.result.consumed,
+                ],
+              },
           ),
           ...(mergedExec != null
             ? {
@@ -4519,22 +4567,61 @@ function createLongestMatch(
     } | null = null;
     let error = getInitialError(context);
     const activeState = normalizeExclusiveState(context.state);
+    const previouslyConsumed = activeState?.[1].success
+      ? activeState[1].consumed
+      : [];
 
     // Try all parsers and find the one with longest match
     for (let i = 0; i < parsers.length; i++) {
       const parser = parsers[i];
-      const resultOrPromise = parser.parse(
-        withChildContext(
-          context,
+      let childContext: ParserContext<unknown> = withChildContext(
+        context,
+        i,
+        activeState == null || activeState[0] !== i ||
+          !activeState[1].success
+          ? parser.initialState
+          : activeState[1].next.state,
+        parser,
+      );
+      if (previouslyConsumed.length > 0 && activeState?.[0] !== i) {
+        // Another branch has already consumed input.  This one can only take
+        // over if it accounts for that input as well (shared options).
+        const replayed = await parser.parse({
+          ...childContext,
+          buffer: previouslyConsumed,
+        });
+        if (!replayed.success || replayed.next.buffer.length > 0) {
+          const conflict = await parser.parse(childContext);
+          if (
+            conflict.success && conflict.consumed.length > 0 &&
+            error.consumed === 0
+          ) {
+            error = {
+              consumed: 0,
+              error: message`${values(previouslyConsumed)} and ${
+                values(conflict.consumed)
+              } cannot be used together.`,
+            };
+          }
+          continue;
+        }
+        const replayExec = mergeChildExec(context.exec, replayed.next.exec);
+        childContext = withChildContext(
+          {
+            ...context,
+            ...(replayExec != null
+              ? {
+                exec: replayExec,
+                dependencyRegistry: replayExec.dependencyRegistry,
+              }
+              : {}),
+          },
           i,
-          activeState == null || activeState[0] !== i ||
-            !activeState[1].success
-            ? parser.initialState
-            : activeState[1].next.state,
+          replayed.next.state,
           parser,
-        ),
-      );
-      const result = await resultOrPromise;
+        );
+      }
+      const result = await parser.parse(childContext);
 
       if (result.success) {
         const consumed = context.buffer.length - result.next.buffer.length;
@@ -4570,7 +4657,15 @@ function createLongestMatch(
             context.state,
             bestMatch.index,
             bestMatch.parser,
-            bestMatch.result,
+            activeState?.[0] === bestMatch.index
+              ? bestMatch.result
+              : {
+                ...bestMatch.result,
+                consumed: [
+                  ...previouslyConsumed,
+                  ...bestMatch.result.consumed,
+                ],
+              },
           ),
           ...(mergedExec != null
             ? {
-- 
2.43.0

