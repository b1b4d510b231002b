"use strict";
// Verifies that the tool chain the checks need is present; nothing has to be built.
const { ts } = require("../lib/program.js");
require("fs").mkdirSync(require("path").join(__dirname, "..", "evidence"), { recursive: true });
console.log("typescript " + ts.version + ", node " + process.version);
