// Runs the WebAssembly binding under node: one JSON list of arguments per
// input line, one JSON answer per output line.
"use strict";
const fs = require("fs");
const readline = require("readline");

// what the module prints to stdout must not mix with the answers
const real = fs;
globalThis.fs = Object.assign(Object.create(real), {
  writeSync(fd, ...a) { return real.writeSync(fd === 1 ? 2 : fd, ...a); },
  write(fd, ...a) { return real.write(fd === 1 ? 2 : fd, ...a); },
});
globalThis.path = require("path");
require(process.env.VERIF_WASM_EXEC);

const undef = (v) => {
  if (v && typeof v === "object" && v.$undefined) return undefined;
  if (v && typeof v === "object") {
    for (const k of Object.keys(v)) v[k] = undef(v[k]);
  }
  return v;
};

(async () => {
  const go = new Go();
  let exited = false;
  const mod = await WebAssembly.instantiate(real.readFileSync(process.env.VERIF_WASM), go.importObject);
  go.run(mod.instance).then(() => { exited = true; }, () => { exited = true; });
  const rl = readline.createInterface({ input: process.stdin, terminal: false });
  for await (const line of rl) {
    let ans = {};
    try {
      const r = globalThis.generateQRCode(...JSON.parse(line).map(undef));
      ans.type = r === null ? "null" : typeof r;
      ans.keys = r && typeof r === "object" ? Object.keys(r).sort() : [];
      ans.result = r && typeof r === "object" ? r : null;
    } catch (e) {
      ans.threw = String(e);
    }
    await new Promise((ok) => setImmediate(ok));
    ans.exited = exited;
    real.writeSync(1, JSON.stringify(ans) + "\n");
  }
  process.exit(0);
})().catch((e) => { real.writeSync(2, String(e && e.stack) + "\n"); process.exit(7); });
