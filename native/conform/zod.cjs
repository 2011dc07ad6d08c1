// Generated Zod schemas under the real Zod: node zod.cjs < cases > verdicts
const N = "/opt/veriftools/node/node_modules/";
const { z } = require(N + "zod");
const rl = require("readline").createInterface({ input: process.stdin, crlfDelay: Infinity });
const same = (a, b) => {
  if (a === b) return true;
  if (typeof a !== "object" || typeof b !== "object" || !a || !b || Array.isArray(a) !== Array.isArray(b)) return false;
  // Zod itself never passes on a member of this name
  const keys = (o) => Object.keys(o).filter((k) => k !== "__proto__");
  const k = keys(a), l = keys(b);
  return k.length === l.length && k.every((x) => Object.prototype.hasOwnProperty.call(b, x) && same(a[x], b[x]));
};
rl.on("line", (line) => {
  const c = JSON.parse(line);
  const say = (msg, value) => console.log(JSON.stringify({ case: c.case, msg, value, code: c.code }));
  let schema;
  try {
    const m = /^export const ([\p{ID_Start}$_][\p{ID_Continue}$]*) = /mu.exec(c.code);
    const exported = [...c.code.matchAll(/^export const ([\p{ID_Start}$_][\p{ID_Continue}$]*) = /gmu)].map((x) => x[1]);
    schema = new Function("z", '"use strict";' + c.code.replace(/^export /gm, "") + "\nreturn " + exported[exported.length - 1] + ";")(z);
    if (!m || !schema || !schema.safeParse) return say("no schema is exported");
  } catch (e) {
    return say("the code does not run: " + e);
  }
  const s = JSON.parse(c.case.input);
  const r = schema.safeParse(s);
  if (!r.success) return say("the sample is rejected: " + JSON.stringify(r.error.issues).slice(0, 300));
  if (!same(r.data, s)) return say("the sample is not passed through: " + JSON.stringify(r.data).slice(0, 300));
  let n = 0;
  for (const [t, want] of c.probes) {
    n++;
    if (schema.safeParse(JSON.parse(t)).success !== want) return say(want ? "a value of the type is rejected" : "a value that is not of the type is accepted", t);
  }
  console.log(JSON.stringify({ n }));
});
