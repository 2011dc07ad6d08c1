// Generated JSON Schemas under the real Ajv: node schema.cjs < cases > verdicts
// (allErrors: without it, Ajv overlooks that a member named "" is missing)
const N = "/opt/veriftools/node/node_modules/";
const Ajv = require(N + "ajv");
const rl = require("readline").createInterface({ input: process.stdin, crlfDelay: Infinity });
rl.on("line", (line) => {
  const c = JSON.parse(line);
  const say = (msg, value) => console.log(JSON.stringify({ case: c.case, msg, value, code: c.code }));
  let check;
  try {
    const ajv = new (Ajv.default || Ajv)({ strict: false, allErrors: true, ownProperties: true, logger: false });
    check = ajv.compile(JSON.parse(c.code));
  } catch (e) {
    return say("not a JSON Schema: " + e);
  }
  if (!check(JSON.parse(c.case.input))) return say("the sample is rejected: " + JSON.stringify(check.errors).slice(0, 300));
  let n = 0;
  for (const [t, want] of c.probes) {
    n++;
    if (check(JSON.parse(t)) !== want) return say(want ? "a value of the type is rejected" : "a value that is not of the type is accepted", t);
  }
  console.log(JSON.stringify({ n }));
});
