// Generated TypeScript under the real compiler: node ts.cjs < cases > verdicts
const ts = require("/opt/veriftools/node/node_modules/typescript");
const rl = require("readline").createInterface({ input: process.stdin, crlfDelay: Infinity });
const options = { strict: true, noEmit: true, target: ts.ScriptTarget.ES2020, lib: ["lib.es2020.d.ts"], types: [], skipLibCheck: true, noLib: false };
const base = ts.createCompilerHost(options);
const libs = new Map();
function typeOf(v) {
  if (v === null) return "null";
  if (Array.isArray(v)) return "[" + v.map(typeOf).join(", ") + "]";
  if (typeof v === "object") return "{ " + Object.keys(v).map((k) => JSON.stringify(k).replace(/[\u2028\u2029]/g, (c) => "\\u" + c.charCodeAt(0).toString(16)) + ": " + typeOf(v[k]) + ";").join(" ") + " }";
  return typeof v;
}
let batch = [];
function flush() {
  const files = new Map();
  for (const [i, c] of batch.entries()) {
    c.head = c.code.replace(/\r\n?|\u2028|\u2029/g, "\n").split("\n").length;
    const lines = [];
    const probe = (t, k) => lines.push(`declare const v${k}: ${typeOf(JSON.parse(t))}; const p${k}: ${c.case.name} = v${k};`);
    probe(c.case.input, 0);
    c.probes.forEach((p, k) => probe(p[0], k + 1));
    files.set(`/case${i}.ts`, "export {};" + c.code + "\n" + lines.join("\n") + "\n");
  }
  const host = Object.assign({}, base, {
    getSourceFile(f, v) {
      if (files.has(f)) return ts.createSourceFile(f, files.get(f), v);
      if (!libs.has(f)) libs.set(f, base.getSourceFile(f, v));
      return libs.get(f);
    },
    fileExists: (f) => files.has(f) || base.fileExists(f),
    readFile: (f) => (files.has(f) ? files.get(f) : base.readFile(f)),
    writeFile() {},
  });
  const program = ts.createProgram([...files.keys()], options, host);
  for (const [i, c] of batch.entries()) {
    const sf = program.getSourceFile(`/case${i}.ts`);
    const say = (msg, value) => console.log(JSON.stringify({ case: c.case, msg, value, code: c.code }));
    const text = (d) => ts.flattenDiagnosticMessageText(d.messageText, " ").slice(0, 300);
    const bad = new Map();
    let done = false;
    const head = sf.getLineAndCharacterOfPosition("export {};".length + c.code.length + 1).line;
    for (const d of [...program.getSyntacticDiagnostics(sf), ...program.getSemanticDiagnostics(sf)]) {
      const line = sf.getLineAndCharacterOfPosition(d.start).line;
      if (line < head) {
        say("the code does not compile: " + text(d));
        done = true;
        break;
      }
      bad.set(line - head, d);
    }
    if (done) continue;
    if (bad.has(0)) {
      say("the sample is not of the type: " + text(bad.get(0)));
      continue;
    }
    for (const [k, p] of c.probes.entries()) {
      if (bad.has(k + 1) === p[1]) {
        say(p[1] ? "a value of the type is rejected: " + text(bad.get(k + 1)) : "a value that is not of the type is accepted", p[0]);
        done = true;
        break;
      }
    }
    if (!done) console.log(JSON.stringify({ n: c.probes.length }));
  }
  batch = [];
}
rl.on("line", (line) => {
  batch.push(JSON.parse(line));
  if (batch.length >= 150) flush();
});
rl.on("close", () => batch.length && flush());
