// node hand.cjs <web src> <what> <quick|thorough> <part> <parts> [one text]: what the page's format
// button does to texts, what the code shown holds, which choices the page offers; prints JSON.
const fs = require('fs'), path = require('path');
const { load, World, Unusable, compilePage, reactor, tags } = require('./page.cjs');
process.on('unhandledRejection', () => {});
const [, , SRC, WHAT, TIER, PART, PARTS, ONE] = process.argv;
const thorough = TIER === 'thorough';
const out = { states: 0, transitions: 0, quiet: 0, violations: {} };
const tick = () => new Promise((r) => setImmediate(r));
function violation(key, msg, size, kase) {
  const v = (out.violations[key] = out.violations[key] || { key, count: 0 });
  v.count++;
  if (v.size === undefined || size < v.size) Object.assign(v, { msg, size, case: kase });
}
let S;
const source = () => (S = S || load(SRC));

async function settle(w) {
  await tick();
  for (let e, k = 0; k < 500 && (e = w.enabled()[0]) !== undefined; k++, await tick()) w.step(e);
}

// ---- formatting -------------------------------------------------------------------------------

/** The tokens of a JSON document as they are written, or null for any other text. */
function tokens(t) {
  const r = [];
  const re = /[ \t\n\r]+|([\[\]{},:]|true|false|null|-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?|"(?:[^"\\\u0000-\u001f]|\\["\\\/bfnrt]|\\u[0-9a-fA-F]{4})*")/y;
  let last = 0;
  while (re.lastIndex < t.length) {
    const m = re.exec(t);
    if (!m) return null;
    if (m[1] !== undefined) {
      if (last === re.lastIndex - m[0].length && r.length && !/[\[\]{},:]/.test(m[1][0]) && !/^[\[\]{},:]$/.test(r[r.length - 1])) return null;
      r.push(m[1]);
      last = re.lastIndex;
    }
  }
  // one value
  let i = 0;
  const value = () => {
    const k = r[i++];
    if (k === undefined) return false;
    if (k === '[' || k === '{') {
      const close = k === '[' ? ']' : '}';
      if (r[i] === close) { i++; return true; }
      for (;;) {
        if (k === '{' && !(r[i] && r[i][0] === '"' && r[++i] === ':' && ++i)) return false;
        if (!value()) return false;
        const n = r[i++];
        if (n === close) return true;
        if (n !== ',') return false;
      }
    }
    return !/^[\]},:]$/.test(k);
  };
  return value() && i === r.length ? r : null;
}

const SCALARS = ['0', '-0', '1.0', '10.50', '1e5', '1E+400', '1e-7', '12345678901234567890', '9007199254740993', '0.1000000000000000055', 'true', 'false', 'null', '""', '"a"', '"\\u0041"', '"\\/"', '"\\""', '"\\\\"', '"\\\\\\""', '"{ }"', '"[,:]"', '" "', '"\\n"', '"\u2028"', '"\\ud800"', '"\u{1f600}"', '"é"', '"\u007f"', '"\u00a0"'];
const KEYS = ['"a"', '"b"', '"10"', '"9"', '"__proto__"', '""', '"a b"', '"\\u0061"', '"constructor"', '"toJSON"', '"\\""', '"{"'];
function* values(depth, scalars, keys) {
  yield* scalars;
  if (!depth) return;
  yield '[]';
  yield '{}';
  const inner = [...values(depth - 1, scalars, keys)];
  for (const a of inner) {
    yield '[' + a + ']';
    for (const k of keys) yield '{' + k + ':' + a + '}';
  }
  const few = depth > 1 ? inner.filter((x, i) => i < 4 || !(i % 7)) : inner;
  for (const a of few) for (const b of few) {
    yield '[' + a + ',' + b + ']';
    for (const k of keys) for (const l of keys.slice(0, depth > 1 ? 3 : keys.length)) yield '{' + k + ':' + a + ',' + l + ':' + b + '}';
  }
}
function* strings(alphabet, n) {
  if (!n) { yield ''; return; }
  for (const s of strings(alphabet, n - 1)) for (const c of alphabet) yield s + c;
}
/** The same tokens with other white space. */
const LAYOUTS = [(r) => r.join(' '), (r) => r.join('\n'), (r) => '\r\n\t' + r.join('\t') + ' ', (r) => r.map((t) => (t === ',' ? ',\n  ' : t)).join('')];
function* texts() {
  yield* SCALARS;
  for (const v of values(1, SCALARS, KEYS.slice(0, 3))) yield v;
  for (const v of values(1, ['0', '1.0', '"a"', '"}"', 'null'], KEYS)) yield v;
  for (const v of values(2, thorough ? ['1.0', '"\\""', 'null'] : ['1.0', '"\\""'], ['"a"', '"1"'])) yield v;
  for (const v of values(0, SCALARS)) for (const d of [1, 2, 5, 50, 200]) { yield '['.repeat(d) + v + ']'.repeat(d); yield '{"a":'.repeat(d) + v + '}'.repeat(d); }
  yield '{' + Array.from({ length: 40 }, (_, i) => '"' + (40 - i) + '":' + i + '.0').join(',') + '}';
  // texts of every kind, most of them no documents
  for (let n = 0; n <= (thorough ? 6 : 5); n++) yield* strings(['{', '}', '[', ']', ',', ':', '"', '1', ' '], n);
  for (let n = 0; n <= (thorough ? 5 : 4); n++) yield* strings(['"', '\\', 'u', '0', '\n', 'a', '/', '\t'], n);
  for (let n = 0; n <= (thorough ? 6 : 5); n++) yield* strings(['1', '0', '.', 'e', '-', '+', ' '], n);
  for (const s of ['{"a":1}\n{"a":2}', '{a:1}', "{'a':1}", '[1,]', '// x\n{}', '{"a":1}x', '\ufeff{}', '\u00a0{}', 'nul', 'True', 'NaN', 'undefined', 'create table t (a int)', '[1 2]', '"a\nb"', '\u2028[]', '\v[]', '\f1', '[\u00a01]', '"\\x"', '01', '[-]', '1_0', '0x1', '.5', '5.'])
    for (const pre of ['', ' ', '\n']) for (const post of ['', ' ', '\n']) yield pre + s + post;
}

async function format() {
  let w = new World(source(), null), used = 0;
  await settle(w);
  const id = S.page.ui.fields.input.name;
  async function press(t) {
    if (used++ > 2000) { w = new World(S, null); used = 0; await settle(w); S.histories.clear(); }
    w.ui['set input'](t);
    w.touch(id);
    w.flush();
    w.inContext('page', () => w.guarded(() => w.ui.format()({})));
    // most of the time nothing is left to be done but generating code
    if (used % 16 === 0) await settle(w);
    else for (let k = 0; k < 2; k++) await null;
    for (const e of w.enabled()) if (/timer|read/.test(e)) { await settle(w); break; }
    if (w.trouble) throw new Error(w.trouble);
    return w.ui['field input']();
  }
  async function one(t) {
    const r = tokens(t);
    let valid = true;
    try { JSON.parse(t); } catch (e) { valid = false; }
    if (valid !== (r !== null)) throw new Error('the reference tokenizer disagrees with JSON.parse about ' + JSON.stringify(t));
    out.states++;
    out.transitions++;
    let f;
    try { f = await press(t); } catch (e) {
      violation('format-trouble', 'formatting ' + JSON.stringify(t) + ' fails: ' + e.message, t.length, t);
      w = new World(S, null); used = 0; await settle(w);
      return;
    }
    if (!r) {
      if (f !== t) violation('format-other', 'a text that is no JSON document becomes another one: ' + JSON.stringify(t) + ' -> ' + JSON.stringify(f), t.length, t);
      return;
    }
    const g = tokens(f);
    if (!g || g.length !== r.length || g.some((x, i) => x !== r[i])) { violation('format-changes', 'formatting changes more than white space: ' + JSON.stringify(t) + ' -> ' + JSON.stringify(f), t.length, t); return; }
    for (const l of [() => f, ...LAYOUTS.map((x) => () => x(r))]) {
      const u = l(), h = await press(u);
      out.transitions++;
      if (h !== f) violation('format-layout', 'documents that differ in white space only become different texts: ' + JSON.stringify(t) + ' -> ' + JSON.stringify(f) + ', ' + JSON.stringify(u) + ' -> ' + JSON.stringify(h), t.length, t);
    }
  }
  if (ONE !== undefined) { await one(JSON.parse(ONE)); return; }
  let n = 0;
  const seen = new Set();
  for (const t of texts()) if (n++ % PARTS === +PART && !seen.has(t)) { seen.add(t); await one(t); }
}

// ---- the code shown ------------------------------------------------------------------------------

async function highlight() {
  const all = fs.readFileSync(path.join(SRC, 'App.svelte'), 'utf8');
  const tag = tags(all.slice(all.lastIndexOf('</script>') + 9).replace(/<style[\s\S]*?<\/style>/g, '')).find((x) => x.tag && x.attrs.code && /Code/.test(x.tag));
  const m = tag && new RegExp('import\\s+' + tag.tag + '\\s+from\\s+["\']([^"\']+)["\']').exec(all);
  if (!m) { out.unmodelled = 'the code shown is no component of its own'; return; }
  const file = path.resolve(SRC, m[1]);
  let P;
  try {
    P = compilePage(file, (template) => {
      const html = /\{@html\s+([^}]+)\}/.exec(template);
      if (!html || /\{#/.test(template)) throw new Unusable('the code shown is not one piece of HTML');
      return { ui: {}, g: { shown: '() => (' + html[1] + ')', set: '(c, l) => { code = c; language = l; }' } };
    });
  } catch (e) {
    if (!(e instanceof Unusable)) throw e;
    out.unmodelled = e.message;
    return;
  }
  source();
  const LANGS = ['rust', 'typescript', 'kotlin', 'python', 'json', 'plaintext'];
  const html = (code, lang) => JSON.stringify([code, lang]);
  class Shown {
    constructor(code, lang) {
      const w = (this.w = new World(S, null));
      this.pending = [];
      const later = (what, f) => new Promise((ok) => this.pending.push([what, () => ok(f())]));
      const one = (langs) => {
        const codeToHtml = (code, o) => {
          if (!langs.includes(o.lang) && !['plaintext', 'text', 'plain', 'txt'].includes(o.lang)) throw new Error('language ' + o.lang + ' is not loaded');
          return html(code, o.lang);
        };
        return { codeToHtml, getLoadedLanguages: () => [...langs], loadLanguage: (...l) => later('language', () => { langs.push(...l); }), getLoadedThemes: () => ['github-light'], dispose() {} };
      };
      const shiki = {
        __esModule: true,
        createHighlighter: (o) => later('highlighter', () => one([...(o.langs || [])])), getSingletonHighlighter: (o) => later('highlighter', () => one([...(o.langs || [])])),
        codeToHtml: (code, o) => later('html', () => one(LANGS).codeToHtml(code, o)), bundledLanguages: {}, bundledThemes: {},
      };
      const r = (this.svelte = reactor(w));
      const env = w.browser('page');
      const vals = { __require: (n) => (/^shiki/.test(n) ? shiki : S.module(n, env, file)), ...r.names, __meta: { url: 'file:///x', env: {} }, ...env };
      this.ui = P.fn(...P.names.map((n) => vals[n]));
      this.set(code, lang);
      r.flush(true);
    }
    set(code, lang) {
      this.want = html(code, lang);
      this.ui.set(code, lang);
      this.svelte.touch('code');
      this.svelte.touch('language');
    }
  }
  const letters = [['', 'kotlin'], ['a', 'kotlin'], ['b', 'rust'], ['a', 'typescript'], ['b', 'plaintext'], ['c', 'json'], ['a', 'python'], ['<&>\n "', 'rust']];
  const depth = thorough ? 5 : 4;
  async function play(trace) {
    const s = new Shown(...letters[trace[0]]);
    await tick();
    s.w.ready = true;
    for (const e of trace.slice(1)) {
      if (e < 100) { s.set(...letters[e]); } else s.pending.splice(e - 100, 1)[0][1]();
      await tick();
      if (!s.w.ready) break;
    }
    return s;
  }
  async function from(trace, user) {
    const s = await play(trace);
    out.states++;
    out.transitions += trace.length;
    const text = trace.map((e) => (e < 100 ? 'code ' + JSON.stringify(letters[e]) : 'completes: ' + (e - 100)));
    if (s.w.trouble) { violation('highlight-trouble', s.w.trouble, trace.length, text); return; }
    if (!s.pending.length) {
      out.quiet++;
      if (String(s.ui.shown()) !== s.want) violation('highlight-stale', 'everything is quiet, the code shown is ' + s.ui.shown() + ' and the output is ' + s.want, trace.length, text);
    }
    for (let i = 0; i < s.pending.length; i++) await from([...trace, 100 + i], user);
    if (user < depth) for (let l = 0; l < (user < 2 ? letters.length : 4); l++) await from([...trace, l], user + 1);
  }
  let n = 0;
  for (let l = 0; l < letters.length; l++) await from([l], 1);
}

// ---- what the page offers --------------------------------------------------------------------------

async function choices() {
  const w = new World(source(), null), ui = S.page.ui;
  await settle(w);
  const offered = {};
  for (const id of Object.keys(ui.choices || {})) offered[id] = w.ui['choices ' + id]().map((x) => (Array.isArray(x) ? x[0] : x.value !== undefined ? x.value : x.id));
  out.offered = offered;
  // the request the page makes for every combination
  const of = (id, d) => offered[id] || d;
  const settings = [];
  for (const i of of('inputmode', ['json', 'sql'])) for (const o of of('outputmode', [])) for (const f of of('propertynameformat', [''])) for (const s of of('importstyle', ['assume_existing']))
    for (const c of [false, true]) for (const u of ['', '/a']) for (const t of ['', '2']) settings.push({ inputmode: i, outputmode: o, propertynameformat: f, importstyle: s, collectadditional: c, unwrappath: u, infermapthreshold: t });
  out.requests = [];
  for (const x of settings) {
    for (const [id, v] of Object.entries(x)) { w.ui['set ' + id](v); w.touch(ui.fields[id].name); }
    const text = x.inputmode === 'sql' ? 'create table t (a int, fooBar text not null)' : '{"a": {"fooBar": 1, "b_c": [null, 1.5], "d": null}}';
    w.ui['set input'](text);
    w.touch(ui.fields.input.name);
    await settle(w);
    out.states++;
    if (w.trouble) { violation('choice-trouble', w.trouble, 1, x); return; }
    const o = JSON.parse(w.ui.output());
    out.requests.push({ fields: x, text, name: o.name, input: o.input, options: JSON.stringify(o.options), language: w.ui.language ? w.ui.language() : null });
  }
}

(async () => {
  try { await { format, highlight, choices }[WHAT](); } catch (e) {
    if (!(e instanceof Unusable)) throw e;
    console.log(JSON.stringify({ unusable: e.message }));
    return;
  }
  console.log(JSON.stringify(out));
})().catch((e) => { console.error(e); process.exit(3); });
