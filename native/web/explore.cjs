// node explore.cjs <web src> <quick|thorough> <part> <parts>: explores every interleaving of user
// actions, message deliveries, file reads and worker start-up; prints a JSON result.
const { load, World, Unusable } = require('./page.cjs');
process.on('unhandledRejection', () => {});
const [, , SRC, MODE, PART, PARTS, ONE] = process.argv;
// reload-<tier>: the page is loaded again at every state (C27)
// hand-<tier>: the output is copied and its download examined at every state (C28)
const RELOAD = MODE.startsWith('reload-'), HAND = MODE.startsWith('hand-'), TIER = MODE.replace(/^(reload|hand)-/, '');
let S;
try { S = load(SRC); } catch (e) {
  if (!(e instanceof Unusable)) throw e;
  console.log(JSON.stringify({ unusable: e.message }));
  process.exit(0);
}
const UI = S.page.ui;
S.nameless = HAND;
if (HAND && !UI.copy) {
  console.log(JSON.stringify({ unusable: 'cannot find the copy button' }));
  process.exit(0);
}
const tick = () => new Promise((r) => setImmediate(r));

// ---- user actions ---------------------------------------------------------------------------

const EXAMPLES = { E1: { id: 'e1', name: 'one', json: '{"e": 1}', typeName: 'Ex' }, E2: { id: 'e2', name: 'two', json: '[2]', typeName: 'MyRoot', propertyNameFormat: 'camelCase' } };
const FILES = { S1: ['s1', '{"s":1}', 8], S2: ['s2', '[true]', 500000], L1: ['l1', '{"l":1}', 500001], L2: ['l2', '[[]]', 2000000], S0: ['s0', '', 0], T: ['t', '{"b": 2}', 9] };
const FIELD = { typename: 'name', outputmode: 'output_mode', inputmode: 'input_mode', propertynameformat: 'property_name_format', importstyle: 'import_style', collectadditional: 'collect_additional',
  unwrappath: 'unwrap', extraoptions: 'extra', infermapthreshold: 'infer_map_threshold' };
const set = (id, v) => ({ label: id + '=' + JSON.stringify(v), field: id, value: v });
const A = {
  name: set('typename', 'N1'), name2: set('typename', 'N2'), text: set('input', '[1]'), text2: set('input', '{"b":2}'), blank: set('input', ''), same: set('input', '[2]'),
  rust: set('outputmode', 'rust'), zod: set('outputmode', 'zod'), sql: set('inputmode', 'sql'), camel: set('propertynameformat', 'camelCase'), imports: set('importstyle', 'add_imports'),
  collect: set('collectadditional', true), unwrap: set('unwrappath', '/a'), extra: set('extraoptions', '{"derives":"D"}'), over: set('extraoptions', '{"output_mode":"shape"}'),
  badextra: set('extraoptions', '{'), infer: set('infermapthreshold', '3'), long: set('input', '"' + 'x'.repeat(999997) + '"'), odd: set('input', '\n {"\\u2028\u2028":"\\\\\\""} \n'), noname: set('typename', ''),
  py: set('outputmode', 'python'), shape: set('outputmode', 'shape'), unwrapodd: set('unwrappath', '/"\\'), extraodd: set('extraoptions', ' {"derives": "\\u00e9\\n"} '),
  ...Object.fromEntries(['typescript', 'typescript/typealias', 'kotlin/jackson', 'kotlin/kotlinx', 'json_schema'].map((m) => ['mode ' + m, set('outputmode', m)])),
  kotlin: set('extraoptions', '{"output_mode":"kotlin"}'), dots: set('typename', 'a.b\\u00e9 $&'),
  E1: { label: 'example E1', example: 'E1' }, E2: { label: 'example E2', example: 'E2' },
  S1: { label: 'choose small file s1', file: 'S1' }, S2: { label: 'choose small file s2', file: 'S2' }, S0: { label: 'choose empty file s0', file: 'S0' }, T: { label: 'choose small file t', file: 'T' },
  L1: { label: 'choose large file l1', file: 'L1' }, L2: { label: 'choose large file l2', file: 'L2' },
  cancel: { label: 'dismiss the file dialog', cancel: true }, clear: { label: 'clear the input file', clear: true }, format: { label: 'format', format: true },
};
const STORED = [null, JSON.stringify({ typename: 'St', input: '["stored"]', options: { input_mode: 'json', output_mode: 'rust', unwrap: '/x', collect_additional: true }, extraoptions: '{"derives":"Z"}' }), '{bad'];
// what another page, another version or a failing disk may have left behind
const STRANGE = ['', 'null', '5', '"x"', '[]', '{}', '{', '{"options":null}', '{"options":5}', '{"input":null,"typename":null,"extraoptions":null}', '{"input":5}', '{"typename":5}', '{"extraoptions":5}',
  '{"options":{"output_mode":null}}', '{"options":{"infer_map_threshold":3}}', '{"options":{"unwrap":"/a"},"unknown":{"x":[1]}}', '{"extraoptions":"{"}', '{"input":"{"}', '{"input":"[1]"}x', 'undefined', '\u0000'];

// ---- what the user has asked for --------------------------------------------------------------

// What the page's format button makes of a text (C28 decides whether that is right), for all texts that can occur
const FORMATTED = new Map();
const fmt = (t) => (FORMATTED.has(t) ? FORMATTED.get(t) : t);
async function formatted() {
  const texts = ['', '["stored"]', ...Object.values(A).filter((a) => a.field === 'input').map((a) => a.value), ...Object.values(EXAMPLES).map((e) => e.json), ...Object.values(FILES).map((f) => f[1])];
  for (let t of texts)
    for (let i = 0; i < 3 && !FORMATTED.has(t); i++) {
      const w = new World(S, null);
      if (!w.ui) return;
      await settle(w);
      const r = await formatting(w, t);
      FORMATTED.set(t, r);
      t = r;
    }
}
async function settle(w) {
  await tick();
  for (let e, k = 0; k < 500 && (e = w.enabled()[0]) !== undefined; k++, await tick()) w.step(e);
}
async function formatting(w, t) {
  w.ui['set input'](t);
  w.touch(UI.fields.input.name);
  await settle(w);
  w.inContext('page', () => w.guarded(() => w.ui.format()({})));
  await settle(w);
  return w.ui['field input']();
}
class Wanted {
  constructor(w) {
    const v = (id) => w.ui['field ' + id]();
    this.o = {};
    for (const [id, k] of Object.entries(FIELD)) this.o[k] = v(id);
    this.src = { texts: [v('input')] };
    this.log = {};
  }
  // texts acceptable in the text area; a large file overrides them
  texts(w) {
    const f = this.src.file;
    if (!f) return this.src.texts;
    const r = (w.reads[f.uid] || []);
    const kept = [...this.src.texts, ''];
    if (f.large) return kept;
    if (!r.length) return kept;
    return r.includes('ok') ? [f.content].concat(r.includes('fail') ? kept : []) : kept;
  }
}

function act(w, want, a) {
  const run = (handler, ...args) => { w.note('page', '!' + a.label); w.inContext('page', () => w.guarded(() => w.ui[handler]()(...args))); };
  if (a.field) {
    if (!w.ui['guard ' + a.field]() || (a.field === 'input' && w.ui.overlay())) return false;
    const old = w.ui['field ' + a.field]();
    if (old === a.value) return false;
    w.note('page', '!' + a.label);
    w.ui['set ' + a.field](a.value);
    w.touch(UI.fields[a.field].name);
    if (a.field === 'input') want.src = { texts: [a.value] };
    else want.o[FIELD[a.field]] = a.value;
  } else if (a.example) {
    const e = EXAMPLES[a.example];
    w.note('page', '!' + a.label);
    w.inContext('page', () => w.guarded(() => w.ui.example({ ...e })()));
    want.src = { texts: [e.json] };
    want.o.name = e.typeName;
    want.o.property_name_format = e.propertyNameFormat || '';
  } else if (a.file) {
    const [name, content, size] = FILES[a.file];
    const file = w.file(name, content, size);
    const large = size > 500000;
    want.src = { texts: want.texts(w), file: { uid: file.uid, content, large } };
    run('file', { target: { files: [file], value: 'C:\\fakepath\\' + name }, currentTarget: { files: [] } });
  } else if (a.cancel) {
    run('file', { target: { files: [], value: '' }, currentTarget: { files: [] } });
  } else if (a.clear) {
    if (!w.ui.clearGuard()) return false;
    run('clear', {});
    want.src = { texts: [''] };
  } else if (a.format) {
    // formatting while a chosen small file is still being read may win over it or not
    const t = [...new Set([...want.texts(w), ...want.texts(w).map(fmt)])];
    const f = want.src.file;
    if (f && !f.large && !(w.reads[f.uid] || []).length) want.src = { texts: t, file: { ...f }, both: true };
    else if (!f || !f.large) want.src = { texts: want.texts(w).map(fmt) };
    run('format', {});
  }
  return true;
}

const norm = (o) => JSON.stringify(Object.keys(o).sort().filter((k) => o[k] !== '' && o[k] !== false && o[k] !== undefined && o[k] !== null).map((k) => [k, o[k]]));

function judge(w, want) {
  // called when nothing can happen any more unless the user acts
  if (w.trouble) return ['trouble', w.trouble];
  for (const [i, s] of UI.spinners.entries()) if (w.ui['spinner' + i]()) return ['spinner', 'everything is quiet and a loading indicator is still on: ' + s];
  for (const v of ['isLoading', 'isLoadingLargeFile']) if (w.ui[v]()) return ['spinner', 'everything is quiet and ' + v + ' is still set'];
  const shown = w.ui.output(), area = w.ui['field input']();
  let o;
  try { o = JSON.parse(shown); } catch (e) { return ['no-output', 'everything is quiet and the output is ' + JSON.stringify(shown)]; }
  let extra = {};
  try { extra = JSON.parse((want.o.extra || '').trim() || '{}'); } catch (e) {}
  const { name, extra: _, ...opts } = want.o;
  if (o.name !== undefined && o.name !== name) return ['stale-name', 'the output is for the name ' + o.name + ', the page asks for ' + name];
  if (norm(o.options) !== norm({ ...opts, collect_additional: !!opts.collect_additional, ...extra })) return ['stale-options', 'the output is for the options ' + norm(o.options) + ', the page asks for ' + norm({ ...opts, ...extra })];
  const f = want.src.file;
  let content;
  if (f && f.large) {
    const r = (w.reads[f.uid] || []);
    content = [];
    if (r.includes('ok')) content.push(f.content);
    if (r.includes('fail') || !r.length) content.push(area || '{}');
    if (!r.length) return ['file-not-read', 'the large file was never read'];
  } else {
    let t = want.texts(w);
    if (want.src.both) t = [...t, ...want.src.texts, ...t.map(fmt)];
    if (f && !(w.reads[f.uid] || []).length && !want.src.both) return ['file-not-read', 'the chosen file was never read'];
    if (!t.includes(area)) return ['wrong-text', 'the text area holds ' + JSON.stringify(area) + ', the last input chosen is ' + JSON.stringify(t)];
    content = [area || '{}'];
  }
  if (!content.includes(o.input)) return ['stale-input', 'the output is for the input ' + JSON.stringify(o.input) + ', the input chosen last is ' + JSON.stringify(content)];
  return null;
}

/** Loading the page again, now: the fields come back. */
async function reloaded(w, quiet) {
  const n = new World(S, w.store, w.storage);
  await tick();
  if (n.trouble) return ['reload-trouble', 'after loading the page again: ' + n.trouble];
  for (const id of Object.keys(UI.fields)) {
    const a = w.ui['field ' + id](), b = n.ui['field ' + id]();
    if (a === b || a === '' || (a === false && !b)) continue;
    // something the page itself could not have put there
    if (typeof a !== (id === 'collectadditional' ? 'boolean' : 'string')) continue;
    if (id === 'input' && a.length >= 1000000) continue;
    return ['reload-field', 'the field ' + id + ' held ' + JSON.stringify(a).slice(0, 200) + ' and holds ' + JSON.stringify(b).slice(0, 200) + ' after loading the page again'];
  }
  if (!quiet) return null;
  const want = new Wanted(n);
  for (let e, k = 0; k < 200 && (e = n.enabled()[0]) !== undefined; k++, await tick()) n.step(e);
  const bad = judge(n, want);
  return bad && ['reload-' + bad[0], 'after loading the page again: ' + bad[1]];
}

const EXTENSION = { rust: 'rs', typescript: 'ts', 'typescript/typealias': 'ts', kotlin: 'kt', 'kotlin/jackson': 'kt', 'kotlin/kotlinx': 'kt', python: 'py', json_schema: 'json', zod: 'ts', shape: 'json' };

/** Copies the output and looks at the download; the world is not used afterwards. */
async function handed(w, want, quiet) {
  const shown = w.ui.output(), d = w.ui.download();
  let o = null;
  try { o = JSON.parse(shown); } catch (e) {}
  if (o) {
    const ext = EXTENSION[o.options.output_mode];
    const name = o.name !== undefined ? o.name : quiet ? want.o.name : null;
    if (ext && (name === null ? !d.endsWith('.' + ext) : d !== name + '.' + ext)) return ['download-name', 'the download is called ' + d + ' and the output shown is for the name ' + name + ' and the mode ' + o.options.output_mode];
    if (w.linkText[w.ui.href()] !== shown) return ['download-text', 'the download holds ' + JSON.stringify(w.linkText[w.ui.href()]) + ', shown is ' + JSON.stringify(shown)];
  }
  w.clip = undefined;
  w.inContext('page', () => w.guarded(() => w.ui.copy()({})));
  for (let i = 0; i < 3 && w.clip === undefined; i++) await tick();
  if (w.trouble) return ['copy-trouble', w.trouble];
  if (w.clip !== shown) return ['copied-text', 'the button copies ' + JSON.stringify(w.clip) + ', shown is ' + JSON.stringify(shown)];
  return null;
}

/** At every state: the download link belongs to the output shown. */
function always(w) {
  if (w.trouble) return ['trouble', w.trouble];
  const shown = w.ui.output();
  if (!shown) return null;
  let o;
  try { o = JSON.parse(shown); } catch (e) { return null; }
  const d = w.ui.download();
  if (o.name !== undefined && !d.startsWith(o.name + '.')) return ['wrong-download', 'the download is called ' + d + ' and the output shown is for the name ' + o.name];
  const ext = { rust: 'rs', python: 'py', 'kotlin/jackson': 'kt', shape: 'json' }[o.options.output_mode];
  if (ext && !d.endsWith('.' + ext)) return ['wrong-download', 'the download is called ' + d + ' and the output shown is ' + o.options.output_mode];
  const href = w.ui.href();
  if (href in w.linkText ? w.linkText[href] !== shown : true) return ['wrong-download', 'the download link does not hold the output shown'];
  return null;
}

// ---- exploration ------------------------------------------------------------------------------

const out = { states: 0, transitions: 0, quiet: 0, programs: 0, longest: 0, violations: {}, samples: [] };
async function explore(program, stored, settled, storage) {
  const seen = new Set();
  const stack = [[]];
  out.programs++;
  S.histories.clear();
  while (stack.length) {
    const prefix = stack.pop();
    let w = new World(S, stored, storage), want = w.ui && new Wanted(w), at = 0, trace = [], bad = null;
    await tick();
    if (settled && w.ui) {
      // start-up is over before the user acts
      for (let e; (e = w.enabled()[0]) !== undefined; await tick()) w.step(e);
    }
    let i = 0;
    for (;;) {
      // choose
      const env = w.enabled();
      const all = w.sufficient(at < program.length);
      if (i >= prefix.length) {
        const key = at + '|' + w.key();
        if (seen.has(key)) break;
        seen.add(key);
        out.states++;
        bad = always(w) || (env.length ? null : judge(w, want));
        if (!bad && RELOAD && !storage) bad = await reloaded(w, !env.length);
        if (!bad && HAND) {
          bad = await handed(w, want, !env.length);
          if (!bad) {
            // the copying may have left its mark: continue in fresh worlds
            for (let k = all.length - 1; k >= 0; k--) stack.push(trace.concat([all[k]]));
            if (!env.length) out.quiet++;
            if (trace.length > out.longest) { out.longest = trace.length; out.samples = [trace]; }
            break;
          }
        }
        if (!env.length) out.quiet++;
        if (!bad && trace.length > 150) bad = ['never-quiet', 'the page does not become quiet'];
        if (bad) {
          const v = (out.violations[bad[0]] = out.violations[bad[0]] || { key: bad[0], count: 0 });
          v.count++;
          if (!v.trace || trace.length < v.trace.length) Object.assign(v, { msg: bad[1], trace: [...trace], program: program.map((a) => a.label), stored, settled: !!settled, storage });
          break;
        }
        if (!all.length) {
          if (trace.length > out.longest) { out.longest = trace.length; out.samples = [trace]; }
          break;
        }
        for (let k = all.length - 1; k > 0; k--) stack.push(trace.concat([all[k]]));
      }
      const e = i < prefix.length ? prefix[i] : all[0];
      i++;
      trace.push(e);
      out.transitions++;
      if (e === 'user') { act(w, want, program[at]); at++; } else w.step(e);
      await tick();
    }
  }
}

function* sequences(letters, n) {
  if (n === 0) { yield []; return; }
  for (const s of sequences(letters, n - 1)) for (const l of letters) yield [...s, l];
}

(async () => {
  await formatted();
  if (ONE) {
    const r = JSON.parse(ONE);
    const byLabel = Object.fromEntries(Object.values(A).map((a) => [a.label, a]));
    await explore(r.program.map((l) => byLabel[l]), r.stored, r.settled, r.storage);
    console.log(JSON.stringify(out));
    return;
  }
  const jobs = [];
  const thorough = TIER === 'thorough', all = Object.keys(A).filter((k) => RELOAD ? k !== 'kotlin' && k !== 'dots' && !k.startsWith('mode ') : HAND ? k !== 'long' : !['long', 'odd', 'noname', 'py', 'shape', 'unwrapodd', 'extraodd', 'kotlin', 'dots'].includes(k) && !k.startsWith('mode '));
  const add = (letters, n, stored, settled, storage) => { for (const p of sequences(letters, n)) jobs.push([p, stored, settled, storage]); };
  if (HAND) {
    const modes = all.filter((k) => k.startsWith('mode ') || ['rust', 'zod', 'py', 'shape', 'kotlin', 'over'].includes(k));
    for (const st of STORED) add(all, 1, st);
    for (const a of all) for (const b of thorough ? all : [...modes, 'name', 'noname', 'dots', 'text', 'S1', 'L1', 'clear', 'E1']) jobs.push([[a, b], null, true]);
    add([...modes, 'name', 'text'], 2, thorough ? null : STORED[1]);
    add(thorough ? [...modes, 'name', 'dots', 'text', 'L1', 'clear', 'badextra'] : ['rust', 'zod', 'name', 'text', 'L1', 'clear'], 3, null, true);
  } else if (RELOAD) {
    for (const st of STRANGE) { add(['text'], 0, st); add(thorough ? all : ['text', 'name', 'S1', 'E2'], 1, st, true); }
    for (const st of STORED) add(all, 1, st);
    for (const b of all) for (const a of all) for (const st of thorough ? [null, STORED[1]] : [null]) jobs.push([[a, b], st, true]);
    add(thorough ? ['name', 'text', 'zod', 'collect', 'unwrap', 'extra', 'infer', 'imports', 'camel', 'E1', 'S1', 'L1', 'clear'] : ['name', 'text', 'collect', 'S1', 'L1', 'clear'], 3, null, true);
    add(thorough ? ['text', 'rust', 'E1', 'S1', 'L1', 'clear'] : ['text', 'S1', 'L1', 'clear'], 2, STORED[1]);
    for (const storage of ['set-fails', 'all-fails', 'long-fails', 'second-fails']) {
      add(all, 1, STORED[1], false, storage);
      add(thorough ? all : ['name', 'text', 'rust', 'E1', 'S1', 'L1', 'clear', 'extra'], 2, null, true, storage);
    }
  } else {
  // every action, start-up interleaved in every way
  for (const st of STORED) add(all, 1, st);
  add(all, 2, null);
  add(thorough ? ['name', 'text', 'rust', 'E1', 'S1', 'S2', 'L1', 'L2', 'clear'] : ['text', 'S1', 'L1', 'clear'], 3, STORED[1]);
  // longer sequences on a started page
  add(thorough ? all : ['name', 'text', 'E1', 'S1', 'S0', 'L1', 'L2', 'clear', 'format', 'badextra'], 3, null, true);
  add(thorough ? ['name', 'text', 'E1', 'S1', 'S2', 'L1', 'L2', 'clear', 'format'] : ['text', 'S1', 'L1', 'clear'], 4, null, true);
  if (thorough) add(['text', 'S1', 'L1', 'clear'], 5, null, true);
  }
  for (let j = 0; j < jobs.length; j++) if (j % +PARTS === +PART) await explore(jobs[j][0].map((x) => A[x]), ...jobs[j].slice(1));
  console.log(JSON.stringify(out));
})().catch((e) => { console.error(e); process.exit(3); });
