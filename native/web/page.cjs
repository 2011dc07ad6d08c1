// Loads the page's script (App.svelte) and the worker (lib/worker.ts) from their sources and runs
// them in a simulated browser whose every event is chosen by the explorer.
const fs = require('fs'), path = require('path');
const ts = require('/opt/veriftools/node/node_modules/typescript');

class Unusable extends Error {}

// ---- the page's script as a function -------------------------------------------------------

/** `expressions` gives, for a template and a script, what the explorer evaluates in its scope. */
function compilePage(file, expressions) {
  const all = fs.readFileSync(file, 'utf8');
  const m = all.match(/<script(?![^>]*context)[^>]*>([\s\S]*?)<\/script>/);
  if (!m) throw new Unusable(path.basename(file) + ' has no script');
  const template = inlined(all.slice(m.index + m[0].length), m[1], path.dirname(file), 0);
  let src = m[1];
  // `$: x = …` declares x
  const first = ts.createSourceFile('app.ts', src, ts.ScriptTarget.ES2022, true);
  const declared = new Set();
  for (const s of first.statements)
    if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) bindingNames(d.name, (n) => declared.add(n));
  const implicit = new Set();
  for (const s of first.statements)
    if (ts.isLabeledStatement(s) && s.label.text === '$' && ts.isExpressionStatement(s.statement)) {
      let e = s.statement.expression;
      while (ts.isParenthesizedExpression(e)) e = e.expression;
      if (ts.isBinaryExpression(e) && e.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isIdentifier(e.left) && !declared.has(e.left.text)) implicit.add(e.left.text);
    }
  if (implicit.size) src = 'let ' + [...implicit].join(', ') + ';' + src;
  if (/\$(state|derived|effect)\b/.test(src)) throw new Unusable('the page uses runes');

  const host = ts.createCompilerHost({});
  const sf = ts.createSourceFile('app.ts', src, ts.ScriptTarget.ES2022, true);
  host.getSourceFile = (n) => (n === 'app.ts' ? sf : undefined);
  host.resolveModuleNames = (ns) => ns.map(() => undefined);
  const program = ts.createProgram(['app.ts'], { noLib: true, noResolve: true, target: ts.ScriptTarget.ES2022 }, host);
  const checker = program.getTypeChecker();
  const top = new Map(); // symbol of a top-level `let`/`var` -> name
  for (const s of sf.statements)
    if (ts.isVariableStatement(s) && !(s.declarationList.flags & ts.NodeFlags.Const))
      for (const d of s.declarationList.declarations)
        if (ts.isIdentifier(d.name)) top.set(checker.getSymbolAtLocation(d.name), d.name.text);
  const topName = (id) => ts.isIdentifier(id) && top.get(checker.getSymbolAtLocation(id));

  const f = ts.factory;
  const isAssign = (k) => k >= ts.SyntaxKind.FirstAssignment && k <= ts.SyntaxKind.LastAssignment;
  const rootOf = (e) => {
    while (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e) || ts.isNonNullExpression(e) || ts.isParenthesizedExpression(e) || ts.isAsExpression(e)) e = e.expression;
    return e;
  };
  const call = (fn, ...a) => f.createCallExpression(f.createIdentifier(fn), undefined, a);
  const str = (s) => f.createStringLiteral(s);
  const reads = (node, out) => {
    // names of top-level variables a statement mentions, and those it assigns
    const visit = (n) => {
      if (ts.isIdentifier(n)) {
        const name = ts.isShorthandPropertyAssignment(n.parent) ? top.get(checker.getShorthandAssignmentValueSymbol(n.parent)) : topName(n);
        if (name) {
          const p = n.parent;
          if (ts.isBinaryExpression(p) && p.left === n && isAssign(p.operatorToken.kind)) out.assigned.add(name);
          else if ((ts.isPrefixUnaryExpression(p) || ts.isPostfixUnaryExpression(p)) && (p.operator === ts.SyntaxKind.PlusPlusToken || p.operator === ts.SyntaxKind.MinusMinusToken)) out.assigned.add(name);
          else out.deps.add(name);
        }
      }
      ts.forEachChild(n, visit);
    };
    visit(node);
    for (const n of out.assigned) out.deps.delete(n);
    return out;
  };
  const transformer = (tc) => {
    const visit = (n) => {
      if (ts.isMetaProperty(n)) return f.createIdentifier('__meta');
      if (ts.isBinaryExpression(n) && isAssign(n.operatorToken.kind)) {
        const name = topName(n.left);
        if (name) return call('__set', str(name), f.createIdentifier(name), ts.visitEachChild(n, visit, tc));
        const root = rootOf(n.left);
        const rn = root !== n.left && topName(root);
        if (rn) return call('__touch', str(rn), ts.visitEachChild(n, visit, tc));
        if (ts.isObjectLiteralExpression(n.left) || ts.isArrayLiteralExpression(n.left)) {
          const names = [];
          const v2 = (x) => { if (ts.isIdentifier(x)) { const t = ts.isShorthandPropertyAssignment(x.parent) ? top.get(checker.getShorthandAssignmentValueSymbol(x.parent)) : topName(x); if (t) names.push(t); } ts.forEachChild(x, v2); };
          v2(n.left);
          let e = f.createParenthesizedExpression(ts.visitEachChild(n, visit, tc));
          for (const t of names) e = call('__touch', str(t), e);
          return e;
        }
      }
      if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === ts.SyntaxKind.PlusPlusToken || n.operator === ts.SyntaxKind.MinusMinusToken)) {
        const name = topName(n.operand);
        if (name) return call('__touch', str(name), n);
      }
      return ts.visitEachChild(n, visit, tc);
    };
    return (file) => {
      const out = [];
      for (const s of file.statements) {
        if (ts.isImportDeclaration(s)) {
          const c = s.importClause;
          if (!c || c.isTypeOnly) continue;
          const mod = call('__require', s.moduleSpecifier);
          const decl = (name, init) => out.push(f.createVariableStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(name, undefined, undefined, init)], ts.NodeFlags.Const)));
          if (c.name) decl(c.name, f.createPropertyAccessExpression(mod, 'default'));
          if (c.namedBindings && ts.isNamespaceImport(c.namedBindings)) decl(c.namedBindings.name, mod);
          else if (c.namedBindings) for (const e of c.namedBindings.elements) if (!e.isTypeOnly) decl(e.name, f.createPropertyAccessExpression(mod, (e.propertyName || e.name).text));
        } else if (ts.isLabeledStatement(s) && s.label.text === '$') {
          const r = reads(s.statement, { deps: new Set(), assigned: new Set() });
          const arr = (x) => f.createArrayLiteralExpression([...x].map(str));
          out.push(f.createExpressionStatement(call('__reactive', arr(r.deps), arr(r.assigned),
            f.createArrowFunction(undefined, undefined, [], undefined, undefined, f.createBlock([ts.visitNode(s.statement, visit)], true)))));
        } else if (ts.isExportDeclaration(s)) continue;
        else {
          const v = ts.visitNode(s, visit);
          out.push(v);
        }
      }
      return f.updateSourceFile(file, out);
    };
  };
  const printed = ts.createPrinter().printFile(ts.transform(sf, [transformer]).transformed[0]);
  const js = ts.transpileModule(printed.replace(/^export (let|const|function)/gm, '$1'), { compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, verbatimModuleSyntax: true } }).outputText;
  const names = ['__require', '__set', '__touch', '__reactive', '__meta', 'Worker', 'localStorage', 'FileReader', 'navigator', 'console', 'URL', 'Blob', 'setTimeout', 'clearTimeout', 'requestAnimationFrame', 'window', 'document'];
  // what the explorer evaluates in the page's scope
  const { ui, g } = (expressions || pageExpressions)(template, declared);
  let fn;
  try {
    const probes = 'const __probes = {' + Object.entries(g).map(([k, v]) => JSON.stringify(k) + ': ' + v).join(',\n') + '};';
    // there may be types in the template, too
    const plain = ts.transpileModule(probes, { compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext } }).outputText;
    fn = new Function(...names, '"use strict";' + js.replace(/^export \{\};?$/gm, '') + '\n;' + plain.replace(/^export \{\};?$/gm, '') + '\nreturn __probes;');
  } catch (e) {
    throw new Unusable('the page script does not run here: ' + e.message + '\n' + js);
  }
  return { fn, names, ui, source: js };
}

function pageExpressions(template, declared) {
  const ui = controls(template);
  const g = {};
  const get = (k, e) => { g[k] = '() => (' + e + ')'; };
  for (const k of ['output', 'overlay', 'clearGuard', 'download', 'href', 'file', 'format', 'clear']) get(k, ui[k]);
  ui.spinners.forEach((e, i) => get('spinner' + i, e));
  for (const k of ['copy', 'language']) if (ui[k]) get(k, ui[k]);
  for (const [id, e] of Object.entries(ui.choices || {})) get('choices ' + id, e);
  g.example = '(example) => (' + ui.example + ')';
  for (const [id, x] of Object.entries(ui.fields)) {
    get('field ' + id, x.name);
    get('guard ' + id, x.guard);
    g['set ' + id] = '(__v) => { ' + x.name + ' = __v; }';
  }
  for (const v of ['isLoading', 'isLoadingLargeFile']) get(v, declared.has(v) ? v + ' === true' : 'false');
  return { ui, g };
}

/** The template with the components that were split off from it (those that hold parts the explorer
 * looks for, and have no logic apart from props and forwarded events) put back in place. */
function inlined(template, script, dir, depth) {
  if (depth > 4) return template;
  for (const m of script.matchAll(/import\s+(\w+)\s+from\s+["']([^"']+\.svelte)["']/g)) {
    const file = path.resolve(dir, m[2]);
    if (!fs.existsSync(file)) continue;
    const all = fs.readFileSync(file, 'utf8');
    const sm = all.match(/<script[^>]*>([\s\S]*?)<\/script>/);
    const sub = sm ? sm[1] : '';
    let body = (sm ? all.replace(sm[0], '') : all).replace(/<style[\s\S]*?<\/style>/g, '').trim();
    // the page's general building blocks stay as they are
    if (!/large-file-overlay|<Spinner|example\.name|<HighlightedCode|FileInputButton|Clear|download=|id="(typename|input|inputmode|outputmode|propertynameformat|importstyle|collectadditional|unwrappath|extraoptions|infermapthreshold)"/.test(body)) continue;
    if (/<slot/.test(body)) continue;
    const props = new Map();
    for (const p of sub.matchAll(/export\s+let\s+(\w+)\s*(?::\s*[^=;]+)?(?:=\s*([^;]+))?;/g)) props.set(p[1], p[2] || 'undefined');
    const dm = /const\s+(\w+)\s*=\s*createEventDispatcher/.exec(sub);
    const rest = sub.replace(/import[^;]*;/g, '').replace(/export\s+let[^;]*;/g, '').replace(/const\s+\w+\s*=\s*createEventDispatcher[^;]*;/g, '').replace(/\/\/.*$/gm, '').trim();
    if (rest) continue;
    for (let guard = 0; guard < 20; guard++) {
      const use = tags(template).find((x) => x.tag === m[1]);
      if (!use) break;
      const values = new Map(props);
      for (const [k, v] of Object.entries(use.attrs)) values.set(k.replace(/^bind:/, ''), v);
      for (const k of shorthands(template.slice(use.at, use.end))) if (props.has(k)) values.set(k, k);
      let text = body;
      const handler = (n) => use.attrs['on:' + n] || '(() => {})';
      text = text.replace(/(on:(\w+))(?=[\s>\/])(?!\s*=)/g, (t, a, n) => a + '={' + handler(n) + '}');
      text = text.replace(/bind:(\w+)(?=[\s>\/])(?!\s*=)/g, (t, n) => 'bind:' + n + '={' + n + '}');
      text = text.replace(/(\s)\{(\w+)\}(?=[\s\/>])/g, (t, sp, n) => (props.has(n) ? sp + n + '={' + n + '}' : t));
      text = substitute(text, (e) => {
        if (dm) e = e.replace(new RegExp('\\b' + dm[1] + '\\(\\s*["\'](\\w+)["\']\\s*(?:,\\s*([^()]*))?\\)', 'g'), (t, n, d) => '(' + handler(n) + ')({ detail: ' + (d || 'null') + ' })');
        for (const [k, v] of values) if (props.has(k)) e = e.replace(new RegExp('(?<![\\w.$])' + k + '(?![\\w$])', 'g'), () => (/^\w+$/.test(v) ? v : '(' + v + ')'));
        return e;
      });
      const close = '</' + m[1] + '>';
      let end = use.end;
      if (template[end - 2] !== '/') { const c = template.indexOf(close, end); if (c >= 0) end = c + close.length; }
      template = template.slice(0, use.at) + inlined(text, sub, path.dirname(file), depth + 1) + template.slice(end);
    }
  }
  return template;
}
const shorthands = (tag) => [...tag.matchAll(/[\s]\{(\w+)\}(?=[\s\/>])/g), ...tag.matchAll(/\sbind:(\w+)(?=[\s\/>])/g)].map((x) => x[1]);
/** Maps the expressions in the braces of a template. */
function substitute(t, fn) {
  let r = '';
  for (let i = 0; i < t.length; i++) {
    if (t[i] !== '{') { r += t[i]; continue; }
    let d = 0, k = i;
    for (; k < t.length; k++) { if (t[k] === '{') d++; if (t[k] === '}' && --d === 0) break; }
    const inner = t.slice(i + 1, k), m = /^([#:@\/]\w*(?:\s+if\b)?)?([\s\S]*)$/.exec(inner);
    r += '{' + (m[1] || '') + fn(m[2]) + '}';
    i = k;
  }
  return r;
}

function bindingNames(n, out) {
  if (ts.isIdentifier(n)) out(n.text);
  else for (const e of n.elements) if (e.name) bindingNames(e.name, out);
}

// ---- what the page shows and offers, found in the template ----------------------------------

function braces(s, i) {
  // the text inside the balanced braces opening at i
  let d = 0;
  for (let k = i; k < s.length; k++) {
    if (s[k] === '{') d++;
    if (s[k] === '}' && --d === 0) return s.slice(i + 1, k).trim();
  }
  throw new Unusable('unbalanced braces in the template');
}
function attrs(tag) {
  const r = {};
  let i = 0, left = '';
  while (i < tag.length) {
    const m = /([\w:|-]+)\s*=\s*/.exec(tag.slice(i));
    if (!m) break;
    left += tag.slice(i, i + m.index) + ' ';
    let k = i + m.index + m[0].length;
    if (tag[k] === '{') {
      r[m[1]] = braces(tag, k);
      k += r[m[1]].length + 2;
      while (tag[k - 1] !== '}') k++;
    } else if (tag[k] === '"' || tag[k] === "'") {
      const e = tag.indexOf(tag[k], k + 1);
      r[m[1]] = JSON.stringify(tag.slice(k + 1, e));
      k = e + 1;
    } else k++;
    i = k;
  }
  left += tag.slice(i);
  for (const m of left.matchAll(/\s\{\s*(\w+)\s*\}/g)) if (!(m[1] in r)) r[m[1]] = m[1];
  const spread = /\s\{\s*\.\.\./.exec(left);
  if (spread) r['...'] = braces(left, spread.index + 1).replace(/^\s*\.\.\./, '');
  for (const m of tag.matchAll(/\s(bind:|on:)?\b(\w+)(?=[\s/]|$)/g)) if (m[1] === 'bind:' && !(m[1] + m[2] in r)) r[m[1] + m[2]] = m[2];
  return r;
}
function tags(t) {
  // every opening tag and every {#if}, {:else}, {/if}, {/each}, {#each} in order
  const r = [];
  for (let i = 0; i < t.length; i++) {
    if (t.startsWith('<!--', i)) { i = t.indexOf('-->', i) + 2; continue; }
    if (t[i] === '{') {
      const b = braces(t, i);
      r.push({ at: i, block: b });
      i += t.slice(i).indexOf('}', b.length) ;
    } else if (t[i] === '<' && /[A-Za-z]/.test(t[i + 1] || '')) {
      let k = i + 1, d = 0, q = null;
      for (; k < t.length; k++) {
        if (q) { if (t[k] === q) q = null; continue; }
        if (d === 0 && (t[k] === '"' || t[k] === "'")) q = t[k];
        else if (t[k] === '{') d++;
        else if (t[k] === '}') d--;
        else if (t[k] === '>' && d === 0) break;
      }
      const body = t.slice(i + 1, k);
      const name = /^[\w:.-]+/.exec(body)[0];
      const end = t.indexOf('</' + name, k);
      r.push({ at: i, end: k + 1, tag: name, attrs: attrs(' ' + body.slice(name.length)), text: end < 0 ? '' : t.slice(k + 1, end) });
      i = k;
    }
  }
  return r;
}
function controls(template) {
  const t = template.replace(/<style[\s\S]*?<\/style>/g, '');
  const list = tags(t);
  const ui = { fields: {} };
  const guard = []; // conditions of the enclosing {#if}s
  for (const x of list) {
    if (x.block !== undefined) {
      let m;
      if ((m = /^#if\s+([\s\S]*)$/.exec(x.block))) guard.push(m[1]);
      else if (/^:else/.test(x.block)) { const m2 = /^:else\s+if\s+([\s\S]*)$/.exec(x.block); guard.push('(!(' + guard.pop() + '))' + (m2 ? '&&(' + m2[1] + ')' : '')); }
      else if (/^\/if/.test(x.block)) guard.pop();
      continue;
    }
    const a = x.attrs, g = guard.map((c) => '(' + c + ')').join('&&') || 'true';
    if (a.id && (a['bind:value'] || a['bind:checked'])) ui.fields[JSON.parse(a.id)] = { name: a['bind:value'] || a['bind:checked'], guard: g };
    const click = a['on:click'] || a.onclick, change = a['on:change'] || a.onchange;
    if (/file/i.test(x.tag) && change || x.tag === 'input' && a.type === '"file"') ui.file = change;
    if (click && /Format/.test(x.text)) ui.format = click;
    if (click && /Clear/.test(x.text)) { ui.clear = click; ui.clearGuard = g; }
    if (click && /example\.name/.test(x.text)) ui.example = click;
    if (a.id === '"large-file-overlay"') ui.overlay = g;
    if (x.tag === 'Spinner') (ui.spinners = ui.spinners || []).push(g);
    if (click && /Copy/.test(x.text)) ui.copy = click;
    if (a.code && /Code/.test(x.tag)) { ui.output = a.code; ui.language = a.language || a.lang; }
    if (a.id && a.options && a['bind:value']) (ui.choices = ui.choices || {})[JSON.parse(a.id)] = a.options;
    if (!a.download && a['...'] && /Download/.test(x.text)) for (const k of ['download', 'href']) a[k] = a[k] || '(' + a['...'] + ').' + k;
    if (a.download) { ui.download = a.download; ui.href = a.href; }
  }
  for (const k of ['file', 'format', 'clear', 'example', 'overlay', 'output', 'download', 'spinners'])
    if (!ui[k]) throw new Unusable('cannot find "' + k + '" in the template');
  for (const k of ['typename', 'input', 'inputmode', 'outputmode', 'propertynameformat', 'importstyle', 'collectadditional', 'unwrappath', 'extraoptions', 'infermapthreshold'])
    if (!ui.fields[k]) throw new Unusable('cannot find the field "' + k + '" in the template');
  return ui;
}

// ---- a simulated browser -------------------------------------------------------------------

const safeNotEqual = (a, b) => (a != a ? b == b : a !== b || (a !== null && typeof a === 'object') || typeof a === 'function');
const clone = (x, world) => (x instanceof MockFile || x === null || typeof x !== 'object' ? x : Array.isArray(x) ? x.map((y) => clone(y)) : Object.fromEntries(Object.entries(x).map(([k, v]) => [k, clone(v)])));
class MockFile {
  constructor(name, content, size) { this.name = name; this.content = content; this.size = size; this.type = 'application/json'; }
}
const quietConsole = { log() {}, warn() {}, error() {}, info() {}, debug() {} };

/** Svelte's reactive statements, for one component. */
function reactor(w) {
  const dirty = new Map();
  const blocks = [];
  let scheduled = false;
  const touch = (n) => {
    dirty.set(n, (dirty.get(n) || 0) + 1);
    if (!scheduled && w.ready) {
      scheduled = true;
      queueMicrotask(() => { scheduled = false; flush(); });
    }
  };
  const set = (n, old, v) => { if (safeNotEqual(old, v)) touch(n); return v; };
  const stamp = (b) => b.deps.map((d) => dirty.get(d) || 0).join();
  const order = () => {
    const r = [], left = [...blocks];
    while (left.length) {
      let i = left.findIndex((b) => !left.some((c) => c !== b && c.assigned.some((a) => b.deps.includes(a))));
      r.push(...left.splice(i < 0 ? 0 : i, 1));
    }
    return r;
  };
  const flush = (all) => {
    const o = order();
    for (let round = 0; ; round++) {
      if (round > 20) { w.trouble = w.trouble || 'the reactive statements never settle'; return; }
      let ran = false;
      for (const b of o) {
        const s = stamp(b);
        if (all || b.seen !== s) { b.seen = s; ran = true; w.guarded(b.run); }
      }
      all = false;
      if (!ran) return;
    }
  };
  return { touch, flush, names: { __set: set, __touch: (n, v) => { touch(n); return v; }, __reactive: (deps, assigned, run) => blocks.push({ deps, assigned, run }) } };
}

class World {
  constructor(sources, stored, storage) {
    this.storage = storage;
    this.stores = 0;
    this.sources = sources;
    this.workers = [];
    this.pending = new Map(); // id -> {outcomes: [..], fire(outcome)}
    this.counts = {};
    this.hist = { page: 0 };
    this.reads = {}; // file name (per context) -> outcomes, in order
    this.trouble = null;
    this.store = stored;
    this.links = 0;
    this.linkText = {};
    const w = this;
    const svelte = reactor(this);
    this.touch = svelte.touch;
    this.flush = svelte.flush;
    const env = this.browser('page');
    const P = sources.page;
    const vals = {
      __require: (n) => sources.module(n, env), ...svelte.names,
      __meta: { url: 'file:///App.svelte', env: {} }, ...env,
    };
    try { this.ui = P.fn(...P.names.map((n) => vals[n])); } catch (e) { this.trouble = 'the page does not start: ' + e; return; }
    this.flush(true);
    this.ready = true;
  }
  guarded(f) {
    try { return f(); } catch (e) { this.trouble = this.trouble || 'the page throws ' + e; }
  }
  id(kind) {
    this.counts[kind] = (this.counts[kind] || 0) + 1;
    return kind + this.counts[kind];
  }
  /** An operation of context `ctx` that completes later; `fire` receives the outcome. */
  later(ctx, kind, outcomes, fire) {
    const id = this.id(ctx + '.' + kind);
    this.pending.set(id, { ctx, outcomes, fire });
    return id;
  }
  read(ctx, file, done) {
    return this.later(ctx, 'read(' + file.uid + ')', ['ok', 'fail'], (o) => {
      (this.reads[file.uid] = this.reads[file.uid] || []).push(o);
      done(o === 'ok' ? file.content : null);
    });
  }
  browser(ctx) {
    const w = this;
    class FileReader {
      addEventListener(n, f) { this['on' + n] = f; }
      readAsText(file) {
        w.read(ctx, file, (c) => {
          this.readyState = 2;
          const ev = { target: this, currentTarget: this, type: c === null ? 'error' : 'load' };
          if (c === null) { this.result = null; this.error = new Error('read failed'); if (this.onerror) this.onerror(ev); }
          else { this.result = c; if (this.onload) this.onload(ev); }
          if (this.onloadend) this.onloadend(ev);
        });
      }
    }
    const page = ctx !== 'page' ? {} : {
      Worker: class { constructor() { return w.worker(); } }, requestAnimationFrame: (f) => w.later(ctx, 'timer', ['go'], () => f(0)),
      document: { getElementById() { return null; }, addEventListener() {} },
    };
    const env = {
      FileReader, console: quietConsole, navigator: { clipboard: { writeText(t) { w.clip = String(t); return Promise.resolve(); }, write(items) { w.clip = items[0].text_; return Promise.resolve(); } } },
      localStorage: {
        getItem: () => { if (w.storage === 'all-fails') throw new Error('SecurityError'); return w.store; },
        setItem: (k, v) => {
          w.stores++;
          if (w.storage === 'all-fails' || w.storage === 'set-fails' || (w.storage === 'long-fails' && v.length > 250) || (w.storage === 'second-fails' && w.stores > 1)) throw new Error('QuotaExceededError');
          w.store = String(v);
        },
        removeItem() { w.store = null; }, clear() { w.store = null; },
      },
      URL: class { constructor(u) { this.href = u; } static createObjectURL(b) { const u = 'blob:' + ++w.links; w.linkText[u] = b.text_; return u; } static revokeObjectURL(u) { delete w.linkText[u]; } },
      Blob: class { constructor(p) { this.text_ = p.join(''); } },
      setTimeout: (f, ...a) => w.later(ctx, 'timer', ['go'], () => f(...a)), clearTimeout: (id) => w.pending.delete(id), ...page,
    };
    if (ctx === 'page') env.window = { ...env, addEventListener() {} };
    return env;
  }
  file(name, content, size) {
    const f = new MockFile(name, content, size), w = this;
    f.uid = name + '#' + (this.files = (this.files || 0) + 1);
    f.reader = (ctx) => new Promise((ok, no) => w.read(ctx, f, (c) => (c === null ? no(new Error('read failed')) : ok(c))));
    f.text = () => f.reader(w.now || 'page');
    return f;
  }
  worker() {
    const n = this.workers.length, ctx = 'worker' + n, w = this;
    const side = { ctx, inbox: [], outbox: [], dead: false };
    this.workers.push(side);
    this.hist[ctx] = 0;
    const env = this.browser(ctx);
    const self = { postMessage: (m) => side.outbox.push(clone(m)), addEventListener: (t, f) => { if (t === 'message') self.onmessage = f; }, close() {}, location: { href: 'file:///worker.ts' } };
    const wasm = {
      __esModule: true,
      default: () => new Promise((ok) => w.later(ctx, 'init', ['ok'], () => ok({}))),
      run: (name, input, options) => {
        const o = JSON.parse(options);
        // code that does not mention the name exists too, when the explorer can do without
        return '\n' + JSON.stringify({ name: w.sources.nameless && o.output_mode === 'shape' ? undefined : name, input, options: o, code: '<&> \u2028"é\t`$' }, null, 1) + ' \n';
      },
      initSync() {},
    };
    const require_ = (m) => (m === 'json_typegen_wasm' ? wasm : w.sources.module(m, env));
    side.handler = this.sources.worker(require_, self, env);
    this.inContext(ctx, () => {});
    // the page's handle
    const handle = { postMessage: (m) => { if (!side.dead) side.inbox.push(clone(m)); }, terminate: () => { side.dead = true; }, addEventListener: (t, f) => { if (t === 'message') handle.onmessage = f; } };
    side.handle = handle;
    return handle;
  }
  inContext(ctx, f) {
    this.now = ctx;
    return f();
  }
  /** Everything that can happen next, apart from user actions. */
  enabled() {
    const r = [];
    for (const s of this.workers) {
      if (!s.dead && s.inbox.length) r.push(s.ctx + ' receives');
      if (!s.dead && s.outbox.length) r.push('page receives from ' + s.ctx);
    }
    for (const [id, p] of this.pending) for (const o of p.outcomes) r.push(id + ':' + o);
    return r;
  }
  step(e) {
    let m;
    if ((m = /^page receives from (\w+)$/.exec(e))) {
      const s = this.workers.find((x) => x.ctx === m[1]), d = s.outbox.shift();
      this.note('page', '<' + m[1] + JSON.stringify(d));
      this.inContext('page', () => this.guarded(() => s.handle.onmessage({ data: d })));
    } else if ((m = /^(\w+) receives$/.exec(e))) {
      const s = this.workers.find((x) => x.ctx === m[1]), d = s.inbox.shift();
      this.note(s.ctx, '<' + JSON.stringify(d));
      this.inContext(s.ctx, () => { try { s.handler()({ data: d }); } catch (x) { this.trouble = this.trouble || 'the worker throws ' + x; } });
    } else {
      const i = e.lastIndexOf(':'), p = this.pending.get(e.slice(0, i));
      this.pending.delete(e.slice(0, i));
      this.note(p.ctx, e);
      this.inContext(p.ctx, () => p.fire(e.slice(i + 1)));
    }
  }
  /** Appends to the history of a context; histories are interned as numbers. */
  note(ctx, e) {
    const t = this.sources.histories, k = this.hist[ctx] + '\u0001' + e;
    let n = t.get(k);
    if (n === undefined) t.set(k, (n = t.size + 1));
    this.hist[ctx] = n;
  }
  /** A component's state is a function of its own history, so these identify the global state. */
  key() {
    return Object.values(this.hist).join();
  }
  /** A set of events that suffices here (a persistent set): what cannot be overtaken or preceded by
   * anything the other side does. A non-empty queue cannot be changed at its head by its sender. */
  sufficient(userLeft) {
    const all = this.enabled();
    const user = userLeft ? ['user'] : [];
    if (this.workers.length !== 1 || this.workers[0].dead) return user.concat(all);
    const s = this.workers[0];
    const mine = all.filter((e) => !e.startsWith('page')), page = user.concat(all.filter((e) => e.startsWith('page')));
    if (s.inbox.length) return mine;
    if (s.outbox.length || !mine.length) return page;
    return page.concat(mine);
  }
}

function load(src) {
  const page = compilePage(path.join(src, 'App.svelte'));
  const compiled = {};
  const compile = (file) => {
    if (!compiled[file]) {
      let text = fs.readFileSync(file, 'utf8').replace(/import\.meta/g, '__meta');
      compiled[file] = ts.transpileModule(text, { compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS, esModuleInterop: true } }).outputText;
    }
    return compiled[file];
  };
  const caches = new WeakMap();
  const globals = ['FileReader', 'localStorage', 'console', 'navigator', 'URL', 'Blob', 'setTimeout', 'clearTimeout', 'Worker', 'window', 'document', 'requestAnimationFrame'];
  const names = ['require', 'exports', '__meta', ...globals];
  const fns = {}, resolved = {}, stub = { __esModule: true, default: class {}, examples: [] };
  const module = (n, env, from) => {
    if (n.endsWith('.svelte') || n.endsWith('.css') || n.includes('examples')) return stub;
    const rk = (from || '') + '|' + n;
    const base = resolved[rk] || path.resolve(from ? path.dirname(from) : src, n);
    const file = resolved[rk] || [base, base + '.ts', base + '.js', base + '/index.ts', path.join(src, 'lib', n), path.join(src, 'lib', n + '.ts')].find((f) => fs.existsSync(f) && fs.statSync(f).isFile());
    if (!file) throw new Unusable('cannot resolve ' + n);
    resolved[rk] = file;
    if (!caches.has(env)) caches.set(env, {});
    const cache = caches.get(env);
    if (!cache[file]) {
      const exports = (cache[file] = {});
      fns[file] = fns[file] || new Function(...names, compile(file));
      fns[file]((m) => module(m, env, file), exports, { url: 'file://' + file, env: {} }, ...globals.map((n) => env[n]));
    }
    return cache[file];
  };
  const workerFile = path.join(src, 'lib', 'worker.ts');
  let workerFn;
  const worker = (require_, self, env) => {
    workerFn = workerFn || new Function('require', 'exports', '__meta', 'self', 'postMessage', 'addEventListener', 'FileReader', 'console', 'setTimeout', 'clearTimeout', 'URL',
      'let onmessage;' + compile(workerFile).replace('"use strict";', '') + '\n;return () => onmessage;');
    const get = workerFn((m) => (m === 'json_typegen_wasm' ? require_(m) : module(m, env, workerFile)), {}, { url: 'file:///worker.ts', env: {} }, self, self.postMessage, self.addEventListener,
      env.FileReader, env.console, env.setTimeout, env.clearTimeout, env.URL);
    return () => get() || self.onmessage;
  };
  return { page, module, worker, histories: new Map() };
}

module.exports = { load, World, Unusable, compilePage, reactor, tags };
