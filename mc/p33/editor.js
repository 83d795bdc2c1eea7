// Runs the web editor's own scripts with a stand-in for the Blockly library (which is not part of the repository).
// The stand-in implements the documented behaviour of the functions the scripts use. Reads a request from the file
// given as second argument, writes the answer to standard output. Usage: node editor.js WEBDIR REQUEST
const fs = require('fs'), vm = require('vm');
const [, , web, request] = process.argv;
const req = JSON.parse(fs.readFileSync(request, 'utf8'));

// the stand-in
class Field {
  constructor(value) { this.setValue(value === undefined ? '' : value); }
  setValue(v) { const w = this.doClassValidation_ ? this.doClassValidation_(v) : v; if (w !== null) this.value_ = w; }
  getValue() { return this.value_; }
  static fromJson(o) { return new this(o.text === undefined ? o.value : o.text); }
}
class FieldTextInput extends Field {
  doClassValidation_(v) { return v === null || v === undefined ? null : String(v); }
  static fromJson(o) { return new this(o.text); }
}
class FieldNumber extends Field {
  constructor(value, min, max, precision, validator, config) {
    super();
    if (config) { min = config.min; max = config.max; precision = config.precision; }
    this.min_ = min === undefined || min === null ? -Infinity : Number(min);
    this.max_ = max === undefined || max === null ? Infinity : Number(max);
    this.precision_ = Number(precision) || 0;
    this.decimals_ = this.precision_ ? (String(this.precision_).split('.')[1] || '').length : null;
    this.setValue(value === undefined ? 0 : value);
  }
  doClassValidation_(v) {
    let n = Number(String(v).replace(/,/g, ''));
    if (isNaN(n)) return null;
    if (this.max_ === undefined) return n; // while constructing
    n = Math.min(Math.max(n, this.min_), this.max_);
    if (this.precision_ && isFinite(n)) n = Math.round(n / this.precision_) * this.precision_;
    if (this.decimals_ !== null) n = Number(n.toFixed(this.decimals_));
    return n;
  }
  static fromJson(o) { return new this(o.value, undefined, undefined, undefined, undefined, o); }
}
class FieldAngle extends FieldNumber {
  static fromJson(o) { const f = new this(o.angle === undefined ? o.value : o.angle, 0, 360, 0); return f; }
}
class FieldDropdown extends Field {
  constructor(options) { super(options[0][1]); this.options_ = options; }
  doClassValidation_(v) { return !this.options_ || this.options_.some(o => o[1] === v) ? v : null; }
  static fromJson(o) { return new this(o.options); }
}
class FieldCheckbox extends Field {
  doClassValidation_(v) { return v === true || v === 'TRUE' ? 'TRUE' : 'FALSE'; }
  static fromJson(o) { return new this(o.checked); }
}
const registry = { field_input: FieldTextInput, field_number: FieldNumber, field_angle: FieldAngle, field_dropdown: FieldDropdown, field_checkbox: FieldCheckbox };
class Generator {
  constructor(name) { this.name_ = name; this.INDENT = '  '; this.forBlock = Object.create(null); }
  init() { }
  finish(code) { return code; }
  scrubNakedValue(line) { return line; }
  prefixLines(text, prefix) { return prefix + text.replace(/(?!\n$)\n/g, '\n' + prefix); }
  blockToCode(block, only) {
    if (!block) return '';
    if (!block.isEnabled()) return only ? '' : this.blockToCode(block.getNextBlock());
    const f = this.forBlock[block.type] || this[block.type];
    if (typeof f !== 'function') throw Error('language "' + this.name_ + '" does not know how to generate code for block type "' + block.type + '"');
    const code = f.call(block, block, this);
    if (Array.isArray(code)) return [this.scrub_(block, code[0], only), code[1]];
    if (typeof code === 'string') return this.scrub_(block, code, only);
    if (code === null) return '';
    throw SyntaxError('invalid code generated: ' + code);
  }
  statementToCode(block, name) {
    let code = this.blockToCode(block.getInputTargetBlock(name));
    if (typeof code !== 'string') throw TypeError('expecting code from statement block');
    if (code) code = this.prefixLines(code, this.INDENT);
    return code;
  }
  scrub_(block, code, only) { return code; }
  workspaceToCode(workspace) {
    const code = [];
    this.init(workspace);
    for (const block of workspace.getTopBlocks(true)) {
      let line = this.blockToCode(block);
      if (Array.isArray(line)) line = line[0];
      if (line) code.push(line);
    }
    let s = this.finish(code.join('\n'));
    return s.replace(/^\s+\n/, '').replace(/\n\s+$/, '\n').replace(/[ \t]+\n/g, '\n');
  }
}
const definitions = [];
const anything = () => new Proxy(function () { }, { get: (t, k) => k === Symbol.toPrimitive ? () => '' : k === 'prototype' ? t.prototype : anything(), apply: () => anything(), construct: () => anything(), set: () => true });
let workspace;
const known = {
  Generator, CodeGenerator: Generator, Field, FieldTextInput, FieldNumber, FieldAngle, FieldDropdown, FieldCheckbox,
  fieldRegistry: { register(n, c) { registry[n] = c; }, unregister() { } },
  defineBlocksWithJsonArray(a) { for (const d of a) definitions.push(d); },
  common: { defineBlocksWithJsonArray(a) { for (const d of a) definitions.push(d); } },
  inject() { return workspace; },
};
const Blockly = new Proxy(known, { get: (t, k) => k in t ? t[k] : anything() });

function args(d) {
  const l = [];
  for (let i = 0; d['message' + i] !== undefined; i++) for (const a of d['args' + i] || []) l.push(a);
  return l;
}

class Block {
  constructor(spec) {
    const d = definitions.find(d => d.type === spec.type);
    if (!d) throw Error('undefined block ' + spec.type);
    this.type = spec.type;
    this.disabled = !!spec.disabled;
    this.fields = {};
    this.inputs = {};
    for (const a of args(d)) {
      if (a.type === 'input_statement') { this.inputs[a.name] = null; continue; }
      if (!a.type.startsWith('field_')) continue;
      if (!registry[a.type]) throw Error('unknown kind of field ' + a.type);
      if (a.name !== undefined) this.fields[a.name] = registry[a.type].fromJson(a);
    }
    for (const n in spec.fields || {}) this.fields[n].setValue(spec.fields[n]);
    for (const n in spec.inputs || {}) this.inputs[n] = new Block(spec.inputs[n]);
    const next = spec.next ? new Block(spec.next) : null;
    this.nextConnection = d.nextStatement === undefined ? null : { targetBlock() { return next; } };
  }
  isEnabled() { return !this.disabled; }
  isInsertionMarker() { return false; }
  getNextBlock() { return this.nextConnection && this.nextConnection.targetBlock(); }
  getField(n) { return this.fields[n] || null; }
  getFieldValue(n) { const f = this.getField(n); return f ? f.getValue() : null; }
  getInput(n) { return n in this.inputs ? {} : null; }
  getInputTargetBlock(n) { return this.inputs[n] || null; }
}

// the editor's own scripts, in the order of the page
const html = fs.readFileSync(web + '/index.html', 'utf8').replace(/<!--[^]*?-->/g, '');
const scripts = [];
for (const m of html.matchAll(/<script([^>]*)>([^]*?)<\/script>/g)) {
  const src = /src\s*=\s*["']([^"']+)["']/.exec(m[1]);
  if (!src) scripts.push({ page: true, name: 'index.html', code: m[2] });
  else if (!/^(\.?\/)?blockly\//.test(src[1])) scripts.push({ name: src[1], code: fs.readFileSync(web + '/' + src[1], 'utf8') });
}
const ids = new Set([...html.matchAll(/\bid\s*=\s*["']([^"']+)["']/g)].map(m => m[1]));

function load(extra, page) {
  definitions.length = 0;
  const g = Object.assign({ Blockly, console: { log() { }, error() { }, warn() { } }, TextDecoder, TextEncoder, Uint8Array, URL }, extra);
  g.window = g.self = g;
  const ctx = vm.createContext(g);
  for (const s of scripts) if (!s.page || page) vm.runInContext(s.code, ctx, { filename: s.name });
  return ctx;
}

(async () => {
  const answer = { codes: [], pages: [] };
  const ctx = load({}, false);
  const Json = vm.runInContext('Json', ctx), toolbox = vm.runInContext('toolbox', ctx);
  answer.blocks = definitions.map(d => {
    const l = args(d);
    return {
      type: d.type, statements: l.filter(a => a.type === 'input_statement').map(a => a.name),
      fields: l.filter(a => a.type.startsWith('field_') && a.name !== undefined).map(a => ({ name: a.name, kind: a.type, options: a.options || [], min: a.min, max: a.max, precision: a.precision, value: registry[a.type].fromJson(a).getValue() })),
    };
  });
  answer.toolbox = [];
  (function rec(l) { for (const x of l) { if (x.kind === 'block') answer.toolbox.push(x.type); if (x.contents) rec(x.contents); } })(toolbox.contents);
  const tops = p => (p.tops || []).map(b => new Block(b));
  for (const p of req.programs || []) {
    try {
      const t = tops(p);
      answer.codes.push({ code: Json.workspaceToCode({ getTopBlocks: () => t }), values: t.length ? Object.fromEntries(Object.entries(t[0].fields).map(([n, f]) => [n, f.getValue()])) : {} });
    } catch (e) { answer.codes.push({ error: String(e && e.message || e) }); }
  }
  for (const p of req.pages || []) {
    const r = { fetched: [], alerts: [] };
    answer.pages.push(r);
    try {
      const elements = {};
      const element = id => elements[id] = elements[id] || { style: {}, textContent: '', innerHTML: '', value: '', offsetLeft: 0, offsetTop: 0, offsetWidth: 1, offsetHeight: 1, offsetParent: null, addEventListener() { }, appendChild() { }, setAttribute() { } };
      const location = new URL(p.url);
      const document = { getElementById: id => ids.has(id) ? element(id) : null, querySelector: q => q[0] === '#' && ids.has(q.slice(1)) ? element(q.slice(1)) : null, addEventListener() { }, createElement: () => element('new'), body: element('body'), location, baseURI: p.url };
      let t = [];
      workspace = { getTopBlocks: () => t, addChangeListener() { }, getAllBlocks: () => t };
      const ctx = load({
        document, location, addEventListener() { }, setTimeout, clearTimeout, alert: m => r.alerts.push(String(m)), Headers,
        fetch: async (url, o) => {
          o = o || {};
          r.fetched.push({ url: new URL(String(url), p.url).href, method: o.method || 'GET', contentType: new Headers(o.headers || {}).get('Content-Type') || '', body: String(o.body) });
          let i = 0;
          const text = async () => { const d = new TextDecoder(); let s = ''; while (i < p.chunks.length) s += d.decode(Uint8Array.from(p.chunks[i++]), { stream: true }); return s + d.decode(); };
          return {
            ok: true, status: 200, text,
            body: { getReader: () => ({ read: async () => i < p.chunks.length ? { done: false, value: Uint8Array.from(p.chunks[i++]) } : { done: true, value: undefined } }) },
          };
        },
      }, true);
      t = tops(p.program);
      const page = vm.runInContext('({run, showCode})', ctx);
      page.showCode();
      r.shown = Object.entries(elements).map(([id, e]) => id + '\0' + (e.textContent || e.innerHTML || e.value)).concat(r.alerts);
      r.alerts = [];
      for (const e of Object.values(elements)) e.textContent = e.innerHTML = e.value = '';
      page.run();
      for (let i = 0; i < 20 + 4 * p.chunks.length; i++) await new Promise(f => setImmediate(f));
      r.log = Object.values(elements).map(e => e.textContent || e.innerHTML || e.value).filter(s => s !== '');
    } catch (e) { r.error = String(e && e.message || e); }
  }
  process.stdout.write(JSON.stringify(answer));
})().catch(e => { process.stdout.write(JSON.stringify({ fatal: String(e && e.stack || e) })); });
