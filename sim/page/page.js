// A browser just large enough for website/index.html: it parses the page, runs its scripts in a context of their own and
// does what it is told, one line of JSON at a time. The bindings the page imports are forwarded to the simulator, which
// runs the real code. There is no clock, no randomness and no network in here: timers fire when the simulator says so.
'use strict';
const vm = require('vm');
const fs = require('fs');

// ---- the line to the simulator
let pending = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 16);
function receive() {
  for (;;) {
    const i = pending.indexOf(10);
    if (i >= 0) {
      const line = pending.subarray(0, i).toString('utf8');
      pending = pending.subarray(i + 1);
      return JSON.parse(line);
    }
    let n;
    try {
      n = fs.readSync(0, chunk, 0, chunk.length, null);
    } catch (e) {
      if (e.code === 'EAGAIN') continue;
      throw e;
    }
    if (n === 0) process.exit(0);
    pending = Buffer.concat([pending, chunk.subarray(0, n)]);
  }
}
function send(m) {
  let b = Buffer.from(JSON.stringify(m) + '\n');
  while (b.length > 0) {
    try {
      b = b.subarray(fs.writeSync(1, b));
    } catch (e) {
      if (e.code !== 'EAGAIN') throw e;
    }
  }
}
function ask(m) {
  send(m);
  return receive();
}

// ---- HTML
const VOID = new Set(['br', 'meta', 'link', 'input', 'img', 'hr', 'base', 'col', 'source', 'wbr']);
const ENTITIES = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0' };
function decode(s) {
  return s.replace(/&(#x[0-9a-f]+|#\d+|\w+);/gi, (all, e) => {
    if (/^#x/i.test(e)) return String.fromCodePoint(parseInt(e.slice(2), 16));
    if (e[0] === '#') return String.fromCodePoint(parseInt(e.slice(1), 10));
    return e in ENTITIES ? ENTITIES[e] : all;
  });
}
function parse(html) {
  html = html.replace(/\r\n?/g, '\n');
  const root = { tag: '#root', attrs: {}, kids: [] };
  const stack = [root];
  let i = 0;
  const text = (s) => stack[stack.length - 1].kids.push({ tag: '#text', text: s });
  while (i < html.length) {
    const lt = html.indexOf('<', i);
    if (lt < 0) { text(decode(html.slice(i))); break; }
    if (lt > i) text(decode(html.slice(i, lt)));
    if (html.startsWith('<!--', lt)) {
      const e = html.indexOf('-->', lt + 4);
      i = e < 0 ? html.length : e + 3;
      continue;
    }
    if (html[lt + 1] === '!') { i = html.indexOf('>', lt) + 1; continue; }
    const m = /^<(\/?)([a-zA-Z][\w-]*)((?:[^>"']|"[^"]*"|'[^']*')*)>/.exec(html.slice(lt));
    if (!m) { text('<'); i = lt + 1; continue; }
    i = lt + m[0].length;
    const tag = m[2].toLowerCase();
    if (m[1]) {
      for (let k = stack.length - 1; k > 0; k--) if (stack[k].tag === tag) { stack.length = k; break; }
      continue;
    }
    const attrs = {};
    for (const a of m[3].matchAll(/([^\s=,\/"']+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s,"']+)))?/g))
      if (!(a[1].toLowerCase() in attrs)) attrs[a[1].toLowerCase()] = decode(a[2] ?? a[3] ?? a[4] ?? '');
    const el = { tag, attrs, kids: [] };
    stack[stack.length - 1].kids.push(el);
    if (tag === 'script' || tag === 'style' || tag === 'textarea' || tag === 'title') {
      const end = new RegExp('</' + tag + '\\s*>', 'i').exec(html.slice(i));
      let t = end ? html.slice(i, i + end.index) : html.slice(i);
      i = end ? i + end.index + end[0].length : html.length;
      if (tag === 'textarea' && t[0] === '\n') t = t.slice(1);
      el.kids.push({ tag: '#text', text: tag === 'textarea' || tag === 'title' ? decode(t) : t });
    } else if (!VOID.has(tag) && !m[3].endsWith('/')) stack.push(el);
  }
  return root;
}

// ---- the document
const norm = (s) => s.replace(/\r\n?/g, '\n');
let P = null; // the page that is loaded

class Ev {
  constructor(type, init) { this.type = type; this.defaultPrevented = false; Object.assign(this, init || {}); }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this.stopped = true; }
  stopImmediatePropagation() { this.stopped = true; }
}
class El {
  constructor(page, node, parent) {
    Object.defineProperty(this, '_', { value: { page, node, parent, text: null, value: null, listeners: [], w: 300, h: 150 } });
    this.style = {};
    this.dataset = {};
    this.disabled = 'disabled' in node.attrs;
    this._.kids = node.kids.map((k) => (k.tag === '#text' ? k.text : new El(page, k, this)));
    this._.initial = this.innerText;
    if (this.localName === 'textarea') this._.value = this.innerText;
    if (this.localName === 'input') this._.value = node.attrs.value || '';
    this._.w = parseInt(node.attrs.width) || 300;
    this._.h = parseInt(node.attrs.height) || 150;
    this.classList = { add() {}, remove() {}, toggle() {}, contains: () => false };
  }
  get localName() { return this._.node.tag; }
  get tagName() { return this._.node.tag.toUpperCase(); }
  get nodeName() { return this.tagName; }
  get id() { return this._.node.attrs.id || ''; }
  get readOnly() { return 'readonly' in this._.node.attrs; }
  get parentElement() { return this._.parent; }
  get children() { return this._.kids.filter((k) => typeof k !== 'string'); }
  getAttribute(n) { return n in this._.node.attrs ? this._.node.attrs[n] : null; }
  setAttribute(n, v) { this._.node.attrs[n] = String(v); if (n === 'disabled') this.disabled = true; }
  hasAttribute(n) { return n in this._.node.attrs; }
  removeAttribute(n) { delete this._.node.attrs[n]; if (n === 'disabled') this.disabled = false; }
  get innerText() { return this._.kids.map((k) => (typeof k === 'string' ? k : k.innerText)).join(''); }
  set innerText(v) { this._.kids = [v === null ? '' : norm(String(v))]; }
  get textContent() { return this.innerText; }
  set textContent(v) { this._.kids = [v === null ? '' : String(v)]; }
  get outerText() { return this.innerText; }
  get innerHTML() { return this.innerText.replace(/&/g, '&amp;').replace(/</g, '&lt;'); }
  set innerHTML(v) {
    const t = parse(v === null ? '' : String(v));
    this._.kids = t.kids.map((k) => (k.tag === '#text' ? k.text : new El(this._.page, k, this)));
  }
  append(...v) { this._.kids.push(...v.map((x) => (x instanceof El ? x : String(x)))); }
  appendChild(v) { this._.kids.push(v); return v; }
  replaceChildren(...v) { this._.kids = []; this.append(...v); }
  get value() { return this._.value === null ? undefined : this._.value; }
  set value(v) {
    if (this._.value === null) { Object.defineProperty(this, 'value', { value: v, writable: true }); return; }
    v = v === null ? '' : String(v);
    this._.value = this.localName === 'textarea' ? norm(v) : v.replace(/[\r\n]/g, '');
  }
  get defaultValue() { return this._.initial; }
  get width() { return this._.w; }
  set width(v) { this._.w = v >>> 0; this.resized(); }
  get height() { return this._.h; }
  set height(v) { this._.h = v >>> 0; this.resized(); }
  resized() { if (this.localName === 'canvas') ask({ t: 'canvas', id: this.id, op: 'reset', a: [] }); }
  getContext(kind) {
    if (this.localName !== 'canvas') throw new TypeError('getContext is not a function');
    if (kind !== '2d') return null;
    const el = this;
    const state = {};
    const num = (...a) => a.map(Number);
    return (this._.ctx ||= new Proxy(state, {
      get(_, p) {
        if (p === 'canvas') return el;
        if (p === 'clearRect') return (...a) => { ask({ t: 'canvas', id: el.id, op: 'clear', a: num(...a) }); };
        if (p === 'fillRect') return (...a) => { ask({ t: 'canvas', id: el.id, op: 'fill', a: num(...a) }); };
        if (p === 'reset') return () => { ask({ t: 'canvas', id: el.id, op: 'reset', a: [] }); };
        if (p === 'fillText') return (s, ...a) => { ask({ t: 'canvas', id: el.id, op: 'text', s: String(s), a: num(...a) }); };
        if (p === 'isContextLost') return () => false;
        if (p in state || typeof p === 'symbol') return state[p];
        return () => undefined;
      },
    }));
  }
  addEventListener(type, f, o) { this._.listeners.push([type, f, !!(o && o.once)]); }
  removeEventListener(type, f) { this._.listeners = this._.listeners.filter((l) => l[0] !== type || l[1] !== f); }
  dispatchEvent(ev) {
    ev.target ||= this;
    ev.currentTarget = this;
    const run = (f) => {
      try {
        if (typeof f === 'function') f.call(this, ev); else if (f && f.handleEvent) f.handleEvent(ev);
      } catch (e) { this._.page.errors.push(String(e)); }
    };
    const on = this['on' + ev.type];
    if (typeof on === 'function') run(on);
    else if (this.getAttribute('on' + ev.type) !== null) {
      try {
        vm.compileFunction(this.getAttribute('on' + ev.type), ['event'], { parsingContext: this._.page.context }).call(this, ev);
      } catch (e) { this._.page.errors.push(String(e)); }
    }
    for (const l of [...this._.listeners]) if (l[0] === ev.type) {
      if (l[2]) this.removeEventListener(l[0], l[1]);
      run(l[1]);
    }
    if (!ev.stopped && this._.parent) this._.parent.dispatchEvent(ev);
    return !ev.defaultPrevented;
  }
  click() { if (!this.disabled) this.dispatchEvent(new Ev('click')); }
  focus() {}
  blur() {}
  select() {}
  scrollIntoView() {}
  querySelector(s) { return this.querySelectorAll(s)[0] || null; }
  querySelectorAll(s) {
    const out = [];
    const simple = s.split(',').map((x) => x.trim());
    const match = (e, x) => {
      const m = /^([\w-]*)(?:#([\w-]+))?(?:\[([\w-]+)(?:="?([^"\]]*)"?)?\])?$/.exec(x);
      if (!m) throw new Error('selector not simulated: ' + x);
      return (!m[1] || e.localName === m[1]) && (!m[2] || e.id === m[2]) &&
        (!m[3] || (e.hasAttribute(m[3]) && (m[4] === undefined || e.getAttribute(m[3]) === m[4])));
    };
    walk(this, (e) => { if (e !== this && simple.some((x) => match(e, x))) out.push(e); });
    return out;
  }
}
function walk(e, f) {
  f(e);
  for (const k of e._.kids) if (typeof k !== 'string') walk(k, f);
}

// ---- the bindings, as wasm-bindgen would export them
const NUM = (x) => Number(x) >>> 0;
const STR = (x) => { if (typeof x !== 'string') throw new TypeError('expected a string argument, found ' + typeof x); return x; };
const SIGS = {
  load_dfa: [STR], load_nfa: [STR], load_regex: [STR],
  delete_dfa: [NUM], delete_nfa: [NUM], delete_regex: [NUM],
  check_dfa_eq: [NUM, NUM], check_nfa_eq: [NUM, NUM],
  dfa_to_nfa: [NUM], nfa_to_dfa: [NUM], regex_to_nfa: [NUM],
  dfa_to_table: [NUM], nfa_to_table: [NUM], minimize_dfa: [NUM],
  draw_dfa: [NUM, STR], draw_nfa: [NUM, STR],
};
function bindings(page) {
  const out = {};
  for (const [f, sig] of Object.entries(SIGS)) {
    out[f] = (...a) => {
      if (P !== page) throw new Error('the page is gone');
      if (!page.ready) throw new TypeError("Cannot read properties of undefined (reading '" + f + "')");
      const r = ask({ t: 'call', f, a: sig.map((c, i) => c(a[i])) });
      if (r.trap !== undefined) throw new (page.context.WebAssembly.RuntimeError)(r.trap);
      if (r.err !== undefined) throw r.err;
      return r.ok === null ? undefined : r.ok;
    };
  }
  out.default = () => new Promise((ok, bad) => { page.init.push([() => { page.ready = true; ok(out); }, bad]); });
  return out;
}

// ---- pages
async function load(html, url) {
  const page = { errors: [], init: [], ready: false, timers: [], now: 0, serial: 0, alerts: 0 };
  P = page;
  const root = new El(page, parse(html), null);
  page.root = root;
  const byId = (id) => { let x = null; walk(root, (e) => { if (!x && e.id === String(id)) x = e; }); return x; };
  const document = {
    getElementById: byId,
    querySelector: (s) => root.querySelector(s),
    querySelectorAll: (s) => root.querySelectorAll(s),
    getElementsByTagName: (s) => root.querySelectorAll(s),
    createElement: (t) => new El(page, { tag: t, attrs: {}, kids: [] }, null),
    createTextNode: (s) => String(s),
    addEventListener: (t, f) => root.addEventListener(t, f),
    removeEventListener: (t, f) => root.removeEventListener(t, f),
    get body() { return root.querySelector('body'); },
    readyState: 'interactive',
  };
  const timer = (f, ms, every, a) => {
    page.timers.push({ id: ++page.serial, at: page.now + Math.max(Number(ms) || 0, 0), f, every, a });
    return page.serial;
  };
  const clear = (id) => { page.timers = page.timers.filter((t) => t.id !== id); };
  const quiet = () => {};
  const g = {
    document,
    console: { log: quiet, warn: quiet, error: quiet, info: quiet, debug: quiet },
    setTimeout: (f, ms, ...a) => timer(f, ms, 0, a),
    setInterval: (f, ms, ...a) => timer(f, ms, Math.max(Number(ms) || 0, 1), a),
    clearTimeout: clear, clearInterval: clear,
    requestAnimationFrame: (f) => timer(f, 16, 0, []),
    queueMicrotask,
    alert: () => { page.alerts++; },
    performance: { now: () => page.now },
    addEventListener: (t, f) => root.addEventListener(t, f),
    removeEventListener: (t, f) => root.removeEventListener(t, f),
    Event: Ev, HTMLElement: El,
  };
  const context = vm.createContext(g);
  page.context = context;
  vm.runInContext('globalThis.window = globalThis.self = globalThis; Math.random = () => 0.5; Date.now = () => 0;', context);
  const exports = bindings(page);
  const scripts = [];
  walk(root, (e) => { if (e.localName === 'script') scripts.push(e); });
  const later = [];
  for (const s of scripts) {
    if (s.hasAttribute('src')) { page.errors.push('a script of its own is not simulated: ' + s.getAttribute('src')); continue; }
    if (s.getAttribute('type') === 'module') later.push(s);
    else try { vm.runInContext(s.innerText, context); } catch (e) { page.errors.push(String(e)); }
  }
  for (const s of later) {
    try {
      const m = new vm.SourceTextModule(s.innerText, { context, identifier: url });
      await m.link((spec) => {
        if (!/dandy_wasm\.js$/.test(spec)) throw new Error('no such module: ' + spec);
        const names = Object.keys(exports);
        return new vm.SyntheticModule(names, function () { for (const n of names) this.setExport(n, exports[n]); }, { context });
      });
      // a module waiting at its top level for the bindings must not stop the simulation
      m.evaluate().catch((e) => page.errors.push(String(e)));
      await settle();
    } catch (e) { page.errors.push(String(e)); }
  }
  document.readyState = 'complete';
  root.dispatchEvent(new Ev('DOMContentLoaded'));
  root.dispatchEvent(new Ev('load'));
  await settle();
  // what a user sees: sections, each with a button, the fields before it and the places for results after it
  page.sections = [];
  let text = '', fields = [];
  const look = (e) => {
    for (const k of e._.kids) {
      if (typeof k === 'string') { text += k; continue; }
      const t = k.localName;
      if (t === 'script' || t === 'style' || t === 'title') continue;
      const last = page.sections[page.sections.length - 1];
      if (t === 'button') { page.sections.push({ text, fields, button: k, outs: [] }); text = ''; fields = []; }
      else if (t === 'textarea' || t === 'input') { if (k.readOnly) last && last.outs.push(k); else fields.push(k); }
      else if (t === 'canvas') last && last.outs.push(k);
      else if (t === 'span' || t === 'output' || t === 'pre') { if (last && fields.length === 0) last.outs.push(k); else look(k); }
      else look(k);
    }
  };
  look(root);
}
const settle = () => new Promise((ok) => setImmediate(ok));
process.on('unhandledRejection', (e) => { if (P) P.errors.push('unhandled: ' + String(e)); });
process.on('uncaughtException', (e) => { if (P) P.errors.push('uncaught: ' + String(e)); });

async function advance(ms) {
  const end = P.now + ms;
  let fired = 0;
  for (;;) {
    const due = P.timers.filter((t) => t.at <= end).sort((a, b) => a.at - b.at || a.id - b.id)[0];
    if (!due || fired >= 2000) break;
    fired++;
    P.now = Math.max(P.now, due.at);
    if (due.every) due.at += due.every; else P.timers = P.timers.filter((t) => t !== due);
    try { if (typeof due.f === 'function') due.f(...due.a); } catch (e) { P.errors.push(String(e)); }
    await settle();
  }
  P.now = end;
  return fired;
}

function state() {
  const see = (e) => (e._.value === null ? e.innerText : e._.value);
  const r = {
    t: 'state',
    sections: P.sections.map((s) => ({
      heading: s.text.trim(), fields: s.fields.map(see), button: s.button.innerText, disabled: s.button.disabled,
      outs: s.outs.map((o) => [o.localName, o.localName === 'canvas' ? o.id : see(o)]),
    })),
    errors: P.errors, timers: P.timers.length, init: P.init.length,
  };
  P.errors = [];
  r.canvas = [0, 0];
  walk(P.root, (e) => { if (e.localName === 'canvas') r.canvas = [e._.w, e._.h]; });
  return r;
}

(async () => {
  for (;;) {
    const m = receive();
    switch (m.t) {
      case 'load': await load(m.html, 'page'); break;
      case 'init': {
        const w = P.init.splice(0);
        for (const [ok, bad] of w) if (m.ok) ok(); else bad(new TypeError('Failed to fetch'));
        break;
      }
      case 'set': {
        const f = P.sections[m.s].fields[m.f];
        f.value = m.text;
        f.dispatchEvent(new Ev('input'));
        f.dispatchEvent(new Ev('change'));
        break;
      }
      case 'click': P.sections[m.s].button.click(); break;
      case 'wait': await advance(m.ms); break;
      default: throw new Error('what? ' + m.t);
    }
    await settle();
    send(state());
  }
})();
