// Runs the pages of the web application in a small browser: enough of a DOM
// for the framework they use (which is run as it is) and for their scripts.
// Reads one JSON request per line, answers with one JSON line each.
"use strict";
const vm = require("node:vm");
const readline = require("node:readline");

const VOID = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"]);
const RAW = new Set(["script", "style"]);
const NAMED = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" };
const entities = (s) =>
  s.replace(/&(#x[0-9a-f]+|#\d+|\w+);/gi, (m, e) =>
    e[0] !== "#" ? (Object.hasOwn(NAMED, e) ? NAMED[e] : m) : String.fromCodePoint(e[1].toLowerCase() === "x" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10)));

class Event {
  constructor(type, o = {}) {
    Object.assign(this, { type, bubbles: !!o.bubbles, detail: o.detail, defaultPrevented: false, stopped: false, target: null });
  }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this.stopped = true; }
  stopImmediatePropagation() { this.stopped = true; }
}

class Target {
  constructor() { this.listeners = []; }
  addEventListener(t, f, o) { this.listeners.push([t, f, o]); }
  removeEventListener(t, f) { this.listeners = this.listeners.filter((l) => l[0] !== t || l[1] !== f); }
  dispatchEvent(e) {
    e.target = e.target || this;
    for (let n = this; n; n = n.parentNode || (n === n.ownerDocument ? n.defaultView : null)) {
      e.currentTarget = n;
      for (const [t, f] of [...n.listeners]) if (t === e.type) typeof f === "function" ? f.call(n, e) : f.handleEvent(e);
      if (!e.bubbles || e.stopped) break;
    }
    return !e.defaultPrevented;
  }
}

class Node extends Target {
  constructor(doc, type) {
    super();
    this.ownerDocument = doc;
    this.nodeType = type;
    this.childNodes = [];
    this.parentNode = null;
  }
  get parentElement() { return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null; }
  get isConnected() {
    let n = this;
    while (n.parentNode) n = n.parentNode;
    return n.nodeType === 9;
  }
  get children() { return this.childNodes.filter((c) => c.nodeType === 1); }
  get firstElementChild() { return this.children[0] || null; }
  get firstChild() { return this.childNodes[0] || null; }
  get sib() { return this.parentNode ? this.parentNode.childNodes : []; }
  get nextElementSibling() {
    const s = this.sib;
    for (let i = s.indexOf(this) + 1; i < s.length; i++) if (s[i].nodeType === 1) return s[i];
    return null;
  }
  get previousElementSibling() {
    const s = this.sib;
    for (let i = s.indexOf(this) - 1; i >= 0; i--) if (s[i].nodeType === 1) return s[i];
    return null;
  }
  get nextSibling() { return this.sib[this.sib.indexOf(this) + 1] || null; }
  contains(o) {
    for (; o; o = o.parentNode) if (o === this) return true;
    return false;
  }
  insert(at, nodes) {
    nodes = nodes.flatMap((n) => (n.nodeType === 11 ? [...n.childNodes] : [typeof n === "string" ? new Text(this.ownerDocument, n) : n]));
    for (const n of nodes) n.remove();
    this.childNodes.splice(at, 0, ...nodes);
    for (const n of nodes) n.parentNode = this;
    note({ type: "childList", target: this, addedNodes: nodes, removedNodes: [] });
  }
  appendChild(n) { this.insert(this.childNodes.length, [n]); return n; }
  append(...n) { this.insert(this.childNodes.length, n); }
  prepend(...n) { this.insert(0, n); }
  insertBefore(n, r) { n.remove(); this.insert(r ? this.childNodes.indexOf(r) : this.childNodes.length, [n]); return n; }
  removeChild(n) { n.remove(); return n; }
  remove() {
    const p = this.parentNode;
    if (!p) return;
    p.childNodes.splice(p.childNodes.indexOf(this), 1);
    this.parentNode = null;
    note({ type: "childList", target: p, addedNodes: [], removedNodes: [this] });
  }
  place(off, nodes) {
    const p = this.parentNode;
    for (const n of nodes) if (n.remove) n.remove();
    p.insert(p.childNodes.indexOf(this) + off, nodes);
  }
  before(...n) { this.place(0, n); }
  after(...n) { this.place(1, n); }
  replaceWith(...n) { this.place(1, n); this.remove(); }
  replaceChildren(...n) { for (const c of [...this.childNodes]) c.remove(); this.append(...n); }
  get textContent() { return this.childNodes.map((c) => c.textContent).join(""); }
  set textContent(t) {
    for (const c of [...this.childNodes]) c.remove();
    if (t !== null && t !== undefined && String(t) !== "") this.insert(0, [new Text(this.ownerDocument, String(t))]);
  }
  all(out = []) {
    for (const c of this.childNodes) if (c.nodeType === 1) { out.push(c); c.all(out); }
    return out;
  }
  querySelectorAll(sel) { return this.all().filter((e) => e.matches(sel)); }
  querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
  getElementById(id) { return this.all().find((e) => e.getAttribute("id") === id) || null; }
  getElementsByTagName(t) { return this.all().filter((e) => e.localName === t.toLowerCase()); }
  copy(deep, doc) {
    const n = this.bare(doc);
    if (deep) for (const c of this.childNodes) { const k = c.copy(true, doc); k.parentNode = n; n.childNodes.push(k); }
    return n;
  }
  cloneNode(deep) { return this.copy(deep, this.ownerDocument); }
}

class Text extends Node {
  constructor(doc, data) { super(doc, 3); this.data = data; this.nodeName = "#text"; }
  get textContent() { return this.data; }
  set textContent(t) { this.data = String(t); }
  bare(doc) { return new Text(doc, this.data); }
}

class Fragment extends Node {
  constructor(doc) { super(doc, 11); }
  bare(doc) { return new Fragment(doc); }
}

const camel = (s) => s.replace(/-(\w)/g, (m, c) => c.toUpperCase());

class Element extends Node {
  constructor(doc, name) {
    super(doc, 1);
    this.localName = name;
    this.attrs = new Map();
    if (name === "input") this.files = [];
    if (name === "template") this.content = new Fragment(doc);
    const el = this;
    this.style = {
      setProperty(k, v) { const s = el.styles(); v === "" || v === null ? s.delete(k) : s.set(k, String(v)); el.styles(s); },
      removeProperty(k) { this.setProperty(k, ""); },
      getPropertyValue(k) { return el.styles().get(k) || ""; },
      get length() { return el.styles().size; },
      get display() { return this.getPropertyValue("display"); },
      set display(v) { this.setProperty("display", v); },
      get cssText() { return el.getAttribute("style") || ""; },
      set cssText(v) { el.setAttribute("style", v); },
    };
    const cls = () => (el.getAttribute("class") || "").split(/\s+/).filter(Boolean);
    this.classList = {
      contains: (c) => cls().includes(c),
      add: (...c) => el.setAttribute("class", [...new Set([...cls(), ...c])].join(" ")),
      remove: (...c) => el.setAttribute("class", cls().filter((x) => !c.includes(x)).join(" ")),
      toggle(c, on = !cls().includes(c)) { on ? this.add(c) : this.remove(c); return on; },
      [Symbol.iterator]: () => cls()[Symbol.iterator](),
    };
  }
  styles(set) {
    if (set) {
      set.size ? this.setAttribute("style", [...set].map(([k, v]) => `${k}: ${v};`).join(" ")) : this.attrs.has("style") && this.setAttribute("style", "");
      return set;
    }
    return new Map((this.getAttribute("style") || "").split(";").filter((d) => d.includes(":")).map((d) => [d.slice(0, d.indexOf(":")).trim(), d.slice(d.indexOf(":") + 1).replace("!important", "").trim()]));
  }
  get tagName() { return this.localName.toUpperCase(); }
  get nodeName() { return this.tagName; }
  get attributes() { return [...this.attrs].map(([name, value]) => ({ name, value })); }
  getAttribute(k) { return this.attrs.has(k) ? this.attrs.get(k) : null; }
  hasAttribute(k) { return this.attrs.has(k); }
  setAttribute(k, v) {
    const old = this.getAttribute(k);
    this.attrs.set(k, String(v));
    note({ type: "attributes", target: this, attributeName: k, oldValue: old });
  }
  removeAttribute(k) {
    const old = this.getAttribute(k);
    this.attrs.delete(k);
    note({ type: "attributes", target: this, attributeName: k, oldValue: old });
  }
  get id() { return this.getAttribute("id") || ""; }
  get type() { return this.getAttribute("type") || ""; }
  get className() { return this.getAttribute("class") || ""; }
  set className(v) { this.setAttribute("class", v); }
  get form() { return null; }
  get href() { return this.getAttribute("href") || ""; }
  matches(sel) {
    return sel.split(",").some((s) => {
      // compound selectors and descendants
      const parts = s.trim().split(/\s+/);
      if (!this.simple(parts.pop())) return false;
      let n = this.parentElement;
      while (parts.length) {
        while (n && !n.simple(parts[parts.length - 1])) n = n.parentElement;
        if (!n) return false;
        parts.pop();
        n = n.parentElement;
      }
      return true;
    });
  }
  simple(s) {
    const toks = s.match(/^\*|^[\w-]+|#[\w-]+|\.[\w-]+|\[[^\]]+\]/g);
    if (!toks || toks.join("") !== s) throw new Error("selector " + s);
    return toks.every((t) => {
      if (t === "*") return true;
      if (t[0] === "#") return this.id === t.slice(1);
      if (t[0] === ".") return this.classList.contains(t.slice(1));
      if (t[0] === "[") {
        const m = /^\[([^=\]]+)(?:=["']?([^"'\]]*)["']?)?\]$/.exec(t);
        const k = m[1].replace(/\\/g, "");
        return this.hasAttribute(k) && (m[2] === undefined || this.getAttribute(k) === m[2]);
      }
      return this.localName === t.toLowerCase();
    });
  }
  closest(sel) {
    for (let n = this; n; n = n.parentElement) if (n.matches(sel)) return n;
    return null;
  }
  set innerHTML(h) {
    this.sink = String(h);
    for (const c of [...this.childNodes]) c.remove();
    const f = new Fragment(this.ownerDocument);
    parse(String(h), f, this.ownerDocument);
    this.insert(0, [f]);
  }
  get innerHTML() { return this.childNodes.map(ser).join(""); }
  get outerHTML() { return ser(this); }
  get value() { return this.val !== undefined ? this.val : this.getAttribute("value") || ""; }
  set value(v) { this.val = v; }
  get dataset() { return Object.fromEntries(this.attributes.filter((a) => a.name.startsWith("data-")).map((a) => [camel(a.name.slice(5)), a.value])); }
  set innerText(t) { this.textContent = t; }
  get innerText() { return this.textContent; }
  bare(doc) {
    const n = new Element(doc, this.localName);
    n.attrs = new Map(this.attrs);
    if (this.content) n.content = this.content.copy(true, doc);
    return n;
  }
  focus() {}
  click() { this.dispatchEvent(new Event("click", { bubbles: true })); }
}

const esc = (t) => t.replace(/&/g, "&amp;").replace(/\u00a0/g, "&nbsp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const ser = (n) =>
  n.nodeType === 3
    ? RAW.has(n.parentNode && n.parentNode.localName) ? n.data : esc(n.data)
    : `<${n.localName}${n.attributes.map((a) => ` ${a.name}="${a.value.replace(/&/g, "&amp;").replace(/"/g, "&quot;")}"`).join("")}>` + (VOID.has(n.localName) ? "" : (n.content || n).childNodes.map(ser).join("") + `</${n.localName}>`);

class Document extends Node {
  constructor() { super(null, 9); this.ownerDocument = this; this.visibilityState = "visible"; this.readyState = "loading"; this.activeElement = null; }
  get documentElement() { return this.firstElementChild; }
  get body() { return this.getElementsByTagName("body")[0] || null; }
  get head() { return this.getElementsByTagName("head")[0] || null; }
  createElement(n) { return new Element(this, n.toLowerCase()); }
  createTextNode(t) { return new Text(this, t); }
  createDocumentFragment() { return new Fragment(this); }
  importNode(n, deep) { return n.copy(deep, this); }
  bare() { throw new Error("document"); }
}

function parse(src, root, doc) {
  const stack = [root];
  const top = () => stack[stack.length - 1];
  const into = () => (top().content && top().nodeType === 1 ? top().content : top());
  const put = (n) => { const p = into(); n.parentNode = p; p.childNodes.push(n); };
  const text = (t) => t && put(new Text(doc, entities(t)));
  let i = 0;
  const TAG = /<(\/?)([a-zA-Z][^\s\/>]*)((?:[^>"']|"[^"]*"|'[^']*')*?)(\/?)>/y;
  while (i < src.length) {
    const j = src.indexOf("<", i);
    if (j < 0) { text(src.slice(i)); break; }
    if (src.startsWith("<!--", j)) {
      text(src.slice(i, j));
      const k = src.indexOf("-->", j + 4);
      i = k < 0 ? src.length : k + 3;
      continue;
    }
    if (src[j + 1] === "!" || src[j + 1] === "?") {
      text(src.slice(i, j));
      const k = src.indexOf(">", j);
      i = k < 0 ? src.length : k + 1;
      continue;
    }
    TAG.lastIndex = j;
    const m = TAG.exec(src);
    if (!m) { text(src.slice(i, j + 1)); i = j + 1; continue; }
    text(src.slice(i, j));
    i = TAG.lastIndex;
    const name = m[2].toLowerCase();
    if (m[1]) {
      for (let k = stack.length - 1; k > 0; k--) if (stack[k].localName === name) { stack.length = k; break; }
      continue;
    }
    const el = new Element(doc, name);
    for (const a of m[3].matchAll(/([^\s=\/"'<>]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g)) {
      const k = a[1].toLowerCase();
      if (!el.attrs.has(k)) el.attrs.set(k, entities(a[2] ?? a[3] ?? a[4] ?? ""));
    }
    if (name === "li" && top().localName === "li") stack.pop();
    if (name === "p" && top().localName === "p") stack.pop();
    put(el);
    if (RAW.has(name)) {
      const re = new RegExp(`</${name}[\\s/>]`, "ig");
      re.lastIndex = i;
      const e = re.exec(src);
      const end = e ? e.index : src.length;
      if (end > i) { const t = new Text(doc, src.slice(i, end)); t.parentNode = el; el.childNodes.push(t); }
      i = e ? src.indexOf(">", end) + 1 : src.length;
    } else if (!VOID.has(name)) stack.push(el);
  }
}

// mutation records, delivered to the observers of the document
let observers = [];
let current = null;
function note(rec) {
  if (!current || !rec.target.isConnected) return;
  for (const o of observers) o.take(rec);
}

class MutationObserver {
  constructor(f) { this.f = f; this.records = []; this.on = false; }
  observe() { this.on = true; if (!observers.includes(this)) observers.push(this); }
  disconnect() { this.on = false; this.records = []; observers = observers.filter((o) => o !== this); }
  takeRecords() { const r = this.records; this.records = []; return r; }
  take(r) {
    this.records.push(r);
    if (this.records.length === 1) queueMicrotask(() => { const r = this.takeRecords(); if (r.length && this.on) this.f(r, this); });
  }
}

const compiled = new Map();
const compile = (src) => {
  if (src.length > 20000) {
    if (!compiled.has(src)) compiled.set(src, new vm.Script(src));
    return compiled.get(src);
  }
  return new vm.Script(src);
};

const settle = async () => {
  for (let i = 0; i < 2; i++) {
    await new Promise((r) => setTimeout(r, 0));
    for (let k = 0; k < 6; k++) await new Promise((r) => setImmediate(r));
  }
};

class FormData {
  constructor(form) { this.entries_ = []; this.form = form; }
  append(...a) { this.entries_.push(a); }
  set(...a) { this.entries_ = this.entries_.filter((e) => e[0] !== a[0]); this.entries_.push(a); }
}

class Page {
  constructor(req) {
    this.req = req;
    this.errors = [];
    this.went = [];
    this.asked = [];
    this.answers = [...(req.answers || [])];
  }
  async load() {
    observers = [];
    const page = this, req = this.req;
    const doc = (this.doc = new Document());
    current = doc;
    const win = new Target();
    doc.defaultView = win;
    const loc = { get href() { return req.url; }, set href(u) { page.went.push(u === null ? "null" : String(u)); }, assign: (u) => page.went.push(String(u)), replace: (u) => page.went.push(String(u)), pathname: req.url, origin: "http://localhost", reload() { page.went.push(req.url); } };
    const quiet = () => {};
    Object.assign(win, {
      document: doc, MutationObserver, Element, Node, Event, CustomEvent: Event, ShadowRoot: class {}, HTMLElement: Element, FormData, queueMicrotask, requestAnimationFrame: (f) => setTimeout(f, 0), setTimeout, clearTimeout,
      setInterval, clearInterval, TextDecoder, TextEncoder, TextDecoderStream, TransformStream, ReadableStream, Response, URL, URLSearchParams, structuredClone, Headers, AbortController, Promise,
      console: { log: quiet, info: quiet, debug: quiet, warn: (...a) => req.strict && page.errors.push("warning: " + a.map(String).join(" ")), error: (...a) => page.told(a) },
      navigator: { userAgent: "mc" }, alert: (t) => page.errors.push("alert " + t), fetch: (u, o) => page.fetch(u, o), getComputedStyle: (e) => e.style, history: { pushState: quiet, replaceState: quiet },
    });
    Object.defineProperty(win, "location", { get: () => loc, set: (u) => page.went.push(String(u)) });
    Object.defineProperty(doc, "location", { get: () => loc, set: (u) => page.went.push(String(u)) });
    for (const k of ["addEventListener", "removeEventListener", "dispatchEvent"]) win[k] = Target.prototype[k].bind(win);
    win.window = win.self = win.globalThis = win;
    const ctx = vm.createContext(win, { microtaskMode: undefined });
    this.ctx = ctx;
    parse(req.html, doc, doc);
    const late = [];
    const exec = (s) => {
      const src = s.getAttribute("src");
      const code = src !== null ? (req.files || {})[src.split("?")[0]] : s.textContent;
      if (code === undefined) { this.errors.push("no script " + src); return; }
      try { compile(code).runInContext(ctx); } catch (e) { this.errors.push("script: " + e); }
    };
    for (const s of doc.getElementsByTagName("script")) {
      if (s.getAttribute("type") && !/javascript|module/.test(s.getAttribute("type"))) continue;
      if (s.getAttribute("src") !== null && s.hasAttribute("defer")) late.push(s);
      else { exec(s); await null; }
    }
    doc.readyState = "interactive";
    for (const s of late) { exec(s); await null; }
    doc.dispatchEvent(new Event("DOMContentLoaded", { bubbles: true }));
    doc.readyState = "complete";
    win.dispatchEvent(new Event("load"));
    await settle();
  }
  told(a) { if (!this.expecting) this.errors.push("error: " + a.map((x) => (x && x.stack ? String(x) : String(x))).join(" ")); this.console = (this.console || 0) + 1; }
  fetch(url, o = {}) {
    const ans = this.answers.shift();
    this.asked.push({ url: String(url), method: o.method || "GET", headers: o.headers || {}, body: o.body && o.body.entries_ ? o.body.entries_.map((e) => e.map((x) => (x && x.name !== undefined ? { file: x.name } : x))) : o.body === undefined ? null : String(o.body) });
    if (!ans) return Promise.reject(new TypeError("no answer"));
    this.expecting = !!ans.error;
    if (ans.error) return Promise.reject(new TypeError("network"));
    const page = this;
    let flow;
    const body = new ReadableStream({ start(c) { flow = c; } }, { highWaterMark: 1e9 });
    this.flow = flow;
    const rsp = new Response(body, { status: ans.status, headers: { "content-type": ans.status === 200 ? "text/event-stream" : "text/html" } });
    if (ans.text !== undefined) { this.give({ data: ans.text }); this.give({ done: true }); }
    return Promise.resolve(rsp);
  }
  give(x) {
    if (!this.flow) return;
    if (x.error) { this.flow.error(new TypeError("network")); this.flow = null; }
    else if (x.done) { this.flow.close(); this.flow = null; }
    else this.flow.enqueue(Uint8Array.from(Buffer.from(x.data, "latin1")));
  }
  hidden(n) { return ["script", "style", "template", "head", "title"].includes(n.localName) || n.style.display === "none"; }
  // visible elements: [name, class, {attributes}, children and texts, id of the element]
  tree(n) {
    const out = [];
    for (const c of n.childNodes) {
      if (c.nodeType === 3) { const t = c.data.replace(/\s+/g, " "); if (t.trim()) out.push(this.req.exact ? c.data : t.trim()); }
      else if (c.nodeType === 1 && !this.hidden(c)) {
        this.els.push(c);
        const at = {};
        for (const k of ["href", "download", "max", "id", "type", "name"]) if (c.hasAttribute(k)) at[k] = c.getAttribute(k);
        if (c.localName === "progress") at.value = String(c.value);
        const me = { t: c.localName, c: c.className, n: this.els.length - 1, a: at };
        if (c.sink !== undefined) me.h = c.sink;
        me.k = this.tree(c);
        out.push(me);
      }
    }
    return out;
  }
  shot() {
    this.els = [];
    return { body: this.tree(this.doc), went: this.went, asked: this.asked, errors: this.errors, console: this.console || 0 };
  }
  async act(a) {
    if (a.click !== undefined) this.els[a.click].click();
    else if (a.file !== undefined) {
      for (const el of this.doc.all()) if (el.localName === "input" && el.type === "file") {
        el.files = [{ name: a.file, size: 1 }];
        el.value = "C:\\fakepath\\" + a.file;
        el.dispatchEvent(new Event("input", { bubbles: true }));
        el.dispatchEvent(new Event("change", { bubbles: true }));
      }
    } else if (a.submit !== undefined) {
      const f = this.doc.getElementsByTagName("form")[0];
      const ev = new Event("submit", { bubbles: true });
      f.dispatchEvent(ev);
      if (!ev.defaultPrevented) this.went.push("form");
    } else if (a.data !== undefined) this.give({ data: a.data });
    else if (a.end) this.give({ done: true });
    else if (a.fail) { this.expecting = true; //
      this.give({ error: true }); }
    else if (a.answer) this.answers.push(a.answer);
    await settle();
  }
}

let page = null;
const main = async (req) => {
  if (req.html !== undefined) { page = new Page(req); await page.load(); }
  const shots = [];
  if (req.first) shots.push(page.shot());
  for (const a of req.acts || []) { await page.act(a); if (!a.silent) shots.push(page.shot()); }
  return shots;
};

process.on("unhandledRejection", (e) => { if (page) page.errors.push("rejection: " + e); });
process.on("uncaughtException", (e) => { if (page) page.errors.push("exception: " + e); });
const rl = readline.createInterface({ input: process.stdin, terminal: false });
let chain = Promise.resolve();
rl.on("line", (line) => {
  chain = chain.then(async () => {
    let out;
    try { out = { shots: await main(JSON.parse(line)) }; } catch (e) { out = { fault: String(e.stack || e) }; }
    process.stdout.write(JSON.stringify(out) + "\n");
  });
});
