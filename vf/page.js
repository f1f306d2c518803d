// Runs the page's own scripts (prepare_deployment.js, solver_metadata.js, app.js) with stand-ins for the DOM, penpa-edit, PyScript and
// clingo.  Commands come as JSON lines on stdin; calls for Python and clingo go out on one pipe and are answered on another.
"use strict";
const fs = require("fs");
const path = require("path");
const vm = require("vm");
const dir = process.argv[2], OUT = Number(process.argv[3]), IN = Number(process.argv[4]);
process.on("unhandledRejection", () => {});

let inbuf = "";
function recv() {
  const b = Buffer.alloc(65536);
  while (!inbuf.includes("\n")) {
    const n = fs.readSync(IN, b, 0, b.length, null);
    if (n === 0) process.exit(0);
    inbuf += b.toString("latin1", 0, n);
  }
  const i = inbuf.indexOf("\n");
  const line = inbuf.slice(0, i);
  inbuf = inbuf.slice(i + 1);
  return JSON.parse(line);
}
function send(o) {
  const b = Buffer.from(JSON.stringify(o).replace(/[\u007f-\uffff]/g, (c) => "\\u" + ("0000" + c.charCodeAt(0).toString(16)).slice(-4)) + "\n");
  let p = 0;
  while (p < b.length) p += fs.writeSync(OUT, b, p);
}
function rpc(o) {
  send(o);
  const a = recv();
  if (a.raised) throw new Error(a.raised);
  return a.value;
}

class Style {}
const byId = new Map();
class El {
  constructor(tag) {
    this.tag = tag;
    this.style = new Style();
    this.kids = [];
    this.handlers = {};
    this._value = "";
    this._id = "";
    this._type = tag === "select" ? "select-one" : "text";
    this.checked = false;
    this.disabled = false;
    this.textContent = "";
    this.attrs = {};
  }
  get id() { return this._id; }
  set id(v) { this._id = v; byId.set(v, this); }
  get type() { return this._type; }
  set type(v) { if (this.tag !== "select") this._type = v; }
  get value() {
    if (this.tag === "select" && this.kids.length) return this._chosen === undefined ? this.kids[0].value : this._chosen;
    return this._value;
  }
  set value(v) {
    v = String(v);
    if (this.tag === "select" && this.kids.length) this._chosen = this.kids.some((k) => k.value === v) ? v : "";
    else if (this._type === "number" && !(v.trim() === v && v !== "" && Number.isFinite(Number(v)))) this._value = "";
    else this._value = v;
  }
  get firstChild() { return this.kids[0]; }
  get lastChild() { return this.kids[this.kids.length - 1]; }
  appendChild(k) { this.kids.push(k); return k; }
  append(...ks) { this.kids.push(...ks); }
  removeChild(k) { this.kids.splice(this.kids.indexOf(k), 1); return k; }
  replaceChildren(...ks) { this.kids = ks; }
  remove() {}
  setAttribute(k, v) { this.attrs[k] = v; }
  getAttribute(k) { return this.attrs[k]; }
  addEventListener(ev, f) { (this.handlers[ev] = this.handlers[ev] || []).push(f); }
  removeEventListener() {}
  focus() {}
  querySelector() { return new El("div"); }
  get classList() { return { add() {}, remove() {}, toggle() {}, contains() { return false; } }; }
  async fire(ev) {
    const e = { type: ev, target: this, currentTarget: this, preventDefault() {}, stopPropagation() {} };
    for (const f of [this["on" + ev], ...(this.handlers[ev] || [])]) if (f) await f.call(this, e);
  }
}
const g = globalThis;
const el = (id) => { if (!byId.has(id)) { const e = new El("div"); e.id = id; } return byId.get(id); };
const head = new El("head");
g.window = g;
g.self = g;
g.document = {
  head, body: new El("body"), getElementById: el, createElement: (t) => new El(t), querySelectorAll: () => [],
  querySelector: (q) => { const m = /^\w*#([\w-]+)$/.exec(q); return m ? el(m[1]) : new El("input"); },
  addEventListener(ev, f) { if (ev === "DOMContentLoaded") f(); }, getElementsByTagName: () => [],
};
g.$ = (q) => (typeof q === "function" ? q() : { on: (_, f) => f(), ready: (f) => f(), val() {}, prop() {} });
g.addEventListener = (ev, f) => { if (ev === "load" || ev === "DOMContentLoaded") f(); };
g.Option = function (text, value) { const o = new El("option"); o.text = text; o.value = value; return o; };
g.focus = () => {};
g.open = () => {};
const locked = new Set();
const offered = { types: [], examples: [] };
g.Choices = class {
  constructor(e) { this.e = e; }
  setChoices(c) {
    if (this.e === el("type")) offered.types = c;
    else {
      offered.examples = c;
      const s = c.find((x) => x.selected);
      if (s) this.e.value = String(s.value);
    }
    return this;
  }
  clearStore() { return this; }
  clearChoices() { return this; }
  enable() { locked.delete(this.e.id); return this; }
  disable() { locked.add(this.e.id); return this; }
};
let manual = null, opened = 0;   // manual: step by step, the answers to requests come when asked for
let content = "", loads = [], alerts = [], imported = [], sent = [];
g.Swal = { fire: (o) => { alerts.push(o); return Promise.resolve({}); } };
g.pu = { maketext: () => "https://swaroopg92.github.io/penpa-edit/#" + content, space: [0, 0, 0, 0] };
g.import_url = (u) => imported.push(u);
g.load = (u) => loads.push(u);
g.create_newboard = () => { opened++; };
g.advancecontrol_toggle = () => {};
g.Worker = class { terminate() { if (manual) manual.dropped(); } };
g.clingo = {
  init: async () => {},
  worker: new g.Worker(),
  run: async (...args) => (manual ? manual.run(args) : rpc({ clingo: args })),
};
class PyDict {
  constructor(o) { this.o = o; }
  get(k) { return this.o[k]; }
}
for (const f of ["prepare_puzzle", "generate_program", "store_solution"]) {
  g[f] = (...args) => {
    if (f === "prepare_puzzle") sent.push(args[2]);
    if (manual) return new PyDict(manual.call(f, args));
    return new PyDict(rpc({ call: f, args: args.map((a) => (a === undefined ? null : a)) }));
  };
}
g.fetch = async (url, o) => {
  if (manual) return manual.fetch(url, o);
  const a = rpc({ fetch: url, body: o && o.body, method: o && o.method });
  sent.push(JSON.parse(o.body).param);
  return { status: a.status, ok: a.status < 400, json: async () => JSON.parse(a.body) };
};
el("solve").textContent = "Solve";
const quiet = () => {};
g.console = { log: quiet, info: quiet, warn: quiet, error: quiet, debug: quiet };

for (const f of ["prepare_deployment.js", "solver_metadata.js", "app.js"]) vm.runInThisContext(fs.readFileSync(path.join(dir, f), "utf-8"), { filename: f });

const tick = () => new Promise((r) => setImmediate(r));
async function settle() { for (let i = 0; i < 12; i++) await tick(); }

async function command(c) {
  loads = []; alerts = []; imported = []; sent = [];
  content = c.content;
  const type = el("type"), example = el("example"), solve = el("solve"), reset = el("solver_reset");
  type.value = c.name;
  await type.fire("change");
  if (c.example !== null && c.example !== undefined) {
    example.value = String(c.example);
    await example.fire("change");
  }
  for (const [k, v] of Object.entries(c.set || {})) {
    const p = el("param_" + k);
    if (p.type === "checkbox") p.checked = v;
    else p.value = v;
  }
  await solve.fire("click");
  await settle();
  const label = solve.textContent;
  const first = loads.length;
  const m = /\/(\d+)/.exec(label);
  let cycled = false;
  if (first === 1 && m && Number(m[1]) > 1 && !solve.disabled) {
    for (let i = 0; i < Number(m[1]); i++) { await solve.fire("click"); await settle(); }
    cycled = true;
  }
  const out = { loads, cycled, label, disabled: solve.disabled, alerts: alerts.map((a) => ({ title: a.title, text: a.text && a.text.message !== undefined ? "E:" + a.text.message : String(a.text) })), sent, imported };
  await reset.fire("click");
  await settle();
  out.after = solve.textContent;
  return out;
}

// ---- one action of the user (or of the network) at a time
class Manual {
  constructor() { this.open = []; this.last = null; this.plan = null; this.requests = []; }
  wait(rec) { return new Promise((ok, no) => this.open.push({ ok, no, rec })); }
  fetch(url, o) {
    const b = JSON.parse(o.body);
    this.requests.push({ url, name: b.puzzle_name, puzzle: b.puzzle, param: b.param });
    const p = this.wait("fetch"), x = this.open[this.open.length - 1];
    if (o.signal) o.signal.addEventListener("abort", () => { x.dead = true; x.no(new DOMException("The operation was aborted.", "AbortError")); });
    return p;
  }
  call(f, args) {
    if (f === "prepare_puzzle") {
      this.requests.push({ name: args[0], puzzle: args[1], param: args[2] });
      return this.plan.prepare ? { success: false, result: this.plan.prepare } : { success: true, result: "P" };
    }
    if (f === "generate_program") return this.plan.generate ? { success: false, result: this.plan.generate } : { success: true, result: "program" };
    return { success: true, result: "link:" + args[1] };
  }
  run() { return this.wait("run"); }
  dropped() { for (const x of this.open) if (x.rec === "run") x.dead = true; }
  deliver(i, how) {
    const x = this.open.splice(i, 1)[0];
    if (!x || x.dead) return;
    if (x.rec === "fetch") {
      if (how.fail) x.no(new TypeError("Failed to fetch"));
      else x.ok({ status: how.status, ok: how.status < 400, json: async () => JSON.parse(how.body), text: async () => how.body });
    } else x.ok(how.result);
  }
}
async function step(c) {
  loads = []; alerts = []; imported = []; sent = []; opened = 0;
  manual = manual || new Manual();
  manual.requests = [];
  if (c.plan) manual.plan = c.plan;
  if (c.do === "type" || c.do === "example") {
    el(c.do).value = String(c.value);
    await el(c.do).fire("change");
  } else if (c.do === "draw") content = c.value;
  else if (c.do === "set") {
    const p = el("param_" + c.key);
    if (p.type === "checkbox") p.checked = c.value;
    else p.value = c.value;
  } else if (c.do === "solve") el("solve").fire("click").catch(() => {});
  else if (c.do === "reset") el("solver_reset").fire("click").catch(() => {});
  else if (c.do === "deliver") manual.deliver(c.index, c.how);
  await settle();
  const controls = {};
  for (const k of c.controls || []) { const p = el("param_" + k); controls[k] = p.type === "checkbox" ? p.checked : p.value; }
  return {
    loads, imported, opened, requests: manual.requests, controls, open: manual.open.length, label: el("solve").textContent, disabled: el("solve").disabled,
    locked: [...locked].sort(), example: el("example").value, alerts: alerts.map((a) => String(a.title) + " / " + (a.text && a.text.message !== undefined ? a.text.message : String(a.text))),
  };
}

let buf = "";
let busy = Promise.resolve();
process.stdin.setEncoding("utf-8");
process.stdin.on("data", (s) => {
  buf += s;
  let i;
  while ((i = buf.indexOf("\n")) >= 0) {
    const line = buf.slice(0, i);
    buf = buf.slice(i + 1);
    busy = busy.then(async () => {
      try { const c = JSON.parse(line); send({ done: await (c.do ? step(c) : command(c)) }); } catch (e) { send({ broken: String(e && e.stack) }); }
    });
  }
});
process.stdin.on("end", () => process.exit(0));
settle().then(() => send({ ready: { types: offered.types, deployed: head.kids.map((k) => k.src || k.href) } }));
