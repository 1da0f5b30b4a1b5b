/*
 * A small browser: enough of the DOM for a served page to run in, driven
 * through lines of JSON (standard input), answering with lines of JSON.
 */
"use strict";

const vm = require("node:vm");
const readline = require("node:readline");

let events = [];
const note = (kind, data) => events.push([ kind, data ]);

/* Selectors. */

function unescapeIdent(text) {
  return text.replace(/\\([0-9a-fA-F]{1,6})\s?|\\(.)/g,
                      (_, hex, chr) => hex ? String.fromCodePoint(
                                                 parseInt(hex, 16))
                                           : chr);
}

const PART =
    /^(?:([#.])((?:\\[0-9a-fA-F]{1,6}\s?|\\.|[\w\-\u0080-\uffff])+)|\[([\w-]+)=(['"])(.*?)\4\]|([a-zA-Z][\w-]*|\*))/;

function parseSelector(text) {
  const out = [];
  let rest = text.trim();
  let combinator = " ";
  while (rest) {
    const compound = [];
    let match;
    while ((match = PART.exec(rest))) {
      if (match[1] == "#") {
        compound.push([ "id", unescapeIdent(match[2]) ]);
      } else if (match[1] == ".") {
        compound.push([ "class", unescapeIdent(match[2]) ]);
      } else if (match[3]) {
        compound.push([ "attr", match[3], unescapeIdent(match[5]) ]);
      } else {
        compound.push([ "tag", match[6].toUpperCase() ]);
      }
      rest = rest.slice(match[0].length);
    }
    if (!compound.length) {
      const error = new Error(`'${text}' is not a valid selector`);
      error.name = "SyntaxError";
      throw error;
    }
    out.push([ combinator, compound ]);
    match = /^\s*([> ])\s*/.exec(rest);
    if (match) {
      combinator = match[1];
      rest = rest.slice(match[0].length);
    } else if (rest) {
      const error = new Error(`'${text}' is not a valid selector`);
      error.name = "SyntaxError";
      throw error;
    }
  }
  if (!out.length) {
    throw new Error("empty selector");
  }
  return out;
}

function compoundMatches(elem, compound) {
  for (const part of compound) {
    switch (part[0]) {
    case "id":
      if (elem.id !== part[1])
        return false;
      break;
    case "class":
      if (!elem.classList.contains(part[1]))
        return false;
      break;
    case "attr":
      if (elem.getAttribute(part[1]) !== part[2])
        return false;
      break;
    case "tag":
      if (part[1] != "*" && elem.tagName != part[1])
        return false;
      break;
    }
  }
  return true;
}

function selectorMatches(elem, selector, idx) {
  if (!compoundMatches(elem, selector[idx][1])) {
    return false;
  }
  if (idx == 0) {
    return true;
  }
  let parent = elem.parentElement;
  while (parent) {
    if (selectorMatches(parent, selector, idx - 1)) {
      return true;
    }
    if (selector[idx][0] == ">") {
      return false;
    }
    parent = parent.parentElement;
  }
  return false;
}

/* Elements. */

class ClassList {
  constructor(text) {
    this.items = new Set((text || "").split(/\s+/).filter((x) => x));
  }
  add(...names) { names.forEach((x) => this.items.add(x)); }
  remove(...names) { names.forEach((x) => this.items.delete(x)); }
  contains(name) { return this.items.has(name); }
  toggle(name) {
    this.contains(name) ? this.remove(name) : this.add(name);
    return this.contains(name);
  }
}

class Target {
  constructor() { this.listeners = []; }

  addEventListener(type, func, options) {
    if (!this.listeners.some((x) => x.type == type && x.func === func)) {
      this.listeners.push({type, func, once : Boolean(options && options.once)});
    }
  }

  removeEventListener(type, func) {
    this.listeners =
        this.listeners.filter((x) => x.type != type || x.func !== func);
  }

  dispatch(type, data) {
    const event = Object.assign(
        {type, target : this, currentTarget : this, preventDefault() {}},
        data || {});
    const handler = this["on" + type];
    if (typeof handler == "function") {
      run(() => handler.call(this, event));
    }
    for (const item of [...this.listeners]) {
      if (item.type == type && this.listeners.includes(item)) {
        if (item.once) {
          this.listeners.splice(this.listeners.indexOf(item), 1);
        }
        run(() => item.func.call(this, event));
      }
    }
  }
}

/* Exceptions in handlers don't end other handlers (they're reported). */
function run(func) {
  try {
    const result = func();
    if (result && typeof result.then == "function") {
      result.then(undefined, (error) => note("error", describe(error)));
    }
    return result;
  } catch (error) {
    note("error", describe(error));
  }
}

function describe(error) {
  return error && error.stack ? String(error.stack).slice(0, 600)
                              : String(error);
}

class Canvas {
  constructor(owner) {
    this.owner = owner;
    this.width = 300;
    this.height = 150;
    this.texts = [];
    this.shape = null;
  }

  getContext(kind) {
    if (this.shape !== null && this.shape != kind) {
      return null;
    }
    this.shape = kind;
    const canvas = this;
    return {
      clearRect() { canvas.texts = []; },
      fillRect() {},
      fillText(text, x, y) { canvas.texts.push(String(text)); },
    };
  }
}

class Element extends Target {
  constructor(page, tree, parent) {
    super();
    this.page = page;
    this.tagName = tree.tag.toUpperCase();
    this.attributes = tree.attrs;
    this.parentElement = parent;
    this.classList = new ClassList(tree.attrs["class"]);
    this.style = {};
    for (const item of (tree.attrs["style"] || "").split(";")) {
      const [key, val] = item.split(":");
      if (val) {
        this.style[key.trim()] = val.trim();
      }
    }
    this.textContent = tree.text;
    this.html = tree.text;
    this.clientWidth = 640;
    this.clientHeight = 480;
    this.scrollHeight = 100;
    this.children = tree.items.map((x) => new Element(page, x, this));
    this.checked = "checked" in tree.attrs;
    this._value = tree.attrs["value"];
    if (this.tagName == "TEXTAREA") {
      this._value = tree.text;
    }
    if (this.tagName == "SELECT") {
      const options = this.querySelectorAll("option");
      const first =
          options.find((x) => "selected" in x.attributes) || options[0];
      this._value = first ? first.value : "";
    }
  }

  get value() {
    if (this._value !== undefined && this._value !== null) {
      return this._value;
    }
    return this.tagName == "OPTION" ? this.textContent : "";
  }
  set value(data) {
    data = String(data);
    if (this.tagName == "SELECT" &&
        !this.querySelectorAll("option").some((x) => x.value == data)) {
      data = "";
    }
    this._value = data;
  }

  get id() { return this.attributes["id"] || ""; }
  get title() { return this.attributes["title"] || ""; }
  set title(data) { this.attributes["title"] = String(data); }
  get innerHTML() { return this.html; }
  set innerHTML(data) {
    this.html = String(data);
    this.children = [];
  }

  getAttribute(name) {
    return name in this.attributes ? this.attributes[name] : null;
  }
  setAttribute(name, value) { this.attributes[name] = String(value); }

  *all() {
    for (const child of this.children) {
      yield child;
      yield* child.all();
    }
  }

  querySelectorAll(text) {
    const selector = parseSelector(text);
    const out = [];
    for (const elem of this.all()) {
      if (selectorMatches(elem, selector, selector.length - 1)) {
        out.push(elem);
      }
    }
    return out;
  }
  querySelector(text) {
    const found = this.querySelectorAll(text);
    return found.length ? found[0] : null;
  }

  get nextElementSibling() {
    const items = this.parentElement.children;
    return items[items.indexOf(this) + 1] || null;
  }

  click() {
    if (this.tagName == "INPUT" && this.attributes["type"] == "checkbox") {
      this.checked = !this.checked;
      this.dispatch("click");
      this.dispatch("change");
      return;
    }
    this.dispatch("click");
    const kind = this.attributes["data-bs-toggle"];
    if (kind == "pill" || kind == "tab") {
      this.page.selectTab(this);
    } else if (kind == "collapse") {
      const sel = this.attributes["data-bs-target"];
      for (const elem of this.page.document.querySelectorAll(sel)) {
        elem.classList.toggle("show");
      }
    }
  }

  getBoundingClientRect() {
    return {left : 0, right : 100, top : 0, bottom : 10, width : 100,
            height : 10};
  }
  scrollTo() {}

  transferControlToOffscreen() {
    if (this.offscreen) {
      throw new Error("InvalidStateError");
    }
    this.offscreen = new Canvas(this);
    this.page.canvases.push(this.offscreen);
    return this.offscreen;
  }
}

/* What's posted between threads is copied. */
function clone(data) {
  if (data instanceof Canvas || data === null || typeof data != "object") {
    if (typeof data == "function") {
      throw new Error("DataCloneError");
    }
    return data;
  }
  if (Array.isArray(data)) {
    return data.map(clone);
  }
  const out = {};
  for (const key of Object.keys(data)) {
    out[key] = clone(data[key]);
  }
  return out;
}

function cssEscape(text) {
  let out = "";
  for (let i = 0; i < text.length; i++) {
    const chr = text[i];
    const code = text.charCodeAt(i);
    const digit = chr >= "0" && chr <= "9";
    if (code == 0) {
      out += "\ufffd";
    } else if (code < 0x20 || code == 0x7f || (i == 0 && digit) ||
               (i == 1 && digit && text[0] == "-")) {
      out += "\\" + code.toString(16) + " ";
    } else if (i == 0 && chr == "-" && text.length == 1) {
      out += "\\" + chr;
    } else if (code >= 0x80 || /[\w-]/.test(chr)) {
      out += chr;
    } else {
      out += "\\" + chr;
    }
  }
  return out;
}

class Page {
  constructor(data) {
    this.config = data.config;
    this.canvases = [];
    this.plots = [];
    this.frames = {main : [], worker : []};
    this.sockets = {};
    this.queue = [];
    this.seed = data.seed || 1;

    this.document = new Element(this, data.tree, null);
    this.body = this.document.querySelector("body");
    this.document.getElementById = (ident) => {
      for (const elem of this.document.all()) {
        if (elem.id === ident) {
          return elem;
        }
      }
      return null;
    };

    const page = this;
    this.location = {
      protocol : "http:",
      hostname : data.hostname || "localhost",
      origin : "http://localhost:8000",
      pathname : data.pathname || "/index.html",
      get hash() { return this._hash ? "#" + this._hash : ""; },
      set hash(text) { this._hash = String(text).replace(/^#/, ""); },
      _hash : data.hash || "",
      reload() { note("reload", true); },
    };

    const bound = (who) => ({
      console : {
        log : (...args) => note("log", args.map((x) => {
          try {
            return typeof x == "string" ? x : JSON.stringify(x);
          } catch (error) {
            return String(x);
          }
        }).join(" ")),
        error : (...args) => note("log", args.map(String).join(" ")),
      },
      requestAnimationFrame : (func) => { page.frames[who].push(func); },
      setTimeout,
      clearTimeout,
    });

    /* The page's thread. */
    this.window = new Target();
    Object.assign(this.window, bound("main"), {
      document : this.document,
      location : this.location,
      innerWidth : 1000,
      CSS : {escape : cssEscape},
      URL : {createObjectURL : (blob) => blob},
      Blob : class {
        constructor(parts) { this.text = Array.from(parts).join(""); }
      },
      Worker : class extends Target {
        constructor(blob) {
          super();
          page.worker = this;
          page.startWorker(blob.text);
        }
        postMessage(message) {
          note("posted", null);
          page.queue.push([ "worker", clone(message) ]);
        }
      },
      ResizeObserver : class {
        constructor(func) { this.func = func; }
        observe(elem) { elem.observer = this; }
        unobserve(elem) { elem.observer = null; }
      },
      bootstrap : {
        Tooltip : class {},
        Tab : {
          getInstance : (elem) =>
              elem.classList.contains("active") || elem.instance
                  ? {}
                  : null,
        },
      },
      fetch : async (path) => {
        note("fetch", path);
        return {json : async () => clone(page.config)};
      },
      getComputedStyle : (elem) =>
          ({getPropertyValue : (name) => elem.style[name] ?? 1}),
      open : (...args) => { note("open", args.map(String)); },
      addEventListener : Target.prototype.addEventListener,
    });
    this.window.window = this.window;
    vm.createContext(this.window);
    /* (Reproducible colors.) */
    this.window.__seed = this.seed;
    vm.runInContext(
        `Math.random = () => {
           __seed = (__seed * 16807) % 2147483647;
           return __seed / 2147483647;
         };`,
        this.window);
    this.bound = bound;
  }

  start() {
    for (const elem of this.document.querySelectorAll("script")) {
      const kind = elem.attributes["type"];
      if (!elem.attributes["src"] &&
          (!kind || kind == "text/javascript" || kind == "module")) {
        run(() => vm.runInContext(elem.textContent, this.window));
      }
    }
    this.window.onload && run(() => this.window.onload());
  }

  startWorker(source) {
    const page = this;
    const glob = new Target();
    Object.assign(glob, this.bound("worker"), {
      TextEncoder,
      TextDecoder,
      postMessage : (message) => { page.queue.push([ "main", clone(message) ]); },
      WebSocket : class extends Target {
        constructor(url) {
          super();
          this.url = url;
          this.state = 0;
          page.sockets[url] = this;
          note("socket", url);
        }
        send(data) {
          if (this.state != 1) {
            throw new Error("InvalidStateError: not open");
          }
          const raw = data instanceof Uint8Array
                          ? data
                          : new Uint8Array(data);
          note("sent",
               [ this.url, Buffer.from(raw).toString("base64"),
                 typeof data == "string" ]);
        }
      },
      WebglPlotBundle : {
        ColorRGBA : class {
          constructor(r, g, b, a) { this.rgba = [ r, g, b, a ]; }
        },
        WebglLine : class {
          constructor(color, count) {
            this.color = color;
            this.numPoints = count;
            this.xs = new Float64Array(count);
            this.ys = new Float64Array(count);
          }
          setX(idx, val) {
            if (!(idx >= 0 && idx < this.numPoints)) {
              note("error", `setX(${idx}) of ${this.numPoints}`);
            }
            this.xs[idx] = val;
          }
          setY(idx, val) {
            if (!(idx >= 0 && idx < this.numPoints)) {
              note("error", `setY(${idx}) of ${this.numPoints}`);
            }
            this.ys[idx] = val;
          }
        },
        WebglPlot : class {
          constructor(canvas) {
            this.canvas = canvas;
            this.lines = [];
            this.view = null;
            this.drawn = [];
            page.plots.push(this);
            if (canvas.getContext("webgl") === null) {
              throw new Error("no webgl context");
            }
          }
          removeAllLines() { this.lines = []; }
          addLine(line) { this.lines.push(line); }
          viewport(...args) { this.view = args; }
          update() { this.drawn = [...this.lines]; }
        },
      },
    });
    vm.createContext(glob);
    this.global = glob;
    /* (Dependencies aren't loaded from the network.) */
    vm.runInContext("Math.random = () => 0.5;", glob);
    run(() => vm.runInContext(
            source, glob,
            {importModuleDynamically : vm.constants ? undefined : undefined}));
  }

  selectTab(button) {
    if (button.classList.contains("active")) {
      return;
    }
    button.instance = true;
    const previous =
        this.document.querySelectorAll("button.active")
            .filter((x) => x.attributes["data-bs-toggle"] ==
                           button.attributes["data-bs-toggle"]);
    for (const elem of previous) {
      elem.classList.remove("active");
    }
    button.classList.add("active");
    for (const elem of previous) {
      elem.dispatch("hidden.bs.tab");
    }
    button.dispatch("shown.bs.tab");
  }

  /* Let everything that's pending happen, in order. */
  async settle() {
    for (let idle = 0; idle < 3;) {
      await new Promise((resolve) => setImmediate(resolve));
      if (this.queue.length) {
        idle = 0;
        const [who, data] = this.queue.shift();
        const event = {data};
        if (who == "worker") {
          if (typeof this.global.onmessage == "function") {
            run(() => this.global.onmessage(event));
          }
        } else {
          this.worker.dispatch("message", event);
        }
      } else {
        idle++;
      }
    }
  }

  frame(who, time) {
    const pending = this.frames[who];
    this.frames[who] = [];
    for (const func of pending) {
      run(() => func(time));
    }
  }
}

/* Commands. */

let page = null;

function find(data) {
  let root = page.document;
  if (data.root !== undefined) {
    root = page.document.getElementById(data.root);
  }
  return root.querySelectorAll(data.sel);
}

function read(elem, prop) {
  if (prop.startsWith("style.")) {
    const val = elem.style[prop.slice(6)];
    return val === undefined ? null : val;
  }
  if (prop.startsWith("class.")) {
    return elem.classList.contains(prop.slice(6));
  }
  if (prop.startsWith("attr.")) {
    return elem.getAttribute(prop.slice(5));
  }
  return elem[prop];
}

const commands = {
  load(data) {
    page = new Page(data);
    page.start();
  },
  open(data) {
    const sock = page.sockets[data.url];
    sock.state = 1;
    sock.dispatch("open");
  },
  close(data) {
    const sock = page.sockets[data.url];
    sock.state = 3;
    sock.dispatch("close");
  },
  receive(data) {
    const raw = Buffer.from(data.data, "base64");
    /* (Browsers hand buffers of exactly this size to the page.) */
    const copy = new ArrayBuffer(raw.length);
    new Uint8Array(copy).set(raw);
    page.sockets[data.url].dispatch("message", {data : copy});
  },
  frame(data) { page.frame(data.who, data.time); },
  get(data) {
    return find(data).map((elem) => data.props.map((x) => read(elem, x)));
  },
  set(data) {
    const elem = find(data)[data.index || 0];
    elem[data.prop] = data.value;
  },
  dispatch(data) {
    const elem = data.document ? page.document
                               : find(data)[data.index || 0];
    const event = Object.assign({}, data.event || {});
    if (data.target !== undefined) {
      event.target = find(data.target)[data.target.index || 0];
    }
    elem.dispatch(data.type, event);
  },
  click(data) { find(data)[data.index || 0].click(); },
  resize(data) {
    const elem = find(data)[0];
    elem.clientWidth = data.width;
    elem.clientHeight = data.height;
    if (elem.observer) {
      run(() => elem.observer.func([], elem.observer));
    }
  },
  location() { return page.location.hash; },
  plots() {
    return page.plots.map((plot) => ({
                            id : plot.canvas.owner.id,
                            size : [ plot.canvas.width, plot.canvas.height ],
                            view : plot.view,
                            lines : plot.drawn.map((x) => ({
                                                     rgba : x.color.rgba,
                                                     xs : Array.from(x.xs),
                                                     ys : Array.from(x.ys),
                                                   })),
                          }));
  },
  texts() {
    return page.canvases.map((x) => [x.owner.id, x.texts,
                                     [ x.width, x.height ]]);
  },
};

/* Numbers that JSON doesn't have. */
const replace = (key, val) =>
    typeof val == "number" && !Number.isFinite(val) ? String(val) : val;

process.on("unhandledRejection", (error) => {
  const text = describe(error);
  if (!text.includes("ERR_VM_DYNAMIC_IMPORT")) {
    note("error", text);
  }
});

async function main() {
  for await (const line of readline.createInterface({input : process.stdin})) {
    const data = JSON.parse(line);
    let result = null;
    for (const item of data) {
      let value = null;
      try {
        value = commands[item.op](item);
      } catch (error) {
        note("harness", describe(error));
      }
      if (page) {
        await page.settle();
      }
      result = value === undefined ? null : value;
    }
    process.stdout.write(JSON.stringify({result, events}, replace) + "\n");
    events = [];
  }
}

main();
