// The environment of the extension: VS Code's documents, editors, events and dialogs, and the processes it starts.
// Everything asynchronous is resolved only by an explicit step(), so an execution is determined by its list of steps.
"use strict";
const { EventEmitter } = require("events"), zlib = require("zlib");
const IntervalTree = require("./interval.cjs");

class Position {
  constructor(line, character) { this.line = line; this.character = character; }
  isBefore(o) { return this.line < o.line || (this.line === o.line && this.character < o.character); }
  isEqual(o) { return this.line === o.line && this.character === o.character; }
  isAfter(o) { return o.isBefore(this); }
  isBeforeOrEqual(o) { return !this.isAfter(o); }
  isAfterOrEqual(o) { return !this.isBefore(o); }
  compareTo(o) { return this.isBefore(o) ? -1 : this.isEqual(o) ? 0 : 1; }
  translate(l = 0, c = 0) { return new Position(this.line + l, this.character + c); }
  with(line = this.line, character = this.character) { return new Position(line, character); }
}
class Range {
  constructor(a, b, c, d) {
    let [s, e] = typeof a === "number" ? [new Position(a, b), new Position(c, d)] : [a, b];
    if (e.isBefore(s)) [s, e] = [e, s];
    this.start = s; this.end = e;
  }
  get isEmpty() { return this.start.isEqual(this.end); }
  get isSingleLine() { return this.start.line === this.end.line; }
  contains(x) {
    if (x instanceof Range) return this.contains(x.start) && this.contains(x.end);
    return this.start.isBeforeOrEqual(x) && x.isBeforeOrEqual(this.end);
  }
  isEqual(o) { return this.start.isEqual(o.start) && this.end.isEqual(o.end); }
  intersection(o) {
    const s = this.start.isAfter(o.start) ? this.start : o.start, e = this.end.isBefore(o.end) ? this.end : o.end;
    return s.isAfter(e) ? undefined : new Range(s, e);
  }
}
class Selection extends Range {
  constructor(a, b, c, d) {
    super(a, b, c, d);
    [this.anchor, this.active] = typeof a === "number" ? [new Position(a, b), new Position(c, d)] : [a, b];
  }
  get isReversed() { return this.active.isBefore(this.anchor); }
}

class Document {
  constructor(world, fileName, languageId, text) {
    Object.assign(this, { world, fileName, languageId, text, isDirty: false, version: 1, isUntitled: false, isClosed: false, eol: text.includes("\r\n") ? 2 : 1 });
    this.uri = { fsPath: fileName, path: fileName, scheme: "file", toString: () => "file://" + fileName };
    this.disk = text;
    this.setText(text);
  }
  setText(text) { this.text = text; this.nl = text.includes("\r\n") ? 2 : 1; this.lines = text.split(/\r?\n/); this.version++; }
  get lineCount() { return this.lines.length; }
  getText(range) { return range ? this.text.slice(this.offsetAt(range.start), this.offsetAt(range.end)) : this.text; }
  lineAt(l) {
    const line = typeof l === "number" ? l : l.line, text = this.lines[line], n = text.length - text.trimStart().length;
    return { lineNumber: line, text, range: new Range(line, 0, line, text.length), firstNonWhitespaceCharacterIndex: n, isEmptyOrWhitespace: n === text.length };
  }
  validatePosition(p) {
    if (p.line < 0) return new Position(0, 0);
    if (p.line >= this.lines.length) return new Position(this.lines.length - 1, this.lines[this.lines.length - 1].length);
    return new Position(p.line, Math.max(0, Math.min(p.character, this.lines[p.line].length)));
  }
  validateRange(r) { return new Range(this.validatePosition(r.start), this.validatePosition(r.end)); }
  offsetAt(p) {
    p = this.validatePosition(p);
    let o = 0;
    for (let i = 0; i < p.line; i++) o += this.lines[i].length + this.nl;
    return o + p.character;
  }
  positionAt(o) {
    o = Math.max(0, Math.min(o, this.text.length));
    for (let i = 0; i < this.lines.length; i++) {
      if (o <= this.lines[i].length) return new Position(i, o);
      if (o < this.lines[i].length + this.nl) return new Position(i, this.lines[i].length);
      o -= this.lines[i].length + this.nl;
    }
  }
  save() { return this.world.save(this); }
}

class Editor {
  constructor(world, document, viewColumn) {
    Object.assign(this, { world, document, viewColumn, decorations: new Map(), hidden: false, options: {} });
    this._sels = [new Selection(0, 0, 0, 0)];
    this.visibleRanges = [new Range(0, 0, document.lineCount, 0)];
  }
  get selection() { return this._sels[0]; }
  set selection(s) { this.selections = [s]; }
  get selections() { return this._sels; }
  set selections(ss) {
    if (!Array.isArray(ss) || ss.some((s) => !(s instanceof Selection))) throw new Error("illegal argument: selections");
    this._sels = ss.length ? ss : [new Selection(0, 0, 0, 0)];
    this.world.log("select", this._sels);
    // VS Code tells the listeners later
    this.world.queue.push(() => this.world.fire("selection", { textEditor: this, selections: this._sels, kind: undefined }));
  }
  setDecorations(type, ranges) {
    if (type.disposed) return;
    this.decorations.set(type, ranges.map((r) => (r instanceof Range ? r : r.range)));
  }
  revealRange() {}
  show() {}
  hide() { this.hidden = true; this.world.panes.delete(this); }
}

// Offsets covered by the decorations of one kind in an editor.
const KINDS = (mods) => {
  const d = mods.decorations, by = new Map();
  for (const [kind, name] of [["hide", "hide_type"], ["slice", "slice_type"], ["seed", "select_type"], ["direct", "emphasis_type"]]) if (d[name]) by.set(d[name], kind);
  return (type) => {
    if (by.has(type)) return by.get(type);
    const o = type.options, op = o.opacity === undefined ? undefined : parseFloat(o.opacity);
    if (op !== undefined) return op < 1 ? "hide" : "slice";
    const m = /rgba\(255, *255, *255, *([0-9.]+)\)/.exec((o.dark && o.dark.backgroundColor) || "");
    return m ? (parseFloat(m[1]) >= 0.09 ? "seed" : "direct") : "other";
  };
};

class World {
  constructor(opts) {
    this.opts = opts;               // { docs: [{fileName, languageId, text}], active, folder, backend(args, disk, world) -> outcome, files }
    this.listeners = {};
    this.queue = [];                // deliveries which VS Code makes after the current one
    this.pending = [];              // operations which only a step() completes
    this.trace = [];
    this.errors = [];               // exceptions which escaped from the extension
    this.commands = new Map();
    this.panes = new Set();
    this.virtual = new Map();
    this.providers = new Map();
    this.messages = [];
    this.bar = null;
    this.serial = 0;
    this.spawned = [];
    this.docs = opts.docs.map((d) => new Document(this, d.fileName, d.languageId, d.text));
    this.editors = this.docs.map((d, i) => new Editor(this, d, i + 1));
    this.activeEditor = opts.active === undefined ? undefined : this.editors[opts.active];
    this.types = [];
    this.stubs = this.makeStubs();
  }
  log(kind, value) { this.trace.push([kind, value]); }
  event(name) {
    return (listener, thisArg, disposables) => {
      const l = { listener: thisArg ? listener.bind(thisArg) : listener };
      (this.listeners[name] ??= new Set()).add(l);
      const d = { dispose: () => { this.listeners[name].delete(l); } };
      if (disposables) disposables.push(d);
      return d;
    };
  }
  fire(name, e) {
    for (const l of [...(this.listeners[name] ?? [])]) {
      try {
        const r = l.listener(e);
        if (r && typeof r.then === "function") r.then(undefined, (x) => this.errors.push(`listener of ${name} rejected: ${(x && x.stack) || x}`));
      } catch (x) { this.errors.push(`listener of ${name} threw: ${(x && x.stack) || x}`); }
    }
  }
  wait(kind, info, complete) {
    const op = { id: ++this.serial, kind, info, complete };
    this.pending.push(op);
    return op;
  }
  save(doc) {
    if (!doc.isDirty) return Promise.resolve(true);
    return new Promise((resolve) => this.wait("save", { doc }, () => { this.saved(doc); resolve(true); }));
  }
  saved(doc) {
    doc.disk = doc.text;
    if (doc.isDirty) {
      doc.isDirty = false;
      this.fire("change", { document: doc, contentChanges: [], reason: undefined });
    }
    this.fire("save", doc);
  }
  spawn(cmd, args, options) {
    const proc = new EventEmitter();
    proc.stdout = new EventEmitter();
    proc.stderr = new EventEmitter();
    for (const s of [proc.stdout, proc.stderr]) { s.setEncoding = (e) => { s.enc = e; }; s.pipe = () => {}; s.resume = () => {}; }
    proc.stdin = { end() {}, write() {} };
    proc.exitCode = null; proc.signalCode = null; proc.pid = 4242; proc.kill = () => true;
    const files = Object.fromEntries(this.docs.map((d) => [d.fileName, d.disk]));
    this.spawned.push([cmd, ...args]);
    const info = { cmd, args, options, files };
    if (this.opts.immediate && this.opts.immediate(info)) setImmediate(() => this.finish(proc, this.opts.backend(info, this)));
    else this.wait("process", info, (fault) => this.finish(proc, this.opts.backend(info, this, fault)));
    return proc;
  }
  // outcome: { code, stdout: Buffer, stderr: string } or { error: string }
  finish(proc, o) {
    const emit = (t, ...a) => { try { t.emit(...a); } catch (x) { this.errors.push(`process listener threw: ${(x && x.stack) || x}`); } };
    if (o.error) {
      const e = Object.assign(new Error(o.error), { code: "ENOENT" });
      if (proc.listenerCount("error") === 0) this.errors.push("nobody listens for the error of a process: " + o.error);
      else emit(proc, "error", e);
      proc.exitCode = -2;
      emit(proc, "close", -2, null);
      return;
    }
    const out = o.stdout ?? Buffer.alloc(0), cuts = [0, ...(o.cuts ?? [Math.ceil(out.length / 2)]), out.length];
    for (const part of cuts.slice(1).map((c, i) => out.subarray(cuts[i], c))) if (part.length) emit(proc.stdout, "data", proc.stdout.enc ? part.toString(proc.stdout.enc) : part);
    for (const t of o.stderr ? [o.stderr].flat() : []) emit(proc.stderr, "data", proc.stderr.enc ? t : Buffer.from(t));
    this.finished = (this.finished ?? 0) + 1;
    proc.exitCode = o.code; proc.signalCode = o.signal ?? null;
    emit(proc, "exit", o.code, o.signal ?? null);
    emit(proc, "close", o.code, o.signal ?? null);
  }
  async settle() {
    for (let i = 0; i < 1000; i++) {
      await new Promise((r) => setImmediate(r));
      if (this.queue.length === 0) return;
      this.queue.shift()();
    }
    throw new Error("the extension never comes to rest");
  }
  makeStubs() {
    const w = this;
    const bar = () => {
      w.bar = { text: "", tooltip: undefined, color: undefined, backgroundColor: undefined, command: undefined, visible: false, show() { this.visible = true; }, hide() { this.visible = false; }, dispose() {} };
      return w.bar;
    };
    const message = (level) => (text, ...items) => {
      if (items[0] && typeof items[0] === "object" && !("title" in items[0])) items.shift();
      w.messages.push([level, text]);
      return new Promise((resolve) => w.wait("dialog", { level, text, items }, (choice) => resolve(choice)));
    };
    class EE { constructor() { this.ls = new Set(); this.event = (l, t) => { const f = t ? l.bind(t) : l; this.ls.add(f); return { dispose: () => this.ls.delete(f) }; }; } fire(e) { for (const l of [...this.ls]) l(e); } dispose() { this.ls.clear(); } }
    const uri = (s) => ({ fsPath: s.replace(/^[a-z]+:\/\//, ""), path: s, scheme: (/^([a-z]+):/.exec(s) || [, "file"])[1], toString: () => s });
    const vscode = {
      version: "1.99.0", Position, Range, Selection, EventEmitter: EE,
      ThemeColor: class { constructor(id) { this.id = id; } },
      Disposable: class { constructor(f) { this.dispose = f; } static from(...ds) { return { dispose: () => ds.forEach((d) => d.dispose()) }; } },
      ViewColumn: { Active: -1, Beside: -2, One: 1, Two: 2, Three: 3 },
      StatusBarAlignment: { Left: 1, Right: 2 },
      ProgressLocation: { Notification: 15, Window: 10 },
      Uri: { file: (p) => uri(p), parse: (p) => uri(p), joinPath: (u, ...ps) => uri(require("path").posix.join(u.fsPath, ...ps)) },
      commands: {
        registerCommand(name, f) { w.commands.set(name, f); return { dispose: () => w.commands.delete(name) }; },
        executeCommand: async () => undefined,
      },
      workspace: {
        get workspaceFolders() { return w.opts.folder === null ? undefined : [{ uri: uri(w.opts.folder ?? "/ws"), name: "ws", index: 0 }]; },
        get textDocuments() { return w.docs; },
        onDidChangeTextDocument: w.event("change"), onDidSaveTextDocument: w.event("save"),
        onDidOpenTextDocument: w.event("open"), onDidCloseTextDocument: w.event("close"), onDidChangeConfiguration: w.event("config"),
        getConfiguration: () => ({ get: (_k, d) => d }),
        fs: { stat: (u) => (w.opts.files ?? ["/ws/Cargo.toml"]).includes(u.fsPath) ? Promise.resolve({ type: 1, size: 1 }) : Promise.reject(new Error("FileNotFound")) },
        // a virtual document is asked for once, and again when its provider says that it has changed
        registerTextDocumentContentProvider(scheme, p) {
          w.providers.set(scheme, p);
          const changed = async (u) => { const d = w.virtual.get(String(u)); if (d) d.setText(String(await p.provideTextDocumentContent(d.uri) ?? "")); };
          return p.onDidChange ? p.onDidChange((u) => { changed(u); }) : { dispose() {} };
        },
        openTextDocument: async (u) => {
          if (!w.virtual.has(String(u))) {
            const d = new Document(w, String(u), "plaintext", ""), p = w.providers.get(u.scheme);
            if (!p) throw new Error(`Unable to resolve resource ${u}`);
            d.uri = u;
            d.setText(String(await p.provideTextDocumentContent(u) ?? ""));
            w.virtual.set(String(u), d);
          }
          return w.virtual.get(String(u));
        },
      },
      window: {
        get activeTextEditor() { return w.activeEditor; },
        get visibleTextEditors() { return [...w.editors, ...w.panes]; },
        onDidChangeTextEditorSelection: w.event("selection"), onDidChangeActiveTextEditor: w.event("active"), onDidChangeVisibleTextEditors: w.event("visible"),
        createTextEditorDecorationType(options) { const t = { key: "t" + w.types.length, options, disposed: false, dispose() { t.disposed = true; for (const e of w.editors) e.decorations.delete(t); } }; w.types.push(t); return t; },
        createStatusBarItem: bar,
        createOutputChannel: () => ({ appendLine() {}, append() {}, show() {}, clear() {}, dispose() {} }),
        createWebviewPanel: () => ({ webview: { html: "", onDidReceiveMessage() {}, postMessage() {} }, dispose() {} }),
        showErrorMessage: message("error"), showInformationMessage: message("info"), showWarningMessage: message("warning"),
        showTextDocument: async (doc, o) => { 
          const e = new Editor(w, doc, o && o.viewColumn);
          w.panes.add(e);
          if (!o || !o.preserveFocus) { w.activeEditor = e; w.fire("active", e); }
          return e;
        },
        withProgress: (_o, f) => f({ report() {} }, { isCancellationRequested: false, onCancellationRequested: () => ({ dispose() {} }) }),
        setStatusBarMessage: () => ({ dispose() {} }),
      },
    };
    const download = (what) => w.opts.download ? w.opts.download(w, what) : Promise.reject(new Error("no network"));
    return {
      vscode,
      child_process: {
        spawn: (cmd, args, o) => w.spawn(cmd, args ?? [], o),
        exec: (cmd, o, cb) => {
          const f = typeof o === "function" ? o : cb;
          w.spawned.push([cmd]);
const info = { cmd: "sh", args: [cmd], options: {}, files: {} };
          const end = (fault) => { const r = w.opts.backend(info, w, fault); w.finished = (w.finished ?? 0) + 1; r.error || r.code ? f(new Error(r.error ?? r.stderr), "", r.stderr) : f(null, { stdout: String(r.stdout), stderr: "" }); };
          if (w.opts.immediate && w.opts.immediate(info)) setImmediate(end); else w.wait("process", info, end);
        },
        execSync: (cmd, o) => { if (w.opts.paste) return w.opts.paste(cmd, o); throw new Error("no network"); },
      },
      "@flatten-js/interval-tree": IntervalTree,
      "adm-zip": class { extractAllTo(dir) { w.log("extract", dir); } },
      got: { get: (url) => ({ buffer: () => { w.log("get", url); return download("zip"); } }) },
      open: async (url) => { w.log("open", url); },
      "new-github-issue-url": (o) => `${o.repoUrl ?? `https://github.com/${o.user}/${o.repo}`}/issues/new?body=` + encodeURIComponent(o.body),
      fs: Object.assign({}, { promises: { chmod: async (file, mode) => { w.log("chmod", [file, mode]); } } }),
    };
  }
}

const encode = (answer) => Buffer.from(zlib.gzipSync(Buffer.from(JSON.stringify(answer))).toString("base64"));
module.exports = { World, Position, Range, Selection, Document, Editor, KINDS, encode };
