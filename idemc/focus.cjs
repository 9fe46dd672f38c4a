// Systematic exploration of focus mode: every sequence of user actions and completions of pending operations up to a depth.
"use strict";
const { World, Selection, KINDS } = require("./world.cjs");
const loader = require("./loader.cjs");
const model = require("./model.cjs");

// selections, as offsets in the unshifted source
const SELS = { a: { x: [55, 55], y: [40, 40], z: [77, 77], out: [83, 83], span: [40, 45], blank: [34, 34] }, b: { w: [19, 19] } };

class Run {
  constructor(compiled, config) {
    this.config = config;
    const mk = (d) => ({ fileName: d === "lost" ? "/ws/src/lost.rs" : d === "out" ? "/elsewhere/o.rs" : d === "txt" ? "/ws/notes.txt" : `/ws/src/${d}.rs`, languageId: d === "txt" ? "plaintext" : "rust", text: model.SOURCE[d] ?? model.SOURCE.b });
    let booting = true;
    this.world = new World({ docs: config.docs.map(mk), active: 0, backend: model.backend, immediate: () => booting });
    this.boot = async () => {
      const w = this.world;
      const load = loader.instantiate(compiled, w.stubs, { platform: "linux", env: { PATH: "/usr/bin", HOME: "/home/u" }, exitCode: 0, on() {} });
      this.ext = load("extension");
      const ctx = { subscriptions: [], workspaceState: { m: {}, update(k, v) { this.m[k] = v; return Promise.resolve(); }, get(k) { return this.m[k]; } }, extensionPath: "/ext", globalState: { update: async () => {}, get() {} } };
      let done = false;
      this.ext.activate(ctx).then(() => (done = true), (e) => w.errors.push("activate rejected: " + e));
      for (let i = 0; i < 50 && !done; i++) await w.settle();
      if (!done || !w.commands.has("flowistry.focus")) throw new Error("the extension does not activate: " + JSON.stringify(w.spawned) + w.errors);
      booting = false;
      this.kindOf = KINDS({ decorations: load("decorations") });
      const s = SELS[config.docs[0]] ?? SELS.b;
      this.select(w.editors[0], Object.values(s)[0], false);
    };
    // specification state
    this.on = false;
    this.shift = config.docs.map(() => 0);
    this.failed = false;                    // a process failed by itself since the last save or start of focus mode
    this.marks = new Map();                 // body -> set of possible marks (as [start, end] or null)
    this.failures = 0; this.counts = {};
    this.selecting = null;
    this.seen = config.docs.map(() => []);   // selections since the text last changed
  }
  select(editor, [a, b], fire = true) {
    const d = editor.document, i = this.world.docs.indexOf(d), o = this.shift[i];
    const sel = new Selection(d.positionAt(a + o), d.positionAt(b + o));
    if (fire) editor.selections = [sel]; else editor._sels = [sel];
  }
  get active() { return this.world.activeEditor; }
  busy() { return this.world.pending.some((p) => p.kind !== "dialog"); }
  interval(e) { return [e.document.offsetAt(e.selection.start), e.document.offsetAt(e.selection.end)]; }
  // All steps possible now, in a fixed order.
  enabled() {
    const c = this.config, w = this.world, out = [], e = this.active;
    for (const ev of c.events) {
      const max = c.max?.[ev] ?? Infinity;
      if ((this.counts[ev] ?? 0) >= max) continue;
      const [k, arg] = ev.split(":");
      if (k === "sel") {
        const s = e && (SELS[c.docs[w.editors.indexOf(e)]] ?? SELS.b)[arg];
        if (!s) continue;
        const o = this.shift[w.editors.indexOf(e)], cur = this.interval(e);
        if (cur[0] === s[0] + o && cur[1] === s[1] + o) continue;
      }
      if ((k === "edit" || k === "save" || k === "break" || k === "panic" || k === "external") && !e) continue;
      if (k === "switch" && e === w.editors[arg]) continue;
      if (k === "leave" && !e) continue;
      out.push(ev);
    }
    w.pending.forEach((p, i) => {
      if (p.kind === "process") {
        out.push("done:" + i);
        if (c.faults && this.failures < (c.maxFaults ?? 1)) for (const f of c.faults) out.push(`fail:${i}:${f}`);
      } else if (p.kind === "save") out.push("done:" + i);
      else out.push("dismiss:" + i);
    });
    return out;
  }
  edit(doc, text, moved, dirty) {
    const w = this.world, i = w.docs.indexOf(doc), ed = w.editors[i];
    const keep = [doc.offsetAt(ed.selection.start), doc.offsetAt(ed.selection.end)];
    doc.setText(text);
    doc.isDirty = dirty;
    if (!dirty) doc.disk = text;
    this.marks.clear();
    this.seen[i] = [this.interval(ed)];
    w.fire("change", { document: doc, contentChanges: [{ range: null, rangeOffset: 0, rangeLength: 0, text: "" }], reason: undefined });
    if (moved) {
      this.shift[i] += moved;
      ed.selections = [new Selection(doc.positionAt(keep[0] + moved), doc.positionAt(keep[1] + moved))];
    }
  }
  command(name) {
    const f = this.world.commands.get("flowistry." + name);
    Promise.resolve().then(f).catch((e) => this.world.errors.push(`command ${name} rejected: ${(e && e.stack) || e}`));
  }
  valid(e) { return e && e.document.languageId === "rust" && e.document.fileName.startsWith("/ws/"); }
  async step(ev) {
    const w = this.world, e = this.active, [k, arg, how] = ev.split(":");
    this.counts[ev] = (this.counts[ev] ?? 0) + 1;
    this.selecting = null;
    if (this.marking && this.busy() && k !== "done") { const [key, old] = this.marking; if (this.marks.has(key)) this.marks.set(key, [...old, ...this.marks.get(key)]); this.marking = null; }
    const text = e && e.document.text, quiet = !this.busy() && w.pending.length === 0;
    switch (k) {
      case "focus": this.on = !this.on; if (this.on) this.failed = false; this.command("focus"); break;
      case "mark": case "unmark": {
        const b = e && model.body(text, this.interval(e));
        if (this.valid(e)) {
          if (!this.on) this.failed = false;
          this.on = true;
          // it may be refused while something else is going on; it can fail when the analysis does
          const v = k === "mark" ? this.interval(e) : null;
          if (b) {
            const key = w.editors.indexOf(e) + ":" + (b.span[0] - this.shift[w.editors.indexOf(e)]);
            const old = this.marks.get(key) ?? [null];
            this.marking = [key, old];
            this.marks.set(key, quiet && !this.uncertain() && !this.failed ? [v] : [...old, v]);
          } else for (const [key, old] of this.marks) if (!quiet) this.marks.set(key, [...old, v]);
          // what is marked while another function is selected meanwhile is not specified
          this.markPending = true;
        }
        this.command("focus_" + k);
        break;
      }
      case "select":
        if (this.valid(e)) {
          if (!this.on) this.failed = false;
          if (quiet && this.on && !e.document.isDirty && !this.uncertain() && !this.failed) this.selecting = { e, allowed: this.markOptions(e).map((m) => model.picked(model.body(text, this.interval(e)) ?? { places: [] }, m)), before: w.trace.length };
          this.on = true;
        }
        this.command("focus_select");
        break;
      case "sel": this.select(e, (SELS[this.config.docs[w.editors.indexOf(e)]] ?? SELS.b)[arg]); break;
      case "edit": {
        const up = text.startsWith("\n");
        this.edit(e.document, up ? text.slice(1) : "\n" + text, up ? -1 : 1, true);
        break;
      }
      case "external": {
        const ed = w.editors[arg ?? w.editors.indexOf(e)], t = ed.document.text, up = t.startsWith("\n");
        this.edit(ed.document, up ? t.slice(1) : "\n" + t, up ? -1 : 1, false);
        break;
      }
      case "break": this.edit(e.document, text.endsWith("?!\n") ? text.slice(0, -3) : text + "?!\n", 0, true); break;
      case "panic": this.edit(e.document, text.endsWith("panic\n") ? text.slice(0, -6) : text + "panic\n", 0, true); break;
      case "save": this.failed = false; w.saved(e.document); break;
      case "switch": w.activeEditor = w.editors[arg]; w.fire("active", w.activeEditor); break;
      case "leave": w.activeEditor = undefined; w.fire("active", undefined); break;
      case "done": { const [p] = w.pending.splice(+arg, 1); if (p.kind === "save") this.failed = false; p.complete(); break; }
      case "fail": { const [p] = w.pending.splice(+arg, 1); this.failures++; this.failed = true; p.complete(how); break; }
      case "dismiss": { const [p] = w.pending.splice(+arg, 1); p.complete(p.info.items.includes("Dismiss") ? "Dismiss" : undefined); break; }
      default: throw new Error(ev);
    }
    await w.settle();
    for (const [i, ed] of w.editors.entries()) this.seen[i].push(this.interval(ed));
  }
  uncertain() { return false; }
  markOptions(e) {
    const text = e.document.text, sel = this.interval(e), b = model.body(text, sel);
    if (!b) return [sel];
    const i = this.world.editors.indexOf(e), ms = this.marks.get(i + ":" + (b.span[0] - this.shift[i])) ?? [null];
    return ms.map((m) => m ?? sel);
  }
  // Problems visible right now; `rest`: nothing is going on any more.
  check() {
    const w = this.world, out = [], bar = this.barState();
    for (const x of w.errors) out.push(["crash", x.split("\n").slice(0, 3).join(" ")]);
    const busy = this.busy();
    for (const [i, ed] of w.editors.entries()) {
      const doc = ed.document, name = this.config.docs[i], shown = model.shown(ed, this.kindOf);
      if (shown === model.NONE) continue;
      this.nontrivial = true;
      if (!this.on) out.push(["off", `${name} still shows ${shown} although focus mode is off`]);
      else if (doc.isDirty) out.push(["stale", `${name} has unsaved changes but shows ${shown}`]);
      else {
        const legal = model.analyze(doc.text).some((b) => [...Object.values(SELS[name] ?? SELS.b).map(([p, q]) => [p + this.shift[i], q + this.shift[i]]), ...this.seen[i], ...[...this.marks.values()].flat().filter((m) => m)].some((s) => model.renderIn(b, s) === shown));
        if (!legal) out.push(["stale", `${name} shows ${shown}, which is not the slice of anything in its current text ${JSON.stringify(doc.text)}`]);
      }
    }
    if (bar === "error" || bar === "notfound") this.nontrivial = true;
    if (w.bar && !busy) {
      if (!this.on && bar !== "idle") out.push(["status", `focus mode is off but the status is ${bar}`]);
      if (bar === "loading") out.push(["status", "the status is loading but nothing is going on"]);
    }
    if (!this.on && !busy && w.panes.size) out.push(["status", "focus mode is off but the error pane is shown"]);
    if (this.on && !busy && this.valid(this.active)) {
      const ed = this.active, doc = ed.document, text = doc.text, name = this.config.docs[w.editors.indexOf(ed)];
      const shown = model.shown(ed, this.kindOf);
      if (!w.docs.some((d) => d.isDirty)) {
        const broken = w.docs.some((d) => d.text.includes("?!"));
        const b = model.body(text, this.interval(ed));
        if (name === "lost") { if (!broken && !(this.failed && bar === "error") && !this.switched()) { if (bar !== "notfound") out.push(["status", `the file is not known to cargo but the status is ${bar}`]); } }
        else if (broken) { if (bar !== "error" && !this.switched()) out.push(["status", `the crate does not build but the status is ${bar}`]); }
        else if (text.includes("panic") && b) { if (bar !== "error" && !this.switched()) out.push(["status", `the analysis fails but the status is ${bar}`]); }
        else if (!text.includes("panic") && !(this.failed && bar === "error") && !this.switched()) {
          if (bar !== "active") out.push(["status", `the analysis is possible but the status is ${bar}`]);
          else if (w.panes.size) out.push(["status", "the error pane is still shown after a success"]);
          if (b) {
            const want = this.markOptions(ed).map((m) => model.renderIn(b, m));
            if (!want.includes(shown)) out.push(["fresh", `with ${JSON.stringify(this.interval(ed))} selected, ${name} shows ${shown} instead of ${want.join(" or ")}`]);
          }
        }
      } else if (doc.isDirty && !this.switched() && bar !== "unsaved") out.push(["status", `there are unsaved changes but the status is ${bar}`]);
    }
    if (this.selecting) {
      const { e, allowed, before } = this.selecting;
      const got = w.trace.slice(before).filter(([k]) => k === "select").map(([, ss]) => ss.map((s) => `${e.document.offsetAt(s.start)}-${e.document.offsetAt(s.end)}`).sort().join());
      const want = allowed.map((ps) => ps.flatMap((p) => p.slice).map(([p, q]) => `${p}-${q}`).sort().join());
      if (!busy && !(got.length === 1 && want.includes(got[0])) && !(got.length === 0 && want.includes("")) ) out.push(["select", `selecting the slice selects ${JSON.stringify(got)} instead of ${JSON.stringify(want)}`]);
    }
    return out;
  }
  // focus mode is only told about a change of editor when something is selected there
  switched() { return this._switched; }
  barState() {
    const t = this.world.bar ? this.world.bar.text : "";
    return /check/.test(t) ? "active" : /circle-slash/.test(t) ? "unsaved" : /\(x\)/.test(t) ? "error" : /sync/.test(t) ? "loading" : /question/.test(t) ? "notfound" : "idle";
  }
}

// Runs one schedule: `prefix` gives the choice at each step, further steps take the first enabled one.
exports.execute = async (compiled, config, prefix, onStep) => {
  const run = new Run(compiled, config);
  exports.progress.note(["(activation)"]);
  await run.boot();
  const path = [], choices = [];
  const probs = [];
  const note = (when) => { for (const [k, t] of run.check()) probs.push({ key: k, text: t, when, path: [...path] }); };
  let steps = 0;
  for (let d = 0; d < config.depth; d++) {
    const en = run.enabled();
    if (en.length === 0) break;
    const c = prefix[d] ?? 0;
    choices.push([c, en.length]);
    path.push(en[c]);
    const busy = run.busy();
    exports.progress.note(path);
    await run.step(en[c]);
    steps++;
    run._switched = /^(switch|leave)/.test(en[c]) || (run._switched && !(/^(sel:|focus|save)/.test(en[c]) || (!busy && /^(mark|unmark|select)/.test(en[c]))));
    if (onStep) onStep(run, en[c]);
    note("then");
    if (probs.length) return { choices, path, probs, steps, run };
  }
  // let everything finish, oldest first
  for (let i = 0; i < 60 && run.world.pending.length && !probs.length; i++) {
    const p = run.world.pending[0], ev = p.kind === "dialog" ? "dismiss:0" : "done:0";
    path.push("(" + ev + ")");
    exports.progress.note(path);
    await run.step(ev);
    steps++;
    if (onStep) onStep(run, ev);
    note("finally");
  }
  if (!probs.length && run.world.pending.length) probs.push({ key: "crash", text: "the extension starts processes without end", path });
  return { choices, path, probs, steps, run };
};
// told what is about to be done
exports.progress = { note: () => {} };
exports.Run = Run;
exports.SELS = SELS;
