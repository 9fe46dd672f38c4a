// One activated extension in a scripted environment, for the checks which enumerate answers rather than schedules.
"use strict";
const { World, Selection, KINDS, encode } = require("./world.cjs");
const loader = require("./loader.cjs"), model = require("./model.cjs");

const bar = (w) => {
  const t = w.bar && w.bar.visible !== false ? w.bar.text : "";
  return t === "" ? "none" : /check/.test(t) ? "active" : /circle-slash/.test(t) ? "unsaved" : /\(x\)/.test(t) ? "error" : /sync/.test(t) ? "loading" : /question/.test(t) ? "notfound" : "idle";
};
const ENV = { PATH: "/usr/bin", HOME: "/home/u" };

class Session {
  // opts: { docs, backend, immediate?, files?, folder?, active?, download? }
  constructor(compiled, opts) {
    this.compiled = compiled;
    this.world = new World({ active: 0, immediate: () => true, ...opts });
  }
  async activate() {
    const w = this.world, load = loader.instantiate(this.compiled, w.stubs, { platform: "linux", env: { ...ENV, ...w.opts.env }, exitCode: 0, on() {} });
    this.state = "running";
    this.load = load;
    const ctx = { subscriptions: [], workspaceState: { m: {}, update(k, v) { this.m[k] = v; return Promise.resolve(); }, get(k) { return this.m[k]; } }, extensionPath: "/ext", globalState: { update: async () => {}, get() {} } };
    load("extension").activate(ctx).then(() => (this.state = "done"), (e) => { this.state = "rejected"; w.errors.push("activate rejected: " + ((e && e.stack) || e)); });
    await this.rest();
    this.kindOf = KINDS({ decorations: load("decorations") });
  }
  // until nothing more happens by itself; dialogs stay open
  async rest() {
    let still = 0, last = "";
    for (let i = 0; i < 200 && still < 2; i++) {
      await this.world.settle();
      const now = [this.world.trace.length, this.world.spawned.length, this.world.pending.length, this.state, this.world.finished].join();
      still = now === last ? still + 1 : 0;
      last = now;
    }
  }
  async command(name) {
    const f = this.world.commands.get("flowistry." + name);
    if (!f) throw new Error("no command " + name);
    Promise.resolve().then(f).catch((e) => this.world.errors.push(`command ${name} rejected: ${(e && e.stack) || e}`));
    await this.rest();
  }
  async select(a, b, active = this.world.activeEditor) {
    active.selections = [new Selection(active.document.positionAt(a), active.document.positionAt(b))];
    await this.rest();
  }
  shown(e = this.world.activeEditor) { return model.shown(e, this.kindOf); }
  bar() { return bar(this.world); }
  // the text which the error pane shows
  pane() { const [e] = this.world.panes; return e ? e.document.text : null; }
}

// The backend of a working installation, which answers requests by `answer(what, file, args)`.
const backend = (answer) => (info) => {
  const { cmd, args } = info;
  if (cmd === "rustup" && args[0] === "which") return { code: 0, stdout: Buffer.from("/tc/bin/rustc\n") };
  if (cmd.endsWith("rustc")) return { code: 0, stdout: Buffer.from("/tc/lib/rustlib/lib\n/tc\n") };
  const i = args.indexOf("flowistry");
  if (cmd === "cargo" && i >= 0) {
    const [what, ...rest] = args.slice(i + 1);
    if (what === "-V") return { code: 0, stdout: Buffer.from(model.VERSION + "\n") };
    if (what === "preload") return { code: 0, stdout: Buffer.alloc(0) };
    return answer(what, rest, info);
  }
  return { code: 1, stderr: "unexpected command " + [cmd, ...args].join(" ") };
};
const good = (value) => ({ code: 0, stdout: encode({ Ok: value }), stderr: "" });
module.exports = { Session, backend, good, bar };
