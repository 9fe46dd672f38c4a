// Activation: every outcome of every step of finding, installing and preparing the backend; and where its crate is found.
"use strict";
const { Session, good, bar } = require("./session.cjs");
const { encode } = require("./world.cjs");
const model = require("./model.cjs"), path = require("path");
const CHOICES = {
  version: ["match", "older", "newer", "missing", "broken"],
  rustup: ["ok", "fails", "missing"],
  fix: ["Show fix", "Dismiss", undefined],
  done: ["Continue", undefined],
  host: ["ok", "fails"],
  archive: ["ok", "fails"],
  cargo: ["ok", "fails"],
  which: ["ok", "fails"],
  libdir: ["ok", "fails"],
  preload: ["ok", "fails"],
};
const isInstall = (c, a) => c === "cargo" && a.includes("install"), isRustup = (c, a) => c === "rustup" && a[0] === "toolchain";
const run = async (compiled, pick, opts = {}) => {
  const asked = [], choose = (step) => { const v = pick(step); asked.push([step, v]); return v; };
  let installed = null;           // what made the binaries available
  const w = { log: [] };
  const answer = (info) => {
    const { cmd, args } = info, i = args.indexOf("flowistry");
    const fail = { code: 1, stderr: "error: it failed" };
    w.log.push([cmd, ...args, info.options && info.options.cwd]);
    if (cmd === "sh") return choose("host") === "ok" ? { code: 0, stdout: Buffer.from("rustc 1.90.0-nightly\nbinary: rustc\nhost: x86_64-unknown-linux-gnu\nrelease: 1.90\n") } : fail;
    if (isRustup(cmd, args)) { const v = choose("rustup"); return v === "ok" ? { code: 0, stdout: Buffer.alloc(0) } : v === "fails" ? fail : { error: "spawn rustup ENOENT" }; }
    if (cmd === "rustup" && args[0] === "which") return choose("which") === "ok" ? { code: 0, stdout: Buffer.from("/tc/bin/rustc\n") } : fail;
    if (cmd === "/tc/bin/rustc") return choose("libdir") === "ok" ? { code: 0, stdout: Buffer.from("/tc/lib/rustlib/lib\n/tc\n") } : fail;
    if (isInstall(cmd, args)) { if (choose("cargo") !== "ok") return fail; installed = installed ?? "cargo"; return { code: 0, stdout: Buffer.alloc(0) }; }
    if (cmd === "cargo" && i >= 0) {
      const what = args[i + 1];
      if (what === "-V") { const v = choose("version"); return v === "match" ? (installed = "before", { code: 0, stdout: Buffer.from(model.VERSION + "\n") }) : v === "older" ? { code: 0, stdout: Buffer.from("0.1.0\n") } : v === "newer" ? { code: 0, stdout: Buffer.from(model.VERSION + "0\n") } : v === "missing" ? { code: 101, stderr: "error: no such command: `flowistry`" } : { error: "spawn cargo ENOENT" }; }
      if (what === "preload") return choose("preload") === "ok" ? { code: 0, stdout: Buffer.alloc(0) } : { code: 101, stderr: "error: could not compile" };
      if (what === "spans") return good({ spans: model.analyze(model.SOURCE.a).map((b) => ({ start: pos(b.span[0]), end: pos(b.span[1]), filename: 0 })) });
      if (what === "focus") return { code: 0, stdout: encode({ Err: { type: "AnalysisError", error: "expected" } }), stderr: "" };
    }
    return fail;
  };
  const pos = (o) => { const p = model.SOURCE.a.slice(0, o).split("\n"); return { line: p.length - 1, column: p[p.length - 1].length }; };
  const s = new Session(compiled, { docs: [{ fileName: "/ws/src/a.rs", languageId: "rust", text: model.SOURCE.a }], backend: answer, ...opts,
    download: async () => { if (choose("archive") !== "ok") throw new Error("HTTP 404"); return Buffer.from("zip"); } });
  w.s = s; w.asked = asked; w.said = [];
  await s.activate();
  for (let i = 0; i < 10 && s.world.pending.length; i++) {
    const [p] = s.world.pending.splice(0, 1);
    w.said.push([p.info.level, p.info.text]);
    const items = p.info.items.map((x) => x.title ?? x);
    p.complete(items.includes("Show fix") ? choose("fix") : items.includes("Continue") ? choose("done") : items.includes("Dismiss") ? "Dismiss" : undefined);
    await s.rest();
  }
  w.installed = () => installed ?? (s.world.trace.some(([k]) => k === "extract") ? "download" : null);
  return w;
};

const kinds = {
  steps: {
    // which steps there are depends on the outcomes of those before: a tree, walked depth first
    *cases() { for (const v of CHOICES.version) for (const r of CHOICES.rustup) for (const home of [undefined, "/opt/my cargo"]) yield { version: v, rustup: r, home }; },
    async check(compiled, fixed, out) {
      let prefix = [];
      for (;;) {
        const path = [];
        let d = 0;
        const w = await run(compiled, (step) => {
          if (step in fixed) return fixed[step];
          const i = prefix[d++] ?? 0;
          path.push([i, CHOICES[step].length]);
          return CHOICES[step][i];
        }, fixed.home ? { env: { CARGO_HOME: fixed.home } } : {});
        if (fixed.version === "match" && fixed.rustup !== "ok") return;      // the same as with "ok"
        out.evaluations++;
        await this.judge(w, fixed, out);
        let k = path.length - 1;
        while (k >= 0 && path[k][0] + 1 >= path[k][1]) k--;
        if (k < 0) return;
        prefix = path.slice(0, k).map(([i]) => i).concat([path[k][0] + 1]);
      }
    },
    async judge(w, fixed, out) {
      const { s, asked, said } = w, got = Object.fromEntries(asked), story = asked.map(([a, b]) => `${a}: ${b}`).join(", ");
      // what the menus and the status item offer
      const offered = [...new Set([...s.compiled.contributed, "flowistry.last_error"])], commands = offered.filter((c) => s.world.commands.has(c));
      const bad = (key, t) => out.viol(key, `after ${story}: ${t}; commands ${commands.join(" ") || "none"}, status ${s.bar()}, messages ${JSON.stringify(said)}`);
      for (const e of s.world.errors) bad("crash", e.split("\n")[0]);
      if (s.state !== "done") bad("stuck", "activation never ends");
      if (s.bar() === "loading") bad("stuck", "the status stays at loading");
      const usable = (fixed.version === "match" || w.installed()) && got.which === "ok" && got.libdir === "ok";
      if (usable && commands.length < offered.length) bad("usable", "the backend is there, but the commands are not");
      if (!usable && commands.length) bad("unusable", "there are commands, but no working backend");
      if (!usable && !said.some(([l]) => l === "error")) bad("silent", "the user is not told why there are no commands");
      if (usable) out.nontrivial++;
      if (fixed.version === "match" && ["rustup", "host", "archive", "cargo"].some((k) => k in got)) bad("reinstall", "the right version is there, but it is installed again");
      if (fixed.version !== "match" && (got.fix === "Dismiss" || ("fix" in got && got.fix === undefined)) && ["host", "archive", "cargo"].some((k) => k in got)) bad("refused", "it is installed although the user refused");
      if ("cargo" in got && got.host === "ok" && got.archive === "ok") bad("reinstall", "it is built from source although the binaries were downloaded");
      if (fixed.version !== "match" && fixed.rustup === "ok" && !("host" in got)) bad("uninstalled", "the wrong version is not replaced");
      if (got.host === "ok" && !("archive" in got)) bad("uninstalled", "the released binaries are not asked for");
      if (got.host === "ok" && got.archive === "fails" && !("cargo" in got)) bad("uninstalled", "there is no attempt to build from source although the download failed");
      const done = (k) => w.s.world.trace.filter(([x]) => x === k).map(([, v]) => v), dir = path.join(fixed.home ?? path.join(require("os").homedir(), ".cargo"), "bin");
      if (got.archive === "ok") {
        if (done("extract").join() !== dir) bad("uninstalled", `the binaries are put into ${done("extract")} instead of ${dir}`);
        for (const f of ["cargo-flowistry", "flowistry-driver"]) if (!done("chmod").some(([p, m]) => p === path.join(dir, f) && (typeof m === "number" ? m : parseInt(m, 8)) & 0o111)) bad("uninstalled", `${f} is not made executable`);
      }
      for (const u of done("get")) if (!u.includes(model.VERSION + "/") || !u.includes("x86_64-unknown-linux-gnu")) bad("uninstalled", "another release is downloaded: " + u);
      if (got.fix === "Show fix" ? done("open").length !== 1 : done("open").length) bad("fix", `opened: ${done("open").join() || "nothing"}`);
      // nothing but the toolchain which the backend belongs to will do
      for (const l of w.log) if (l[0] === "cargo" ? l[1] !== "+" + s.compiled.channel : l[0] === "rustup" && !l.includes(s.compiled.channel)) bad("toolchain", "run with another toolchain: " + l.join(" "));
      for (const l of w.log.filter((l) => isRustup(l[0], l.slice(1)))) for (const c of s.compiled.components) if (!l.includes(c)) bad("toolchain", `the toolchain is installed without ${c}`);
      for (const l of w.log.filter((l) => isInstall(l[0], l))) if (!l.includes(model.VERSION)) bad("uninstalled", "another version is installed: " + l.join(" "));
      if (commands.length) {
        // it works, and asks about the right thing
        const n = w.log.length;
        await s.command("focus");
        const r = w.log.slice(n)[0];
        if (!r || !r.includes("spans") || r[r.length - 1] !== "/ws") bad("usable", `the command does not ask the backend (${r})`);
        if (said.length === 0 && s.world.errors.length) bad("crash", s.world.errors[0]);
      }
    },
  },
  // the crate is the outermost directory with a manifest between the workspace folder and the active file
  roots: {
    *cases(th) {
      const deep = th ? 6 : 4;
      for (let d = 0; d <= deep; d++) for (let m = 0; m < 1 << (d + 1); m++) for (const above of [false, true]) for (const editor of [true, false]) for (const folder of ["/ws", "/home/me/my ws", null])
        yield { depth: d, manifests: m, above, editor, folder };
    },
    async check(compiled, c, out) {
      const root = c.folder ?? "/ws", dirs = [root];
      for (let i = 0; i < c.depth; i++) dirs.push(dirs[i] + "/" + ["src", "a", "b", "a", "c", "b"][i]);
      const files = dirs.filter((_, i) => c.manifests & (1 << i)).map((d) => d + "/Cargo.toml");
      if (c.above) files.push("/Cargo.toml", "/home/Cargo.toml", "/elsewhere/Cargo.toml");
      const w = await run(compiled, (step) => CHOICES[step][0], { folder: c.folder, files, active: c.editor ? 0 : undefined, docs: [{ fileName: dirs[c.depth] + "/m.rs", languageId: "rust", text: model.SOURCE.a }] });
      out.evaluations++;
      const want = c.folder === null ? null : c.editor ? dirs.find((d) => files.includes(d + "/Cargo.toml")) ?? null : files.includes(root + "/Cargo.toml") ? root : null;
      if (want) out.nontrivial++;
      const used = [...new Set(w.log.filter((l) => l.includes("flowistry")).map((l) => l[l.length - 1]))];
      const has = w.s.world.commands.has("flowistry.focus");
      if (w.s.world.errors.length) out.viol("crash", w.s.world.errors[0]);
      else if (w.s.state !== "done") out.viol("stuck", "activation never ends");
      else if (want === null ? used.length || has : used.join() !== want || !has) out.viol("root", `with ${files.join(", ") || "no manifest"} and ${c.editor ? dirs[c.depth] + "/m.rs" : "nothing"} open in ${c.folder}, the backend is run in ${used.join() || "no directory"} instead of ${want}`);
    },
  },
};
module.exports = { kinds };
