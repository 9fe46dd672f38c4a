// How each outcome of a backend request is taken: every kind of answer, cut at every byte, at each request, asked for in each way.
"use strict";
const { Session, backend, good } = require("./session.cjs");
const { encode } = require("./world.cjs");
const model = require("./model.cjs");
const TEXT = model.SOURCE.a, SEL = 55;                       // `x` in c(x)
const posOf = (o) => { const p = TEXT.slice(0, o).split("\n"); return { line: p.length - 1, column: p[p.length - 1].length }; };
const R = ([a, b]) => ({ start: posOf(a), end: posOf(b), filename: 0 });
const bodies = () => model.analyze(TEXT);
const VALUE = {
  spans: () => ({ spans: bodies().map((b) => R(b.span)) }),
  focus: () => { const b = bodies()[0]; return { place_info: b.places.map((p) => ({ range: R(p.at), ranges: p.seeds.map(R), slice: p.slice.map(R), direct_influence: p.direct.map(R) })), containers: [R([b.open, b.span[1]]), R(b.param)] }; },
};
const NASTY = ["error: could not compile `ws`", "error[E0308]: mismatched types\n  --> src/a.rs:1:1\n", "warning: \u00e9\u4e2d\u{1F980}\n", "<b>&amp;</b> ${x} %s"];
const OUTCOMES = {
  ok: () => [{ kind: "ok" }],
  // the output may arrive in any pieces
  pieces: (th, n) => Array.from({ length: n - 1 }, (_, i) => ({ kind: "ok", cuts: [i + 1] })).concat(th ? Array.from({ length: (n / 3) | 0 }, (_, i) => ({ kind: "ok", cuts: [i + 1, 2 * i + 2] })) : []),
  newline: () => ["\n", "\r\n"].map((tail) => ({ kind: "ok", tail })),
  // the process ends before everything was written
  cut: (th, n) => Array.from({ length: n }, (_, i) => ({ kind: "cut", at: i })),
  garbage: () => ["", "hello", "{}", "\u0000\u0001", "{\"Ok\":null}", "Compiling ws\n"].map((text) => ({ kind: "garbage", text })),
  undecodable: () => [Buffer.from(require("zlib").gzipSync(Buffer.from("{\"Ok\":")).toString("base64")), Buffer.from(require("zlib").gzipSync(Buffer.alloc(0)).toString("base64"))].map((b) => ({ kind: "garbage", bytes: [...b] })),
  refused: () => NASTY.map((error) => ({ kind: "AnalysisError", error })),
  builderr: () => [{ kind: "BuildError", error: NASTY[0] }],
  unknown: () => [{ kind: "FileNotFound" }],
  // the process fails: by its exit code or by a signal, having written its message in any pieces, perhaps after an answer
  fails: () => [1, 101, 254, null].flatMap((code) => [[NASTY[1]], [NASTY[0], NASTY[1]], [NASTY[2]], []].flatMap((stderr) => [false, true].map((answer) => ({ kind: "fails", code, stderr, answer })))),
  nothing: () => ["spawn cargo ENOENT", "spawn cargo EACCES"].map((error) => ({ kind: "nothing", error })),
  noise: () => [["   Compiling ws v0.1.0\n", "    Finished\n"], [NASTY[0]]].map((stderr) => ({ kind: "ok", stderr })),
};
const raw = (what, o) => {
  const full = encode({ Ok: VALUE[what]() });
  switch (o.kind) {
    case "ok": return { code: 0, stdout: Buffer.concat([full, Buffer.from(o.tail ?? "")]), stderr: o.stderr ?? "", cuts: o.cuts };
    case "cut": return { code: 0, stdout: full.subarray(0, o.at), stderr: "" };
    case "garbage": return { code: 0, stdout: o.bytes ? Buffer.from(o.bytes) : Buffer.from(o.text), stderr: "" };
    case "AnalysisError": case "BuildError": return { code: 0, stdout: encode({ Err: { type: o.kind, error: o.error } }), stderr: "" };
    case "FileNotFound": return { code: 0, stdout: encode({ Err: { type: o.kind } }), stderr: "" };
    case "fails": return { code: o.code, signal: o.code === null ? "SIGKILL" : null, stdout: o.answer ? full : Buffer.alloc(0), stderr: o.stderr };
    case "nothing": return { error: o.error };
  }
};
// how the request comes to be made, and whether the user asked for it explicitly
const WAYS = {
  toggle: { explicit: true, go: (s) => s.command("focus") },
  mark: { explicit: true, go: (s) => s.command("focus_mark") },
  select: { explicit: true, go: (s) => s.command("focus_select") },
  save: { explicit: false, fails: false, before: async (s) => { await s.command("focus"); s.world.editors[0].document.isDirty = true; s.world.editors[0].document.setText(TEXT); s.world.fire("change", { document: s.world.docs[0], contentChanges: [{}] }); await s.rest(); }, go: async (s) => { s.world.saved(s.world.docs[0]); await s.rest(); } },
  again: { explicit: true, before: async (s) => { await s.command("focus"); await s.command("focus"); s.world.docs[0].isDirty = true; s.world.fire("change", { document: s.world.docs[0], contentChanges: [{}] }); s.world.docs[0].isDirty = false; await s.rest(); }, go: (s) => s.command("focus") },
};
const kinds = {
  outcomes: {
    *cases(th) {
      for (const at of ["spans", "focus"]) for (const [name, f] of Object.entries(OUTCOMES)) for (const o of f(th, encode({ Ok: VALUE[at]() }).length))
        for (const way of Object.keys(WAYS)) {
          if ((name === "pieces" || name === "cut") && !th && way !== "toggle" && !(way === "save" && o.at % 16 === 0)) continue;
          yield [at, o, way];
        }
    },
    async check(compiled, [where, o, way], out) {
      const w = WAYS[way];
      let armed = false, now = o;
      const asked = [];
      const s = new Session(compiled, { docs: [{ fileName: "/ws/src/a.rs", languageId: "rust", text: TEXT }], backend: backend((what, args, info) => {
        if (armed) asked.push([what, args, info]);
        return armed && what === where ? raw(what, now) : good(VALUE[what]());
      }) });
      await s.activate();
      await s.select(SEL, SEL);
      if (w.before) await w.before(s);
      armed = true;
      const dialogs = s.world.messages.length;
      await w.go(s);
      out.evaluations++;
      const b = bodies()[0], full = raw(where, { kind: "ok" }).stdout;
      const answered = o.kind === "ok" || (o.kind === "cut" && Buffer.from(full.subarray(0, o.at).toString("utf8"), "base64").equals(Buffer.from(full.toString("utf8"), "base64")));
      const shown = s.shown(), bar = s.bar(), pane = s.pane(), said = s.world.messages.slice(dialogs).map(([l, t]) => l + ": " + t);
      const bad = (t) => out.viol(answered ? "answer" : "failure", `${t}; status ${bar}, error pane ${JSON.stringify(pane)}, messages ${JSON.stringify(said)}, display ${shown}`);
      if (s.world.errors.length) out.viol("crash", s.world.errors[0]);
      if (s.world.activeEditor !== s.world.editors[0]) { out.viol("failure", "the cursor is taken away from the text"); return; }
      const at = posOf(SEL);
      for (const [what, args, info] of asked) {
        const want = what === "spans" ? ["/ws/src/a.rs"] : ["/ws/src/a.rs", String(at.line), String(at.column)];
        const sent = way === "select" && what === "focus" ? args.slice(0, 1).join() === want[0] : args.join() === want.join();
        if (!sent || info.options.cwd !== "/ws") out.viol("request", `${what} was asked as ${args.join(" ")} in ${info.options.cwd}`);
        if (info.files["/ws/src/a.rs"] !== s.world.docs[0].text) out.viol("request", "the request was made before the text was saved");
      }
      if (!asked.some(([what]) => what === where)) return bad("nothing was asked");
      if (answered) {
        out.nontrivial++;
        if (way !== "select") {
          const want = model.renderIn(b, [SEL, SEL]);
          if (shown !== want) bad("the answer is not shown as " + want);
        }
        if (bar !== "active") bad("the status is not active");
        if (pane !== null || said.length) bad("an error is shown");
        return;
      }
      if (shown !== model.NONE) bad("something is shown");
      if (o.kind === "FileNotFound") { if (bar !== "notfound" && bar !== "error") bad("the status is not notfound"); if (said.some((t) => t.startsWith("error"))) bad("an error is shown"); return; }
      if (bar !== "error") bad("the status is not error");
      const expected = { AnalysisError: [o.error], BuildError: [o.error], fails: o.stderr, nothing: [o.error], cut: [], garbage: [] }[o.kind];
      if (!w.explicit) { if (said.length) bad("a dialog interrupts although nothing was asked for"); return; }
      const build = o.kind === "fails" || o.kind === "nothing" || o.kind === "BuildError";
      if (build ? pane === null : said.length !== 1) bad(build ? "the build error is not shown" : "the failure is not reported once");
      for (const t of expected) if (!(build ? pane ?? "" : said.join()).includes(t)) bad(`the report does not say ${JSON.stringify(t)}`);
      if (!build && pane !== null) bad("it is reported as a build error");
      if (build && said.length) bad("it is reported as a bug of Flowistry");
      // it is reported as a bug when the user wants that, with all that is known, and not otherwise
      const dialog = s.world.pending.find((p) => p.kind === "dialog" && p.info.level === "error");
      if (w.explicit && !build && dialog) for (const paste of [() => Buffer.from("https://paste.invalid/1"), undefined]) for (const choice of ["Dismiss", undefined, "Report bug"]) {
        s.world.opts.paste = paste;
        const n = s.world.trace.length;
        s.world.pending.splice(0).forEach((p) => p.complete(choice));
        await s.rest();
        const opened = s.world.trace.slice(n).filter(([k]) => k === "open").map(([, u]) => decodeURIComponent(u));
        if (s.world.errors.length) out.viol("crash", s.world.errors[0]);
        if (choice === "Report bug" ? opened.length !== 1 : opened.length) out.viol("report", `the answer "${choice}" to the dialog opens ${opened.length} pages`);
        for (const u of opened) if (!u.startsWith("https://github.com/willcrichton/flowistry/")) out.viol("report", "the bug is reported at " + u);
        for (const u of opened) for (const t of [...expected, ...(paste ? ["https://paste.invalid/1"] : [])]) if (!u.includes(t)) out.viol("report", `the bug report does not say ${JSON.stringify(t)}`);
        await s.command("last_error");
      }
      // the status item leads back to the error, also when its pane was closed
      for (const p of s.world.pending.splice(0)) p.complete("Dismiss");
      await s.rest();
      for (const close of [false, true]) {
        if (close) s.world.panes.clear();
        const n = s.world.messages.length;
        await s.command("last_error");
        const again = build ? s.pane() : s.world.messages.slice(n).map(([, t]) => t)[0] ?? null;
        if (again === null || !expected.every((t) => again.includes(t))) out.viol("failure", `the command for the last error shows ${JSON.stringify(again)}${close ? " when the pane was closed" : ""}`);
      }
      // another failure is not taken for the same one
      now = { kind: "fails", code: 101, stderr: "error: the second one" };
      await s.command("focus");
      if (s.world.panes.size) out.viol("failure", "the error pane stays when focus mode is left");
      await s.command("focus");
      if (s.bar() !== "error" || !(s.pane() ?? "").includes(now.stderr)) out.viol("failure", `after another failure the status is ${s.bar()} and the error pane shows ${JSON.stringify(s.pane())}`);
      // and nothing of it stays once the next attempt succeeds
      armed = false;
      for (const p of s.world.pending.splice(0)) p.complete("Dismiss");
      await s.rest();
      s.world.saved(s.world.docs[0]);
      await s.rest();
      if (s.bar() !== "active" || s.world.panes.size || s.shown() !== model.renderIn(b, [SEL, SEL])) out.viol("failure", `after a save the next attempt succeeds, but the status is ${s.bar()}, ${s.world.panes.size} error panes, display ${s.shown()}`);
    },
  },
};
module.exports = { kinds };
