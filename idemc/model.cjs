// A miniature analysis: what the backend answers for a text, and what the extension must then show for a selection.
"use strict";
const { encode } = require("./world.cjs");

const SOURCE = { a: "fn f(x: i32) {\n  let c = |y: i32| {\n    y + x\n  };\n  c(x)\n}\nfn g(z: i32) {\n  z\n}\nconst k: i32 = 1;\n", b: "fn h(w: i32) {\n  w\n}\n" };
const posOf = (text, o) => { const pre = text.slice(0, o).split("\n"); return { line: pre.length - 1, column: pre[pre.length - 1].length }; };
const offOf = (text, p) => { const ls = text.split("\n"); let o = 0; for (let i = 0; i < p.line; i++) o += ls[i].length + 1; return o + p.column; };
const rangeOf = (text, [a, b]) => ({ start: posOf(text, a), end: posOf(text, b), filename: 0 });

const memo = new Map();
// bodies: [{ span, params, places: [{ at, seeds, slice, direct }] }], outer ones first
exports.analyze = (text) => {
  if (memo.has(text)) return memo.get(text);
  const bodies = [];
  const re = /fn \w+\(|\|(?=\w+: i32\| \{)/g;
  for (let m; (m = re.exec(text)); ) {
    const start = m.index;
    let open = text.indexOf("{", start), depth = 0, end = open;
    do { if (text[end] === "{") depth++; if (text[end] === "}") depth--; end++; } while (depth);
    const colon = text.indexOf(": i32", start);
    bodies.push({ span: [start, end], param: [colon - 1, colon + 5], open });
  }
  const innermost = (o) => bodies.filter((b) => b.span[0] <= o && o <= b.span[1]).sort((p, q) => p.span[1] - p.span[0] - (q.span[1] - q.span[0]))[0];
  for (const b of bodies) {
    const idents = [];
    for (const m of text.matchAll(/\b[a-z]\b/g)) if (innermost(m.index) === b && m.index > b.span[0] + 4 - (text[b.span[0]] === "|" ? 4 : 0)) idents.push([m.index, m[0]]);
    b.places = idents.map(([at, name]) => {
      const same = idents.filter(([, n]) => n === name).map(([o]) => [o, o + 1]);
      const line = (o) => { const s = text.lastIndexOf("\n", o - 1) + 1, e = text.indexOf("\n", o); return [s + (text.slice(s, e).length - text.slice(s, e).trimStart().length), e]; };
      const slice = same.map(([o]) => (o < b.open ? b.param : [Math.max(line(o)[0], b.open), Math.min(line(o)[1], b.span[1])]));
      return { at: [at, at + 1], seeds: same, slice, direct: name === "x" ? [] : same.filter(([o]) => o !== at) };
    });
  }
  memo.set(text, bodies);
  return bodies;
};
const innermost = (text, sel) => exports.analyze(text).filter((b) => b.span[0] <= sel[0] && sel[1] <= b.span[1]).sort((p, q) => p.span[1] - p.span[0] - (q.span[1] - q.span[0]))[0];
exports.body = innermost;

// The answer of the real backend's protocol: base64 of gzip of {Ok} or {Err}.
exports.VERSION = null;
const answers = new Map();
exports.backend = (info, world, fault) => {
  const { cmd, args, files } = info;
  if (fault === "killed") return { code: 101, stderr: "killed" };
  if (fault === "spawn") return { error: "spawn cargo ENOENT" };
  if (fault === "empty") return { code: 0, stdout: Buffer.alloc(0), stderr: "" };
  if (fault === "cut") { const r = exports.backend(info, world); return r.stdout ? { ...r, stdout: r.stdout.subarray(0, r.stdout.length >> 1) } : r; }
  if (cmd === "rustup" && args[0] === "which") return { code: 0, stdout: Buffer.from("/tc/bin/rustc\n") };
  if (cmd.endsWith("rustc")) return { code: 0, stdout: Buffer.from("/tc/lib/rustlib/lib\n/tc\n") };
  const i = args.indexOf("flowistry");
  if (cmd === "cargo" && i >= 0) {
    const [what, file, line, col] = args.slice(i + 1);
    if (what === "-V") return { code: 0, stdout: Buffer.from(exports.VERSION + "\n") };
    if (Object.values(files).some((t) => t.includes("?!"))) return { code: 101, stderr: "error: could not compile `ws`\n" };
    if (what === "preload") return { code: 0, stdout: Buffer.alloc(0) };
    const key = [what, file, line, col, files[file]].join("\0");
    if (!answers.has(key)) answers.set(key, encode(answer(what, file, line, col, files[file])));
    return { code: 0, stdout: answers.get(key), stderr: "   Compiling ws\n" };
  }
  return { code: 1, stderr: "unexpected command " + [cmd, ...args].join(" ") };
};
const answer = (what, file, line, col, text) => {
  if (text === undefined || file.includes("lost")) return { Err: { type: "FileNotFound" } };
  if (what === "spans") return { Ok: { spans: exports.analyze(text).map((b) => rangeOf(text, b.span)) } };
  if (what === "focus") {
    const o = offOf(text, { line: +line, column: +col });
    const b = innermost(text, [o, o]);
    if (!b) return { Err: { type: "AnalysisError", error: "Selection did not map to a body" } };
    if (text.includes("panic")) return { Err: { type: "AnalysisError", error: "thread panicked" } };
    const R = (r) => rangeOf(text, r);
    return { Ok: { place_info: b.places.map((p) => ({ range: R(p.at), ranges: p.seeds.map(R), slice: p.slice.map(R), direct_influence: p.direct.map(R) })), containers: [R([b.open, b.span[1]]), R(b.param)] } };
  }
  return { Err: { type: "AnalysisError", error: "unknown command" } };
};

const cover = (ranges) => { const s = new Set(); for (const [a, b] of ranges) for (let i = a; i < b; i++) s.add(i); return s; };
const str = (s) => [...s].sort((a, b) => a - b).join();
// What must be shown when `sel` is selected: text offsets of each kind, as strings.
exports.NONE = "hide: slice: seed: direct:";
exports.render = (text, sel) => {
  const b = innermost(text, sel);
  if (!b) return null;
  return exports.renderIn(b, sel);
};
exports.picked = (b, sel) => {
  const within = b.places.filter((p) => sel[0] <= p.at[0] && p.at[1] <= sel[1]);
  const touch = b.places.filter((p) => p.at[0] <= sel[1] && sel[0] <= p.at[1]);
  const around = touch.filter((p) => p.at[0] <= sel[0] && sel[1] <= p.at[1]);
  return within.length ? within : touch.filter((p) => !around.includes(p)).concat(around.slice(0, 1));
};
exports.renderIn = (b, sel) => {
  const ps = exports.picked(b, sel);
  if (ps.length === 0) return exports.NONE;
  const slice = cover(ps.flatMap((p) => p.slice)), all = cover([[b.open, b.span[1]], b.param]);
  return `hide:${str([...all].filter((o) => !slice.has(o)))} slice:${str(slice)} seed:${str(cover(ps.flatMap((p) => p.seeds)))} direct:${str(cover(ps.flatMap((p) => p.direct)))}`;
};
// What an editor shows, in the same form.
exports.shown = (editor, kindOf) => {
  const by = { hide: [], slice: [], seed: [], direct: [] };
  for (const [type, ranges] of editor.decorations) {
    const k = kindOf(type);
    if (by[k]) for (const r of ranges) by[k].push([editor.document.offsetAt(r.start), editor.document.offsetAt(r.end)]);
  }
  return Object.keys(by).map((k) => `${k}:${str(cover(by[k]))}`).join(" ");
};
exports.SOURCE = SOURCE;
