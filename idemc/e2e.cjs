// What the editor shows for texts with all sorts of characters: what the real backend says about them, at those characters.
"use strict";
const fs = require("fs"), zlib = require("zlib");
const { Session, backend } = require("./session.cjs");
const model = require("./model.cjs");

// a column in characters, as an offset into the text
const offset = (text, p) => {
  let o = 0;
  for (let l = 0; l < p.line; l++) o = text.indexOf("\n", o) + 1;
  for (let c = 0; c < p.column; c++) o += text.codePointAt(o) > 0xffff ? 2 : 1;
  return o;
};
const place = (text, o) => {
  const start = text.lastIndexOf("\n", o - 1) + 1;
  return { line: text.slice(0, o).split("\n").length - 1, column: Array.from(text.slice(start, o)).length };
};
const within = (x, y) => y[0] <= x[0] && x[1] <= y[1];
const cover = (rs) => { const s = new Set(); for (const [a, b] of rs) for (let i = a; i < b; i++) s.add(i); return s; };
const size = (x) => x[1] - x[0];
const str = (s) => [...s].sort((a, b) => a - b).join();
const decode = (a) => (a.code === 0 ? JSON.parse(zlib.gunzipSync(Buffer.from(a.stdout, "base64")).toString("utf8")) : {});

const kinds = {
  characters: {
    label: (d) => d.text,
    *cases() {
      for (const f of process.env.ANSWERS.split(",")) for (const line of fs.readFileSync(f, "utf8").split("\n")) if (line) { const d = JSON.parse(line); if (d.t === "e2e") yield d; }
    },
    async check(compiled, d, out) {
      const { text } = d;
      const R = (r) => [offset(text, r.start), offset(text, r.end)];
      const spans = (decode(d.answers[d.spans]).Ok?.spans ?? []).map(R);
      if (spans.length === 0) { out.viol("spans", "the backend finds no function"); return; }
      const about = new Map();
      const info = (f) => {
        if (!about.has(f)) {
          const p = place(text, f[0]), v = decode(d.answers[d.focus[p.line + ":" + p.column]]).Ok;
          about.set(f, v && { containers: v.containers.map(R), places: v.place_info.map((p) => ({ at: R(p.range), seeds: p.ranges.map(R), slice: p.slice.map(R), direct: p.direct_influence.map(R) })).sort((p, q) => size(p.at) - size(q.at)) });
        }
        return about.get(f);
      };
      const s = new Session(compiled, { docs: [{ fileName: "/ws/src/m.rs", languageId: "rust", text }], backend: backend((what, [, l, c]) => {
        const i = what === "spans" ? d.spans : d.focus[l + ":" + c], a = i === undefined ? { code: 101, stderr: `no such position ${l}:${c}` } : d.answers[i];
        return a.code === 0 ? { code: 0, stdout: Buffer.from(a.stdout), stderr: "" } : { code: 101, stderr: a.stderr };
      }) });
      await s.activate();
      await s.select(spans[0][0], spans[0][0]);
      await s.command("focus");
      const cursors = new Set([...text].map(((o) => (ch) => (o += ch.length) - ch.length)(0)));
      const sels = [...cursors].filter((o) => text[o] !== "\n" || text[o - 1] !== "\r").map((o) => [o, o]);
      for (const f of spans) for (const p of info(f)?.places ?? []) if (!sels.some((x) => x[0] === p.at[0] && x[1] === p.at[1])) sels.push(p.at);
      for (const x of sels) {
        const f = spans.filter((b) => within(x, b)).sort((a, b) => size(a) - size(b))[0];
        if (!f) continue;
        const v = info(f);
        if (!v) { out.viol("answer", `the backend has no answer about the function at ${f}`); return; }
        await s.select(x[0], x[1]);
        out.evaluations++;
        const picked = model.picked(v, x), around = v.places.filter((p) => within(x, p.at));
        // which of several innermost ones is open
        const inn = around.filter((p) => !around.some((q) => q !== p && within(q.at, p.at) && size(q.at) < size(p.at)));
        const options = picked.length === 0 ? [[]] : picked.some((p) => around.includes(p)) && !picked.every((p) => within(p.at, x)) ? inn.map((p) => picked.filter((q) => !around.includes(q)).concat([p])) : [picked];
        const want = options.map((o) => {
          if (!o.length) return model.NONE;
          const slice = cover(o.flatMap((p) => p.slice));
          return `hide:${str([...cover(v.containers)].filter((i) => !slice.has(i)))} slice:${str(slice)} seed:${str(cover(o.flatMap((p) => p.seeds)))} direct:${str(cover(o.flatMap((p) => p.direct)))}`;
        });
        if (picked.length) out.nontrivial++;
        const got = s.shown();
        if (!want.includes(got)) {
          const p = place(text, x[0]);
          out.viol("shown", `with ${x[0] === x[1] ? "the cursor" : "a place"} at line ${p.line}, character ${p.column} of ${JSON.stringify(text)} the display is ${got} instead of ${want[0]} (status ${s.bar()})`);
          return;
        }
      }
      if (s.world.errors.length) out.viol("crash", s.world.errors[0]);
    },
  },
};
module.exports = { kinds };
