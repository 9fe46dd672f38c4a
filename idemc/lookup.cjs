// Which function and which places a selection stands for, and what is greyed out: all small answers of the backend x all selections.
"use strict";
const { Session, backend, good } = require("./session.cjs");
const model = require("./model.cjs");

// a text whose lines and columns go beyond ten
const TEXT = ["abcdefghijklmno", "pqrstuvwxyzabcdef", "", "c", "d", "e", "f", "g", "h", "ijk", "l", "mnopqrstuvwxyzab", "cdefghijklmnopq", ""].join("\n");
const lines = TEXT.split("\n");
const at = (line, column) => lines.slice(0, line).reduce((n, l) => n + l.length + 1, 0) + column;
const posOf = (o) => { let l = 0; while (o > lines[l].length) o -= lines[l++].length + 1; return { line: l, column: o }; };
const R = ([a, b]) => ({ start: posOf(a), end: posOf(b), filename: 0 });
const intervals = (ps) => ps.flatMap((a, i) => ps.slice(i + 1).map((b) => [a, b]));
const within = (x, y) => y[0] <= x[0] && x[1] <= y[1];
const touch = (x, y) => x[0] <= y[1] && y[0] <= x[1];
const cover = (rs) => { const s = new Set(); for (const [a, b] of rs) for (let i = a; i < b; i++) s.add(i); return s; };
const str = (s) => [...s].sort((a, b) => a - b).join();
const render = (hide, slice, seed, direct) => `hide:${str(hide)} slice:${str(slice)} seed:${str(seed)} direct:${str(direct)}`;
function* subsets(xs, max, ok, chosen = [], from = 0) {
  yield chosen;
  if (chosen.length === max) return;
  for (let i = from; i < xs.length; i++) if (chosen.every((c) => ok(c, xs[i]))) yield* subsets(xs, max, ok, [...chosen, xs[i]], i + 1);
}
const orders = (xs) => (xs.length <= 1 ? [xs] : [xs, [...xs].reverse()]);

// --- functions -----------------------------------------------------------------------------------------
const BODY_POS = [at(0, 0), at(0, 1), at(0, 3), at(0, 14), at(1, 2), at(3, 0), at(11, 1), at(11, 12), at(12, 0), at(12, 14)];
const nested = (x, y) => x[1] < y[0] || y[1] < x[0] || (within(x, y) && !(x[0] === y[0])) || (within(y, x) && !(x[0] === y[0]));
function* bodies(max) { for (const f of subsets(intervals(BODY_POS), max, nested)) if (f.length) yield f; }
// --- places --------------------------------------------------------------------------------------------
const PLACE_POS = [at(0, 1), at(0, 2), at(0, 4), at(0, 14), at(3, 0), at(11, 1), at(11, 12), at(12, 0)];
const laminar = (x, y) => x[1] <= y[0] || y[1] <= x[0] || within(x, y) || within(y, x);
function* places(max) { for (const f of subsets(intervals(PLACE_POS), max, laminar)) if (f.length) yield f; }
// --- slices --------------------------------------------------------------------------------------------
const SLICE_POS = [[0, 0], [0, 2], [0, 9], [0, 10], [0, 15], [1, 0], [1, 4], [1, 12], [1, 17]];
const oneLine = intervals(SLICE_POS.map(([l, c]) => at(l, c))).filter(([a, b]) => posOf(a).line === posOf(b).line);
const CONTAINERS = [[[at(0, 0), at(1, 17)]], [[at(0, 2), at(1, 12)]], [[at(0, 0), at(0, 9)], [at(0, 10), at(1, 17)]], [[at(0, 2), at(0, 9)], [at(1, 0), at(1, 4)]]];
function* slices(max) {
  for (const cs of CONTAINERS) {
    const usable = oneLine.filter((r) => cs.every((c) => within(r, c) || !(r[0] < c[1] && c[0] < r[1])));
    for (const f of subsets(usable, max, () => true)) if (f.length) yield [cs, f];
  }
}

const session = async (compiled, answer) => {
  const s = new Session(compiled, { docs: [{ fileName: "/ws/src/m.rs", languageId: "rust", text: TEXT }], backend: backend(answer) });
  await s.activate();
  return s;
};
const near = (ps) => [...new Set(ps.flatMap((p) => [p, p + 1]))].filter((p) => p <= TEXT.length).sort((a, b) => a - b);
const sel = (x) => x.map(posOf).map((p) => `${p.line}:${p.column}`).join("-");

const kinds = {
  // the innermost function around the selection, in whatever order the backend lists them
  functions: {
    bound: [2, 3],
    *cases(th) { for (const f of bodies(this.bound[th])) for (const o of orders(f)) yield o; },
    async check(compiled, forest, out) {
      const inner = (x) => forest.filter((b) => within(x, b)).sort((a, b) => a[1] - a[0] - (b[1] - b[0]))[0];
      const wanted = [];
      const s = await session(compiled, (what, [, l, c]) => {
        if (what === "spans") return good({ spans: forest.map(R) });
        const b = inner([at(+l, +c), at(+l, +c)]);
        wanted.push(b);
        if (!b) return { code: 0, stdout: require("./world.cjs").encode({ Err: { type: "AnalysisError", error: "no function" } }), stderr: "" };
        const first = [b[0], b[0] + 1];
        return good({ place_info: [{ range: R(b), ranges: [R(first)], slice: [R(first)], direct_influence: [] }], containers: [R(b)] });
      });
      const ps = near(BODY_POS).filter((p) => forest.some((b) => b[0] - 1 <= p && p <= b[1] + 1));
      await s.select(ps[0], ps[0]);
      await s.command("focus");
      for (const a of ps) for (const b of ps) {
        // both directions: the anchor may be inside of another function than the active end
        await s.select(a, b);
        out.evaluations++;
        const x = [Math.min(a, b), Math.max(a, b)], f = inner(x);
        if (!f) continue;
        out.nontrivial++;
        const first = cover([[f[0], f[0] + 1]]), all = cover([f]);
        const want = render([...all].filter((o) => !first.has(o)), first, first, []);
        const got = s.shown();
        if (got !== want) { out.viol("function", `functions at ${forest.map(sel).join(", ")}; with ${sel([a, b])} selected the display is ${got} instead of ${want} (status ${s.bar()})`, s.world); return; }
      }
      if (s.world.errors.length) out.viol("crash", s.world.errors[0], s.world);
    },
  },
  // the places a selection stands for: those it covers, otherwise those it touches and the innermost around it
  places: {
    bound: [3, 3],
    *cases(th) { for (const f of places(this.bound[th])) yield f; },
    async check(compiled, ps, out) {
      const body = [at(0, 0), at(12, 15)];
      const info = ps.map((p) => ({ at: p, seeds: [[p[0], p[0] + 1]], slice: [[p[0], p[0] + 1]], direct: [[p[0], p[0] + 1]] }));
      const s = await session(compiled, (what) => what === "spans" ? good({ spans: [R(body)] })
        : good({ place_info: info.map((p) => ({ range: R(p.at), ranges: p.seeds.map(R), slice: p.slice.map(R), direct_influence: p.direct.map(R) })), containers: [R(body)] }));
      const qs = near(PLACE_POS);
      await s.select(qs[0], qs[0]);
      await s.command("focus");
      for (const a of qs) for (const b of qs) if (a <= b) {
        await s.select(a, b);
        out.evaluations++;
        const x = [a, b];
        const picked = model.picked({ places: [...info].sort((p, q) => p.at[1] - p.at[0] - (q.at[1] - q.at[0])) }, x);
        // several innermost ones touch the selection: any of them
        const around = info.filter((p) => within(x, p.at)), inn = around.filter((p) => !around.some((q) => q !== p && within(q.at, p.at)));
        const options = picked.length === 0 ? [[]] : picked.some((p) => around.includes(p)) && !picked.every((p) => within(p.at, x)) ? inn.map((p) => picked.filter((q) => !around.includes(q)).concat([p])) : [picked];
        const want = options.map((o) => { if (!o.length) return model.NONE; const c = cover(o.flatMap((p) => p.slice)); return render([...cover([body])].filter((i) => !c.has(i)), c, c, c); });
        if (picked.length) out.nontrivial++;
        const got = s.shown();
        if (!want.includes(got)) { out.viol("place", `places at ${ps.map(sel).join(", ")}; with ${sel(x)} selected the display is ${got} instead of ${want.join(" or ")}`, s.world); return; }
      }
      if (s.world.errors.length) out.viol("crash", s.world.errors[0], s.world);
    },
  },
  // everything of the containers which is not in the slice is greyed out, and nothing else
  hidden: {
    bound: [3, 4],
    *cases(th) { for (const f of slices(this.bound[th])) yield f; },
    async check(compiled, [cs, slice], out) {
      const body = [at(0, 0), at(12, 15)], p = [at(0, 0), at(0, 1)];
      const s = await session(compiled, (what) => what === "spans" ? good({ spans: [R(body)] })
        : good({ place_info: [{ range: R(p), ranges: [R(p)], slice: slice.map(R), direct_influence: [] }], containers: cs.map(R) }));
      await s.select(p[0], p[0]);
      await s.command("focus");
      out.evaluations++; out.nontrivial++;
      const c = cover(slice), want = render([...cover(cs)].filter((i) => !c.has(i)), c, cover([p]), []);
      const got = s.shown();
      if (got !== want) out.viol("hidden", `slice ${slice.map(sel).join(", ")} in ${cs.map(sel).join(" and ")}: the display is ${got} instead of ${want}`, s.world);
      if (s.world.errors.length) out.viol("crash", s.world.errors[0], s.world);
    },
  },
};
module.exports = { kinds };
