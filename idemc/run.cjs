"use strict";
const { isMainThread, parentPort, workerData } = require("worker_threads");
const watched = require("./watched.cjs"), os = require("os");
const ROOT = process.env.IDE_ROOT || "/repo/ide";
const loader = require("./loader.cjs"), model = require("./model.cjs"), focus = require("./focus.cjs"), { FOCUS } = require("./configs.cjs");

let current = null;
process.on("unhandledRejection", (e) => { (current ?? []).push("unhandled rejection: " + ((e && e.stack) || e)); });

// Depth-first over all schedules extending `root` (a list of choices).
const explore = async (compiled, config, root, limit) => {
  const out = { executions: 0, steps: 0, shown: 0, problems: [], samples: [] };
  let prefix = [...root];
  const escaped = (current = []);
  for (;;) {
    escaped.length = 0;
    const r = await focus.execute(compiled, config, prefix);
    for (const e of escaped) r.probs.push({ key: "crash", text: e.split("\n").slice(0, 3).join(" "), path: r.path });
    out.executions++; out.steps += r.steps;
    if (r.run.nontrivial) out.shown++;
    if (out.executions % 5000 === 1 && out.samples.length < 2) out.samples.push(r.path.join(" "));
    for (const p of r.probs) {
      out.found = (out.found ?? 0) + 1;
      if (out.problems.filter((q) => q.key === p.key).length < 2) out.problems.push({ key: p.key, text: p.text, path: p.path });
    }
    let d = r.choices.length - 1;
    while (d >= root.length && r.choices[d][0] + 1 >= r.choices[d][1]) d--;
    if (d < root.length) return out;
    prefix = r.choices.slice(0, d).map(([c]) => c).concat([r.choices[d][0] + 1]);
    if (limit && out.executions >= limit) { out.cut = true; return out; }
  }
};

if (!isMainThread) {
  const compiled = loader.compile(ROOT);
  model.VERSION = compiled.version;
  const note = watched.noting(workerData.shared);
  parentPort.on("message", async ({ name, config, root, width }) => {
    focus.progress.note = (path) => note(name + "\n" + path.join(" "));
    try {
      if (width) {
        const r = await focus.execute(compiled, { ...config, depth: width.length + 1 }, width);
        parentPort.postMessage({ name, width, n: r.choices.length > width.length ? r.choices[width.length][1] : 0 });
      } else parentPort.postMessage({ name, root, out: await explore(compiled, config, root, workerData.limit) });
    } catch (e) { parentPort.postMessage({ name, root, error: String((e && e.stack) || e) }); }
  });
} else if (require.main === module) (async () => {
  const tier = process.env.VERIF_TIER === "thorough" ? 1 : 0;
  const only = process.argv[2] ? process.argv[2].split(",") : Object.keys(FOCUS);
  const configs = Object.fromEntries(only.map((name) => [name, { ...FOCUS[name], depth: +(process.env.DEPTH || FOCUS[name].depth[tier]) }]));
  // split over the first two choices
  const jobs = only.map((name) => ({ name, config: configs[name], width: [] }));
  const total = {};
  let error = null, open = jobs.length;
  const idle = new Set();
  const take = (name, out) => {
    const t = (total[name] ??= { depth: configs[name].depth, executions: 0, steps: 0, shown: 0, found: 0, problems: [], samples: [] });
    for (const k of ["executions", "steps", "shown"]) t[k] += out[k];
    t.found += out.found ?? 0;
    t.problems.push(...out.problems); t.samples.push(...out.samples);
    if (out.cut) t.cut = true;
  };
  await new Promise((resolve) => {
    const all = new Set();
    const end = () => { for (const w of all) w.terminate(); resolve(); };
    const feed = () => {
      if (error || open === 0) return end();
      for (const w of [...idle]) if (jobs.length) { idle.delete(w); w.idle = false; w.postMessage(jobs.shift()); }
    };
    const add = () => {
      const w = watched.start(__filename, { limit: +(process.env.LIMIT || 0) }, (what) => {
        const [name, path] = what.split("\n");
        take(name, { executions: 1, steps: 0, shown: 0, found: 1, problems: [{ key: "crash", text: "it never comes to an end", path: path.split(" ") }], samples: [] });
        // one is enough
        end();
      });
      all.add(w);
      w.idle = true; idle.add(w);
      w.on("message", (m) => {
        if (m.error) error = m.error;
        else if (m.width) {
          if (m.width.length === 1 && m.n === 0) { jobs.push({ name: m.name, config: configs[m.name], root: m.width }); open++; }
          for (let i = 0; i < m.n; i++) { const p = [...m.width, i]; jobs.push({ name: m.name, config: configs[m.name], ...(p.length < 2 ? { width: p } : { root: p }) }); open++; }
        } else take(m.name, m.out);
        open--;
        w.idle = true; idle.add(w);
        feed();
      });
      w.on("error", (e) => { if (e.code === "ERR_WORKER_OUT_OF_MEMORY") return; error = String((e && e.stack) || e); feed(); });
    };
    for (let i = 0; i < Math.min(os.cpus().length, 8); i++) add();
    feed();
  });
  if (error) { console.error(error); process.exit(2); }
  console.log(JSON.stringify(total));
})();
module.exports = { explore };
