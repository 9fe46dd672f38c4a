"use strict";
// node enum.cjs MODULE: every case of every kind of the module, over worker threads.
const { isMainThread, parentPort, workerData } = require("worker_threads");
const watched = require("./watched.cjs"), os = require("os"), path = require("path");
const ROOT = process.env.IDE_ROOT || "/repo/ide";
const loader = require("./loader.cjs"), model = require("./model.cjs");
const th = process.env.VERIF_TIER === "thorough" ? 1 : 0;

if (!isMainThread) (async () => {
  const { mod, shard, n } = workerData;
  const compiled = loader.compile(ROOT);
  model.VERSION = compiled.version;
  const { kinds } = require(path.resolve(__dirname, mod));
  const escaped = [], note = watched.noting(workerData.shared);
  process.on("unhandledRejection", (e) => escaped.push("unhandled rejection: " + ((e && e.stack) || e)));
  const total = {};
  for (const [name, kind] of Object.entries(kinds)) {
    const t = (total[name] = { cases: 0, evaluations: 0, nontrivial: 0, problems: [], found: 0, sample: null });
    let i = 0;
    for (const c of kind.cases(th)) {
      if (i++ % n !== shard) continue;
      t.cases++;
      t.sample ??= kind.label ? kind.label(c) : JSON.stringify(c);
      const out = { get evaluations() { return t.evaluations; }, set evaluations(v) { t.evaluations = v; }, get nontrivial() { return t.nontrivial; }, set nontrivial(v) { t.nontrivial = v; },
        viol(key, text) { t.found++; if (t.problems.length < 3) t.problems.push({ key, text, at: kind.label ? kind.label(c) : JSON.stringify(c) }); } };
      escaped.length = 0;
      note(name + "\n" + (kind.label ? kind.label(c) : JSON.stringify(c)));
      try { await kind.check(compiled, c, out); } catch (e) { out.viol("crash", String((e && e.stack) || e).split("\n").slice(0, 3).join(" ")); }
      for (const e of escaped) out.viol("crash", e.split("\n").slice(0, 3).join(" "));
    }
  }
  note("");
  parentPort.postMessage(total);
})();
else (async () => {
  const n = Math.min(os.cpus().length, 8), total = {};
  await Promise.all(Array.from({ length: n }, (_, shard) => new Promise((resolve, reject) => {
    const take = (m) => {
      for (const [k, t] of Object.entries(m)) {
        const o = (total[k] ??= { cases: 0, evaluations: 0, nontrivial: 0, problems: [], found: 0, samples: [] });
        for (const f of ["cases", "evaluations", "nontrivial", "found"]) o[f] += t[f];
        o.problems.push(...t.problems);
        if (t.sample) o.samples.push(t.sample);
      }
    };
    const w = watched.start(__filename, { mod: process.argv[2], shard, n }, (what) => {
      const [name, at] = what.split("\n");
      take({ [name]: { cases: 1, evaluations: 1, nontrivial: 0, found: 1, problems: [{ key: "crash", text: "it never comes to an end", at }] } });
      resolve();
    });
    w.on("message", (m) => { take(m); w.terminate(); resolve(); });
    w.on("error", (e) => e.code === "ERR_WORKER_OUT_OF_MEMORY" || reject(e));
  })));
  console.log(JSON.stringify(total));
})().catch((e) => { console.error(e); process.exit(2); });
