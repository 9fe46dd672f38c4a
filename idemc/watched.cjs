"use strict";
// Workers which say what they are doing, so that one which never comes to an end can be told from one which is slow.
const { Worker } = require("worker_threads");
const SIZE = 4096, LIMIT = 1000 * +(process.env.IDEMC_LIMIT || 60);

// In the worker: note what comes next.
const noting = (shared) => {
  const count = new Int32Array(shared, 0, 2), text = new Uint8Array(shared, 8);
  return (what) => {
    const b = Buffer.from(what).subarray(0, SIZE);
    text.set(b);
    Atomics.store(count, 1, b.length);
    Atomics.add(count, 0, 1);
  };
};
// A worker; `hung(what)` is called, and the worker ended, when it does one and the same thing for too long.
const start = (file, workerData, hung) => {
  const shared = new SharedArrayBuffer(8 + SIZE), count = new Int32Array(shared, 0, 2), text = new Uint8Array(shared, 8);
  const w = new Worker(file, { workerData: { ...workerData, shared }, resourceLimits: { maxOldGenerationSizeMb: 2048 } });
  let last = -1, since = Date.now();
  const timer = setInterval(() => {
    const now = Atomics.load(count, 0);
    if (now !== last || now === 0 || w.idle) { last = now; since = Date.now(); return; }
    if (Date.now() - since < LIMIT) return;
    give(up);
  }, 1000);
  const up = () => Buffer.from(text.slice(0, Atomics.load(count, 1))).toString();
  const give = (what) => { clearInterval(timer); w.terminate(); hung(what()); };
  // a loop can also use up the memory first
  w.prependListener("error", (e) => { if (e && e.code === "ERR_WORKER_OUT_OF_MEMORY") give(up); });
  w.on("exit", () => clearInterval(timer));
  return w;
};
module.exports = { start, noting };
