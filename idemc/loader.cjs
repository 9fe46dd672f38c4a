// Compiles the extension's real sources (one CommonJS function per module) so that every execution gets fresh modules.
"use strict";
const fs = require("fs"), path = require("path"), vm = require("vm");
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
const lodash = require("/opt/veriftools/quint/node_modules/lodash");

exports.compile = (root) => {
  const src = path.join(root, "src");
  const pkg = JSON.parse(fs.readFileSync(path.join(root, "package.json"), "utf8"));
  const toml = fs.readFileSync(path.join(root, "..", "rust-toolchain.toml"), "utf8");
  const channel = /channel\s*=\s*"([^"]*)"/.exec(toml)[1];
  const list = (/components\s*=\s*\[([^\]]*)\]/.exec(toml) || [, ""])[1];
  const components = list.split(",").map((s) => s.trim().replace(/^"|"$/g, "")).filter((s) => s);
  const define = { TOOLCHAIN: JSON.stringify({ channel, components }), VERSION: JSON.stringify(pkg.version) };
  const modules = {};
  const walk = (dir) => {
    for (const f of fs.readdirSync(dir, { withFileTypes: true })) {
      const p = path.join(dir, f.name);
      if (f.isDirectory()) { if (f.name !== "tests") walk(p); continue; }
      if (!/\.tsx?$/.test(f.name) || /\.d\.ts$/.test(f.name)) continue;
      const code = esbuild.transformSync(fs.readFileSync(p, "utf8"), { loader: f.name.endsWith("x") ? "tsx" : "ts", format: "cjs", target: "node22", define, sourcefile: p }).code.replace(/\b__toESM\(require\(/g, "__interop(require(");
      modules[p.replace(/\.tsx?$/, "")] = new vm.Script(`(function(require, module, exports, console, process, __interop){${code}\n})`, { filename: p }).runInThisContext();
    }
  };
  walk(src);
  const contributed = pkg.contributes.commands.map((c) => c.command);
  return { src, modules, version: pkg.version, channel, components, contributed };
};

// what esbuild's __toESM does, without copying every property of every import in every execution
const facades = new WeakMap();
const interop = (m) => {
  if (m && m.__esModule) return m;
  if (!facades.has(m)) facades.set(m, new Proxy(m, { get: (t, k) => (k === "default" ? t : t[k]) }));
  return facades.get(m);
};
const quiet = new Proxy({}, { get: () => () => {} });
// stubs: name -> module exports
exports.instantiate = (compiled, stubs, proc) => {
  const cache = {};
  const load = (file) => {
    if (cache[file]) return cache[file].exports;
    const m = (cache[file] = { exports: {} });
    const req = (name) => {
      if (name.startsWith(".")) {
        const p = path.resolve(path.dirname(file), name).replace(/\.(ts|js)$/, "");
        for (const c of [p, path.join(p, "index")]) if (compiled.modules[c]) return load(c);
        if (/\.(scss|css)$/.test(name)) return {};
        throw new Error(`module ${name} of ${file} not found`);
      }
      const bare = name.replace(/^node:/, "");
      if (bare in stubs) return stubs[bare];
      if (bare === "lodash") return lodash;
      if (bare.startsWith("lodash/")) return require("/opt/veriftools/quint/node_modules/" + bare);
      return require(bare);
    };
    compiled.modules[file](req, m, m.exports, quiet, proc, interop);
    return m.exports;
  };
  return (name) => load(path.join(compiled.src, name));
};
