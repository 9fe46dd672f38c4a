// Stand-in for @flatten-js/interval-tree: closed intervals, results in order of low end, high end, insertion.
"use strict";
class Interval {
  constructor(low, high) { this.low = low; this.high = high; }
  clone() { return new Interval(this.low, this.high); }
  get max() { return this.clone(); }
  output() { return [this.low, this.high]; }
}
class IntervalTree {
  constructor() { this.items = []; }
  get size() { return this.items.length; }
  get keys() { return this.items.map((i) => [i.key.low, i.key.high]); }
  get values() { return this.items.map((i) => i.value); }
  isEmpty() { return this.items.length === 0; }
  clear() { this.items = []; }
  insert(key, value = key) {
    if (key === undefined) return;
    const k = Array.isArray(key) ? new Interval(key[0], key[1]) : key;
    let i = this.items.length;
    while (i > 0 && (this.items[i - 1].key.low > k.low || (this.items[i - 1].key.low === k.low && this.items[i - 1].key.high > k.high))) i--;
    this.items.splice(i, 0, { key: k, value });
  }
  search(interval, map = (value, key) => (value === key ? key.output() : value)) {
    const [lo, hi] = Array.isArray(interval) ? interval : [interval.low, interval.high];
    return this.items.filter(({ key }) => key.low <= hi && lo <= key.high).map(({ key, value }) => map(value, key));
  }
  intersect_any(interval) { return this.search(interval).length > 0; }
  forEach(f) { this.items.forEach(({ key, value }) => f(key, value)); }
  map(f) { const t = new IntervalTree(); this.items.forEach(({ key, value }) => t.insert(key, f(value, key))); return t; }
}
IntervalTree.default = IntervalTree;
IntervalTree.Interval = Interval;
IntervalTree.Node = class {};
IntervalTree.IntervalTree = IntervalTree;
module.exports = IntervalTree;
