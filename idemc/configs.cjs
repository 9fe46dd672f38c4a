"use strict";
// depth: [quick, thorough]
exports.FOCUS = {
  one: { docs: ["a"], events: ["focus", "sel:x", "sel:y", "sel:z", "edit", "save"], depth: [7, 8] },
  places: { docs: ["a"], events: ["focus", "sel:x", "sel:out", "sel:span", "sel:blank", "external"], depth: [7, 8] },
  marks: { docs: ["a"], events: ["focus", "mark", "unmark", "select", "sel:x", "sel:y", "sel:z", "edit", "save"], max: { edit: 1, save: 1, focus: 2 }, depth: [6, 7] },
  errors: { docs: ["a"], events: ["focus", "sel:z", "break", "panic", "save"], faults: ["killed"], depth: [7, 8] },
  faults: { docs: ["a"], events: ["focus", "sel:z", "save"], faults: ["killed", "spawn", "empty", "cut"], maxFaults: 2, depth: [7, 8] },
  split: { docs: ["a", "b"], events: ["focus", "sel:x", "sel:z", "sel:w", "switch:0", "switch:1", "edit", "external:0", "external:1", "save"], max: { edit: 1, "external:0": 1, "external:1": 1 }, depth: [6, 7] },
  odd: { docs: ["a", "lost", "out", "txt"], events: ["focus", "sel:x", "sel:w", "switch:0", "switch:1", "switch:2", "switch:3", "leave", "edit", "save", "mark"], depth: [5, 6] },
};
