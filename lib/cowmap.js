"use strict";
// a map with cheap copies: shared frozen layers of growing size and a small private overlay
const GONE = Symbol("gone"), NONE = [];
class CowMap {
  constructor(layers, size) { this.layers = layers || NONE; this.over = new Map(); this.size = size || 0; }
  copy() {
    if (this.over.size > 0) {
      const ls = this.layers.slice(); let last = this.over;
      while (ls.length && last.size * 3 >= ls[ls.length - 1].size) { const m = new Map(ls.pop()), bottom = ls.length === 0; for (const [k, v] of last) if (bottom && v === GONE) m.delete(k); else m.set(k, v); last = m; }
      ls.push(last); this.layers = ls; this.over = new Map();
    }
    return new CowMap(this.layers, this.size);
  }
  get(k) { let v = this.over.size ? this.over.get(k) : undefined; if (v === undefined) { const ls = this.layers; for (let i = ls.length - 1; i >= 0; i--) { v = ls[i].get(k); if (v !== undefined) break; } } return v === GONE ? undefined : v; }
  has(k) { return this.get(k) !== undefined; }
  set(k, v) { if (v === undefined) throw new Error("undefined in a CowMap"); if (!this.has(k)) this.size++; this.over.set(k, v); return this; }
  delete(k) { if (!this.has(k)) return false; this.size--; this.over.set(k, GONE); return true; }
  *[Symbol.iterator]() {
    if (!this.layers.length) { for (const e of this.over) if (e[1] !== GONE) yield e; return; }
    let m = this.layers[0]; if (this.layers.length > 1 || this.over.size) { m = new Map(m); for (const l of [...this.layers.slice(1), this.over]) for (const [k, v] of l) if (v === GONE) m.delete(k); else m.set(k, v); }
    yield* m;
  }
}
module.exports = { CowMap };
