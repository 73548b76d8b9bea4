// Rewrites a module so that every store to the stack pointer is seen by the host. The function index
// space stays as it is: the hook is one more defined function, and it reports through the import
// the program already has for profiling.
class R {
    constructor(b, p = 0, e = b.length) { this.b = b; this.p = p; this.e = e; }
    u8() { return this.b[this.p++]; }
    leb() { let r = 0, s = 0; for (;;) { const c = this.u8(); r += (c & 127) * 2 ** s; s += 7; if (!(c & 128)) return r; } }
    skipLeb() { while (this.u8() & 128); }
    take(n) { const x = this.b.subarray(this.p, this.p + n); this.p += n; return x; }
}
const leb = (n) => { const o = []; do { let c = n & 127; n = Math.floor(n / 128); if (n) c |= 128; o.push(c); } while (n); return o; };
const cat = (...a) => { let n = 0; for (const x of a) n += x.length; const o = new Uint8Array(n); n = 0; for (const x of a) { o.set(x, n); n += x.length; } return o; };

export function instrument(bytes, spAddr) {
    const b = new Uint8Array(bytes.buffer ?? bytes, bytes.byteOffset ?? 0, bytes.byteLength);
    const r = new R(b, 8);
    const secs = [];
    while (r.p < b.length) { const id = r.u8(), n = r.leb(); secs.push({id, body: r.take(n)}); }
    const find = (id) => secs.find((s) => s.id === id);
    // imports
    let nimp = 0, log = -1, nglob = 0;
    if (find(2)) {
        const q = new R(find(2).body);
        for (let k = q.leb(); k > 0; k--) {
            const m = Buffer.from(q.take(q.leb())).toString(), f = Buffer.from(q.take(q.leb())).toString();
            const kind = q.u8();
            if (kind === 0) { q.skipLeb(); if (m === "stdlib" && f === "log_stack_ptr") log = nimp; nimp++; }
            else if (kind === 1) { q.u8(); if (q.u8() & 1) q.skipLeb(); q.skipLeb(); }
            else if (kind === 2) { if (q.u8() & 1) q.skipLeb(); q.skipLeb(); }
            else { q.take(2); nglob++; }
        }
    }
    if (log < 0 || !find(10) || !find(1) || !find(3) || !find(7)) return null;
    const append = (id, item) => {
        const s = find(id), q = new R(s.body), n = q.leb();
        s.body = cat(leb(n + 1), s.body.subarray(q.p), item);
        return n;
    };
    const ty = append(1, [0x60, 3, 0x7f, 0x7f, 0x7f, 0]);
    const fidx = nimp + append(3, leb(ty));
    const glob = [0x7f, 1, 0x41, 0, 0x0b];
    let g;
    if (find(6)) g = nglob + append(6, glob);
    else { g = nglob; const at = secs.findIndex((s) => s.id !== 0 && s.id >= 7); secs.splice(at, 0, {id: 6, body: cat([1], glob)}); }
    append(7, cat(leb(12), Buffer.from("__sim_inhook"), [3], leb(g)));
    // bodies
    const q = new R(find(10).body), n = q.leb(), out = [];
    for (let k = 0; k < n; k++) {
        const len = q.leb(), end = q.p + len, start = q.p;
        const locals = q.leb();
        for (let i = 0; i < locals; i++) { q.skipLeb(); q.skipLeb(); }
        const parts = [];
        let from = start;
        while (q.p < end) {
            const at = q.p, op = q.u8();
            if (op === 0x36) {
                q.skipLeb();
                const off = q.leb();
                parts.push(b2(q.b, from, at), Uint8Array.from([0x41, ...sleb(off), 0x10, ...leb(fidx)]));
                from = q.p;
            } else if (op === 0x02 || op === 0x03 || op === 0x04 || op === 0x0c || op === 0x0d || op === 0x10 || (op >= 0x20 && op <= 0x26) || op === 0x41 || op === 0x42 || op === 0xd2) q.skipLeb();
            else if (op === 0x0e) { for (let c = q.leb() + 1; c > 0; c--) q.skipLeb(); }
            else if (op === 0x11) { q.skipLeb(); q.skipLeb(); }
            else if (op === 0x1c) { q.take(q.leb()); }
            else if (op >= 0x28 && op <= 0x3e) { q.skipLeb(); q.skipLeb(); }
            else if (op === 0x3f || op === 0x40 || op === 0xd0) q.u8();
            else if (op === 0x43) q.take(4);
            else if (op === 0x44) q.take(8);
            else if (op === 0xfc) {
                const s = q.leb();
                if (s === 8) { q.skipLeb(); q.u8(); } else if (s === 9 || s === 13 || s >= 15) q.skipLeb(); else if (s === 10) q.take(2); else if (s === 11) q.u8(); else if (s === 12 || s === 14) { q.skipLeb(); q.skipLeb(); }
            }
        }
        parts.push(b2(q.b, from, end));
        const body = cat(...parts);
        out.push(cat(leb(body.length), body));
    }
    const hook = Uint8Array.from([0,
        0x20, 0, 0x20, 2, 0x6a, 0x20, 1, 0x36, 0, 0,
        0x20, 0, 0x20, 2, 0x6a, 0x41, ...sleb(spAddr), 0x46, 0x04, 0x40,
        0x41, 1, 0x24, ...leb(g), 0x10, ...leb(log), 0x41, 0, 0x24, ...leb(g), 0x0b, 0x0b]);
    find(10).body = cat(leb(n + 1), ...out, leb(hook.length), hook);
    return cat(b.subarray(0, 8), ...secs.map((s) => cat([s.id], leb(s.body.length), s.body)));
}
function b2(b, f, t) { return b.subarray(f, t); }
function sleb(n) { const o = []; for (;;) { const c = n & 127; n >>= 7; if ((n === 0 && !(c & 64)) || (n === -1 && (c & 64))) { o.push(c); return o; } o.push(c | 128); } }
