// Runs the real runtime modules (a copy of /repo/runtime) as simulated processes.
//
// One node process, one simulated process at a time.  Each job runs the runtime's entry point in a
// fresh realm; argv, exit, stdout/stderr, the clock, timers, randomness, WebAssembly compilation and
// the file system calls go through this file, so a job's outcome is a function of the job alone.
//
// protocol: one JSON object per line on stdin, one per line on stdout.
//   in:  {id, root, argv:[...], cwd, clock:{start,step,jumps:[[nth,delta]]}, faults:[{op,nth,action,arg}], mem:bool}
//   out: {id, code, out, err, ops, fired, clockReads, timers, memAfter?}
import vm from "node:vm";
import fs from "node:fs";
import path from "node:path";
import url from "node:url";
import readline from "node:readline";
import * as nodeModule from "node:module";
import {instrument} from "./trace.mjs";

const sources = new Map();   // path -> source text
const MAX_OUT = 8 << 20;

class ExitSignal {
    constructor(code) { this.code = code; }
}

const errnos = {EIO: -5, ENOENT: -2, EACCES: -13, ENOSPC: -28, EMFILE: -24, EROFS: -30, EISDIR: -21, EDQUOT: -122, EINTR: -4, ENOTDIR: -20, EPERM: -1, EAGAIN: -11, EBADF: -9};
function sysError(code, syscall, p) {
    const e = new Error(`${code}: simulated failure, ${syscall}${p ? ` '${p}'` : ""}`);
    e.code = code;
    e.errno = errnos[code] ?? -5;
    e.syscall = syscall;
    if (p) e.path = p;
    return e;
}

function toBuf(data, enc) {
    if (typeof data === "string") return Buffer.from(data, typeof enc === "string" ? enc : enc && enc.encoding || "utf8");
    if (ArrayBuffer.isView(data)) return Buffer.from(data.buffer, data.byteOffset, data.byteLength);
    if (data && typeof data === "object" && typeof data.byteLength === "number") return Buffer.from(new Uint8Array(data.buffer ?? data, data.byteOffset ?? 0, data.byteLength));
    return Buffer.from(String(data));
}

async function job(j) {
    const res = {id: j.id, code: null, ops: {}, fired: []};
    const spAddr = j.spAddr ?? 8;
    const tr = j.trace ? {prints: [], stores: [], sp0: null} : null;
    let theMemory = null;
    let out = [], outLen = 0, err = [], errLen = 0;
    let exited = null;   // the first exit wins, even if the simulated program catches the signal
    const exit = (c) => { if (exited === null) exited = c; throw new ExitSignal(exited); };
    const put = (fd, b) => {
        if (exited !== null) return b.length;
        if (fd === 1) {
            if (tr && theMemory) tr.prints.push([outLen, new DataView(theMemory.buffer).getUint32(spAddr, true), tr.stores.length]);
            outLen += b.length;
            if (outLen > MAX_OUT) { res.overflow = true; exit(1); }
            out.push(Buffer.from(b));
        } else {
            errLen += b.length;
            if (errLen < 1 << 20) err.push(Buffer.from(b));
        }
        return b.length;
    };
    let dead = false;   // killed: nothing it does after that has any effect
    const die = () => { dead = true; if (exited === null) exited = 137; throw new ExitSignal(137); };
    const op = (name) => {
        if (dead) throw new ExitSignal(137);
        const n = (res.ops[name] = (res.ops[name] ?? 0) + 1);
        for (const f of j.faults ?? []) {
            if (f.op === name && (f.nth === n || (f.every && n >= f.nth))) {
                res.fired.push([f.op, n, f.action, f.arg ?? null]);
                return f;
            }
        }
        return null;
    };

    // ---- clock
    const clk = j.clock ?? {};
    let now = clk.start ?? 1700000000000, reads = 0;
    const readClock = () => {
        reads++;
        now += clk.step ?? 1;
        for (const [nth, delta] of clk.jumps ?? []) {
            if (nth === reads) { now += delta; res.fired.push(["clock", reads, "jump", delta]); }
        }
        return now;
    };

    // ---- file system
    const fds = new Map();   // simulated class of open descriptors: fd -> path
    const kind = (p) => {
        const s = typeof p === "string" ? p : p instanceof URL ? url.fileURLToPath(p) : Buffer.isBuffer(p) ? p.toString() : String(p);
        return s.endsWith(".stackptrlog") ? "log" : s.includes("/logs") ? "log" : "module";
    };
    const real = {...fs};
    const guard = (name, p, real_) => {
        const f = op(`${name}:${kind(p)}`);
        if (f && f.action === "err") throw sysError(f.arg, name, String(p));
        if (f && f.action === "kill") die();
        return f;
    };
    const sfs = {};
    for (const k of Object.keys(fs)) sfs[k] = fs[k];
    sfs.readFileSync = (p, o) => {
        if (typeof p === "number" && !fds.has(p)) return real.readFileSync(p, o);
        const f = guard("read", typeof p === "number" ? fds.get(p) : p);
        let b = real.readFileSync(p);
        if (f && f.action === "trunc") b = b.subarray(0, Math.floor(b.length * f.arg / 1000));
        if (f && f.action === "flip") { b = Buffer.from(b); if (b.length) { const i = f.arg % b.length; b[i] ^= 1 << (f.arg % 7); } }
        if (f && (f.action === "trunc" || f.action === "flip")) res.valid = WebAssembly.validate(b);
        // what a damaged module that is still a module does is nobody's business
        if (f && f.action === "flip" && res.valid) exit(0);
        const enc = typeof o === "string" ? o : o && o.encoding;
        return enc ? b.toString(enc) : b;
    };
    const writing = (name, p, data, o, go) => {
        const f = op(`${name}:${kind(p)}`);
        const b = toBuf(data, o);
        if (f && f.action === "err") throw sysError(f.arg, name, String(p));
        if (f && f.action === "kill") { const n = f.arg % (b.length + 1); if (n) go(b.subarray(0, n)); die(); }
        if (f && f.action === "torn") { go(b.subarray(0, f.arg % (b.length + 1))); throw sysError("ENOSPC", name, String(p)); }
        return go(b);
    };
    sfs.appendFileSync = (p, data, o) => {
        if (p === 1 || p === 2) return void put(p, toBuf(data, o));
        return writing("append", typeof p === "number" ? fds.get(p) : p, data, o, (b) => real.appendFileSync(p, b));
    };
    sfs.writeFileSync = (p, data, o) => {
        if (p === 1 || p === 2) return void put(p, toBuf(data, o));
        return writing("append", typeof p === "number" ? fds.get(p) : p, data, o, (b) => real.writeFileSync(p, b, o));
    };
    sfs.openSync = (p, ...a) => {
        guard("open", p);
        const fd = real.openSync(p, ...a);
        fds.set(fd, String(p));
        return fd;
    };
    sfs.closeSync = (fd) => { fds.delete(fd); return real.closeSync(fd); };
    sfs.readSync = (fd, buf, ...a) => {
        const f = fds.has(fd) ? guard("read", fds.get(fd)) : null;
        if (f && f.action === "trunc") return 0;
        return real.readSync(fd, buf, ...a);
    };
    sfs.writeSync = (fd, data, ...a) => {
        if (fd === 1 || fd === 2) {
            if (typeof data === "string") return put(fd, Buffer.from(data, typeof a[1] === "string" ? a[1] : "utf8"));
            const b = toBuf(data);
            const off = typeof a[0] === "number" ? a[0] : a[0]?.offset ?? 0;
            const len = typeof a[1] === "number" ? a[1] : a[0]?.length ?? b.length - off;
            return put(fd, b.subarray(off, off + len));
        }
        return writing("append", fds.get(fd) ?? "module", data, undefined, (b) => real.writeSync(fd, b));
    };
    sfs.existsSync = (p) => { op(`stat:${kind(p)}`); return real.existsSync(p); };
    // asynchronous forms run the synchronous ones: simulated completion is immediate
    const async_ = (name) => (...a) => {
        const cb = a.pop();
        let r, e = null;
        try { r = sfs[name](...a); } catch (x) { if (x instanceof ExitSignal) throw x; e = x; }
        pendingCallbacks.push(() => cb(e, r));
    };
    const pendingCallbacks = [];
    for (const n of ["readFile", "appendFile", "writeFile", "open", "close"]) sfs[n] = async_(n + "Sync");
    const prom = {...fs.promises};
    for (const n of ["readFile", "appendFile", "writeFile"]) prom[n] = async (...a) => sfs[n + "Sync"](...a);
    sfs.promises = prom;

    // ---- process
    const handlers = {};
    const stream = (fd) => ({
        fd, isTTY: false, writable: true, columns: 80,
        write(d, enc, cb) {
            put(fd, toBuf(d, enc));
            const f = typeof enc === "function" ? enc : cb;
            if (typeof f === "function") pendingCallbacks.push(() => f());
            return true;
        },
        end(d, enc) { if (d !== undefined) put(fd, toBuf(d, enc)); },
        on() { return this; }, once() { return this; }, emit() { return true; }, removeListener() { return this; },
        cork() {}, uncork() {},
    });
    const proc = Object.create(process);
    let exitCode;
    const def = (k, v) => Object.defineProperty(proc, k, {value: v, writable: true, configurable: true, enumerable: true});
    def("argv", ["/usr/bin/node", path.join(j.root, "runtime/run.mjs"), ...j.argv]);
    def("argv0", "node");
    def("execArgv", []);
    def("env", {PATH: "/usr/bin"});
    def("stdout", stream(1));
    def("stderr", stream(2));
    def("exit", (c) => exit(c === undefined ? exitCode ?? 0 : c));
    def("reallyExit", (c) => exit(c ?? 0));
    def("abort", () => exit(134));
    def("on", (n, f) => { (handlers[n] ??= []).push(f); return proc; });
    def("once", (n, f) => { (handlers[n] ??= []).push(f); return proc; });
    def("addListener", (n, f) => { (handlers[n] ??= []).push(f); return proc; });
    def("off", () => proc);
    def("removeListener", () => proc);
    def("cwd", () => j.cwd ?? j.root);
    def("nextTick", (f, ...a) => queueMicrotask(() => f(...a)));
    def("hrtime", Object.assign(() => { const t = readClock(); return [Math.floor(t / 1000), (t % 1000) * 1e6]; }, {bigint: () => BigInt(readClock()) * 1000000n}));
    def("pid", 4242);
    Object.defineProperty(proc, "exitCode", {get: () => exitCode, set: (v) => { exitCode = v; }, configurable: true});

    // ---- realm
    const RealDate = Date;
    const ctxGlobal = vm.createContext({});
    const g = vm.runInContext("globalThis", ctxGlobal);
    for (const k of ["Buffer", "TextEncoder", "TextDecoder", "URL", "URLSearchParams", "queueMicrotask", "structuredClone", "AbortController", "AbortSignal", "Event", "EventTarget"]) g[k] = globalThis[k];
    g.process = proc;
    g.global = g;
    const fmt = (a) => a.map((x) => typeof x === "string" ? x : x instanceof Error ? x.stack ?? String(x) : typeof x === "bigint" ? `${x}n` : typeof x === "object" && x !== null ? JSON.stringify(x, (k, v) => typeof v === "bigint" ? `${v}n` : v) : String(x)).join(" ") + "\n";
    g.console = {};
    for (const k of ["log", "info", "debug"]) g.console[k] = (...a) => void put(1, Buffer.from(fmt(a)));
    for (const k of ["error", "warn", "trace", "assert"]) g.console[k] = (...a) => void put(2, Buffer.from(fmt(a)));
    g.performance = {now: () => readClock() - 1700000000000};
    g.__now = readClock;
    vm.runInContext(`{
        const now = globalThis.__now, RealDate = Date;
        class SimDate extends RealDate {
            constructor(...a) { if (a.length === 0) super(now()); else super(...a); }
            static now() { return now(); }
        }
        globalThis.Date = SimDate;
        let s = 88172645463325252n;
        Math.random = () => { s ^= (s << 13n) & 0xffffffffffffffffn; s ^= s >> 7n; s ^= (s << 17n) & 0xffffffffffffffffn; return Number(s & 0xfffffffffffffn) / 2 ** 52; };
        delete globalThis.__now;
    }`, ctxGlobal);
    // timers: a queue ordered by (time, sequence); run when nothing else is left
    const timers = [];
    let tseq = 0, simT = 0;
    const setT = (f, ms = 0, rep, a) => { const t = {at: simT + Math.max(1, +ms || 0), seq: tseq++, f, a, rep, ms, unref() { return t; }, ref() { return t; }, hasRef() { return true; }}; timers.push(t); return t; };
    g.setTimeout = (f, ms, ...a) => setT(f, ms, false, a);
    g.setInterval = (f, ms, ...a) => setT(f, ms, true, a);
    g.setImmediate = (f, ...a) => setT(f, 0, false, a);
    g.clearTimeout = g.clearInterval = g.clearImmediate = (t) => { const i = timers.indexOf(t); if (i >= 0) timers.splice(i, 1); };

    // ---- WebAssembly: compiled synchronously, so completion order is ours; memory can be refused
    const W = g.WebAssembly;
    {
        const M = W.Memory, Mod = W.Module, Inst = W.Instance;
        W.Memory = new Proxy(M, {
            construct(t, a, nt) {
                const f = op("memory");
                if (f) throw new g.RangeError("WebAssembly.Memory(): could not allocate memory");
                const m = Reflect.construct(t, a, M);
                theMemory ??= m;
                return m;
            },
        });
        W.Module = new Proxy(Mod, {
            construct(t, a) {
                const f = op("compile");
                if (f) throw new g.RangeError("WebAssembly.Module(): out of memory");
                return Reflect.construct(t, a, Mod);
            },
        });
        W.instantiate = async (x, imports) => {
            if (x instanceof Mod) { if (op("instantiate")) throw new g.RangeError("WebAssembly.Instance(): out of memory"); return new Inst(x, imports); }
            if (op("compile")) throw new g.RangeError("WebAssembly.instantiate(): out of memory");
            let inst = null, bytes = x;
            if (tr) {
                const y = instrument(x, spAddr);
                if (y && WebAssembly.validate(y)) {
                    bytes = y;
                    const real = imports.stdlib.log_stack_ptr;
                    imports = {...imports, stdlib: {...imports.stdlib, log_stack_ptr: () => {
                        if (inst.exports.__sim_inhook.value) tr.stores.push(new DataView(theMemory.buffer).getUint32(spAddr, true));
                        else real();
                    }}};
                    tr.on = true;
                }
            }
            const module = new Mod(bytes);
            inst = new Inst(module, imports);
            if (tr) {
                // the stack pointer as main finds it, arguments included
                const main = inst.exports.main, e = {...inst.exports};
                e.main = (...a) => { tr.sp0 ??= new DataView(theMemory.buffer).getUint32(spAddr, true); return main(...a); };
                return {module, instance: {exports: e}};
            }
            return {module, instance: inst};
        };
        W.compile = async (x) => new W.Module(x);
    }

    // ---- modules
    const cache = new Map();
    const builtins = {fs: sfs, "fs/promises": prom, process: proc, timers: {setTimeout: g.setTimeout, setInterval: g.setInterval, setImmediate: g.setImmediate, clearTimeout: g.clearTimeout}};
    const synth = async (name) => {
        const real_ = builtins[name] ?? await import("node:" + name);
        const names = [...new Set([...Object.keys(real_).filter((k) => k !== "default"), "default"])];
        const m = new vm.SyntheticModule(names, function () {
            for (const n of names) this.setExport(n, n === "default" ? builtins[name] ?? real_.default ?? real_ : real_[n]);
        }, {context: ctxGlobal, identifier: "node:" + name});
        return m;
    };
    const load = (spec, from) => {
        let key, mk;
        const bare = spec.startsWith("node:") ? spec.slice(5) : spec;
        if (spec.startsWith("node:") || nodeModule.builtinModules.includes(bare)) {
            key = "node:" + bare;
            mk = () => synth(bare);
        } else {
            const p = spec.startsWith("file:") ? url.fileURLToPath(spec) : path.resolve(path.dirname(from), spec);
            key = p;
            mk = async () => {
                if (!sources.has(p)) sources.set(p, fs.readFileSync(p, "utf8"));
                if (p.endsWith(".json")) {
                    const v = JSON.parse(sources.get(p));
                    return new vm.SyntheticModule(["default"], function () { this.setExport("default", v); }, {context: ctxGlobal, identifier: p});
                }
                return new vm.SourceTextModule(sources.get(p), {
                    context: ctxGlobal, identifier: url.pathToFileURL(p).href,
                    initializeImportMeta: (meta) => { meta.url = url.pathToFileURL(p).href; meta.filename = p; meta.dirname = path.dirname(p); meta.resolve = (s) => url.pathToFileURL(path.resolve(path.dirname(p), s)).href; },
                    importModuleDynamically: async (s) => { const m = await load(s, p); if (m.status === "unlinked") await m.link((s2, r) => load(s2, url.fileURLToPath(r.identifier))); if (m.status === "linked") await m.evaluate(); return m; },
                });
            };
        }
        if (!cache.has(key)) cache.set(key, mk());
        return cache.get(key);
    };

    let failure = null, code = null;
    current = {reject: null};
    try {
        const unhandled = new Promise((_, rej) => { current.reject = rej; });
        unhandled.catch(() => {});
        const main = await load(path.join(j.root, "runtime/run.mjs"), "/");
        await main.link((s, r) => load(s, r.identifier.startsWith("file:") ? url.fileURLToPath(r.identifier) : "/"));
        const done = main.evaluate();
        let settled = false;
        done.then(() => { settled = true; }, () => { settled = true; });
        // drive callbacks and timers of the simulated process until its top level is done and nothing is left
        for (let quiet = 0; quiet < 3;) {
            await Promise.race([unhandled, new Promise((r) => setImmediate(r))]);
            if (pendingCallbacks.length) { quiet = 0; pendingCallbacks.shift()(); continue; }
            if (timers.length) {
                quiet = 0;
                timers.sort((a, b) => a.at - b.at || a.seq - b.seq);
                const t = timers.shift();
                simT = t.at;
                now += Math.max(0, Math.min(t.ms, 1e6) || 0);
                t.f(...t.a);
                if (t.rep) setT(t.f, t.ms, true, t.a);
                continue;
            }
            if (settled) break;
            quiet++;
        }
        if (!settled) code = 13;   // node: unsettled top-level await
        else await done;
    } catch (e) {
        if (!(e instanceof ExitSignal)) failure = e;
    }
    if (exited !== null) { code = exited; failure = null; }
    if (failure !== null) {
        put(2, Buffer.from(`Uncaught ${failure && failure.stack || failure}\n`));
        code = 1;
        res.uncaught = String(failure && failure.message || failure).slice(0, 200);
    }
    if (code === null) code = exitCode ?? 0;
    for (const f of handlers.exit ?? []) { try { f(code); } catch (e) { if (e instanceof ExitSignal) code = e.code; } }
    for (const fd of fds.keys()) { try { real.closeSync(fd); } catch {} }
    res.code = Number(code) & 255;
    res.out = Buffer.concat(out).toString("hex");
    res.err = Buffer.concat(err).subarray(0, 3000).toString("latin1");
    res.errLen = errLen;
    res.clockReads = reads;
    res.simMs = now - (clk.start ?? 1700000000000);
    if (tr) res.trace = tr;
    if (j.mem && theMemory) {
        const m = Buffer.from(theMemory.buffer);
        res.sp = m.readUInt32LE(8);
        res.fp = m.readUInt32LE(0);
        res.memLen = m.length;
    }
    return res;
}

let current = null;
process.on("unhandledRejection", (e) => { if (current?.reject) current.reject(e); });
process.on("uncaughtException", (e) => { if (current?.reject) current.reject(e); });

const rl = readline.createInterface({input: process.stdin, crlfDelay: Infinity});
for await (const line of rl) {
    if (!line) continue;
    const j = JSON.parse(line);
    if (j.ping) { process.stdout.write(JSON.stringify({id: j.id, pong: true, heap: process.memoryUsage().rss}) + "\n"); continue; }
    if (j.forget) sources.clear();
    const r = await job(j);
    process.stdout.write(JSON.stringify(r) + "\n");
}
process.exit(0);
