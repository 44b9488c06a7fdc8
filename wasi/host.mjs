// A deterministic WASI host: runs radolan2png, compiled for wasip1, against a
// simulated operating system. Every source of nondeterminism (files, short and
// failing calls, clock, randomness, environment, memory limit, death of the
// process) is decided by the request. One request per line on stdin, one
// answer per line on stdout.
import fs from 'node:fs';
import readline from 'node:readline';
import { Worker, MessageChannel, receiveMessageOnPort, isMainThread, workerData } from 'node:worker_threads';

const E = { SUCCESS: 0, EACCES: 2, EAGAIN: 6, EBADF: 8, EBUSY: 10, EDQUOT: 19, EEXIST: 20, EFBIG: 22, EINTR: 27, EINVAL: 28, EIO: 29,
  EISDIR: 31, ELOOP: 32, EMFILE: 33, ENAMETOOLONG: 37, ENFILE: 41, ENOENT: 44, ENOMEM: 48, ENOSPC: 51, ENOSYS: 52, ENOTDIR: 54, ENOTEMPTY: 55,
  EPERM: 63, EPIPE: 64, EROFS: 69, ESPIPE: 70, ESTALE: 72, ENOTCAPABLE: 76 };

class Exit { constructor(code) { this.code = code; } }
class Crash { }
class Endless { }

if (!isMainThread) {
  // a process of a pair: every system call is handed to the main thread, which
  // decides when it is executed and when the process goes on
  const { port, ctl, args } = workerData; const c = new Int32Array(ctl), a = new BigInt64Array(args);
  const until = (state) => { while (Atomics.load(c, 0) === state) Atomics.wait(c, 0, state); };
  const park = (state) => { Atomics.store(c, 0, state); Atomics.notify(c, 0); until(state); };
  class Gone { }
  for (;;) {
    until(0);
    const { message } = receiveMessageOnPort(port);
    if (message.quit) break;
    const w = {};
    message.names.forEach((n, i) => {
      w[n] = (...x) => {
        Atomics.store(c, 1, i); Atomics.store(c, 2, x.length);
        for (let k = 0; k < x.length; k++) Atomics.store(a, k, BigInt(x[k]));
        park(2);
        if (Atomics.load(c, 3)) throw new Gone();
        return n === 'proc_exit' ? undefined : Atomics.load(c, 5);
      };
    });
    let end = 0, text = '';
    try {
      const inst = new WebAssembly.Instance(message.module, { wasi_snapshot_preview1: w });
      port.postMessage(inst.exports.memory);
      inst.exports._start();
    } catch (e) {
      if (!(e instanceof Gone)) { end = 1; text = String(e.message); }
    }
    if (end) port.postMessage(text);
    Atomics.store(c, 4, end);
    park(3);
  }
  process.exit(0);
}

const wasmBytes = fs.readFileSync(process.argv[2]);
const modules = new Map();

// compile with a limit on the memory (in 64 KiB pages)
function moduleFor(maxPages, shared) {
  const k = shared ? 'shared' : maxPages || 0;
  if (modules.has(k)) return modules.get(k);
  const bytes = k ? limitMemory(wasmBytes, shared ? 16384 : k, shared) : wasmBytes;
  const m = new WebAssembly.Module(bytes);
  modules.set(k, m);
  return m;
}

function limitMemory(b, max, shared) {
  const rd = (p) => { let r = 0, s = 0, x; do { x = b[p++]; r += (x & 127) * 2 ** s; s += 7; } while (x & 128); return [r, p]; };
  const wr = (v) => { const o = []; do { let x = v & 127; v = Math.floor(v / 128); if (v) x |= 128; o.push(x); } while (v); return o; };
  let p = 8;
  while (p < b.length) {
    const id = b[p]; const [len, q] = rd(p + 1);
    if (id === 5) {
      let [n, r] = rd(q); if (n !== 1) throw new Error('memories');
      const flags = b[r]; let min; [min, r] = rd(r + 1);
      const body = [1, shared ? 3 : 1, ...wr(min), ...wr(Math.max(max, min))];
      return Buffer.concat([b.subarray(0, p), Buffer.from([5, ...wr(body.length), ...body]), b.subarray(q + len)]);
    }
    p = q + len;
  }
  throw new Error('no memory section');
}

function minPages() {
  // memory the module demands at start
  const b = wasmBytes; let p = 8;
  const rd = (p) => { let r = 0, s = 0, x; do { x = b[p++]; r += (x & 127) * 2 ** s; s += 7; } while (x & 128); return [r, p]; };
  while (p < b.length) {
    const id = b[p]; const [len, q] = rd(p + 1);
    if (id === 5) { const [, r] = rd(q); return rd(r + 1)[0]; }
    p = q + len;
  }
  return 0;
}

const dir = (perm) => ({ dir: true, perm: perm || '' });
const file = (f, now) => { const n = { data: Buffer.from(f.data || '', 'base64'), size: 0, perm: f.perm || '', mtime: BigInt(f.mtime || now || '1500000000000000000') }; n.size = n.data.length; return n; };

// the simulated disk
function disk(rq) {
  const inodes = new Map(); // path -> inode
  inodes.set('/', dir());
  for (const d of rq.dirs || []) inodes.set(d.path, dir(d.perm));
  for (const f of rq.files || []) inodes.set(f.path, file(f));
  return inodes;
}

function listing(inodes, ans) {
  ans.files = []; ans.dirs = [];
  for (const [p, n] of inodes) { if (n.dir) ans.dirs.push(p); else ans.files.push({ path: p, data: n.data.subarray(0, n.size).toString('base64'), mtime: String(n.mtime) }); }
}

// a process: its system calls against the disk, and what it did
function proc(rq, inodes, nr = 0) {
  const cls = (path) => path === rq.in ? 'in' : path === rq.out ? 'out' : 'other';

  const log = []; let h1 = 0x811c9dc5, h2 = 0x1b873593, nlog = 0;
  const ev = (s) => {
    nlog++;
    for (let i = 0; i < s.length; i++) { h1 = Math.imul(h1 ^ s.charCodeAt(i), 0x01000193); h2 = Math.imul(h2 + s.charCodeAt(i), 0x85ebca6b) ^ (h2 >>> 13); }
    if (rq.keep && log.length < 3000) log.push(s);
  };
  const hits = {}; const hit = (k) => { hits[k] = (hits[k] || 0) + 1; };
  const stdout = [], stderr = [];
  let clock = BigInt(rq.clock || 0), mono = 1000000n, rnd = BigInt(rq.seed || 1), calls = 0;
  const r64 = () => { rnd = (rnd * 6364136223846793005n + 1442695040888963407n) & 0xffffffffffffffffn; return rnd; };
  const fds = new Map();
  fds.set(0, { std: 0, cls: 'stdin' }); fds.set(1, { std: 1, cls: 'stdout' }); fds.set(2, { std: 2, cls: 'stderr' });
  fds.set(3, { path: '/', node: inodes.get('/'), pre: '/', pos: 0, cls: 'root' });
  const newfd = () => { let i = 4; while (fds.has(i)) i++; return i; };
  const counts = new Map();
  const faults = (rq.faults || []).map((f) => ({ ...f, used: 0 }));
  const events = rq.events || []; let happened = 0; // what other processes do meanwhile, in order
  let rc = 0, wc = 0, sc = 0, memory;
  const dv = () => new DataView(memory.buffer);
  const u8 = () => new Uint8Array(memory.buffer);
  const str = (p, n) => Buffer.from(memory.buffer, p, n).toString('utf8');

  // one simulated system call: the fault that applies to it, if any
  function enter(name, c) {
    calls++;
    if (calls > (rq.maxcalls || 200000)) throw new Endless();
    while (happened < events.length && events[happened].at <= calls) {
      const v = events[happened++];
      hit('other_process_' + v.kind); ev(`other process: ${v.kind} ${v.path}`);
      const n = inodes.get(v.path);
      if (v.kind === 'remove') inodes.delete(v.path);
      else if (v.kind === 'truncate') { if (n && n.size > (v.n || 0)) { n.size = v.n || 0; n.mtime = clock; } }
      else if (v.kind === 'append') { if (n) { const b = Buffer.from(v.data, 'base64'); grow(n, b.length); b.copy(n.data, n.size, Math.min(n.size, b.length)); n.size = Math.max(n.size, b.length); n.mtime = clock; } }
      else inodes.set(v.path, file(v, clock));
    }
    const k = name + ' ' + c; const n = counts.get(k) || 0; counts.set(k, n + 1);
    for (const f of faults) {
      if (f.kind === 'crash' && f.call === 'any' && calls === f.nth + 1) { hit('crash_any'); ev('crash at call ' + calls); throw new Crash(); }
      if (f.call !== name || f.path !== c || f.at >= 0 || f.kind === 'crashafter') continue;
      if (f.nth !== n && !(f.persist && n > f.nth)) continue;
      if (f.used && !f.persist) continue;
      f.used++;
      if (f.kind === 'crash') { hit('crash_' + name); ev('crash at ' + k + ' ' + n); throw new Crash(); }
      return f;
    }
    return null;
  }
  const fail = (name, c, f) => { hit(name + '_' + c + '_' + f.err); ev(`${name} ${c} -> ${f.err}`); return E[f.err] ?? E.EIO; };

  // what was not synced may be lost by a failing close
  const lose = (f, x) => {
    if (!(x.n > 0) || !f.node || f.node.dir || !f.wr || f.node.size <= (f.synced || 0)) return;
    f.node.size = Math.max(f.synced || 0, f.node.size - x.n); hit('lost_writeback');
  };

  function resolve(fd, p) {
    const base = fds.get(fd); if (!base) return null;
    const parts = (base.path + '/' + p).split('/'); const o = [];
    for (const x of parts) { if (x === '' || x === '.') continue; if (x === '..') o.pop(); else o.push(x); }
    return '/' + o.join('/');
  }
  const parent = (p) => p.replace(/\/[^/]*$/, '') || '/';
  function lookup(p) { // [errno, inode]
    let q = parent(p); const chain = [];
    while (q !== '/') { chain.push(q); q = parent(q); }
    for (const d of chain.reverse()) {
      const n = inodes.get(d);
      if (!n) return [E.ENOENT, null];
      if (!n.dir) return [E.ENOTDIR, null];
      if (n.perm === 'none') return [E.EACCES, null];
    }
    return [0, inodes.get(p) || null];
  }
  const nodeId = new Map(); const idOf = (n) => { if (!nodeId.has(n)) nodeId.set(n, nodeId.size + 10); return nodeId.get(n); };
  function filestat(ptr, node, type) {
    const d = dv();
    d.setBigUint64(ptr, 1n, true); d.setBigUint64(ptr + 8, BigInt(node ? idOf(node) : 1), true);
    d.setUint8(ptr + 16, type); d.setBigUint64(ptr + 24, 1n, true);
    d.setBigUint64(ptr + 32, BigInt(node && !node.dir && !piped(node) ? node.size : 0), true);
    for (const o of [40, 48, 56]) d.setBigUint64(ptr + o, BigInt.asUintN(64, (node && node.mtime) ?? 1500000000000000000n), true);
  }
  const piped = (n) => n && n.perm === 'pipe';
  const ftype = (f) => f.std !== undefined || piped(f.node) ? 2 : f.node.dir ? 3 : 4;
  function grow(node, n) { if (node.data.length < n) { const b = Buffer.alloc(Math.max(n, node.data.length * 2)); node.data.copy(b, 0, 0, node.size); node.data = b; } }
  function iovs(p, n) { const d = dv(), o = []; for (let i = 0; i < n; i++) o.push([d.getUint32(p + 8 * i, true), d.getUint32(p + 8 * i + 4, true)]); return o; }

  function read(name, f, iov, niov, at, nptr) {
    const c = f.cls; const x = enter(name, c);
    if (x) return fail(name, c, x);
    if (f.std !== undefined) { dv().setUint32(nptr, 0, true); return 0; }
    if (f.node.dir) return E.EISDIR;
    if (!f.rd) return E.EBADF;
    const bufs = iovs(iov, niov); const want = bufs.reduce((a, b) => a + b[1], 0);
    let n = Math.max(0, Math.min(want, f.node.size - at));
    for (const g of faults) {
      if (g.call !== 'fd_read' || g.path !== c || g.at < 0 || (g.used && !g.persist)) continue;
      if (at >= g.at) {
        if (g.kind === 'eof') { g.used++; hit('early_eof_' + c); n = 0; continue; }
        if (want > 0) { g.used++; return fail(name, c, g); }
      } else if (at + n > g.at) n = g.at - at;
    }
    if (c === 'in' && n > 0 && rc < (rq.rc || []).length) {
      const k = rq.rc[rc++];
      if (k === 0) { hit('eintr_read'); ev(`${name} ${c} -> EINTR`); return E.EINTR; }
      if (k < n) { n = k; hit('short_read'); }
    } else if (c === 'in' && n > (rq.rtail || 1e9)) { n = rq.rtail; hit('short_read'); }
    let done = 0;
    for (const [p, l] of bufs) { const m = Math.min(l, n - done); if (m <= 0) break; u8().set(f.node.data.subarray(at + done, at + done + m), p); done += m; }
    dv().setUint32(nptr, done, true);
    ev(`${name} ${c} @${at} ${want} -> ${done}`);
    f.got = done;
    return 0;
  }
  function write(name, f, iov, niov, at, nptr) {
    const c = f.cls;
    let crash = null, x = null;
    try { x = enter(name, c); } catch (e) { if (!(e instanceof Crash)) throw e; crash = e; }
    if (x) { if (x.kind === 'zero') { hit('zero_write'); dv().setUint32(nptr, 0, true); return 0; } return fail(name, c, x); }
    const bufs = iovs(iov, niov); const want = bufs.reduce((a, b) => a + b[1], 0);
    let n = want;
    if (f.std !== undefined) {
      if (crash) throw crash;
      if (sc < (rq.sc || []).length) {
        const k = rq.sc[sc++];
        if (k === 0) { hit('eintr_write'); ev(`${name} ${c} -> EINTR`); return E.EINTR; }
        if (k < n) { n = k; hit('short_write'); }
        let left = n;
        for (const [p, l] of bufs) { const m = Math.min(l, left); left -= m; if (m > 0) (f.std === 2 ? stderr : stdout).push(Buffer.from(u8().slice(p, p + m))); }
        dv().setUint32(nptr, n, true); ev(`${name} ${c} ${n}`); return 0;
      }
      for (const [p, l] of bufs) (f.std === 2 ? stderr : stdout).push(Buffer.from(u8().subarray(p, p + l)));
      dv().setUint32(nptr, n, true); ev(`${name} ${c} ${n}`); return 0;
    }
    if (f.node.dir) return E.EBADF;
    if (!f.wr) return E.EBADF;
    if (f.append) at = f.node.size;
    if (crash) n = Math.floor(want * (rq.crashpart || 0) / 1000);
    for (const g of faults) {
      if (crash || g.call !== 'fd_write' || g.path !== c || g.at < 0 || (g.used && !g.persist)) continue;
      if (at >= g.at) {
        g.used++;
        if (g.kind === 'crash') { hit('crash_write_at_byte'); ev('crash at byte ' + at + ' of ' + c); throw new Crash(); }
        return fail(name, c, g);
      } else if (at + n > g.at) n = g.at - at;
    }
    if (!crash && c !== 'other' && wc < (rq.wc || []).length) {
      const k = rq.wc[wc++];
      if (k === 0) { hit('eintr_write'); ev(`${name} ${c} -> EINTR`); return E.EINTR; }
      if (k < n) { n = k; hit('short_write'); }
    } else if (!crash && n > (rq.wtail || 1e9)) { n = Math.max(rq.wtail, n >> 12); hit('short_write'); }
    grow(f.node, at + n);
    f.synced = Math.min(f.synced ?? 0, at);
    if (at > f.node.size) f.node.data.fill(0, f.node.size, at);
    let done = 0;
    for (const [p, l] of bufs) { const m = Math.min(l, n - done); if (m <= 0) break; f.node.data.set(u8().subarray(p, p + m), at + done); done += m; }
    if (at + n > f.node.size) f.node.size = at + n;
    f.node.mtime = clock;
    if (crash) { ev(`${name} ${c} @${at} died after ${n} of ${want}`); throw crash; }
    dv().setUint32(nptr, n, true);
    ev(`${name} ${c} @${at} ${want} -> ${n}`);
    f.got = n;
    return 0;
  }

  const args = rq.args.map((a) => Buffer.from(a + '\0')), env = (rq.env || []).map((a) => Buffer.from(a + '\0'));
  const sizes = (l, a, b) => { dv().setUint32(a, l.length, true); dv().setUint32(b, l.reduce((x, y) => x + y.length, 0), true); return 0; };
  const put = (l, ptrs, buf) => { for (const x of l) { dv().setUint32(ptrs, buf, true); ptrs += 4; u8().set(x, buf); buf += x.length; } return 0; };

  const w = {
    args_sizes_get: (a, b) => sizes(args, a, b), args_get: (a, b) => put(args, a, b),
    environ_sizes_get: (a, b) => sizes(env, a, b), environ_get: (a, b) => put(env, a, b),
    clock_time_get: (id, prec, p) => {
      const step = BigInt(rq.clockstep || 1000);
      if (id === 0) { clock += step; dv().setBigUint64(p, BigInt.asUintN(64, clock), true); }
      else { mono += 1000n; dv().setBigUint64(p, mono, true); }
      return 0;
    },
    clock_res_get: (id, p) => { dv().setBigUint64(p, 1n, true); return 0; },
    random_get: (p, n) => {
      if (n === 16 && str(p, 16) === "simulator's ids.") { // bin/build: differ even if the random numbers do not
        let x = BigInt(rq.seed || 1);
        for (let i = 0; i < 16; i++) { x = (x * 6364136223846793005n + 1442695040888963407n) & 0xffffffffffffffffn; u8()[p + i] = (Number(x >> 40n & 255n) & 254) | nr; }
        return 0;
      }
      for (let i = 0; i < n; i++) u8()[p + i] = Number(r64() >> 40n & 255n);
      return 0;
    },
    sched_yield: () => 0,
    proc_exit: (c) => { throw new Exit(c); },
    proc_raise: () => E.ENOSYS,
    poll_oneoff: (ip, op, n, np) => {
      calls++; if (calls > (rq.maxcalls || 200000)) throw new Endless();
      const d = dv(); let best = -1, bt = 0n;
      for (let i = 0; i < n; i++) {
        const s = ip + 48 * i;
        if (d.getUint8(s + 8) === 0) {
          const id = d.getUint32(s + 16, true); let t = d.getBigUint64(s + 24, true);
          if (d.getUint16(s + 40, true) & 1) t -= id === 0 ? clock : mono;
          if (best < 0 || t < bt) { best = i; bt = t; }
        } else { best = i; bt = 0n; break; }
      }
      if (best < 0) throw new Endless();
      if (bt > 0n) { mono += bt; clock += bt; }
      const s = ip + 48 * best;
      d.setBigUint64(op, d.getBigUint64(s, true), true); d.setUint16(op + 8, 0, true); d.setUint8(op + 10, d.getUint8(s + 8));
      d.setBigUint64(op + 16, 1n, true); d.setUint16(op + 24, 0, true);
      d.setUint32(np, 1, true);
      return 0;
    },
    fd_prestat_get: (fd, p) => { const f = fds.get(fd); if (!f || !f.pre) return E.EBADF; dv().setUint8(p, 0); dv().setUint32(p + 4, f.pre.length, true); return 0; },
    fd_prestat_dir_name: (fd, p, n) => { const f = fds.get(fd); if (!f || !f.pre) return E.EBADF; u8().set(Buffer.from(f.pre).subarray(0, n), p); return 0; },
    fd_fdstat_get: (fd, p) => {
      const f = fds.get(fd); if (!f) return E.EBADF;
      const x = f.pre ? null : enter('fd_fdstat_get', f.cls); if (x) return fail('fd_fdstat_get', f.cls, x);
      const d = dv(); d.setUint8(p, ftype(f)); d.setUint16(p + 2, f.append ? 1 : 0, true);
      d.setBigUint64(p + 8, 0x1fffffffn, true); d.setBigUint64(p + 16, 0x1fffffffn, true); return 0;
    },
    fd_fdstat_set_flags: (fd, fl) => { const f = fds.get(fd); if (!f) return E.EBADF; f.append = !!(fl & 1); return 0; },
    fd_filestat_get: (fd, p) => {
      const f = fds.get(fd); if (!f) return E.EBADF;
      const x = enter('fd_filestat_get', f.cls); if (x) return fail('fd_filestat_get', f.cls, x);
      filestat(p, f.node, ftype(f)); return 0;
    },
    path_filestat_get: (fd, fl, pp, pn, p) => {
      const path = resolve(fd, str(pp, pn)); if (!path) return E.EBADF;
      const x = enter('path_filestat_get', cls(path)); if (x) return fail('path_filestat_get', cls(path), x);
      const [e, n] = lookup(path); if (e) return e; if (!n) return E.ENOENT;
      filestat(p, n, ftype({ node: n })); return 0;
    },
    path_open: (fd, dirflags, pp, pn, oflags, rights, inh, fdflags, out) => {
      const path = resolve(fd, str(pp, pn)); if (!path) return E.EBADF;
      const c = cls(path); const x = enter('path_open', c); if (x) return fail('path_open', c, x);
      let [e, n] = lookup(path);
      const wr = !!(rights & 64n), rd = !!(rights & 2n) || !wr;
      const creat = oflags & 1, isdir = oflags & 2, excl = oflags & 4, trunc = oflags & 8;
      ev(`path_open ${c === 'other' ? path : c} creat=${creat} trunc=${trunc} wr=${wr ? 1 : 0}`);
      if (e) return e;
      if (n && creat && excl) return E.EEXIST;
      if (!n) {
        if (!creat) return E.ENOENT;
        const d = inodes.get(parent(path)); if (!d) return E.ENOENT;
        if (d.perm) return d.perm === 'rofs' ? E.EROFS : E.EACCES;
        n = { data: Buffer.alloc(0), size: 0, perm: '', mtime: clock }; inodes.set(path, n);
      } else if (n.dir) { if (wr || creat) return E.EISDIR; } else {
        if (isdir) return E.ENOTDIR;
        if (n.perm === 'none' || (wr && n.perm === 'ro')) return E.EACCES;
        if (wr && n.perm === 'rofs') return E.EROFS;
      }
      if (trunc && !n.dir) { n.size = 0; n.mtime = clock; }
      const k = newfd(); fds.set(k, { path, node: n, pos: 0, cls: c, rd, wr, append: !!(fdflags & 1), synced: n.size || 0 });
      dv().setUint32(out, k, true);
      for (const f of faults) if (f.call === 'path_open' && f.path === c && f.kind === 'crashafter' && !f.used) { f.used++; hit('crash_after_open'); ev('crash after open'); throw new Crash(); }
      return 0;
    },
    fd_close: (fd) => {
      const f = fds.get(fd); if (!f) return E.EBADF;
      let x = enter('fd_close', f.cls);
      fds.delete(fd);
      if (x) {
        lose(f, x);
        return fail('fd_close', f.cls, x);
      }
      ev('fd_close ' + f.cls);
      for (const g of faults) if (g.call === 'fd_close' && g.path === f.cls && g.kind === 'crashafter' && !g.used) { g.used++; hit('crash_after_close'); ev('crash after close'); throw new Crash(); }
      return 0;
    },
    fd_read: (fd, iov, n, np) => { const f = fds.get(fd); if (!f) return E.EBADF; f.got = 0; const e = read('fd_read', f, iov, n, f.pos || 0, np); if (!e) f.pos = (f.pos || 0) + f.got; return e; },
    fd_pread: (fd, iov, n, off, np) => { const f = fds.get(fd); if (!f) return E.EBADF; if (piped(f.node)) return E.ESPIPE; return read('fd_read', f, iov, n, Number(off), np); },
    fd_write: (fd, iov, n, np) => { const f = fds.get(fd); if (!f) return E.EBADF; f.got = 0; const e = write('fd_write', f, iov, n, f.append && f.node ? f.node.size : f.pos || 0, np); if (!e && f.node) f.pos = (f.append ? f.node.size : (f.pos || 0) + f.got); return e; },
    fd_pwrite: (fd, iov, n, off, np) => { const f = fds.get(fd); if (!f) return E.EBADF; return write('fd_write', f, iov, n, Number(off), np); },
    fd_seek: (fd, off, wh, p) => {
      const f = fds.get(fd); if (!f || !f.node) return E.EBADF;
      if (piped(f.node)) return E.ESPIPE;
      const b = wh === 0 ? 0 : wh === 1 ? f.pos : f.node.size || 0; const t = b + Number(off); if (t < 0) return E.EINVAL;
      f.pos = t; dv().setBigUint64(p, BigInt(t), true); ev(`fd_seek ${f.cls} ${t}`); return 0;
    },
    fd_tell: (fd, p) => { const f = fds.get(fd); if (!f || !f.node) return E.EBADF; if (piped(f.node)) return E.ESPIPE; dv().setBigUint64(p, BigInt(f.pos), true); return 0; },
    fd_sync: (fd) => { const f = fds.get(fd); if (!f) return E.EBADF; const x = enter('fd_sync', f.cls); if (x) { lose(f, x); return fail('fd_sync', f.cls, x); } f.synced = f.node ? f.node.size : 0; ev('fd_sync ' + f.cls); return 0; },
    fd_datasync: (fd) => w.fd_sync(fd),
    fd_advise: () => 0, fd_allocate: () => 0,
    fd_filestat_set_size: (fd, n) => {
      const f = fds.get(fd); if (!f || !f.node || f.node.dir || !f.wr) return E.EBADF;
      const x = enter('fd_filestat_set_size', f.cls); if (x) return fail('fd_filestat_set_size', f.cls, x);
      grow(f.node, Number(n)); if (Number(n) > f.node.size) f.node.data.fill(0, f.node.size, Number(n)); f.node.size = Number(n); f.node.mtime = clock; ev(`truncate ${f.cls} ${n}`); return 0;
    },
    fd_filestat_set_times: (fd, a, m, fl) => {
      const f = fds.get(fd); if (!f || !f.node) return E.EBADF;
      const x = enter('filestat_set_times', f.cls); if (x) return fail('filestat_set_times', f.cls, x);
      if (fl & 4) f.node.mtime = BigInt.asIntN(64, m); else if (fl & 8) f.node.mtime = clock;
      ev(`set_times ${f.cls} ${f.node.mtime}`); return 0;
    },
    path_filestat_set_times: (fd, lf, pp, pn, a, m, fl) => {
      const path = resolve(fd, str(pp, pn)); if (!path) return E.EBADF;
      const x = enter('filestat_set_times', cls(path)); if (x) return fail('filestat_set_times', cls(path), x);
      const [e, n] = lookup(path); if (e) return e; if (!n) return E.ENOENT;
      if (fl & 4) n.mtime = BigInt.asIntN(64, m); else if (fl & 8) n.mtime = clock;
      ev(`set_times ${cls(path)} ${n.mtime}`); return 0;
    },
    fd_renumber: () => E.ENOSYS, fd_fdstat_set_rights: () => 0,
    fd_readdir: (fd, buf, len, cookie, np) => {
      const f = fds.get(fd); if (!f || !f.node || !f.node.dir) return E.EBADF;
      const base = f.path === '/' ? '/' : f.path + '/';
      const names = [...inodes.keys()].filter((k) => k !== '/' && k.startsWith(base) && !k.slice(base.length).includes('/')).sort();
      let o = 0;
      for (let i = Number(cookie); i < names.length && o < len; i++) {
        const nm = Buffer.from(names[i].slice(base.length)); const rec = Buffer.alloc(24 + nm.length);
        rec.writeBigUInt64LE(BigInt(i + 1), 0); rec.writeBigUInt64LE(BigInt(i + 2), 8); rec.writeUInt32LE(nm.length, 16); rec.writeUInt8(inodes.get(names[i]).dir ? 3 : 4, 20); nm.copy(rec, 24);
        const part = rec.subarray(0, Math.min(rec.length, len - o)); u8().set(part, buf + o); o += part.length;
      }
      dv().setUint32(np, o, true); return 0;
    },
    path_create_directory: (fd, pp, pn) => {
      const path = resolve(fd, str(pp, pn)); const x = enter('path_create_directory', cls(path)); if (x) return fail('path_create_directory', cls(path), x);
      if (inodes.has(path)) return E.EEXIST; const d = inodes.get(parent(path)); if (!d) return E.ENOENT; if (d.perm) return E.EACCES;
      inodes.set(path, dir()); ev('mkdir ' + path); return 0;
    },
    path_unlink_file: (fd, pp, pn) => {
      const path = resolve(fd, str(pp, pn)); const c = cls(path); const x = enter('path_unlink_file', c); if (x) return fail('path_unlink_file', c, x);
      const [e, n] = lookup(path); if (e) return e; if (!n) return E.ENOENT; if (n.dir) return E.EISDIR;
      const d = inodes.get(parent(path)); if (d.perm) return d.perm === 'rofs' ? E.EROFS : E.EACCES;
      inodes.delete(path); ev('unlink ' + c); return 0;
    },
    path_remove_directory: (fd, pp, pn) => {
      const path = resolve(fd, str(pp, pn)); const n = inodes.get(path); if (!n) return E.ENOENT; if (!n.dir) return E.ENOTDIR;
      for (const k of inodes.keys()) if (k !== path && k.startsWith(path + '/')) return E.ENOTEMPTY;
      inodes.delete(path); ev('rmdir ' + path); return 0;
    },
    path_rename: (fd, pp, pn, fd2, qp, qn) => {
      const a = resolve(fd, str(pp, pn)), b = resolve(fd2, str(qp, qn)); const c = cls(b); const x = enter('path_rename', c); if (x) return fail('path_rename', c, x);
      const [e, n] = lookup(a); if (e) return e; if (!n) return E.ENOENT;
      const [e2, m] = lookup(b); if (e2) return e2; if (m && m.dir && !n.dir) return E.EISDIR;
      const d = inodes.get(parent(b)); if (!d) return E.ENOENT; if (d.perm) return d.perm === 'rofs' ? E.EROFS : E.EACCES;
      inodes.delete(a); inodes.set(b, n); ev(`rename ${cls(a)} ${c}`);
      for (const f of faults) if (f.call === 'path_rename' && f.kind === 'crashafter' && !f.used) { f.used++; hit('crash_after_rename'); throw new Crash(); }
      return 0;
    },
    path_link: () => E.ENOSYS, path_symlink: () => E.ENOSYS, path_readlink: () => E.EINVAL,
    sock_accept: () => E.ENOSYS, sock_recv: () => E.ENOSYS, sock_send: () => E.ENOSYS, sock_shutdown: () => E.ENOSYS,
  };

  const end = (ans) => {
    ans.stdout = Buffer.concat(stdout).toString('base64'); ans.stderr = Buffer.concat(stderr).toString('base64');
    ev(`end exit=${ans.exit} killed=${!!ans.killed}`);
    ans.calls = calls; ans.happened = happened; ans.hits = hits; ans.simns = Number(mono); ans.hash = ((h1 >>> 0).toString(16) + (h2 >>> 0).toString(16)); ans.log = log;
    return ans;
  };
  const ended = (e, ans) => {
    if (e instanceof Exit) {
      ans.exit = e.code;
      for (const f of fds.values()) { // the end of the process closes its files, and nobody hears of a failure
        if (f.std !== undefined || !f.node || f.node.dir || !f.wr) continue;
        for (const g of faults) if (g.call === 'fd_close' && g.path === f.cls && g.kind === 'errno' && !g.used && g.nth === (counts.get('fd_close ' + f.cls) || 0)) { g.used++; ev('closed at exit: ' + f.cls + ' -> ' + g.err); hit('close_at_exit_' + f.cls); lose(f, g); }
      }
    }
    else if (e instanceof Crash) ans.killed = true;
    else if (e instanceof Endless) ans.endless = true;
    else if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) { ans.exit = 134; ans.trap = String(e.message); stderr.push(Buffer.from('trap: ' + e.message)); }
    else throw e;
  };
  return { w, end, ended, stderr, setMemory: (m) => { memory = m; } };
}

function run(rq) {
  if (rq.pair) return pair(rq);
  const inodes = disk(rq), p = proc(rq, inodes), ans = { exit: -1 };
  try {
    const inst = new WebAssembly.Instance(moduleFor(rq.pages ? minPages() + rq.pages : 0), { wasi_snapshot_preview1: p.w });
    p.setMemory(inst.exports.memory);
    inst.exports._start();
    ans.exit = 0;
  } catch (e) { p.ended(e, ans); }
  listing(inodes, ans);
  return p.end(ans);
}

// processes that run at the same time: one system call at a time, in the order
// the schedule says
const workers = [];
let pairs = 0;
function worker(i) {
  if (!workers[i]) {
    const { port1, port2 } = new MessageChannel();
    const ctl = new SharedArrayBuffer(64), args = new SharedArrayBuffer(128);
    const w = new Worker(new URL(import.meta.url), { workerData: { port: port2, ctl, args }, transferList: [port2] });
    w.unref();
    workers[i] = { w, port: port1, c: new Int32Array(ctl), a: new BigInt64Array(args) };
  }
  return workers[i];
}

async function pair(rq) {
  const inodes = disk(rq), names = Object.keys(proc(rq.pair[0], inodes).w), module = moduleFor(0, true);
  const ps = rq.pair.map((q, i) => ({ ...proc(q, inodes, i), k: worker(i), ans: { exit: -1 }, done: false }));
  if (++pairs % 50 === 0) await new Promise((r) => setTimeout(r, 0));
  const resume = (p) => { // let the process run until its next system call or its end
    const c = p.k.c;
    Atomics.store(c, 0, 1); Atomics.notify(c, 0);
    while (Atomics.load(c, 0) === 1) Atomics.wait(c, 0, 1);
    if (Atomics.load(c, 0) === 3) p.done = true;
  };
  for (const p of ps) {
    p.k.port.postMessage({ module, names }); Atomics.store(p.k.c, 3, 0);
    resume(p);
    const m = receiveMessageOnPort(p.k.port).message;
    if (typeof m === 'string') throw new Error('worker: ' + m);
    p.setMemory(m);
  }
  const step = (p) => {
    const c = p.k.c, a = p.k.a, name = names[Atomics.load(c, 1)], x = [];
    const big = { clock_time_get: [1], path_open: [5, 6], fd_seek: [1], fd_pread: [3], fd_pwrite: [3], fd_allocate: [1, 2], fd_advise: [1, 2], fd_filestat_set_size: [1],
      fd_readdir: [3], fd_filestat_set_times: [1, 2], path_filestat_set_times: [4, 5], fd_fdstat_set_rights: [1, 2] }[name] || [];
    for (let i = 0, n = Atomics.load(c, 2); i < n; i++) { const v = Atomics.load(a, i); x.push(big.includes(i) ? v : Number(v)); }
    try { Atomics.store(c, 5, p.w[name](...x) | 0); } catch (e) { p.ended(e, p.ans); Atomics.store(c, 3, 1); }
    resume(p);
    if (p.done && !Atomics.load(c, 3)) {
      if (Atomics.load(c, 4)) { p.ans.exit = 134; const m = receiveMessageOnPort(p.k.port).message; p.stderr.push(Buffer.from('trap: ' + m)); } else p.ans.exit = 0;
    }
  };
  const trace = [];
  let n = 0;
  const slice = (i, q) => {
    const p = ps[i]; if (!p) return;
    let k = 0;
    while (k < q && !p.done) { step(p); k++; }
    if (k > 0) { if (trace.length && trace[trace.length - 1].t === i) trace[trace.length - 1].q += k; else trace.push({ t: i, q: k }); }
  };
  for (const s of rq.sched || []) slice(s.t, s.q);
  ps.forEach((p, i) => slice(i, 1e9));
  for (const p of ps) { Atomics.store(p.k.c, 0, 0); Atomics.notify(p.k.c, 0); }
  const ans = { pair: ps.map((p) => p.end(p.ans)), trace };
  listing(inodes, ans);
  return ans;
}

const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
for await (const line of rl) {
  if (!line.trim()) continue;
  let a;
  try { a = await run(JSON.parse(line)); } catch (e) { a = { error: String(e && e.stack || e) }; }
  if (!process.stdout.write(JSON.stringify(a) + '\n')) await new Promise((r) => process.stdout.once('drain', r));
}
