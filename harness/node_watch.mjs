/*  The Node.js package, as it is, in the real Node.js, over a native library which does what is decided here.
    Every sequence of choices is run; JavaScript's turns are taken where the sequence says. */
import { createRequire } from "node:module";
import { spawnSync, fork } from "node:child_process";
import { createHash } from "node:crypto";
import fs from "node:fs";
import path from "node:path";
import os from "node:os";
import { pathToFileURL, fileURLToPath } from "node:url";

const DIR = process.env.NODEW_DIR;
const mock = createRequire(import.meta.url)(path.join(DIR, "mock.node"));
const lib = await import(pathToFileURL(path.join(DIR, "lib/watcher.ts")));
const ET = ["rename", "modify", "create", "destroy", "owner", "other"], PT = ["dir", "file", "hardLink", "symLink", "watcher", "other"];

class Violation extends Error {}
class UserError extends Error {}
const X = { prefix: [], made: [], trace: [], transitions: 0, states: new Set(), events: 0, outcome: "", viol: null, uncaught: 0, thorough: false };
const violation = (m) => { X.viol ??= m; throw new Violation(m); };
const pick = (n, label) => { const i = X.made.length; const c = i < X.prefix.length ? X.prefix[i] : 0; X.made.push([n, c]); if (n > 1) X.trace.push(`choice ${label} = ${c} of ${n}`); X.transitions++; return c; };
const state = (...a) => { X.states.add(createHash("md5").update(JSON.stringify(a)).digest("hex").slice(0, 12)); X.transitions++; };
process.on("uncaughtException", (e) => { if (e instanceof UserError) X.uncaught++; else if (!(e instanceof Violation)) X.viol ??= `an exception nobody threw: ${e?.stack ?? e}`; });

const buf = (s) => Buffer.isBuffer(s) ? s : Buffer.from(s);
const same = (e, s, later = "") => {
  const want = { effectTime: Number(s.t), pathName: buf(s.p).toString(), effectType: ET[s.et], pathType: PT[s.pt], associatedPathName: s.a === null ? null : buf(s.a).toString() };
  if (typeof e !== "object" || Object.keys(e).length !== 5 || Object.keys(want).some((k) => e[k] !== want[k])) violation(`sent: ${JSON.stringify({ ...want })}; given to the callback${later}: ${JSON.stringify(e)}`);
};
const turn = async () => { for (let i = 0; i < 3; ++i) await new Promise((r) => setImmediate(r)); };
const until = async (f, what) => { const t0 = Date.now(); while (!f()) { if (X.viol) return; if (Date.now() - t0 > 20000) violation(what()); await new Promise((r) => setImmediate(r)); } };
class W {
  constructor(p = "/w", late = 0) {
    this.expect = []; this.kept = []; this.got = 0; this.closed = false; this.inCb = null; this.late = late; this.id = mock.count();
    this.w = lib.watch(p, (e) => { if (!this.expect.length) violation(`the callback is given an event that was not sent, or again: ${JSON.stringify(e)}`); const s = this.expect.shift(); same(e, s); if (this.kept.length < 64) this.kept.push([e, s]); this.got++; X.events++; const f = this.inCb; this.inCb = null; if (f) f(); });
    if (mock.count() !== this.id + 1) violation("watch() does not open one native watcher");
    if (!mock.path(this.id).equals(buf(p))) violation("another path is watched");
    for (let i = 0; i < late; ++i) { const s = ev(); (this.lates ??= []).push(s); mock.late(this.id, s.t, buf(s.p), s.a === null ? null : buf(s.a), s.et, s.pt); }
  }
  send(s, n = 1) { for (let i = 0; i < n; ++i) this.expect.push({ ...s, t: s.t + BigInt(i) }); mock.emit(this.id, s.t, buf(s.p), s.a === null ? null : buf(s.a), s.et, s.pt, n); }
  close(ok = true) {
    const first = !this.closed; this.closed = true;
    if (first) { mock.setOk(this.id, ok ? 1 : 0); for (const s of this.lates ?? []) this.expect.push(s); }
    const r = this.w.close();
    if (r !== (first && ok)) violation(`close() gave ${r}, the native watcher ${ok}, ${first ? "the first time" : "again"}`);
    if (mock.closed(this.id) !== 1) violation("close() did not close the native watcher once");
  }
  async done() { if (!this.closed) this.close(); await until(() => !this.expect.length, () => `${this.expect.length} events never reached the callback`); await turn(); for (const [e, s] of this.kept) same(e, s, " (looked at again later)"); }
}
let serial = 0;
let twins = 0; // in pairs of the same, with times that also go back
const ev = () => { let k = ++serial; if (twins) { k >>= 1; k = k % 2 ? k : 1000001 - k; } return { t: BigInt(k * 10000), p: `/w/n${k}`, a: k % 3 ? null : `/w/m${k}`, et: k % 6, pt: (k >> 1) % 6 }; };

const scenarios = [];
const S = (name, f, w = 1) => scenarios.push([name, f, w]);
S("node-values", async () => {
  const et = pick(6, "effect"), pt = pick(6, "path type"), w = new W();
  const names = []; for (let b = 1; b < 256; ++b) names.push(Buffer.from([0x2f, b, 0x78]));
  const P = ['"', "\\", "\n", "\t", "\x01", "\x7f", " ", "%s", "{", "é", "€", "\u{1f40d}", Buffer.from([0xff]), Buffer.from([0xc3]), Buffer.from([0xed, 0xa0, 0x80]), "'"];
  for (const a of P) for (const b of P) names.push(Buffer.concat([buf(a), buf(b)]));
  for (const n of [0, 1, 255, 256, 4095, 4096, 4097, 70000]) names.push(Buffer.alloc(n, "n"));
  for (const p of names) { w.send({ t: 7n, p, a: null, et, pt }); w.send({ t: 8n, p: "/w/f", a: p, et, pt }); }
  for (const t of [0n, 1n, -1n, 2n ** 31n, 2n ** 32n, 2n ** 53n, 2n ** 53n + 1n, 1795136338493256973n, 2n ** 63n - 1n, -(2n ** 63n)]) w.send({ t, p: "/w/f", a: null, et, pt });
  await w.done(); state(et, pt);
});
S("node-many", async () => {
  const n = [0, 1, 1023, 1024, 1025, 1026, 5000][pick(7, "waiting")], late = [0, 1, 1500][pick(3, "while closing")], w = new W("/w", late), before = pick(2, "turns");
  if (n) w.send(ev(), n); if (before) await turn(); w.close(); if (pick(2, "again")) w.close(); await w.done();
  if (w.got !== n + late) violation(`${n + late} events were sent, ${w.got} arrived`); state(n, late, before);
});
S("node-sessions", async () => {
  twins = pick(2, "twins"); if (serial % 2) serial++;
  const late = pick(2, "late events"), ok = pick(2, "close gives") === 0; const a = new W("/w", late); let b = null, threw = 0, u0 = X.uncaught; const depth = X.thorough ? 6 : 5;
  for (let d = 0; d < depth; ++d) {
    const op = pick(9, "op"); if (op === 0) break;
    if (op === 1) { if (a.closed) return cleanup(); a.send(ev()); }
    else if (op === 2) { if (a.closed) return cleanup(); a.send(ev(), 3); }
    else if (op === 3) await turn();
    else if (op === 4) a.close(ok);
    else if (op === 5) { if (a.inCb || a.closed) return cleanup(); a.inCb = () => { if (!a.closed) a.close(ok); }; }
    else if (op === 6) { if (a.inCb || a.closed) return cleanup(); a.inCb = () => { threw++; throw new UserError(); }; }
    else if (op === 7) { if (b) return cleanup(); b = new W("/v", 1); }
    else if (op === 8) { if (!b || b.closed) return cleanup(); b.send(ev()); }
    state(op, a.got, a.closed, a.expect.length, b?.got ?? -1, late, ok);
  }
  async function cleanup() { a.inCb = null; await a.done(); if (b) await b.done(); }
  if (!a.closed) a.close(ok); await a.done(); if (b) await b.done();
  if (X.uncaught - u0 !== threw) violation(`${threw} exceptions left the callback, ${X.uncaught - u0} were seen`);
  X.outcome = `${a.got} ${b?.got}`;
}, 4);
S("node-args", async () => {
  const kinds = [undefined, null, 3, "/w", {}, true, () => {}, Symbol("s")], a = kinds[pick(8, "path")], c = kinds[pick(8, "callback")], refuse = pick(2, "open fails"), before = mock.count();
  mock.refuse(refuse); let threw = null, w; try { w = lib.watch(a, c); } catch (e) { threw = e; } mock.refuse(0);
  const opened = mock.count() - before;
  if (threw && opened && mock.closed(before) !== 1) violation("watch() throws, but the native watcher stays open");
  if (threw && typeof a === "string" && typeof c === "function" && !refuse) violation(`watch() throws ${threw}`);
  if (!threw && (typeof a !== "string" || refuse)) violation("watch() is given a path it cannot use, or cannot open the watcher, and nobody is told");
  if (!threw) { if (opened !== 1) violation("no native watcher"); w.close(); if (mock.closed(before) !== 1) violation("not closed"); await turn(); }
  state(String(a), String(c), refuse);
});
/*  Programs and workers which end while a watcher is open and events keep coming. */
const program = (what) => {
  const log = path.join(os.tmpdir(), `nodew.${process.pid}.${serial++}.log`), fd = fs.openSync(log, "w");
  const r = spawnSync(process.execPath, ["--experimental-transform-types", "--no-warnings", fileURLToPath(import.meta.url), "--program", JSON.stringify(what)], { env: { ...process.env, MOCK_LOG: "3" }, stdio: ["ignore", "pipe", "pipe", fd], timeout: 60000 });
  fs.closeSync(fd); const lines = fs.readFileSync(log, "utf8").split("\n").slice(0, -1); fs.unlinkSync(log);
  return { status: r.status, signal: r.signal, err: String(r.stderr).slice(-800), out: String(r.stdout), lines };
};
S("node-ends", async () => {
  const what = { where: pick(2, "in a worker"), how: pick(4, "ending"), flood: pick(2, "flood"), n: 1 + pick(2, "watchers"), turns: pick(2, "turns") };
  const r = program(what); const want = [0, 3, 0, what.where ? 0 : 1][what.how];
  if (r.status !== want) violation(`the program ended with ${r.status ?? r.signal}, not ${want}: ${r.err}`);
  const c = (x) => r.lines.filter((l) => l === x).length;
  if (c("open") !== what.n || c("close-end") > what.n || ((what.where || what.how === 0 || what.how === 2) && c("close-end") !== what.n) || c("close-twice") || c("close-unknown")) violation(`${what.n} watchers were opened; the native library saw ${r.lines}`);
  state(what);
}, 2);
const ending = async (what) => {
  const { Worker, isMainThread, workerData } = await import("node:worker_threads");
  if (what.where && isMainThread) {
    const w = new Worker(fileURLToPath(import.meta.url), { argv: ["--program", JSON.stringify(what)], execArgv: ["--experimental-transform-types", "--no-warnings"] });
    await new Promise((r, j) => { w.on("message", (m) => { if (what.how === 2) w.terminate(); }); w.on("error", () => {}); w.on("exit", r); });
    await new Promise((r) => setTimeout(r, 20));
    process.exit(what.how === 1 ? 3 : 0);
  }
  mock.flood(what.flood); const ws = [];
  for (let i = 0; i < what.n; ++i) ws.push(lib.watch("/w" + i, () => {}));
  if (what.turns) for (let i = 0; i < 20; ++i) await new Promise((r) => setImmediate(r));
  if (what.where) (await import("node:worker_threads")).parentPort.postMessage("up");
  if (what.how === 0 || (what.how === 2 && !what.where)) { for (const w of ws) w.close(); return; }
  if (what.how === 1) process.exit(3);
  if (what.how === 3) { process.removeAllListeners("uncaughtException"); setImmediate(() => { throw new Error("on purpose"); }); }
};

const run = async (f, prefix) => {
  twins = 0;
  Object.assign(X, { prefix, made: [], trace: [], viol: null, outcome: "" }); const bad = mock.bad();
  try { await f(); } catch (e) { if (!(e instanceof Violation)) X.viol ??= `the package, or the program, ended with ${e?.stack ?? e}`; }
  if (mock.bad() !== bad) X.viol ??= "a native watcher is closed twice, or one which is none";
  return X.viol;
};
const siblings = (pre) => { const out = []; for (let i = X.made.length - 1; i >= pre.length; --i) for (let alt = X.made[i][0] - 1; alt > X.made[i][1]; --alt) out.push([...X.made.slice(0, i).map((x) => x[1]), alt]); return out; };
/*  One process of several: takes its share of the tree below the first choices. */
const share = async (name, k, n, budget) => {
  const [, f] = scenarios.find((s) => s[0] === name), t0 = Date.now(); let stack = [[]], first = true, exec = 0, complete = true, v = null; const outcomes = new Set(), samples = [];
  const send = (m) => new Promise((r) => process.send(m, r));
  while (stack.length && !v) {
    if (Date.now() - t0 > budget * 1000) { complete = false; break; }
    const pre = stack.pop(); process.send({ at: pre });
    const viol = await run(f, pre); const mine = pre.length > 2 || (X.made.length && hash(pre.slice(0, 3)) % n === k) || pre.length <= 2;
    exec++; outcomes.add(X.outcome); if (samples.length < 2) samples.push(X.trace.join(" | ").slice(0, 500));
    if (viol) { v = { message: viol, prefix: X.made.map((x) => x[1]), choices: X.made.map(([a, b]) => [a, b, 0]), trace: X.trace.join("\n") }; break; }
    for (const s of siblings(pre)) if (s.length > 2 || n === 1) { if (s.length !== 3 || hash(s) % n === k) stack.push(s); } else stack.push(s);
  }
  await send({ done: { exec, complete, violation: v, states: [...X.states], transitions: X.transitions, events: X.events, outcomes: [...outcomes], samples } });
};
const hash = (a) => createHash("md5").update(JSON.stringify(a)).digest().readUInt32LE(0);

const arg = (n, d) => { const i = process.argv.indexOf(n); return i < 0 ? d : process.argv[i + 1]; };
if (arg("--program")) await ending(JSON.parse(arg("--program")));
else if (process.send && arg("--share")) { X.thorough = process.argv.includes("--thorough"); const [n, k, of, b] = JSON.parse(arg("--share")); await share(n, k, of, b); process.exit(0); }
else if (arg("--replay")) {
  const v = JSON.parse(fs.readFileSync(arg("--replay"))); X.thorough = v.thorough; const r = await run(scenarios.find((s) => s[0] === v.scenario)[1], v.prefix); console.log(X.trace.join("\n")); console.log("violation:", r); process.exit(r ? 1 : 0);
} else {
  const out = { scenarios: [], states: 0, transitions: 0, executions: 0, distinct_outcomes: 0, counters: [0, 0, 0], exhaustive: true, samples: [], known: {}, violation: null };
  let left = +arg("--budget", 60); const workers = +arg("--workers", 8), thorough = process.argv.includes("--thorough"), only = arg("--scenario"), sel = scenarios.filter((s) => !only || s[0] === only);
  for (let i = 0; i < sel.length && !out.violation; ++i) {
    const [name, , w] = sel[i], t0 = Date.now(), budget = left * w / sel.slice(i).reduce((a, s) => a + s[2], 0);
    const rs = await Promise.all([...Array(workers).keys()].map((k) => new Promise((res) => {
      const c = fork(fileURLToPath(import.meta.url), ["--share", JSON.stringify([name, k, workers, budget]), ...(thorough ? ["--thorough"] : [])], { execArgv: process.execArgv, stdio: ["ignore", "ignore", "ignore", "ipc"] });
      let at = [], done = null; const dog = setTimeout(() => c.kill("SIGKILL"), (budget + 90) * 1000); c.on("message", (m) => { if (m.at) at = m.at; if (m.done) done = m.done; });
      c.on("exit", (st, sig) => { clearTimeout(dog); res(done ?? { exec: 1, complete: false, violation: { message: sig === "SIGKILL" ? "the program does not come to an end" : `the process was brought down (${sig ?? st})`, prefix: at, choices: at.map((x) => [x + 1, x, 0]), trace: "" }, states: [], transitions: 0, events: 0, outcomes: [], samples: [] }); });
    })));
    const states = new Set(rs.flatMap((r) => r.states)), oc = new Set(rs.flatMap((r) => r.outcomes)), sum = (k) => rs.reduce((a, r) => a + r[k], 0), complete = rs.every((r) => r.complete), secs = (Date.now() - t0) / 1000;
    left = Math.max(1, left - secs);
    console.log(`  ${name.padEnd(34)} executions ${sum("exec")}  steps ${sum("transitions")}  states ${states.size}  outcomes ${oc.size}  ${complete ? "" : "cut "}${secs.toFixed(1)}s`);
    out.scenarios.push({ name, executions: sum("exec"), transitions: sum("transitions"), states: states.size, complete, seconds: secs }); out.states += states.size; out.transitions += sum("transitions"); out.executions += sum("exec"); out.distinct_outcomes += oc.size; out.counters[2] += sum("events"); out.exhaustive &&= complete; out.samples.push(...rs[0].samples.slice(0, 1));
    out.violation = rs.map((r) => r.violation).find((v) => v) ?? null; if (out.violation) { Object.assign(out.violation, { scenario: name, thorough }); console.log("violation:", out.violation.message.slice(0, 800)); }
  }
  fs.writeFileSync(arg("--out", "/dev/stdout"), JSON.stringify(out)); process.exit(out.violation ? 1 : 0);
}
