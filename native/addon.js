"use strict";
// Runs histories against the RPC client of the example add-on.
// Input: lines {ev: [...], gen: "default"|"num"|"str"}, output: lines {obs: [...]}.
const fs = require("fs"), vm = require("vm");
const src = fs.readFileSync(process.argv[2], "utf8");
const VALUES = [0, false, "", 42, "text", { a: [1] }, [], true, -1.5, {}];
const ERRORS = ["bad thing", "x", "\u0436 error", "0", "null", "two\nlines", "false", "e", "{}", "[]"];
const quiet = { debug() {}, error() {}, log() {}, warn() {}, info() {} };
const tick = () => new Promise(r => setImmediate(r));
function listeners() {
	const l = [];
	return {
		addListener(f) { if (!l.includes(f)) l.push(f); },
		removeListener(f) { const i = l.indexOf(f); if (i >= 0) l.splice(i, 1); },
		hasListener(f) { return l.includes(f); },
		fire(...a) { for (const f of l.slice()) { try { f(...a); } catch (e) {} } },
	};
}
async function run(h) {
	const ports = [], ids = new Map(), res = [];
	let fault = "", posted = [], current = 0;
	for (let c = 0; c < h.calls; c++) res.push(["none", 0]);
	class FaultError extends Error {}
	const browser = { runtime: { connectNative(id) {
		if (fault === "conn") throw new FaultError("no such application");
		if (id !== "app.id") throw new Error("application " + id);
		const n = ports.length + 1;
		const p = { name: id, error: null, onMessage: listeners(), onDisconnect: listeners(), dead: false,
			disconnect() { p.dead = true; },
			postMessage(m) {
				if (fault === "post" || p.dead) throw new FaultError("can not post");
				const s = JSON.parse(JSON.stringify(m));
				const a = s.params;
				let call = 0;
				if (s.id != null && s.method === "m" + current && Array.isArray(a) && a.length === 1 && a[0] && a[0].arg === current) call = current;
				for (const [c, x] of ids) if (x === s.id) call = 0;
				ids.set(call, s.id);
				posted.push([n, call]);
			} };
		ports.push(p);
		return p;
	} } };
	const ctx = vm.createContext({ browser, console: quiet });
	vm.runInContext(src + "\n;globalThis.JsonRpcClient = JsonRpcClient;", ctx, { filename: "rpc_client.js" });
	let next = 7;
	const opts = h.gen === "num" ? { idGenerator: () => next += 3 } : h.gen === "str" ? { idGenerator: () => "id-" + (next++) } : h.gen === "debug" ? { debug: true } : undefined;
	const client = opts ? new ctx.JsonRpcClient("app.id", opts) : new ctx.JsonRpcClient("app.id");
	const name = (c, k, v) => { res[c - 1] = res[c - 1][0] === "out" ? [k, v] : ["again", 0]; };
	const same = (a, b) => JSON.stringify(a) === JSON.stringify(b) && typeof a === typeof b;
	function start(c) {
		current = c;
		res[c - 1] = ["out", 0];
		let p;
		try {
			p = client.sendMessage("m" + c, { arg: c });
		} catch (e) {
			name(c, "throw", 0);
			return;
		}
		p.then(x => {
			const i = VALUES.findIndex(v => same(v, x));
			name(c, i >= 0 ? "ok" : "other", i + 1);
		}, e => {
			const m = e && e.message;
			const i = ERRORS.indexOf(m);
			if (e instanceof FaultError) name(c, "throw", 0);
			else if (i >= 0) name(c, "err", i + 1);
			else if (e === gonewith || ending) name(c, "lost", 0);
			else name(c, "bad", 0);
		});
	}
	let ending = false, gonewith = {};
	const obs = [];
	for (const e of h.ev) {
		posted = [];
		const port = e.p ? ports[e.p - 1] : null;
		if (e.p && !port) break;
		if (e.a === "send") {
			fault = e.k;
			start(e.c);
			await tick();
			fault = "";
		} else if (e.a === "reply") {
			const m = { id: ids.get(e.c) };
			const shape = e.s % 3;
			if (e.k === "ok") { m.result = VALUES[e.v - 1]; if (shape !== 2) m.error = null; if (shape === 1) m.jsonrpc = "2.0"; }
			else if (e.k === "err") { m.error = ERRORS[e.v - 1]; if (shape !== 2) m.result = null; }
			else if (shape === 0) { m.result = null; m.error = null; }
			if (!port.dead) port.onMessage.fire(JSON.parse(JSON.stringify(m)));
		} else if (e.a === "junk") {
			const junk = [null, {}, { result: 1 }, { id: null, result: 5, error: null }, { id: 987654, result: 5, error: null },
				{ id: "none", result: 5 }, { id: null, error: "some" }, "string", 5, [], { id: {}, result: 1 }, true];
			port.onMessage.fire(junk[e.s % junk.length]);
		} else if (e.a === "error") {
			port.error = new Error("port error");
			gonewith = port.error;
		} else if (e.a === "gone") {
			ending = true;
			port.dead = true;
			port.onDisconnect.fire(port);
			await tick();
			ending = false;
		}
		await tick();
		obs.push({ n: ports.length, post: posted, res: res.map(r => r.slice()) });
	}
	return { obs };
}
(async () => {
	const out = [];
	for (const line of fs.readFileSync(0, "utf8").split("\n"))
		if (line) out.push(JSON.stringify(await run(JSON.parse(line))));
	fs.writeSync(1, out.join("\n") + "\n");
})().catch(e => { console.error(e); process.exit(3); });
