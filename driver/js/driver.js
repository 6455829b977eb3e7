// The JavaScript module (libvoikko_api.js) driven by commands, one per line, with the answers as JSON (texts as lists of
// code points).  Runs below bridge.cpp; the names that Emscripten gives to the module are defined here, over a memory whose
// blocks are watched: each is released once, by the right function, and none is used when it is not there.
// Argument: libvoikko_api.js
"use strict";
const fs = require("fs");

class Misuse extends Error {}

/* memory */
const BASE = 1024;
const memory = new ArrayBuffer(64 * 1024 * 1024);
const HEAPU8 = new Uint8Array(memory), HEAP8 = new Int8Array(memory), HEAP32 = new Int32Array(memory), HEAPU32 = new Uint32Array(memory);
let top = BASE;
const blocks = [];               // in the order of addresses
const byStart = new Map();
function take(size, kind) {
	const b = {start: top, size: size, kind: kind, live: true};
	HEAPU8.fill(0xAA, top, top + size);
	top += (Math.max(size, 1) + 7) & ~7;
	top += 16;
	if (top > HEAPU8.length - 4096) { console.error("driver: out of memory"); process.exit(97); }
	blocks.push(b);
	byStart.set(b.start, b);
	return b.start;
}
function release(p, kind) {
	const b = byStart.get(p);
	if (!b || !b.live || b.kind !== kind) throw new Misuse("release of " + p + " as " + kind);
	b.live = false;
	return b;
}
// the block that contains the n bytes at p
function at(p, n) {
	let lo = 0, hi = blocks.length;
	while (hi - lo > 1) { const m = (lo + hi) >> 1; if (blocks[m].start <= p) lo = m; else hi = m; }
	const b = blocks[lo];
	if (!b || !b.live || p < b.start || p + n > b.start + b.size) throw new Misuse("access of " + n + " bytes at " + p);
	return b;
}
const _malloc = n => take(n, "malloc");
const _free = p => { if (p) release(p, "malloc"); };
const _emscripten_builtin_memalign = (a, n) => take(n, "malloc");
function getValue(p, type) {
	if (type.endsWith("*") || type === "i32") { at(p, 4); return type.endsWith("*") ? HEAPU32[p >> 2] : HEAP32[p >> 2]; }
	if (type === "i8") { at(p, 1); return HEAP8[p]; }
	throw new Misuse("getValue " + type);
}
function setValue(p, v, type) {
	if (type.endsWith("*") || type === "i32") { at(p, 4); HEAPU32[p >> 2] = v; }
	else if (type === "i8") { at(p, 1); HEAP8[p] = v; }
	else throw new Misuse("setValue " + type);
}
function UTF8ToString(p, max) {
	if (!p) return "";
	let e = p;
	while (max === undefined || e < p + max) { at(e, 1); if (!HEAPU8[e]) break; e++; }
	return Buffer.from(memory, p, e - p).toString("utf8");
}
function lengthBytesUTF8(s) {
	let n = 0;
	for (let i = 0; i < s.length; i++) {
		const c = s.charCodeAt(i);
		if (c <= 0x7F) n++; else if (c <= 0x7FF) n += 2; else if (c >= 0xD800 && c <= 0xDFFF) { n += 4; i++; } else n += 3;
	}
	return n;
}
function encode(s) {
	const r = [];
	for (let i = 0; i < s.length; i++) {
		let u = s.charCodeAt(i);
		if (u >= 0xD800 && u <= 0xDFFF) { const v = s.charCodeAt(++i); u = 0x10000 + ((u & 0x3FF) << 10) | (v & 0x3FF); }
		if (u <= 0x7F) r.push(u);
		else if (u <= 0x7FF) r.push(0xC0 | (u >> 6), 0x80 | (u & 63));
		else if (u <= 0xFFFF) r.push(0xE0 | (u >> 12), 0x80 | ((u >> 6) & 63), 0x80 | (u & 63));
		else r.push(0xF0 | (u >> 18), 0x80 | ((u >> 12) & 63), 0x80 | ((u >> 6) & 63), 0x80 | (u & 63));
	}
	return r;
}
function stringToUTF8(s, p, max) {
	if (!(max > 0)) return 0;
	let b = encode(s);
	if (b.length > max - 1) b = b.slice(0, max - 1);
	at(p, b.length + 1);
	HEAPU8.set(b, p);
	HEAPU8[p + b.length] = 0;
	return b.length;
}
function stringToNewUTF8(s) { const n = lengthBytesUTF8(s) + 1, p = _malloc(n); stringToUTF8(s, p, n); return p; }

/* the library */
const CHUNK = Buffer.alloc(1 << 16);
let pending = "";
function ask() {
	fs.writeSync(4, Array.from(arguments).join(" ") + "\n");
	let i;
	while ((i = pending.indexOf("\n")) < 0) {
		const n = fs.readSync(3, CHUNK, 0, CHUNK.length);
		if (n <= 0) process.exit(98);
		pending += CHUNK.toString("latin1", 0, n);
	}
	const r = pending.slice(0, i);
	pending = pending.slice(i + 1);
	return r;
}
const hex = b => Buffer.from(b).toString("hex");
// a text of the library in memory
function text(h, kind) {
	if (h === "null") return 0;
	const b = Buffer.from(h.slice(1), "hex"), p = take(b.length + 1, kind);
	HEAPU8.set(b, p);
	HEAPU8[p + b.length] = 0;
	return p;
}
function pointers(l, kind) {
	const p = take(4 * (l.length + 1), kind);
	l.forEach((x, i) => { HEAPU32[(p >> 2) + i] = x; });
	HEAPU32[(p >> 2) + l.length] = 0;
	return p;
}
function array(r, kind) {
	if (r === "null") return 0;
	const l = r.split(" ").slice(1).map(x => text(x, "text of " + kind)), p = pointers(l, kind);
	byStart.get(p).parts = l;
	return p;
}
function releaseParts(b) {
	for (const x of b.parts || []) { const c = byStart.get(x); c.live = false; releaseParts(c); }
}
const handles = new Map(), errors = new Map();       // addresses to numbers of the bridge
function of(map, p) { at(p, 4); if (!map.has(p)) throw new Misuse("not an object: " + p); return map.get(p); }
const S = p => { if (p === 0) return "null"; let e = p; at(p, 1); while (HEAPU8[e]) { e++; at(e, 1); } return hex(HEAPU8.subarray(p, e)); };
const simple = f => (e, ...rest) => Number(ask(f, of(errors, e), ...rest));
const C = {
	voikkoInit(ref, lang, path) {
		at(ref, 4);
		const r = ask("voikkoInit", S(lang), S(path)).split(" ");
		HEAPU32[ref >> 2] = text(r[1], "static");
		if (r[0] === "0") return 0;
		const h = take(4, "handle");
		handles.set(h, r[0]);
		return h;
	},
	voikkoTerminate(h) { ask("voikkoTerminate", of(handles, h)); release(h, "handle"); },
	voikkoSetBooleanOption: (h, k, v) => Number(ask("voikkoSetBooleanOption", of(handles, h), k, v)),
	voikkoSetIntegerOption: (h, k, v) => Number(ask("voikkoSetIntegerOption", of(handles, h), k, v)),
	voikkoSpellCstr: (h, w) => Number(ask("voikkoSpellCstr", of(handles, h), S(w))),
	voikkoSuggestCstr: (h, w) => array(ask("voikkoSuggestCstr", of(handles, h), S(w)), "array"),
	voikkoGetAttributeValues: (h, w) => array(ask("voikkoGetAttributeValues", of(handles, h), S(w)), "array"),
	voikkoHyphenateCstr: (h, w) => text(ask("voikkoHyphenateCstr", of(handles, h), S(w)), "text"),
	voikkoInsertHyphensCstr: (h, w, y, c) => text(ask("voikkoInsertHyphensCstr", of(handles, h), S(w), S(y), c), "text"),
	voikkoFreeCstrArray(p) { if (p) releaseParts(release(p, "array")); },
	voikkoFreeCstr(p) { if (p) release(p, "text"); },
	voikkoNextTokenCstr: (h, t, n, ref) => next("voikkoNextTokenCstr", h, t, n, ref),
	voikkoNextSentenceStartCstr: (h, t, n, ref) => next("voikkoNextSentenceStartCstr", h, t, n, ref),
	voikkoNextGrammarErrorCstr(h, t, n, start, skip) {
		const r = ask("voikkoNextGrammarErrorCstr", of(handles, h), S(t), n, start, skip);
		if (r === "0") return 0;
		const e = take(4, "error");
		errors.set(e, r);
		return e;
	},
	voikkoGetGrammarErrorCode: simple("voikkoGetGrammarErrorCode"),
	voikkoGetGrammarErrorStartPos: simple("voikkoGetGrammarErrorStartPos"),
	voikkoGetGrammarErrorLength: simple("voikkoGetGrammarErrorLength"),
	voikkoGetGrammarErrorSuggestions(e) {
		const p = array(ask("voikkoGetGrammarErrorSuggestions", of(errors, e)), "part of an error");
		if (p) { const b = byStart.get(e); b.parts = (b.parts || []).concat([p]); }
		return p;
	},
	voikkoFreeGrammarError(e) { if (!e) return; ask("voikkoFreeGrammarError", of(errors, e)); releaseParts(release(e, "error")); },
	voikkoGetGrammarErrorShortDescription: (e, lang) => text(ask("voikkoGetGrammarErrorShortDescription", of(errors, e), S(lang)), "message"),
	voikkoFreeErrorMessageCstr(p) { if (p) release(p, "message"); },
	voikkoAnalyzeWordCstr(h, w) {
		const r = ask("voikkoAnalyzeWordCstr", of(handles, h), S(w));
		if (r === "null") return 0;
		const l = r.split(" analysis").slice(1).map(x => {
			const f = x.trim().split(" ").filter(y => y), keys = f.filter((_, i) => i % 2 === 0).map(k => text(k, "part of an analysis"));
			const p = take(4, "analysis"), b = byStart.get(p), k = pointers(keys, "part of an analysis");
			b.keys = k;
			b.values = new Map(f.filter((_, i) => i % 2 === 0).map((y, i) => [y, f[2 * i + 1]]));
			b.parts = keys.concat([k]);
			return p;
		});
		const p = pointers(l, "analyses");
		byStart.get(p).parts = l;
		return p;
	},
	voikko_free_mor_analysis(p) { if (p) releaseParts(release(p, "analyses")); },
	voikko_mor_analysis_keys: a => at(a, 4).keys,
	voikko_mor_analysis_value_cstr(a, k) { const v = at(a, 4).values.get("x" + S(k)); return v === undefined ? 0 : text(v, "value"); },
	voikko_free_mor_analysis_value_cstr(p) { if (p) release(p, "value"); },
};
function next(f, h, t, n, ref) {
	const b = at(t, n);
	at(ref, 4);
	const r = ask(f, of(handles, h), hex(HEAPU8.subarray(t, b.start + b.size)), n).split(" ");
	HEAPU32[ref >> 2] = Number(r[1]);
	return Number(r[0]);
}
function ccall(name, ret, types, args) {
	if (!C[name]) { throw new Misuse("no function " + name); }
	const used = [];
	const a = types.map((t, i) => {
		const x = args[i];
		if (t !== "string") return x === true ? 1 : x === false || x === undefined || x === null ? 0 : x;
		if (x === null || x === undefined || x === 0) return 0;
		const n = lengthBytesUTF8(x) + 1, p = take(n, "stack");
		stringToUTF8(x, p, n);
		used.push(p);
		return p;
	});
	const r = C[name](...a);
	used.forEach(p => release(p, "stack"));
	return ret === "string" ? UTF8ToString(r) : ret === "boolean" ? Boolean(r) : r;
}
const cwrap = (name, ret, types) => function() { return ccall(name, ret, types || [], arguments); };
// blocks that should have been released
const kept = n => blocks.slice(n).filter(b => b.live && !["handle", "static"].includes(b.kind)).length;

/* the module */
const names = {cwrap, ccall, _malloc, _free, _emscripten_builtin_memalign, getValue, setValue, UTF8ToString, lengthBytesUTF8, stringToUTF8, stringToNewUTF8,
	HEAP8, HEAPU8, HEAP32, HEAPU32};
let loaded = null;
const Module = {onLoad: m => { loaded = m; }};
new Function("Module", ...Object.keys(names), fs.readFileSync(process.argv[2], "utf8"))(Module, ...Object.values(names));
Module.onRuntimeInitialized();

const TOKENS = ["NONE", "WORD", "PUNCTUATION", "WHITESPACE", "UNKNOWN"], SENTENCES = ["NONE", "NO_START", "PROBABLE", "POSSIBLE"];
const str = s => s === "" ? "" : s.split(" ").map(x => String.fromCodePoint(Number(x))).join("");
const out = s => Array.from(s).map(c => c.codePointAt(0));
const H = new Map();
function run(a) {
	if (a[0] === "binit") {
		try { H.set(a[1], loaded.init(a[2], a[3])); } catch (x) { if (typeof x !== "string") throw x; return {ok: 0, err: x.length > 0 ? 1 : 0}; }
		return {ok: 1, err: 0};
	}
	const v = H.get(a[1]);
	switch (a[0]) {
	case "bterm": v.terminate(); return 1;
	case "bdel": v.terminate(); H.delete(a[1]); return 1;
	case "bset":
		if (a[2] === "setSuggestionStrategy") v[a[2]](a[3] === "0" ? "TYPO" : a[3] === "1" ? "OCR" : a[3]);
		else if (a[2] === "setMinHyphenatedWordLength") v[a[2]](Number(a[3]));
		else v[a[2]](a[3] !== "0");
		return 1;
	case "bspell": { const r = v.spell(str(a[2])); return r === true ? 1 : r === false ? 0 : String(r); }
	case "bsugg": return v.suggest(str(a[2])).map(out);
	case "bhyph": return out(v.getHyphenationPattern(str(a[2])));
	case "binsh": return out(a[4] === "default" ? v.hyphenate(str(a[2])) : v.hyphenate(str(a[2]), str(a[3]), a[4] === "1"));
	case "bana": return v.analyze(str(a[2])).map(m => { const r = {}; for (const k in m) r[k] = out(m[k]); return r; });
	case "btok": { let p = 0; return v.tokens(str(a[2])).map(t => { const r = {type: TOKENS.indexOf(t.type), text: out(t.text), pos: p}; p += t.text.length; return r; }); }
	case "bsent": return v.sentences(str(a[2])).map(s => ({type: SENTENCES.indexOf(s.nextStartType), text: out(s.text)}));
	case "bgram": return v.grammarErrors(str(a[2]), a[3]).map(e => ({code: e.errorCode, pos: e.startPos, len: e.errorLen, sugg: e.suggestions.map(out), descr: out(e.shortDescription)}));
	case "battr": return v.attributeValues(str(a[2]));
	}
	console.error("driver: " + a[0]);
	process.exit(97);
}
for (const line of fs.readFileSync(0, "utf8").split("\n")) {
	if (line === "") continue;
	const before = blocks.length;
	let r;
	try { r = run(line.split("\t")); }
	catch (x) { r = typeof x === "string" ? {exc: "VoikkoException"} : {exc: x instanceof Misuse ? "memory: " + x.message : x.name + " " + x.message}; }
	if (kept(before) > 0) r = {exc: "memory: not released"};
	fs.writeSync(1, JSON.stringify(r) + "\n");
}
