// Runs the steps of one case (a line of JSON) through the JavaScript bindings, and each of them again by direct calls
// of the library in the same module; answers with the first difference. See c25.py.
import readline from 'node:readline'
import * as lib from './libresdet.mjs'

let count = 0, current = null;
async function bindings(fresh) {
	if(fresh || !current) {
		const rd = await import(`./resdet.mjs?${count++}`);
		const Module = lib.instances.at(-1), w = Module.raw;
		lib.instances.length = 0;
		current = { rd, w, Module, slots: new Map() };
	}
	return current;
}

const tick = () => new Promise(r => setImmediate(r));
async function collect() {
	for(let i = 0; i < 3; i++) { globalThis.gc(); await tick(); await tick(); }
}

class Bad extends Error {}
const check = (ok,msg) => { if(!ok) throw new Bad(msg); };
const show = x => JSON.stringify(x,(k,v) => typeof v === 'number' && !Number.isFinite(v) ? String(v) : v === undefined ? 'undefined' : v);
const number = x => x === 'nan' ? NaN : x === 'inf' ? Infinity : x === '-inf' ? -Infinity : x === 'undefined' ? undefined : x;

function pixels(step) {
	const b = Buffer.from(step.px,'base64');
	const n = b.length/4;
	if(step.offset) { // part of a larger array
		const a = new Float32Array(n+step.offset+3).fill(12345);
		const v = a.subarray(step.offset,step.offset+n);
		new Uint8Array(v.buffer,v.byteOffset,n*4).set(b);
		return v;
	}
	return new Float32Array(b.buffer.slice(b.byteOffset,b.byteOffset+b.length));
}

// direct calls
const size = x => { x = Number(x); return Number.isNaN(x) || x < 0 ? 0 : Math.min(Math.trunc(x),0xffffffff); };
const text = (m,s) => { const b = new TextEncoder().encode(s+'\0'), p = m.w.malloc(b.length); new Uint8Array(m.w.memory.buffer).set(b,p); return p; };
const string = (m,p) => { if(!p) return ''; const b = new Uint8Array(m.w.memory.buffer); let e = p; while(b[e]) e++; return Buffer.from(b.slice(p,e)).toString(); };
function methodPtr(m,name) {
	if(name === null || name === undefined) return 0;
	const p = text(m,name), r = m.w.r_method(p);
	m.w.free(p);
	return r;
}
function rawParams(m,params) {
	if(!params) return { p: 0, error: 0 };
	const p = m.w.r_params();
	let error = 0;
	const set = { range: v => m.w.r_range(p,size(v)), threshold: v => m.w.r_threshold(p,Number(v)), compression_filter: v => m.w.r_filter(p,v < 0 ? 255 : size(v)) };
	for(const k of ['range','threshold','compression_filter'])
		if(k in params) error ||= set[k](number(params[k]));
	return { p, error };
}
const unknown = params => params && Object.keys(params).filter(k => !['range','threshold','compression_filter'].includes(k));
function rawResults(m,call) {
	const o = m.w.malloc(16);
	const e = call(o,o+4,o+8,o+12);
	const v = new DataView(m.w.memory.buffer);
	const r = {};
	if(!e)
		for(const [k,i] of [['widths',0],['heights',8]]) {
			const p = v.getUint32(o+i,true), n = v.getUint32(o+i+4,true);
			r[k] = Array.from({length:n},(_,j) => [m.w.r_index(p,j) >>> 0,m.w.r_confidence(p,j)]);
			m.w.free(p);
		}
	m.w.free(o);
	return { error: e, value: e ? undefined : r };
}
function upload(m,a) {
	const p = m.w.malloc(a.length*4);
	new Float32Array(m.w.memory.buffer).set(a,p/4);
	return p;
}
function rawDetect(m,s,a) {
	const q = rawParams(m,s.params);
	if(q.error) { m.w.free(q.p); return { error: q.error }; }
	const p = upload(m,a);
	const r = rawResults(m,(x,y,z,t) => m.w.r_detect(p,s.n,size(number(s.w)),size(number(s.h)),x,y,z,t,methodPtr(m,s.method),q.p));
	m.w.free(p);
	m.w.free(q.p);
	return r;
}

// the bindings
function outcome(f) {
	try { return { value: f() }; } catch(e) { return { thrown: e }; }
}
function plain(m,r) {
	check(r && typeof r === 'object' && Object.keys(r).sort().join() === 'heights,widths',`result ${show(r)}`);
	const o = {};
	for(const k of ['widths','heights']) {
		check(Array.isArray(r[k]) && r[k].every(x => x instanceof m.rd.Resolution),`result ${show(r)}`);
		o[k] = r[k].map(x => [x.index,x.confidence]);
	}
	return o;
}
const describe = o => o.thrown ? `${o.thrown.constructor.name}: ${o.thrown.message}${'rderror' in o.thrown ? ` (${o.thrown.rderror})` : ''}` : show(o.value);
function agree(m,got,want,what) {
	if(want.unknown?.length) {
		check(got.thrown instanceof Error,`${what}: unknown parameters ${want.unknown} give ${describe(got)}`);
		return;
	}
	if(want.error) {
		check(got.thrown instanceof m.rd.RDError,`${what}: ${describe(got)} instead of error ${want.error}`);
		check(got.thrown.rderror === want.error,`${what}: ${describe(got)} instead of error ${want.error}`);
		check(got.thrown.message === string(m,m.w.r_error(want.error)),`${what}: message ${got.thrown.message} of error ${want.error}`);
		return;
	}
	check(!got.thrown,`${what}: ${got.thrown && (got.thrown.stack ?? got.thrown)}`);
	if(want.value !== undefined) {
		const a = show(plain(m,got.value)), b = show(want.value);
		check(a === b,`${what}: ${a} instead of ${b}`);
	}
}
const heap = m => [m.w.t_live(),m.w.t_bytes()];
// f with the fail-th allocation (or all from there on) failing
function injected(m,s,f) {
	m.w.t_fail(s.fail ?? 0,s.all ? 1 : 0);
	const before = m.w.t_count();
	const o = outcome(f);
	o.hit = !!s.fail && m.w.t_count() - before >= s.fail;
	m.w.t_fail(0,0);
	return o;
}
function methodArg(m,s) {
	if(s.method === undefined) return undefined;
	if(s.method === null) return null;
	return s.listed ? m.rd.methods().find(x => x.name === s.method) : m.rd.Method.get(s.method);
}
function paramArg(s) {
	if(!s.params) return undefined;
	return Object.fromEntries(Object.entries(s.params).map(([k,v]) => [k,number(v)]));
}
function noMemory(m,got,want,what) {
	check(got.thrown instanceof Error,`${what}: an allocation failed, yet ${describe(got)}`);
	if(got.thrown instanceof m.rd.RDError) {
		const e = got.thrown.rderror;
		check(e === 1 || (want && want.error === e),`${what}: an allocation failed, yet ${describe(got)}`);
		check(got.thrown.message === string(m,m.w.r_error(e)),`${what}: message ${got.thrown.message} of error ${e}`);
	}
	else check(/out of memory/i.test(got.thrown.message) || want?.unknown?.length,`${what}: an allocation failed, yet ${describe(got)}`);
}

function same(a,b) { return a[0] === b[0] && a[1] === b[1]; }

const ops = {
	detect(m,s,info) {
		const a = pixels(s), copy = new Uint8Array(a.buffer.slice(0));
		const what = `resDetect(${a.length} values, ${s.n}, ${s.w}, ${s.h}, ${s.method}, ${show(s.params)})${s.fail ? ` with allocation ${s.fail} failing` : ''}`;
		const method = methodArg(m,s), params = paramArg(s);
		const given = show(params), h0 = heap(m);
		const got = injected(m,s,() => m.rd.resDetect(a,s.n,number(s.w),number(s.h),...(s.short ? [] : [method,params].slice(0,params === undefined ? 1 : 2))));
		check(same(heap(m),h0),`${what}: ${describe(got)}, and ${m.w.t_live()-h0[0]} blocks remain allocated`);
		check(show(params) === given,`${what}: changed the parameters to ${show(params)}`);
		check(Buffer.compare(copy,new Uint8Array(a.buffer)) === 0,`${what}: changed the image`);
		const u = unknown(s.params), want = u?.length ? { unknown: u } : rawDetect(m,s.short ? {...s, method: null, params: null} : s,a);
		if(got.hit) { info.hit++; noMemory(m,got,want,what); return; }
		agree(m,got,want,what);
		if(want.error || u?.length) info.errors++;
		else if(want.value.widths.length + want.value.heights.length > 2) info.found++;
	},
	create(m,s,info) {
		const what = `new Analysis(${s.w}, ${s.h}, ${s.method}, ${show(s.params)})${s.fail ? ` with allocation ${s.fail} failing` : ''}`;
		const method = methodArg(m,s), params = paramArg(s);
		const h0 = heap(m);
		const got = injected(m,s,() => new m.rd.Analysis(number(s.w),number(s.h),...[method,params].slice(0,params === undefined ? 1 : 2)));
		const h1 = heap(m);
		const u = unknown(s.params);
		let want = { unknown: u }, raw = 0;
		const h2 = heap(m);
		if(!u?.length) {
			const q = rawParams(m,s.params);
			want = { error: q.error };
			if(!q.error) {
				const e = m.w.malloc(4);
				raw = m.w.r_create(methodPtr(m,s.method),size(number(s.w)),size(number(s.h)),q.p,e);
				want.error = new DataView(m.w.memory.buffer).getInt32(e,true);
				m.w.free(e);
			}
			m.w.free(q.p);
		}
		const h3 = heap(m);
		if(got.hit) {
			check(same(h0,h1),`${what}: ${describe(got)}, and ${h1[0]-h0[0]} blocks remain allocated`);
			if(raw) m.w.r_destroy(raw);
			info.hit++;
			noMemory(m,got,want,what);
			return;
		}
		check(h1[0]-h0[0] === h3[0]-h2[0] && h1[1]-h0[1] === h3[1]-h2[1],`${what}: ${got.thrown ? describe(got) : 'created'}, and holds ${h1[0]-h0[0]} blocks instead of ${h3[0]-h2[0]}`);
		agree(m,got,want,what);
		if(want.error || u?.length) { info.errors++; return; }
		ops.drop(m,s,info);
		m.slots.set(s.slot,{ analysis: got.value, raw, w: s.w, h: s.h, method: s.method, failed: false, size: h1[0]-h0[0] });
	},
	analyze(m,s,info) {
		const t = m.slots.get(s.slot);
		if(!t) return;
		const a = pixels(s), copy = new Uint8Array(a.buffer.slice(0));
		const what = `analyzeImage of ${t.w} x ${t.h}${s.fail ? ` with allocation ${s.fail} failing` : ''}`;
		const h0 = heap(m);
		const got = injected(m,s,() => t.analysis.analyzeImage(a));
		check(same(heap(m),h0),`${what}: ${describe(got)}, and ${m.w.t_live()-h0[0]} blocks remain allocated`);
		check(Buffer.compare(copy,new Uint8Array(a.buffer)) === 0,`${what}: changed the image`);
		if(got.hit) {
			info.hit++;
			noMemory(m,got,null,what);
			if(t.method === 'orig') t.partial = true; // known finding of C18
			return;
		}
		const p = upload(m,a), e = m.w.r_analyze(t.raw,p);
		m.w.free(p);
		agree(m,got,{ error: e },what);
		if(e) info.errors++;
	},
	results(m,s,info) {
		const t = m.slots.get(s.slot);
		if(!t) return;
		const what = `analysisResults of ${t.w} x ${t.h}${s.fail ? ` with allocation ${s.fail} failing` : ''}`;
		const h0 = heap(m);
		const got = injected(m,s,() => t.analysis.analysisResults());
		check(same(heap(m),h0),`${what}: ${describe(got)}, and ${m.w.t_live()-h0[0]} blocks remain allocated`);
		const want = rawResults(m,(x,y,z,u) => m.w.r_results(t.raw,x,y,z,u));
		if(got.hit) { info.hit++; noMemory(m,got,want,what); return; }
		if(t.partial) return;
		agree(m,got,want,what);
		if(want.error) info.errors++;
		else { info.results++; if(want.value.widths.length + want.value.heights.length > 2) info.found++; }
	},
	drop(m,s) {
		const t = m.slots.get(s.slot);
		if(t) m.w.r_destroy(t.raw);
		m.slots.delete(s.slot);
	},
	async gc(m,s,info) {
		await collect();
		let n = 0;
		for(const t of m.slots.values()) n += 2*t.size;
		check(m.w.t_live() === n,`after dropping analyses, ${m.w.t_live()} blocks are allocated instead of ${n}`);
		info.gc++;
	},
	tables(m,s) {
		const h0 = heap(m);
		const list = m.rd.methods(), want = [];
		for(const k of ['sign','mag','orig','zerox']) { // documented methods, in whatever order the library has them
			const p = methodPtr(m,k);
			if(p) want.push([k,m.w.r_method_threshold(p),p]);
		}
		want.sort((a,b) => a[2]-b[2]);
		check(show(list.map(x => [x.name,x.threshold])) === show(want.map(x => [x[0],x[1]])),`methods() is ${show(list)} instead of ${show(want)}`);
		check(list.every(x => x instanceof m.rd.Method),'methods() are not of class Method');
		for(const name of s.names) {
			const o = outcome(() => m.rd.Method.get(name)), p = methodPtr(m,name);
			check(!o.thrown,`Method.get(${show(name)}): ${o.thrown && o.thrown.stack}`);
			if(!p) check(o.value === undefined,`Method.get(${show(name)}) is ${show(o.value)}`);
			else {
				check(o.value instanceof m.rd.Method && o.value.name === string(m,m.w.r_method_name(p)) && o.value.threshold === m.w.r_method_threshold(p),`Method.get(${show(name)}) is ${show(o.value)}`);
			}
		}
		check(m.rd.libVersion() === string(m,m.w.r_version()),`libVersion() is ${m.rd.libVersion()}`);
		check(m.rd.defaultRange() === m.w.r_default_range(),`defaultRange() is ${m.rd.defaultRange()}`);
		for(const e of s.errors) {
			const x = new m.rd.RDError(e);
			check(x instanceof Error && x.rderror === e && x.message === string(m,m.w.r_error(e)),`RDError(${e}) is ${x.rderror}, ${x.message}`);
		}
		check(same(heap(m),h0),`the tables leave ${m.w.t_live()-h0[0]} blocks allocated`);
	},
	grow(m,s) { m.w.t_grow(s.on ? 1 : 0); },
};

for await(const line of readline.createInterface({ input: process.stdin })) {
	const c = JSON.parse(line);
	const info = { errors: 0, found: 0, results: 0, hit: 0, gc: 0 };
	let bad = null;
	try {
		const m = await bindings(c.fresh);
		for(let i = 0; i < c.steps.length; i++) {
			try { await ops[c.steps[i].op](m,c.steps[i],info); }
			catch(e) {
				if(e instanceof Bad) e.message = `step ${i}: ${e.message}`;
				throw e;
			}
			check(m.w.t_bad() === 0,`step ${i}: ${c.steps[i].op} freed something not allocated`);
		}
		m.w.t_grow(0);
		for(const s of [...m.slots.keys()]) ops.drop(m,{slot:s});
		if(c.collect) await ops.gc(m,{},info);
	} catch(e) {
		bad = e instanceof Bad ? e.message : `${e.stack}`;
		current = null;
	}
	process.stdout.write(JSON.stringify({ bad, info }) + '\n');
}
