// Stands in for the module Emscripten generates: the same interface (cwrap, getValue, UTF8ToString, HEAPF32, exported
// functions with a leading underscore), over libresdet compiled to WebAssembly with clang and libc.c.
import fs from 'node:fs'
const dir = new URL('.', import.meta.url);
const exported = fs.readFileSync(new URL('exported_functions.txt', dir), 'utf8').split(/[\s,]+/).filter(x => x).map(x => x.replace(/^["[\]]+|["[\]]+$/g,''));
const wasm = new WebAssembly.Module(fs.readFileSync(new URL('libresdet.wasm', dir)));
export const instances = globalThis.__instances ??= [];

export default async function() {
	const imports = { math: Math };
	for(const i of WebAssembly.Module.imports(wasm))
		if(i.module === 'env' && i.kind === 'function')
			(imports.env ??= {})[i.name] = () => { throw new Error(`missing function ${i.name}`) };
	const w = new WebAssembly.Instance(wasm, imports).exports;
	const view = () => new DataView(w.memory.buffer);
	const UTF8ToString = p => {
		if(!p) return '';
		const b = new Uint8Array(w.memory.buffer);
		let e = p >>> 0;
		while(b[e]) e++;
		return new TextDecoder().decode(b.slice(p >>> 0,e));
	};
	const Module = {
		UTF8ToString,
		get HEAPF32() { return new Float32Array(w.memory.buffer); },
		getValue(p, type = 'i8') {
			p >>>= 0;
			if(type.endsWith('*')) type = '*';
			switch(type) {
				case 'i1': case 'i8': return view().getInt8(p);
				case 'i16': return view().getInt16(p & ~1,true);
				case 'i32': return view().getInt32(p & ~3,true);
				case 'i64': return view().getBigInt64(p & ~7,true);
				case 'float': return view().getFloat32(p & ~3,true);
				case 'double': return view().getFloat64(p & ~7,true);
				case '*': return view().getUint32(p & ~3,true);
			}
			throw new Error(`invalid type for getValue: ${type}`);
		},
		ccall(name, ret, types, args) {
			const f = Module['_' + name];
			const stack = w.__stack_pointer.value;
			try {
				const a = (args ?? []).map((x,i) => {
					if(types?.[i] === 'string') {
						if(x === null || x === undefined || x === 0) return 0;
						const s = new TextEncoder().encode(x + '\0');
						const p = (w.__stack_pointer.value - s.length) & ~15;
						w.__stack_pointer.value = p;
						new Uint8Array(w.memory.buffer).set(s,p);
						return p;
					}
					return x;
				});
				const r = f(...a);
				if(ret === 'string') return UTF8ToString(r);
				if(ret === 'boolean') return Boolean(r);
				return r;
			} finally {
				w.__stack_pointer.value = stack;
			}
		},
		cwrap(name, ret, types) {
			const plain = !types || types.every(t => t === 'number' || t === 'boolean');
			if(ret !== 'string' && plain)
				return Module['_' + name];
			return (...args) => Module.ccall(name,ret,types,args);
		},
	};
	for(const f of exported)
		Module[f] = w[f.replace(/^_/,'')];
	Module.raw = w;
	instances.push(Module);
	return Module;
}
