// Executes requests on generated TypeScript code (with the types stripped): serializes and
// deserializes values as described by a schema. All judgement is on the other side.
//   node runner.mjs GEN.mjs SCHEMA.json REQUESTS RESPONSES
import fs from 'node:fs';
import v8 from 'node:v8';
import vm from 'node:vm';
import { pathToFileURL } from 'node:url';

const [, , genPath, schemaPath, requestPath, responsePath] = process.argv;
// Where the generated code runs: in Node, or in a realm without anything but the language and the
// encoding of text, as in a browser which forbids dynamic code.
const realm = process.env.MC_REALM ?? '';
let R = globalThis;
let gen;
let spoilt = () => '';
if (realm === 'vm' || realm === 'frozen') {
  const context = vm.createContext({}, { codeGeneration: { strings: false, wasm: false } });
  const run = (code) => vm.runInContext(code, context);
  run(`(Encoder, Decoder) => {
    globalThis.TextEncoder = class TextEncoder {
      #e = new Encoder();
      get encoding() { return 'utf-8'; }
      encode(s) { return new Uint8Array(this.#e.encode(s)); }
      encodeInto(s, b) { const { read, written } = this.#e.encodeInto(s, b); return { read, written }; }
    };
    globalThis.TextDecoder = class TextDecoder {
      #d;
      constructor(...a) { try { this.#d = new Decoder(...a); } catch (e) { throw new RangeError(e.message); } }
      get encoding() { return this.#d.encoding; }
      get fatal() { return this.#d.fatal; }
      get ignoreBOM() { return this.#d.ignoreBOM; }
      decode(...a) { try { return this.#d.decode(...a); } catch (e) { throw new TypeError(e.message); } }
    };
  }`)(TextEncoder, TextDecoder);
  // Everything which is there before, to see that it stays as it is.
  const all = run(`(frozen) => {
    const seen = new Map();
    const visit = (o) => {
      if ((typeof o !== 'object' && typeof o !== 'function') || o === null || seen.has(o)) return;
      const all = Object.getOwnPropertyDescriptors(o);
      seen.set(o, all);
      for (const k of Reflect.ownKeys(all)) {
        visit(all[k].value);
        visit(all[k].get);
        visit(all[k].set);
      }
      visit(Object.getPrototypeOf(o));
    };
    visit(globalThis);
    for (const o of [function* () {}, async () => {}, [][Symbol.iterator](), new Map().entries(), ''.matchAll(/a/g)]) visit(o);
    if (frozen) for (const o of seen.keys()) if (o !== globalThis) Object.freeze(o);
    return () => {
      for (const [o, before] of seen) {
        const now = Object.getOwnPropertyDescriptors(o);
        for (const k of new Set([...Reflect.ownKeys(before), ...Reflect.ownKeys(now)])) {
          const [a, b] = [before[k], now[k]];
          if (o === globalThis && k === 'gen') continue;
          if (!a || !b || !Object.is(a.value, b.value) || a.get !== b.get || a.set !== b.set) {
            return String(k);
          }
        }
      }
      return '';
    };
  }`)(realm === 'frozen');
  spoilt = all;
  vm.runInContext(fs.readFileSync(genPath, 'utf8'), context, { filename: genPath });
  gen = run('gen');
  R = Object.fromEntries(['ArrayBuffer', 'Error', 'Uint8Array', 'DataView', 'Array', 'Object'].map((n) => [n, run(n)]));
} else {
  gen = await import(pathToFileURL(genPath).href);
  gen = realm === 'commonjs' ? gen.default : gen;
}
const decls = JSON.parse(fs.readFileSync(schemaPath, 'utf8'));
for (const d of decls) {
  d.ns = d.path.reduce((ns, name) => ns[name], gen);
  if (d.ns === undefined) {
    throw new Error(`there is no ${d.path.join('.')}`);
  }
}

const input = fs.readFileSync(requestPath);
const inView = new DataView(input.buffer, input.byteOffset, input.byteLength);
let at = 0;
let out = Buffer.alloc(1 << 22);
let outView = new DataView(out.buffer, out.byteOffset, out.byteLength);
let end = 0;
const fd = fs.openSync(responsePath, 'w');
function flush() {
  fs.writeSync(fd, out, 0, end);
  end = 0;
}
function room(n) {
  if (end + n > out.length) {
    const bigger = Buffer.alloc(Math.max(out.length * 2, end + n));
    out.copy(bigger, 0, 0, end);
    out = bigger;
    outView = new DataView(out.buffer, out.byteOffset, out.byteLength);
  }
}

const decoder = new TextDecoder('utf-8', { ignoreBOM: true });
const encoder = new TextEncoder();

class Shape extends Error {}

function u32() {
  at += 4;
  return inView.getUint32(at - 4, true);
}

// Read a value for the writer.
function read(ty) {
  switch (ty) {
    case 'n':
      return null;
    case 'f':
      at += 8;
      return inView.getFloat64(at - 8, true);
    case 'U':
      at += 8;
      return inView.getBigUint64(at - 8, true);
    case 'S':
      at += 8;
      return inView.getBigInt64(at - 8, true);
    case 'B':
      return input[at++] !== 0;
    case 'b': {
      const n = u32();
      at += n;
      const a = new R.ArrayBuffer(n);
      new Uint8Array(a).set(input.subarray(at - n, at));
      return a;
    }
    case 's': {
      const n = u32();
      at += n;
      return decoder.decode(input.subarray(at - n, at));
    }
    default:
      break;
  }
  if (ty.a === 'n') {
    return new R.Array(u32()).fill(null);
  }
  if (ty.a !== undefined) {
    const n = u32();
    const r = new R.Array();
    for (let i = 0; i < n; i++) {
      r.push(read(ty.a));
    }
    return r;
  }
  const d = decls[ty.r];
  if (d.choice) {
    const pos = u32();
    const f = d.fields[pos];
    const r = new R.Object();
    r[f.name] = read(f.ty);
    if (input[at++] !== 0) {
      r.$fallback = read(ty);
    }
    return r;
  }
  const r = new R.Object();
  for (const f of d.fields) {
    if (input[at++] !== 0) {
      r[f.name] = read(f.ty);
    } else {
      r[f.name] = undefined;
    }
  }
  return r;
}

function putU32(n) {
  room(4);
  outView.setUint32(end, n, true);
  end += 4;
}
function putBytes(b) {
  putU32(b.length);
  room(b.length);
  out.set(b, end);
  end += b.length;
}
function putU8(n) {
  room(1);
  out[end++] = n;
}

// Write a value which a reader returned, checking its shape.
function write(ty, v) {
  room(8);
  switch (ty) {
    case 'n':
      if (v !== null) {
        throw new Shape(`${typeof v} where null is due`);
      }
      return;
    case 'f':
      if (typeof v !== 'number') {
        throw new Shape(`${typeof v} where a number is due`);
      }
      outView.setFloat64(end, v, true);
      end += 8;
      return;
    case 'U':
    case 'S':
      if (typeof v !== 'bigint' || (ty === 'U' ? BigInt.asUintN(64, v) : BigInt.asIntN(64, v)) !== v) {
        throw new Shape(`${typeof v} ${String(v)} where an integer of 64 bits is due`);
      }
      outView.setBigUint64(end, BigInt.asUintN(64, v), true);
      end += 8;
      return;
    case 'B':
      if (typeof v !== 'boolean') {
        throw new Shape(`${typeof v} where a Boolean is due`);
      }
      out[end++] = v ? 1 : 0;
      return;
    case 'b':
      if (!(v instanceof R.ArrayBuffer)) {
        throw new Shape(`${typeof v} where an array buffer is due`);
      }
      putBytes(new Uint8Array(v));
      return;
    case 's':
      if (typeof v !== 'string') {
        throw new Shape(`${typeof v} where a string is due`);
      }
      putBytes(encoder.encode(v));
      return;
    default:
      break;
  }
  if (ty.a !== undefined) {
    if (!Array.isArray(v)) {
      throw new Shape(`${typeof v} where an array is due`);
    }
    putU32(v.length);
    if (ty.a === 'n') {
      if (!v.every((x) => x === null)) {
        throw new Shape('an array of units does not consist of nulls');
      }
    } else {
      for (const x of v) {
        write(ty.a, x);
      }
    }
    return;
  }
  const d = decls[ty.r];
  if (typeof v !== 'object' || v === null) {
    throw new Shape(`${typeof v} where an object is due`);
  }
  if (d.choice) {
    const pos = d.fields.findIndex((f) => f.name === v.$field);
    if (pos < 0) {
      throw new Shape(`there is no field ${String(v.$field)}`);
    }
    const f = d.fields[pos];
    const keys = Object.keys(v).filter((k) => k !== '$field' && k !== '$fallback');
    if (keys.length !== 1 || keys[0] !== f.name) {
      throw new Shape(`the properties are ${Object.keys(v).join(', ')} for the field ${f.name}`);
    }
    putU32(pos);
    write(f.ty, v[f.name]);
    if (v.$fallback !== undefined) {
      putU8(1);
      write(ty, v.$fallback);
    } else {
      putU8(0);
    }
    return;
  }
  for (const f of d.fields) {
    const x = Object.hasOwn(v, f.name) ? v[f.name] : undefined;
    if (x === undefined) {
      putU8(0);
    } else {
      putU8(1);
      write(f.ty, x);
    }
  }
  for (const k of Object.keys(v)) {
    if (!d.names.has(k)) {
      throw new Shape(`there is an extra property ${k}`);
    }
  }
}
for (const d of decls) {
  d.names = new Set(d.fields.map((f) => f.name));
}

function text(e) {
  return encoder.encode(e instanceof R.Error || e instanceof Error ? `${e.name}: ${e.message}` : `not an error but ${String(e)}`);
}

// Write the outcome of deserializing: 0 a value, 1 an error, 2 an exception, 3 a value of a wrong
// shape.
function outcome(d, bytes) {
  const start = end;
  let v;
  try {
    v = decls[d].ns.deserialize(bytes);
  } catch (e) {
    putU8(2);
    putBytes(text(e));
    return;
  }
  if (v instanceof R.Error) {
    putU8(1);
    putBytes(text(v));
    return;
  }
  try {
    putU8(0);
    write({ r: d }, v);
  } catch (e) {
    end = start;
    putU8(3);
    putBytes(text(e));
  }
}

function exact(b) {
  const a = new R.ArrayBuffer(b.length);
  new Uint8Array(a).set(b);
  return a;
}
function around(b, before, after, fill) {
  const u = new Uint8Array(before + b.length + after);
  for (let i = 0; i < u.length; i++) {
    u[i] = fill[i % fill.length];
  }
  u.set(b, before);
  return u;
}
const KINDS = [Int8Array, Uint8Array, Uint8ClampedArray, Int16Array, Uint16Array, Int32Array, Uint32Array, Float32Array, Float64Array, BigInt64Array, BigUint64Array];

// A text which shows everything about a value, without touching it.
function snap(v) {
  if (v instanceof ArrayBuffer) {
    return `b${Buffer.from(v).toString('hex')}`;
  }
  if (Array.isArray(v)) {
    return `[${v.map(snap).join()}]`;
  }
  if (typeof v === 'object' && v !== null) {
    return `{${Object.keys(v).map((k) => `${k}:${snap(v[k])}`).join()}}`;
  }
  if (typeof v === 'number') {
    return Object.is(v, -0) ? 'n-0' : `n${v}`;
  }
  return `${typeof v} ${typeof v === 'string' ? JSON.stringify(v) : String(v)}`;
}
// Make sure that nothing which shares memory with this value remains as it is.
function spoil(v) {
  if (v instanceof ArrayBuffer) {
    new Uint8Array(v).fill(0x33);
  } else if (Array.isArray(v)) {
    v.forEach(spoil);
    v.length = 0;
    v.push('spoilt');
  } else if (typeof v === 'object' && v !== null && !(v instanceof Error)) {
    for (const k of Object.keys(v)) {
      spoil(v[k]);
      delete v[k];
    }
    v.spoilt = true;
  }
}
function freeze(v) {
  if (typeof v === 'object' && v !== null && !(v instanceof ArrayBuffer)) {
    Object.values(v).forEach(freeze);
    Object.freeze(v);
  }
}
// Changes of one part of a value, with how to undo them.
function changes(v, path = 'value', all = []) {
  if (typeof v !== 'object' || v === null || v instanceof ArrayBuffer || all.length >= 8) {
    return all;
  }
  if (Array.isArray(v) && v.length > 0 && v.length < 100) {
    all.push([`appending to ${path}`, () => v.push(v[0]), () => v.pop()]);
  }
  for (const k of Object.keys(v).slice(0, 40)) {
    const old = v[k];
    const set = (x) => all.push([`changing ${path}.${k}`, () => { v[k] = x; }, () => { v[k] = old; }]);
    if (typeof old === 'bigint') {
      set(old ^ 1n);
      set(old === 0n ? 1000n : 0n);
    } else if (typeof old === 'number') {
      set(old === 0 ? 1.5 : 0);
    } else if (typeof old === 'boolean') {
      set(!old);
    } else if (typeof old === 'string') {
      set(`${old}x`);
    } else if (old instanceof ArrayBuffer) {
      set(new ArrayBuffer(old.byteLength + 3));
      if (old.byteLength > 0) {
        const u = new Uint8Array(old);
        const byte = u[0];
        all.push([`changing the bytes of ${path}.${k}`, () => { u[0] = byte ^ 0x81; }, () => { u[0] = byte; }]);
      }
    } else if (typeof old === 'object' && old !== null) {
      changes(old, `${path}.${k}`, all);
    }
  }
  return all;
}
const hex = (b) => Buffer.from(b).toString('hex');

// How serializing a value depends on or affects anything but the result.
function serializeApart(ns, v) {
  const before = snap(v);
  const first = ns.serialize(v);
  const bytes = hex(first);
  if (snap(v) !== before) {
    return `the value is ${snap(v)} afterwards instead of ${before}`;
  }
  const size = ns.size(v);
  const second = ns.serialize(v);
  if (hex(second) !== bytes || ns.size(v) !== size) {
    return `the bytes are ${hex(second)} the second time instead of ${bytes}`;
  }
  new Uint8Array(second).fill(0xaa);
  if (hex(first) !== bytes) {
    return 'the results of two calls share memory';
  }
  if (snap(v) !== before) {
    return 'the result shares memory with the value';
  }
  // Every change of the value matters, whatever was computed for it before.
  for (const [what, change, undo] of changes(v)) {
    change();
    const fresh = structuredClone(v);
    const want = hex(ns.serialize(fresh));
    const got = hex(ns.serialize(v));
    if (got !== want || ns.size(v) !== want.length / 2) {
      return `after ${what} the bytes are ${got} (size ${ns.size(v)}) instead of ${want}`;
    }
    undo();
    // Once more with another call before.
    ns.size(v);
    change();
    const again = hex(ns.serialize(v));
    if (again !== want) {
      return `after ${what} the bytes are ${again} instead of ${want}`;
    }
    undo();
  }
  if (hex(ns.serialize(v)) !== bytes) {
    return 'the bytes differ after changes which were undone';
  }
  freeze(v);
  const third = ns.serialize(v);
  if (hex(third) !== bytes) {
    return `the bytes are ${hex(third)} the third time instead of ${bytes}`;
  }
  const all = [];
  const find = (v) => {
    if (v instanceof ArrayBuffer) {
      all.push(v);
    } else if (typeof v === 'object' && v !== null) {
      Object.values(v).forEach(find);
    }
  };
  find(v);
  all.forEach(spoil);
  if (hex(third) !== bytes) {
    return 'the result changes with the value';
  }
  return '';
}

// The same for deserializing.
function deserializeApart(ns, b) {
  const show = (v) => (v instanceof Error ? `E${v.name}: ${v.message}` : snap(v));
  const buffer = around(b, 5, 3, [0xa5]).buffer;
  const whole = hex(buffer);
  const window = () => new DataView(buffer, 5, b.length);
  const own = exact(b);
  const one = ns.deserialize(own);
  const shown = show(one);
  if (hex(own) !== hex(b)) {
    return `the message is ${hex(own)} afterwards`;
  }
  const two = ns.deserialize(own);
  if (show(two) !== shown) {
    return `the second result is ${show(two)} instead of ${shown}`;
  }
  ns.deserialize(window());
  if (hex(buffer) !== whole) {
    return `the buffer around the message is ${hex(buffer)} afterwards instead of ${whole}`;
  }
  spoil(one);
  if (show(two) !== shown) {
    return 'the results of two calls share memory';
  }
  if (hex(own) !== hex(b)) {
    return 'the result shares memory with the message';
  }
  new Uint8Array(own).fill(0x55);
  if (show(two) !== shown) {
    return 'the result changes with the message';
  }
  const three = ns.deserialize(exact(b));
  if (show(three) !== shown) {
    return `the third result is ${show(three)} instead of ${shown}`;
  }
  return '';
}

let session;
let stale = true;
let earlier;
function coverage() {
  let r;
  session.post('Profiler.takePreciseCoverage', (e, x) => {
    if (e) {
      throw e;
    }
    r = x;
  });
  return r.result;
}
// How much is done for a value or a message: 7 and 8 count the blocks of generated code which are
// executed, 9 and 10 measure the time.
async function cost(op, d) {
  let call;
  const { ns } = decls[d];
  if (op % 2 === 1) {
    const v = read({ r: d });
    call = () => {
      const size = ns.size(v);
      if (ns.serialize(v).byteLength !== size) {
        throw new Shape('the size is wrong');
      }
    };
  } else {
    const n = u32();
    const b = exact(input.subarray(at, at + n));
    at += n;
    call = () => {
      const v = ns.deserialize(b);
      if (v instanceof Error) {
        throw v;
      }
    };
  }
  let blocks = 0;
  let best = Infinity;
  let thrown;
  try {
    if (op < 9) {
      if (session === undefined) {
        const { Session } = await import('node:inspector');
        // (Optimized code loses some counts.)
        v8.setFlagsFromString('--no-opt');
        v8.setFlagsFromString('--no-maglev');
        session = new Session();
        session.connect();
        session.post('Profiler.enable');
        session.post('Profiler.startPreciseCoverage', { callCount: true, detailed: true });
      }
      if (stale) {
        coverage();
        stale = false;
      }
      call();
      for (const s of coverage()) {
        if (s.url.endsWith('/gen.mjs')) {
          for (const f of s.functions) {
            // (A range is only mentioned if its count differs from the one around it.)
            blocks += f.ranges.reduce((most, r) => Math.max(most, r.count), 0);
          }
        }
      }
    } else {
      if (session !== undefined) {
        session.disconnect();
        session = undefined;
        v8.setFlagsFromString('--opt');
        v8.setFlagsFromString('--maglev');
      }
      stale = true;
      // (The small one and the large one come in turns, and the latter is repeated if it seems slow.)
      const enough = earlier === undefined ? 0 : 96 * earlier + 15_000;
      for (let i = 0; i < 4 && best > enough; i++) {
        const start = process.cpuUsage();
        call();
        const took = process.cpuUsage(start);
        best = Math.min(best, took.user + took.system);
      }
      earlier = earlier === undefined ? best : undefined;
    }
  } catch (e) {
    thrown = e;
    earlier = undefined;
    stale = true;
  }
  if (thrown) {
    putU8(2);
    putBytes(text(thrown));
  } else {
    putU8(0);
    putBytes(encoder.encode(`${blocks} ${op < 9 ? 0 : best * 1000}`));
  }
}

let count = 0;
while (at < input.length) {
  const op = input[at++];
  const d = u32();
  count++;
  if (end > 1 << 21) {
    flush();
  }
  if (op >= 7) {
    await cost(op, d);
    continue;
  }
  if (op === 1 || op === 5) {
    // Serialize.
    const v = read({ r: d });
    let status = 0;
    let size;
    let bytes;
    try {
      size = decls[d].ns.size(v);
      const b = decls[d].ns.serialize(v);
      if (!(b instanceof R.ArrayBuffer) || typeof size !== 'number') {
        throw new Shape('the result is not an array buffer');
      }
      bytes = new Uint8Array(b);
    } catch (e) {
      status = 2;
      bytes = text(e);
    }
    putU8(status);
    if (status === 0) {
      putU32(size);
    }
    putBytes(bytes);
    if (op === 5) {
      let complaint = '';
      if (status === 0) {
        try {
          complaint = serializeApart(decls[d].ns, v);
        } catch (e) {
          complaint = `another call throws ${e.name}: ${e.message}`;
        }
      }
      putBytes(encoder.encode(complaint));
    }
    continue;
  }
  const n = u32();
  const b = input.subarray(at, at + n);
  at += n;
  const start = end;
  outcome(d, exact(b));
  if (op === 2) {
    continue;
  }
  if (op === 6) {
    let complaint;
    try {
      complaint = deserializeApart(decls[d].ns, b);
    } catch (e) {
      complaint = `another call throws ${e.name}: ${e.message}`;
    }
    putBytes(encoder.encode(complaint));
    continue;
  }
  // The same message in other surroundings has to have the same outcome.
  const finish = end;
  const first = out.toString('latin1', start, finish);
  let complaint = '';
  const tried = [];
  if (op === 3) {
    for (const fill of [[0], [0xff], [1, 3, 7, 0x0b]]) {
      tried.push([`a window with ${fill} around`, () => {
        const u = around(b, 3, 40, fill);
        return n % 2 === 0 ? new DataView(u.buffer, 3, n) : u.subarray(3, 3 + n);
      }]);
    }
  } else {
    tried.push(['a view', () => new DataView(exact(b))]);
    for (const K of KINDS) {
      const e = K.BYTES_PER_ELEMENT;
      if (n % e === 0) {
        tried.push([K.name, () => new K(around(b, 8, 24, [0xa5, 3, 1]).buffer, 8, n / e)]);
      }
    }
  }
  for (const [what, make] of tried) {
    const s = end;
    outcome(d, make());
    // What errors say may differ.
    const kind = out[start];
    if (kind !== out[s] || (kind === 0 && out.toString('latin1', s, end) !== first)) {
      complaint = `${what}: status ${out[s]} instead of ${kind} or another value`;
      end = s;
      break;
    }
    end = s;
  }
  putBytes(encoder.encode(complaint));
}
flush();
fs.closeSync(fd);
const changed = spoilt();
if (changed !== '') {
  throw new Error(`the generated code changed the global ${changed}`);
}
