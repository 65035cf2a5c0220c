// V8 (node) as an oracle. Reads JSON requests (one per line), writes JSON replies.
'use strict';
const v8 = require('v8');
const readline = require('readline');

function strHex(s) {
  let o = '';
  for (let i = 0; i < s.length; i++) o += s.charCodeAt(i).toString(16).padStart(4, '0');
  return o;
}
const f64 = new DataView(new ArrayBuffer(8));
function numHex(n) {
  if (Number.isNaN(n)) return 'nan';
  f64.setFloat64(0, n);
  return f64.getBigUint64(0).toString(16).padStart(16, '0');
}
function bytesHex(buf, off, len) {
  return Buffer.from(buf, off, len).toString('hex');
}
function isIndex(k) {
  const n = Number(k);
  return Number.isInteger(n) && n >= 0 && n <= 4294967294 && String(n) === k;
}
const ERRS = new Map([[Error.prototype, 'Error'], [EvalError.prototype, 'EvalError'], [RangeError.prototype, 'RangeError'], [ReferenceError.prototype, 'ReferenceError'], [SyntaxError.prototype, 'SyntaxError'], [TypeError.prototype, 'TypeError'], [URIError.prototype, 'URIError']]);

function isTracking(view) {
  // V8 itself knows: its encoding of a view ends with the flags
  if (!view.buffer.resizable) return false;
  const s = new v8.Serializer();
  s._setTreatArrayBufferViewsAsHostObjects(false);
  s.writeHeader();
  s.writeValue(view);
  const bytes = s.releaseBuffer();
  return (bytes[bytes.length - 1] & 1) === 1;
}

function describe(root) {
  const ids = new Map();
  const nodes = [];
  function x(v, inArrayHole) {
    switch (typeof v) {
      case 'undefined': return ['undef'];
      case 'boolean': return ['bool', v];
      case 'number': return ['num', numHex(v)];
      case 'bigint': return ['big', v.toString(16)];
      case 'string': return ['str', strHex(v)];
      case 'object': break;
      default: return ['?', typeof v];
    }
    if (v === null) return ['null'];
    if (ids.has(v)) return ['r', ids.get(v)];
    const id = nodes.length;
    ids.set(v, id);
    nodes.push(null);
    nodes[id] = node(v);
    return ['r', id];
  }
  function key(k) { return isIndex(k) ? ['ki', Number(k)] : ['ks', strHex(k)]; }
  function props(v, filter) {
    const out = [];
    for (const k of Object.keys(v)) { if (!filter || filter(k)) out.push([key(k), x(v[k])]); }
    return out;
  }
  function node(v) {
    const tag = Object.prototype.toString.call(v).slice(8, -1);
    if (Array.isArray(v)) {
      const els = [];
      for (const k of Object.keys(v)) if (isIndex(k)) els.push([Number(k), x(v[k])]);
      return ['Array', v.length, els, props(v, (k) => !isIndex(k))];
    }
    if (v instanceof Map) { const o = []; for (const [a, b] of v) o.push([x(a), x(b)]); return ['Map', o]; }
    if (v instanceof Set) { const o = []; for (const a of v) o.push(x(a)); return ['Set', o]; }
    if (v instanceof Date) { const t = v.getTime(); return ['Date', Number.isNaN(t) ? 'nan' : t]; }
    if (v instanceof RegExp) return ['RegExp', strHex(v.source), v.flags];
    if (tag === 'Error') {
      const name = ERRS.get(Object.getPrototypeOf(v)) || '?';
      const f = (n) => Object.prototype.hasOwnProperty.call(v, n) ? x(v[n]) : ['absent'];
      const m = f('message');
      return ['Error', name, m[0] === 'absent' ? ['str', ''] : m, f('stack'), f('cause')];
    }
    if (v instanceof Number || v instanceof String || v instanceof Boolean || v instanceof BigInt) return ['Boxed', x(v.valueOf())];
    if (v instanceof ArrayBuffer) return ['Buffer', bytesHex(v, 0, v.byteLength), v.resizable, v.resizable ? v.maxByteLength : null];
    if (v instanceof SharedArrayBuffer) return ['SharedArrayBuffer', bytesHex(v, 0, v.byteLength)];
    if (ArrayBuffer.isView(v)) {
      let name = v instanceof DataView ? 'DataView' : Object.getPrototypeOf(Object.getPrototypeOf(v)) === Object.getPrototypeOf(Uint8Array.prototype) ? v[Symbol.toStringTag] : v[Symbol.toStringTag];
      let off = 0, len = 0, tracking = false;
      try { tracking = isTracking(v); off = v.byteOffset; len = v.byteLength; } catch (e) { off = 'oob'; }
      return ['View', name, x(v.buffer), off, tracking ? null : len, len];
    }
    if (tag === 'Object') return ['Object', props(v)];
    return ['?', tag];
  }
  const r = x(root);
  return { root: r, nodes };
}

class PlainSerializer extends v8.Serializer {}
// Node's host-object encoding, but reading nested in other values
function ser(value, mode) {
  if (mode === 'plain') { // V8's own encoding of views
    const s = new v8.Serializer();
    s._setTreatArrayBufferViewsAsHostObjects(false);
    s.writeHeader();
    s.writeValue(value);
    return s.releaseBuffer().toString('hex');
  }
  return v8.serialize(value).toString('hex');
}

globalThis.v8 = v8;
const ctxEval = eval;
function handle(q) {
  try {
    switch (q.op) {
      case 'deser': {
        const buf = Buffer.from(q.hex, 'hex');
        return { ok: describe(v8.deserialize(buf)) };
      }
      case 'deserpos': { // how many bytes V8 consumes for the value
        const d = new v8.DefaultDeserializer(Buffer.from(q.hex, 'hex'));
        d.readHeader();
        const v = d.readValue();
        let rest = 0;
        try { for (;;) { d.readRawBytes(1); rest++; } } catch (e) { /* end */ }
        return { ok: describe(v), rest };
      }
      case 'ser': {
        const v = ctxEval(q.src);
        const d = q.nodesc ? null : describe(v);
        return { ok: d, hex: ser(v, q.mode) };
      }
      case 'eval': return { ok: ctxEval(q.src) };
      case 'version': return { ok: process.versions };
    }
    return { err: 'bad op' };
  } catch (e) {
    return { err: String(e && e.message || e) };
  }
}
const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
rl.on('line', (line) => {
  const req = JSON.parse(line);
  process.stdout.write(JSON.stringify(req.map(handle)) + '\n');
});
