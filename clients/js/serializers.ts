// Stand-in for @metaplex-foundation/umi/serializers (the package is not installed here): the documented encodings.
import { base58decode, base58encode } from './base58';

export interface Serializer<T, U extends T = T> {
  description: string;
  fixedSize: number | null;
  maxSize: number | null;
  serialize: (value: T) => Uint8Array;
  deserialize: (buffer: Uint8Array, offset?: number) => [U, number];
}
export enum Endian {
  Little = 'le',
  Big = 'be',
}

function need(b: Uint8Array, o: number, n: number, what: string) {
  if (b.length - o < n) throw new Error(`${what}: expected ${n} bytes, got ${b.length - o}`);
}
export const mergeBytes = (list: Uint8Array[]) => concat(list);
export function padBytes(b: Uint8Array, n: number) {
  if (b.length >= n) return b;
  const out = new Uint8Array(n);
  out.set(b);
  return out;
}
export const fixBytes = (b: Uint8Array, n: number) => padBytes(b.slice(0, n), n);
function concat(list: Uint8Array[]): Uint8Array {
  const out = new Uint8Array(list.reduce((n, x) => n + x.length, 0));
  let o = 0;
  for (const x of list) {
    out.set(x, o);
    o += x.length;
  }
  return out;
}

function int(name: string, size: number, signed: boolean, big: boolean) {
  return (options: { endian?: Endian; description?: string } = {}): Serializer<any, any> => ({
    description: options.description ?? name,
    fixedSize: size,
    maxSize: size,
    serialize(value: number | bigint) {
      let v = BigInt(value);
      const bits = BigInt(size * 8);
      const lo = signed ? -(1n << (bits - 1n)) : 0n;
      const hi = signed ? (1n << (bits - 1n)) - 1n : (1n << bits) - 1n;
      if (v < lo || v > hi) throw new Error(`${name}: ${v} out of range`);
      if (v < 0n) v += 1n << bits;
      const out = new Uint8Array(size);
      for (let i = 0; i < size; i++) {
        out[i] = Number(v & 0xffn);
        v >>= 8n;
      }
      return options.endian === Endian.Big ? out.reverse() : out;
    },
    deserialize(b: Uint8Array, o = 0) {
      need(b, o, size, name);
      let v = 0n;
      for (let i = 0; i < size; i++) {
        const at = options.endian === Endian.Big ? o + i : o + size - 1 - i;
        v = (v << 8n) | BigInt(b[at]);
      }
      if (signed && v >> BigInt(size * 8 - 1)) v -= 1n << BigInt(size * 8);
      return [big ? v : Number(v), o + size];
    },
  });
}
export const u8 = int('u8', 1, false, false);
export const u16 = int('u16', 2, false, false);
export const u32 = int('u32', 4, false, false);
export const u64 = int('u64', 8, false, true);
export const u128 = int('u128', 16, false, true);
export const i8 = int('i8', 1, true, false);
export const i16 = int('i16', 2, true, false);
export const i32 = int('i32', 4, true, false);
export const i64 = int('i64', 8, true, true);
export const i128 = int('i128', 16, true, true);

export function bool(options: any = {}): Serializer<boolean> {
  const s = options.size ?? u8();
  return {
    description: 'bool',
    fixedSize: s.fixedSize,
    maxSize: s.maxSize,
    serialize: (v) => s.serialize(v ? 1 : 0),
    deserialize: (b, o = 0) => {
      const [v, n] = s.deserialize(b, o);
      return [Number(v) === 1, n];
    },
  };
}

export function bytes(options: any = {}): Serializer<Uint8Array> {
  const size = options.size ?? 'variable';
  return {
    description: 'bytes',
    fixedSize: typeof size === 'number' ? size : null,
    maxSize: typeof size === 'number' ? size : null,
    serialize: (v) => {
      if (typeof size === 'number') {
        const out = new Uint8Array(size);
        out.set(v.slice(0, size));
        return out;
      }
      return size === 'variable' ? v : concat([size.serialize(v.length), v]);
    },
    deserialize: (b, o = 0) => {
      if (size === 'variable') return [b.slice(o), b.length];
      let n = size;
      if (typeof size !== 'number') [n, o] = size.deserialize(b, o);
      need(b, o, Number(n), 'bytes');
      return [b.slice(o, o + Number(n)), o + Number(n)];
    },
  };
}

export function publicKey(_options: any = {}): Serializer<any, any> {
  return {
    description: 'publicKey',
    fixedSize: 32,
    maxSize: 32,
    serialize(value: any) {
      const s = Array.isArray(value) ? value[0] : typeof value === 'object' && value.publicKey ? value.publicKey : value;
      const b = base58decode(s);
      if (b.length !== 32) throw new Error(`publicKey: ${s}`);
      return b;
    },
    deserialize(b: Uint8Array, o = 0) {
      need(b, o, 32, 'publicKey');
      return [base58encode(b.slice(o, o + 32)), o + 32];
    },
  };
}

export function struct<T>(fields: [string, Serializer<any, any>][], options: any = {}): Serializer<any, any> {
  return {
    description: options.description ?? 'struct',
    fixedSize: fields.every((f) => f[1].fixedSize !== null) ? fields.reduce((n, f) => n + f[1].fixedSize!, 0) : null,
    maxSize: null,
    serialize: (v: any) => concat(fields.map(([k, s]) => s.serialize(v[k]))),
    deserialize(b: Uint8Array, o = 0) {
      const out: any = {};
      for (const [k, s] of fields) {
        const [v, n] = s.deserialize(b, o);
        out[k] = v;
        o = n;
      }
      return [out, o];
    },
  };
}

export function array(item: Serializer<any, any>, options: any = {}): Serializer<any, any> {
  const size = options.size ?? u32();
  return {
    description: 'array',
    fixedSize: typeof size === 'number' && item.fixedSize !== null ? size * item.fixedSize : null,
    maxSize: null,
    serialize(v: any[]) {
      if (typeof size === 'number' && v.length !== size) throw new Error(`array: expected ${size} items, got ${v.length}`);
      const body = v.map((x) => item.serialize(x));
      return concat(typeof size === 'object' ? [size.serialize(v.length), ...body] : body);
    },
    deserialize(b: Uint8Array, o = 0) {
      const out: any[] = [];
      if (size === 'remainder') {
        while (o < b.length) {
          const [v, n] = item.deserialize(b, o);
          out.push(v);
          o = n;
        }
        return [out, o];
      }
      let n = size;
      if (typeof size === 'object') [n, o] = size.deserialize(b, o);
      for (let i = 0; i < Number(n); i++) {
        const [v, k] = item.deserialize(b, o);
        out.push(v);
        o = k;
      }
      return [out, o];
    },
  };
}

export type StructToSerializerTuple<T = any, U = any> = [string, Serializer<any, any>][];
export type Option<T> = { __option: 'Some'; value: T } | { __option: 'None' };
export function option(item: Serializer<any, any>, options: any = {}): Serializer<any, any> {
  const prefix = options.prefix ?? u8();
  const fixed = options.fixed ?? false;
  return {
    description: 'option',
    fixedSize: null,
    maxSize: null,
    serialize(value: any) {
      const some = value !== null && value !== undefined && !(typeof value === 'object' && value.__option === 'None');
      const v = some && typeof value === 'object' && value.__option === 'Some' ? value.value : value;
      if (some) return concat([prefix.serialize(1), item.serialize(v)]);
      return concat([prefix.serialize(0), new Uint8Array(fixed ? item.fixedSize! : 0)]);
    },
    deserialize(b: Uint8Array, o = 0) {
      const [p, n] = prefix.deserialize(b, o);
      if (Number(p) === 0) return [{ __option: 'None' }, fixed ? n + item.fixedSize! : n];
      const [v, k] = item.deserialize(b, n);
      return [{ __option: 'Some', value: v }, k];
    },
  };
}

export function nullable(item: Serializer<any, any>, options: any = {}): Serializer<any, any> {
  const s = option(item, options);
  return {
    ...s,
    deserialize(b, o = 0) {
      const [v, n] = s.deserialize(b, o);
      return [v.__option === 'Some' ? v.value : null, n];
    },
  };
}

export function scalarEnum<T>(constructor: any, options: any = {}): Serializer<any, any> {
  const size = options.size ?? u8();
  const all = Object.values(constructor);
  const numeric = all.some((v) => typeof v === 'number');
  const values = numeric ? all.filter((v) => typeof v === 'number') : all;
  const max = values.length - 1;
  return {
    description: options.description ?? 'enum',
    fixedSize: size.fixedSize,
    maxSize: size.maxSize,
    serialize(v: any) {
      let i: number;
      if (numeric) i = typeof v === 'number' ? v : constructor[v];
      else i = typeof v === 'number' ? v : values.indexOf(v) >= 0 ? values.indexOf(v) : Object.keys(constructor).indexOf(v);
      if (i === undefined || i < 0 || (!numeric && i > max) || (numeric && !values.includes(i))) throw new Error(`enum: invalid variant ${v}`);
      return size.serialize(i);
    },
    deserialize(b: Uint8Array, o = 0) {
      const [v, n] = size.deserialize(b, o);
      const i = Number(v);
      if (numeric ? !values.includes(i) : i > max) throw new Error(`enum: invalid discriminator ${i}`);
      return [numeric ? i : values[i], n];
    },
  };
}

export function tuple(items: Serializer<any, any>[]): Serializer<any, any> {
  const s = struct(items.map((x, i) => [String(i), x]));
  return {
    ...s,
    deserialize(b, o = 0) {
      const [v, n] = s.deserialize(b, o);
      return [items.map((_, i) => v[String(i)]), n];
    },
  };
}

export function unit(): Serializer<any, any> {
  return { description: 'unit', fixedSize: 0, maxSize: 0, serialize: () => new Uint8Array(0), deserialize: (_b, o = 0) => [undefined, o] };
}

export function string(options: any = {}): Serializer<any, any> {
  const s = bytes({ size: options.size ?? u32() });
  return {
    ...s,
    serialize: (v: any) => s.serialize(new TextEncoder().encode(v)),
    deserialize(b, o = 0) {
      const [v, n] = s.deserialize(b, o);
      return [new TextDecoder().decode(v), n];
    },
  };
}

export function mapSerializer<A, B, C>(s: Serializer<any, any>, unmap: (v: any) => any, map?: (v: any, b: Uint8Array, o: number) => any): Serializer<any, any> {
  return {
    description: s.description,
    fixedSize: s.fixedSize,
    maxSize: s.maxSize,
    serialize: (v: any) => s.serialize(unmap(v)),
    deserialize(b: Uint8Array, o = 0) {
      const [v, n] = s.deserialize(b, o);
      return map ? [map(v, b, o), n] : [v, n];
    },
  };
}

export const base58: Serializer<any, any> = {
  description: 'base58',
  fixedSize: null,
  maxSize: null,
  serialize: (v: string) => base58decode(v),
  deserialize: (b: Uint8Array, o = 0) => [base58encode(b.slice(o)), b.length],
};
export const utf8: Serializer<any, any> = {
  description: 'utf8',
  fixedSize: null,
  maxSize: null,
  serialize: (v: string) => new TextEncoder().encode(v),
  deserialize: (b: Uint8Array, o = 0) => [new TextDecoder().decode(b.slice(o)), b.length],
};

export function fixSerializer(s: Serializer<any, any>, size: number, description?: string): Serializer<any, any> {
  return {
    description: description ?? s.description,
    fixedSize: size,
    maxSize: size,
    serialize: (v: any) => fixBytes(s.serialize(v), size),
    deserialize(b: Uint8Array, o = 0) {
      need(b, o, size, s.description);
      let part = b.slice(o, o + size);
      if (s.fixedSize !== null) part = fixBytes(part, s.fixedSize);
      return [s.deserialize(part, 0)[0], o + size];
    },
  };
}

export function reverseSerializer(s: Serializer<any, any>): Serializer<any, any> {
  return {
    ...s,
    serialize: (v: any) => s.serialize(v).slice().reverse(),
    deserialize(b: Uint8Array, o = 0) {
      const n = s.fixedSize!;
      const c = b.slice();
      c.set(b.slice(o, o + n).reverse(), o);
      return s.deserialize(c, o);
    },
  };
}

export function map(k: Serializer<any, any>, v: Serializer<any, any>, options: any = {}): Serializer<any, any> {
  const s = array(tuple([k, v]), options);
  return {
    ...s,
    serialize: (m: any) => s.serialize(Array.from(m.entries())),
    deserialize(b: Uint8Array, o = 0) {
      const [list, n] = s.deserialize(b, o);
      return [new Map(list as any), n];
    },
  };
}
