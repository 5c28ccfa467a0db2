const A = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
export function base58encode(b: Uint8Array): string {
  let v = 0n;
  for (const x of b) v = (v << 8n) | BigInt(x);
  let s = '';
  while (v > 0n) {
    s = A[Number(v % 58n)] + s;
    v /= 58n;
  }
  for (const x of b) {
    if (x !== 0) break;
    s = '1' + s;
  }
  return s;
}
export function base58decode(s: string): Uint8Array {
  let v = 0n;
  for (const c of s) {
    const i = A.indexOf(c);
    if (i < 0) throw new Error(`base58: ${s}`);
    v = v * 58n + BigInt(i);
  }
  const out: number[] = [];
  while (v > 0n) {
    out.unshift(Number(v & 0xffn));
    v >>= 8n;
  }
  for (const c of s) {
    if (c !== '1') break;
    out.unshift(0);
  }
  return new Uint8Array(out);
}
