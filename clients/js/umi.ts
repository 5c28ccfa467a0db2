// Stand-in for @metaplex-foundation/umi (not installed here): what the generated client calls, as documented.
import { base58decode, base58encode } from './base58';

export type PublicKey<T extends string = string> = string & { readonly __publicKey?: unique symbol };
export type Pda<T extends string = string, B extends number = number> = [PublicKey<T>, B] & { readonly __pda?: unique symbol };
export interface Signer {
  publicKey: PublicKey;
  signMessage: any;
  signTransaction: any;
  signAllTransactions: any;
}
export type PublicKeyInput = string | Uint8Array | Pda | { publicKey: PublicKey };
export type PublicKeyBytes = Uint8Array;
export type Instruction = { keys: AccountMeta[]; programId: PublicKey; data: Uint8Array };
export type WrappedInstruction = { instruction: Instruction; signers: Signer[]; bytesCreatedOnChain: number };
export type Nullable<T> = T | null;
export type Umi = any;
export type SolAmount = any;
export type DateTime = any;
export type Amount = any;
export type Context = any;
export type Program = any;
export type ClusterFilter = any;
export type RpcAccount = any;
export type RpcGetAccountOptions = any;
export type RpcGetAccountsOptions = any;
export type Account<T> = T & { publicKey: PublicKey; header: any };
export type AccountMeta = { pubkey: PublicKey; isSigner: boolean; isWritable: boolean };
export type Option<T> = any;
export type OptionOrNullable<T> = any;
export type UmiPlugin = any;

export const isPublicKey = (v: any): boolean => {
  try {
    return typeof v === 'string' && base58decode(v).length === 32;
  } catch {
    return false;
  }
};
export const isPda = (v: any): boolean => Array.isArray(v) && v.length === 2 && typeof v[1] === 'number' && isPublicKey(v[0]);
export const isSigner = (v: any): boolean => typeof v === 'object' && v !== null && 'publicKey' in v && 'signMessage' in v;

export function publicKey(input: any, includeBump = true): any {
  let k: any;
  if (typeof input === 'string') k = input;
  else if (input instanceof Uint8Array) k = base58encode(input);
  else if (Array.isArray(input) && isPda(input)) {
    if (includeBump) return input;
    k = input[0];
  } else if (typeof input === 'object' && input !== null) k = typeof input.publicKey === 'string' ? input.publicKey : base58encode(input.publicKey.toBytes());
  if (!isPublicKey(k)) throw new Error(`The provided public key is invalid: ${k}`);
  return k;
}
export const publicKeyBytes = (k: any) => base58decode(k);
export const samePublicKey = (a: any, b: any) => publicKey(a, false) === publicKey(b, false);
export const defaultPublicKey = () => publicKey('11111111111111111111111111111111');
export const uniquePublicKeys = (list: any[]) => [...new Set(list)];
export const some = (value: any): any => ({ __option: 'Some', value });
export const none = (): any => ({ __option: 'None' });
export const isOption = (o: any): boolean => !!o && typeof o === 'object' && (o.__option === 'None' || (o.__option === 'Some' && 'value' in o));
export const isSome = (o: any): boolean => o.__option === 'Some';
export const isNone = (o: any): boolean => o.__option === 'None';
export const wrapNullable = (v: any): any => (v === null || v === undefined ? none() : some(v));
export const nullable = wrapNullable;
export const unwrapOption = (o: any, fallback: any = () => null): any => (isSome(o) ? o.value : fallback());
export const unwrapSome = (o: any): any => (isSome(o) ? o.value : null);
export const createNoopSigner = (k: any): any => ({ publicKey: k, signMessage() {}, signTransaction() {}, signAllTransactions() {} });
export const uniqueSigners = (list: any[]) => list.filter((s, i) => list.findIndex((x) => x.publicKey === s.publicKey) === i);
export { mergeBytes, padBytes, fixBytes, base58, utf8 } from './serializers';

export class TransactionBuilder {
  constructor(
    readonly items: any[] = [],
    readonly options: any = {}
  ) {}
  empty() {
    return new TransactionBuilder([], this.options);
  }
  private static all(x: any): any[] {
    return (Array.isArray(x) ? x : [x]).flatMap((y: any) => ('items' in y ? y.items : [y]));
  }
  setItems(x: any) {
    return new TransactionBuilder(TransactionBuilder.all(x), this.options);
  }
  add(x: any) {
    return new TransactionBuilder([...this.items, ...TransactionBuilder.all(x)], this.options);
  }
  append(...x: any[]) {
    return x.reduce((b: any, y: any) => b.add(y), this);
  }
  prepend(x: any) {
    return new TransactionBuilder([...TransactionBuilder.all(x), ...this.items], this.options);
  }
  mapInstructions(fn: any) {
    return new TransactionBuilder(this.items.map(fn), this.options);
  }
  addRemainingAccounts(metas: any, index?: number) {
    const list = Array.isArray(metas) ? metas : [metas];
    const keys = list.map((m: any) =>
      'pubkey' in m ? m : 'signer' in m ? { pubkey: m.signer.publicKey, isSigner: true, isWritable: m.isWritable } : { pubkey: publicKey(m.publicKey, false), isSigner: false, isWritable: m.isWritable }
    );
    const signers = list.filter((m: any) => 'signer' in m).map((m: any) => m.signer);
    const at = index ?? this.items.length - 1;
    return new TransactionBuilder(
      this.items.map((x: any, i: number) =>
        i === at ? { ...x, instruction: { ...x.instruction, keys: [...x.instruction.keys, ...keys] }, signers: [...x.signers, ...signers] } : x
      ),
      this.options
    );
  }
  getInstructions() {
    return this.items.map((i) => i.instruction);
  }
  getSigners(_context?: any): any[] {
    return uniqueSigners(this.items.flatMap((i) => i.signers));
  }
  getBytesCreatedOnChain() {
    return this.items.reduce((n, i) => n + i.bytesCreatedOnChain, 0);
  }
}
export function transactionBuilder(items: any[] = []): TransactionBuilder {
  return new TransactionBuilder().setItems(items);
}

export class UmiError extends Error {}
export class ProgramError extends Error {
  readonly name: string = 'ProgramError';
  constructor(
    message: string,
    readonly program: any,
    readonly cause?: Error
  ) {
    super(message);
  }
}
export class AccountNotFoundError extends Error {}
export class UnexpectedAccountError extends Error {}

export function assertAccountExists(a: any, name?: string, solution?: string) {
  if (!a.exists) throw new AccountNotFoundError(`The account ${name} does not exist ${solution ?? ''}`);
}
export function deserializeAccount(raw: any, serializer: any) {
  const { data, publicKey: key, ...rest } = raw;
  let parsed: any;
  try {
    [parsed] = serializer.deserialize(data);
  } catch (e: any) {
    throw new UnexpectedAccountError(`${key}: ${e.message}`);
  }
  return { publicKey: key, header: rest, ...parsed };
}

export function gpaBuilder(context: any, programId: any) {
  const b: any = { context, programId, fields: {}, size: undefined };
  b.registerFields = (f: any) => {
    b.fields = f;
    return b;
  };
  b.registerFieldsFromStruct = (f: [string, any][]) => {
    b.fields = {};
    let o: number | null = 0;
    for (const [k, s] of f) {
      b.fields[k] = [o, s];
      o = o === null || s.fixedSize === null ? null : o + s.fixedSize;
    }
    return b;
  };
  b.deserializeUsing = (fn: any) => {
    b.read = fn;
    return b;
  };
  b.whereSize = (n: number) => {
    b.size = n;
    return b;
  };
  return b;
}
export class GpaBuilder {}
