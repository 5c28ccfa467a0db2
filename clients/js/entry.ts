// Builds what the JS client builds for each call on stdin and reports it on stdout.
import * as client from '@client';
import { createNoopSigner } from '@metaplex-foundation/umi';
import { readFileSync } from 'node:fs';

const input = JSON.parse(readFileSync(0, 'utf8'));
const hex = (b: Uint8Array) => Buffer.from(b).toString('hex');
const C: any = client;

function context(installed: boolean, payer: string) {
  const list: any[] = [];
  const umi: any = {
    payer: createNoopSigner(payer),
    rpc: {},
    programs: {
      add: (p: any) => list.push(p),
      get: (n: string) => list.find((p) => p.name === n),
      getPublicKey: (n: string, fallback?: string) => {
        const p = list.find((x) => x.name === n);
        if (p) return p.publicKey;
        if (!fallback) throw new Error(`no program ${n}`);
        return fallback;
      },
    },
  };
  if (installed) C.Rewards().install(umi);
  return umi;
}

function value(type: string, v: any, alt: boolean) {
  if (type === 'u') return BigInt(v) <= 2n ** 53n - 1n && alt ? Number(v) : BigInt(v);
  if (type === 'k') return v;
  if (type === 'p') return C.LockupPeriod[v];
  if (v === null) return alt ? null : { __option: 'None' };
  return alt ? BigInt(v) : { __option: 'Some', value: BigInt(v) };
}

function plain(v: any): any {
  if (typeof v === 'bigint' || typeof v === 'number') return String(v);
  if (v && typeof v === 'object' && v.__option) return v.__option === 'Some' ? String(v.value) : null;
  return v;
}

function call(c: any) {
  try {
    const umi = context(c.installed, c.payer);
    const arg: any = {};
    for (const [n, k] of Object.entries<any>(c.accounts)) {
      // what the declared type lets the caller pass; unknown names are passed all the same
      const kinds: string[] = (input.types[c.kind] ?? {})[n] ?? [];
      if (kinds.includes('Signer')) arg[n] = createNoopSigner(k);
      else if (kinds.includes('Pda') && c.alt) arg[n] = [k, 255];
      else arg[n] = k;
    }
    for (const [n, t, v] of c.args) arg[n] = value(t, v, c.alt);
    const b = C[c.kind](umi, arg);
    const ixs = b.getInstructions();
    if (ixs.length !== 1) return { error: `${ixs.length} instructions` };
    const ix = ixs[0];
    const name = c.kind[0].toUpperCase() + c.kind.slice(1);
    const s = C[`get${name}InstructionDataSerializer`]();
    const [back, end] = s.deserialize(ix.data);
    const values: any = {};
    for (const [n] of c.args) values[n] = plain(back[n]);
    for (const [n, t] of c.args) if (t === 'p') values[n] = C.LockupPeriod[back[n]];
    return {
      program: ix.programId,
      keys: ix.keys,
      data: hex(ix.data),
      signers: b.getSigners().map((x: any) => x.publicKey),
      read: end === ix.data.length,
      values,
    };
  } catch (e: any) {
    return { error: String(e && e.message ? e.message : e) };
  }
}

const shown = (v: any) => {
  const out: any = {};
  for (const [k, x] of Object.entries<any>(v)) if (!['publicKey', 'header'].includes(k)) out[k] = Array.isArray(x) ? x : plain(x);
  return out;
};

// the fetchers: what they ask the node for, and what they make of its answer
async function fetched(type: string) {
  const raw: any[] = input.accounts
    .filter((a: any) => a.type === type)
    .map((a: any) => ({ publicKey: a.key, data: new Uint8Array(Buffer.from(a.data, 'hex')), exists: true, lamports: 1, owner: a.owner }));
  const at = new Map(raw.map((r) => [r.publicKey, r]));
  const missing = input.missing;
  const asked: any[] = [];
  const answer = (k: string) => at.get(k) ?? { publicKey: k, exists: false };
  const context: any = {
    rpc: {
      getAccount: async (k: any, o: any) => (asked.push([k, o]), answer(k)),
      getAccounts: async (ks: any[], o: any) => (asked.push([...ks, o]), ks.map(answer)),
    },
  };
  const keys = [...at.keys()];
  const o = { commitment: 'finalized' };
  const bad: string[] = [];
  const same = (what: string, got: any, want: any) => {
    if (JSON.stringify(got) !== JSON.stringify(want)) bad.push(`${what}: ${JSON.stringify(got)} instead of ${JSON.stringify(want)}`.slice(0, 500));
  };
  const show = (v: any) => (v === null || v === undefined ? v : { key: v.publicKey, ...shown(v) });
  const want = keys.map((k) => ({ key: k, ...shown(C[`deserialize${type}`](at.get(k))) }));
  // however it is split into requests: which accounts, and that each request carries the caller's options
  const asks = (what: string, ks: any[]) =>
    same(`${what} asks`, [asked.flatMap((x) => x.slice(0, -1)), asked.every((x) => JSON.stringify(x[x.length - 1]) === JSON.stringify(o))], [ks, true]);
  const run = async (what: string, fn: () => Promise<any>) => {
    asked.length = 0;
    try {
      return await fn();
    } catch (e: any) {
      return { thrown: true, error: what };
    }
  };
  for (const [i, k] of keys.entries()) {
    const given = i % 2 ? [k, 255] : k;
    same('fetch', show(await run('fetch', () => C[`fetch${type}`](context, given, o))), want[i]);
    asks('fetch', [k]);
    same('safeFetch', show(await run('safeFetch', () => C[`safeFetch${type}`](context, given, o))), want[i]);
    asks('safeFetch', [k]);
  }
  same('fetch of a missing account', await run('x', () => C[`fetch${type}`](context, missing)), { thrown: true, error: 'x' });
  same('safeFetch of a missing account', await run('x', () => C[`safeFetch${type}`](context, missing)), null);
  const all = await run('fetchAll', () => C[`fetchAll${type}`](context, keys, o));
  same('fetchAll', Array.isArray(all) ? all.map(show) : all, want);
  asks('fetchAll', keys);
  const mixed = [...keys.slice(0, 1), missing, ...keys.slice(1)];
  same('fetchAll with a missing account', await run('x', () => C[`fetchAll${type}`](context, mixed)), { thrown: true, error: 'x' });
  const safe = await run('safeFetchAll', () => C[`safeFetchAll${type}`](context, mixed, o));
  same('safeFetchAll', Array.isArray(safe) ? safe.map(show) : safe, want);
  asks('safeFetchAll', mixed);
  return { type, n: 4 * keys.length + 7, bad };
}

function account(a: any) {
  try {
    const raw = { publicKey: a.key, data: new Uint8Array(Buffer.from(a.data, 'hex')), exists: true, lamports: 1, owner: a.owner };
    const v = C[`deserialize${a.type}`](raw);
    const out: any = shown(v);
    // filters of program account queries
    const b = C[`get${a.type}GpaBuilder`](context(false, a.key));
    const at: any = {};
    for (const [k, [o, s]] of Object.entries<any>(b.fields)) {
      const [x] = s.deserialize(raw.data, o);
      at[k] = Array.isArray(x) ? x : plain(x);
    }
    return { fields: out, filters: at, listed: b.read ? shown(b.read(raw)) : out, key: v.publicKey, only: b.size ?? null, program: b.programId, size: C[`get${a.type}Size`]() };
  } catch (e: any) {
    return { error: String(e && e.message ? e.message : e) };
  }
}

function tables() {
  const p = C.createMplxRewardsProgram();
  const errors: any = {};
  for (let i = 0; i < 300; i++) {
    const e = p.getErrorFromCode(i);
    if (e) errors[i] = { name: e.name, message: e.message, code: e.code };
  }
  const byName: any = {};
  for (const n of input.errorNames) {
    const e = p.getErrorFromName(n);
    if (e) byName[n] = e.code;
  }
  const en = (e: any) => Object.fromEntries(Object.entries<any>(e).filter(([, v]) => typeof v === 'number'));
  const bytes: any = {};
  for (const [k, v] of Object.entries<any>(en(C.LockupPeriod))) bytes[k] = hex(C.getLockupPeriodSerializer().serialize(v));
  const abytes: any = {};
  for (const [k, v] of Object.entries<any>(en(C.AccountType))) abytes[k] = hex(C.getAccountTypeSerializer().serialize(v));
  return { program: p.publicKey, id: C.MPLX_REWARDS_PROGRAM_ID, id2: C.getMplxRewardsProgramId(context(false, p.publicKey)), errors, byName, lockup: bytes, accountType: abytes };
}

(async () => {
  const out = {
    calls: input.calls.map(call),
    accounts: input.accounts.map(account),
    tables: tables(),
    fetched: [await fetched('RewardPool'), await fetched('Mining')],
  };
  process.stdout.write(JSON.stringify(out));
})();
