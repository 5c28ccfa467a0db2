//! P22: the JS client and the IDL against the wire format, on the real program
use crate::call::*;
use mon::checks::{drive, job_rng, pack, start_time, Out, Plan};
use mon::gen::{history, Cfg};
use mon::hostile::{fnv, Stage};
use mon::rng::Rng;
use mon::svm::{Bank, Ix, Meta};
use mon::wire;
use mon::world::{viol, Stop, World, R};
use mplx_rewards::utils::LockupPeriod as PLock;
use borsh::BorshDeserialize;
use num_traits::FromPrimitive;
use serde_json::{json, Map, Value};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::time::Duration;

const ID: &str = "P22";
const PERIODS: [&str; 5] = ["None", "Flex", "ThreeMonths", "SixMonths", "OneYear"];

fn bad<T>(m: String) -> R<T> {
    viol(&[ID], m).map(|_: ()| unreachable!())
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

fn arg_json(a: &Arg) -> Value {
    match a {
        Arg::U64(x) => json!(x.to_string()),
        Arg::Key(k) => json!(k.to_string()),
        Arg::Period(p) => json!(PERIODS[*p as usize]),
        Arg::Opt(None) => Value::Null,
        Arg::Opt(Some(x)) => json!(x.to_string()),
    }
}

/// error names and codes, as the program reports them
fn errors() -> Vec<(u32, String)> {
    (0..300u32).filter_map(|i| mplx_rewards::error::MplxRewardsError::from_u32(i).map(|x| (i, format!("{x:?}")))).collect()
}

// ---------------------------------------------------------------------------------- the IDL

struct Idl {
    v: Value,
}

fn camel(n: &str) -> String {
    let mut c = n.chars();
    c.next().map(|x| x.to_lowercase().collect::<String>() + c.as_str()).unwrap_or_default()
}

impl Idl {
    fn load() -> R<Idl> {
        match std::fs::read_to_string("/repo/idls/mplx_rewards.json").ok().and_then(|s| serde_json::from_str(&s).ok()) {
            Some(v) => Ok(Idl { v }),
            None => bad("the IDL is not readable".into()),
        }
    }
    fn list(&self, k: &str) -> Vec<Value> {
        self.v[k].as_array().cloned().unwrap_or_default()
    }
    fn variants(&self, n: &str) -> Vec<String> {
        self.list("types").iter().filter(|t| t["name"] == n).flat_map(|t| t["type"]["variants"].as_array().cloned().unwrap_or_default()).map(|x| x["name"].as_str().unwrap_or("").to_string()).collect()
    }
    fn put(&self, t: &Value, a: &Arg, out: &mut Vec<u8>) -> Result<(), String> {
        match (t, a) {
            (Value::String(s), Arg::U64(x)) => match s.as_str() {
                "u64" => out.extend(x.to_le_bytes()),
                "u32" => out.extend((*x as u32).to_le_bytes()),
                "u128" => out.extend((*x as u128).to_le_bytes()),
                _ => return Err(format!("type {t} for a number")),
            },
            (Value::String(s), Arg::Key(k)) if s == "publicKey" => out.extend(k.to_bytes()),
            (Value::Object(o), Arg::Period(p)) if o.contains_key("defined") => {
                let n = PERIODS[*p as usize];
                match self.variants(o["defined"].as_str().unwrap_or("")).iter().position(|x| x == n) {
                    Some(i) => out.push(i as u8),
                    None => return Err(format!("no variant {n} in {t}")),
                }
            }
            (Value::Object(o), Arg::Opt(x)) if o.contains_key("option") => match x {
                None => out.push(0),
                Some(x) => {
                    out.push(1);
                    self.put(&o["option"], &Arg::U64(*x), out)?
                }
            },
            _ => return Err(format!("type {t} cannot carry {a:?}")),
        }
        Ok(())
    }
    /// the instruction the IDL describes for a call; accounts and arguments are found by name
    fn build(&self, c: &Call) -> Result<Ix, String> {
        let list = self.list("instructions");
        let d = list.iter().find(|i| camel(i["name"].as_str().unwrap_or("")) == KINDS[c.kind]).ok_or("not in the IDL")?;
        let mut metas = vec![];
        for (i, a) in d["accounts"].as_array().ok_or("no accounts")?.iter().enumerate() {
            let n = a["name"].as_str().unwrap_or("");
            let key = match ACCOUNTS[c.kind].iter().position(|x| *x == n) {
                Some(p) => c.accts[p],
                None => *c.accts.get(i).ok_or(format!("unknown account {n}"))?,
            };
            metas.push(Meta { key, signer: a["isSigner"] == true, writable: a["isMut"] == true });
        }
        let mut data = vec![];
        match (d["discriminant"]["type"].as_str(), d["discriminant"]["value"].as_u64()) {
            (Some("u8"), Some(x)) => data.push(x as u8),
            _ => return Err("no u8 discriminant".into()),
        }
        let args = d["args"].as_array().ok_or("no arguments")?;
        if args.len() != c.args.len() {
            return Err(format!("{} arguments", args.len()));
        }
        for (i, a) in args.iter().enumerate() {
            let n = a["name"].as_str().unwrap_or("");
            let v = ARGS[c.kind].iter().position(|x| x.0 == n).unwrap_or(i);
            self.put(&a["type"], &c.args[v], &mut data).map_err(|e| format!("argument {n}: {e}"))?;
        }
        Ok(Ix { metas, data })
    }
    /// the fields the IDL reads from an account
    fn read(&self, name: &str, d: &[u8]) -> Result<(BTreeMap<String, Value>, usize), String> {
        let list = self.list("accounts");
        let t = list.iter().find(|x| x["name"] == name).ok_or("not in the IDL")?;
        let mut o = 0;
        let mut out = BTreeMap::new();
        for f in t["type"]["fields"].as_array().ok_or("no fields")? {
            let n = f["name"].as_str().unwrap_or("").to_string();
            let v = idl_value(&f["type"], d, &mut o).ok_or(format!("field {n} cannot be read"))?;
            out.insert(n, v);
        }
        Ok((out, o))
    }
    fn tables(&self) -> R<u64> {
        let mut n = 0;
        let addr = self.v["metadata"]["address"].as_str().unwrap_or("");
        if addr != mplx_rewards::ID.to_string() {
            return bad(format!("the IDL's program id is {addr}"));
        }
        let mut want: Vec<(u64, String)> = errors().into_iter().map(|(i, n)| (i as u64, n)).collect();
        let mut got: Vec<(u64, String)> = self.list("errors").iter().map(|e| (e["code"].as_u64().unwrap_or(u64::MAX), e["name"].as_str().unwrap_or("").to_string())).collect();
        want.sort();
        got.sort();
        if want != got {
            return bad(format!("the IDL's errors {got:?}, the program's {want:?}"));
        }
        n += want.len() as u64;
        for (t, want) in [("LockupPeriod", program_periods()), ("AccountType", program_types())] {
            let got: Vec<(String, u8)> = self.variants(t).into_iter().enumerate().map(|(i, x)| (x, i as u8)).collect();
            if got != want {
                return bad(format!("the IDL's {t} is {got:?}, the program's {want:?}"));
            }
            n += want.len() as u64;
        }
        let names: HashSet<String> = self.list("instructions").iter().map(|i| camel(i["name"].as_str().unwrap_or(""))).collect();
        if let Some(k) = KINDS.iter().find(|k| !names.contains(**k)) {
            return bad(format!("instruction {k} is not in the IDL"));
        }
        Ok(n + 12)
    }
}

fn idl_value(t: &Value, d: &[u8], o: &mut usize) -> Option<Value> {
    let mut take = |n: usize| {
        let r = d.get(*o..*o + n)?;
        *o += n;
        Some(r)
    };
    match t {
        Value::String(s) => Some(match s.as_str() {
            "publicKey" => json!(Pubkey::try_from(take(32)?).ok()?.to_string()),
            "u128" => json!(u128::from_le_bytes(take(16)?.try_into().ok()?).to_string()),
            "u64" => json!(u64::from_le_bytes(take(8)?.try_into().ok()?).to_string()),
            "u32" => json!(u32::from_le_bytes(take(4)?.try_into().ok()?).to_string()),
            "u8" => json!(take(1)?[0].to_string()),
            _ => return None,
        }),
        Value::Object(m) => {
            let a = m.get("array")?.as_array()?;
            let n = a.get(1)?.as_u64()? as usize;
            let mut v = vec![];
            for _ in 0..n {
                let x = idl_value(&a[0], d, o)?;
                v.push(json!(x.as_str()?.parse::<u64>().ok()?));
            }
            Some(Value::Array(v))
        }
        _ => None,
    }
}

fn program_periods() -> Vec<(String, u8)> {
    [PLock::None, PLock::Flex, PLock::ThreeMonths, PLock::SixMonths, PLock::OneYear].iter().map(|p| (format!("{p:?}"), borsh::to_vec(p).unwrap()[0])).collect()
}
fn program_types() -> Vec<(String, u8)> {
    (0..=255u8).filter_map(|i| mplx_rewards::state::AccountType::try_from_slice(&[i]).ok().map(|x| (format!("{x:?}"), i))).collect()
}

// ------------------------------------------------------------------------------ what accounts hold

fn bytes(d: &[u8]) -> Value {
    Value::Array(d.iter().map(|b| json!(*b)).collect())
}

/// as the program lays a header out, by the client's field names
fn fields(kind: &str, d: &[u8]) -> BTreeMap<String, Value> {
    let s = |x: &dyn ToString| json!(x.to_string());
    let mut m = BTreeMap::new();
    if kind == "RewardPool" {
        let h = wire::pool_hdr(d).expect("pool");
        m.insert("depositAuthority".into(), s(&h.deposit_authority));
        m.insert("distributeAuthority".into(), s(&h.distribute_authority));
        m.insert("fillAuthority".into(), s(&h.fill_authority));
        m.insert("rewardMint".into(), s(&h.mint));
        m.insert("indexWithPrecision".into(), s(&h.index));
        m.insert("totalShare".into(), s(&h.total));
        m.insert("distributionEndsAt".into(), s(&h.ends_at));
        m.insert("tokensAvailableForDistribution".into(), s(&h.available));
        m.insert("tokenAccountBump".into(), s(&h.bump));
        m.insert("data".into(), bytes(&d[169..176]));
    } else {
        let h = wire::mining_hdr(d).expect("mining");
        m.insert("rewardPool".into(), s(&h.pool));
        m.insert("owner".into(), s(&h.owner));
        m.insert("rewardMint".into(), s(&Pubkey::try_from(&d[64..96]).unwrap()));
        m.insert("indexWithPrecision".into(), s(&h.index));
        m.insert("share".into(), s(&h.share));
        m.insert("unclaimedRewards".into(), s(&h.unclaimed));
        m.insert("stakeFromOthers".into(), s(&h.sfo));
        m.insert("bump".into(), s(&h.bump));
        m.insert("data".into(), bytes(&d[137..144]));
    }
    m
}

fn same_fields(who: &str, kind: &str, want: &BTreeMap<String, Value>, got: &BTreeMap<String, Value>) -> R<()> {
    if want == got {
        return Ok(());
    }
    for (k, v) in want {
        if got.get(k) != Some(v) {
            return bad(format!("{who}: {kind}.{k} is read as {:?}, the program wrote {v}", got.get(k)));
        }
    }
    bad(format!("{who}: {kind} has other fields: {:?}", got.keys().collect::<Vec<_>>()))
}

fn to_map(v: &Value) -> BTreeMap<String, Value> {
    v.as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default()
}

// ------------------------------------------------------------------------------ the client

struct Case {
    call: Call,
    bank: std::rc::Rc<Bank>,
    omit: bool,
    installed: bool,
    alt: bool,
}

fn node(bundle: &str, cases: &[Case], accts: &[(String, Pubkey, Vec<u8>, usize)], types: &Value) -> R<Value> {
    let calls: Vec<Value> = cases
        .iter()
        .map(|c| {
            let mut m = Map::new();
            let mut payer = Pubkey::new_from_array([7; 32]);
            for (i, n) in ACCOUNTS[c.call.kind].iter().enumerate() {
                if c.omit && matches!(*n, "rent" | "tokenProgram" | "systemProgram" | "payer") {
                    if *n == "payer" {
                        payer = c.call.accts[i];
                    }
                    continue;
                }
                m.insert(n.to_string(), json!(c.call.accts[i].to_string()));
            }
            let args: Vec<Value> = ARGS[c.call.kind].iter().zip(&c.call.args).map(|((n, t), a)| json!([n, t.to_string(), arg_json(a)])).collect();
            json!({"kind": KINDS[c.call.kind], "accounts": m, "args": args, "installed": c.installed, "alt": c.alt, "payer": payer.to_string()})
        })
        .collect();
    let accounts: Vec<Value> = accts.iter().map(|(t, k, d, _)| json!({"type": t, "key": k.to_string(), "owner": mplx_rewards::ID.to_string(), "data": hex(d)})).collect();
    let names: Vec<String> = errors().into_iter().map(|x| x.1).collect();
    let input = json!({"calls": calls, "accounts": accounts, "types": types, "errorNames": names, "missing": Pubkey::new_from_array([9; 32]).to_string()}).to_string();
    let mut p = Command::new("node").arg(format!("{bundle}/client.cjs")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("node");
    let mut si = p.stdin.take().unwrap();
    let t = std::thread::spawn(move || {
        let _ = si.write_all(input.as_bytes());
    });
    let o = p.wait_with_output().expect("node");
    let _ = t.join();
    match serde_json::from_slice(&o.stdout) {
        Ok(v) if o.status.success() => Ok(v),
        _ => bad(format!("the client fails to run: {}", String::from_utf8_lossy(&o.stderr).chars().take(600).collect::<String>())),
    }
}

fn judge_call(c: &Case, v: &Value) -> R<()> {
    let d = || c.call.describe();
    if let Some(e) = v["error"].as_str() {
        return bad(format!("client: {e}: {}", d()));
    }
    let key = |v: &Value| v.as_str().and_then(|s| Pubkey::from_str(s).ok());
    let Some(program) = key(&v["program"]) else { return bad(format!("client: program id {}: {}", v["program"], d())) };
    let mut metas = vec![];
    for m in v["keys"].as_array().cloned().unwrap_or_default() {
        let Some(key) = key(&m["pubkey"]) else { return bad(format!("client: account {m}: {}", d())) };
        metas.push(Meta { key, signer: m["isSigner"] == true, writable: m["isWritable"] == true });
    }
    let got = Ix { metas, data: unhex(v["data"].as_str().unwrap_or("")) };
    let want = c.call.wire();
    if let Some(m) = compare_form("client", &want, &program, &got).or_else(|| compare_effect("client", &c.bank, &want, &got)) {
        return bad(format!("{m}: {}", d()));
    }
    // the builder asks the wallets that must sign, and no others
    let signers: HashSet<String> = v["signers"].as_array().cloned().unwrap_or_default().iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect();
    let needed: HashSet<String> = want.metas.iter().filter(|m| m.signer).map(|m| m.key.to_string()).collect();
    if signers != needed {
        return bad(format!("client: signatures of {signers:?} instead of {needed:?}: {}", d()));
    }
    if v["read"] != true {
        return bad(format!("client: its own data is not read to the end: {}", d()));
    }
    for ((n, _), a) in ARGS[c.call.kind].iter().zip(&c.call.args) {
        if v["values"][*n] != arg_json(a) {
            return bad(format!("client: argument {n} is read back as {}: {}", v["values"][*n], d()));
        }
    }
    Ok(())
}

fn judge_tables(t: &Value) -> R<u64> {
    let id = mplx_rewards::ID.to_string();
    for k in ["program", "id", "id2"] {
        if t[k] != json!(id) {
            return bad(format!("client: program id {}", t[k]));
        }
    }
    let mut n = 3;
    let want: BTreeMap<String, Value> = errors().into_iter().map(|(i, n)| (i.to_string(), json!(n))).collect();
    let got: BTreeMap<String, Value> = to_map(&t["errors"]).into_iter().map(|(k, v)| (k, v["name"].clone())).collect();
    if want != got {
        return bad(format!("client: error codes {got:?}, the program's {want:?}"));
    }
    for (i, nm) in errors() {
        if t["errors"][i.to_string()]["code"] != json!(i) || t["byName"][&nm] != json!(i) {
            return bad(format!("client: error {nm} has code {} by code, {} by name, the program's is {i}", t["errors"][i.to_string()]["code"], t["byName"][&nm]));
        }
        n += 2;
    }
    for (k, want) in [("lockup", program_periods()), ("accountType", program_types())] {
        let want: BTreeMap<String, Value> = want.into_iter().map(|(x, i)| (x, json!(hex(&[i])))).collect();
        let got = to_map(&t[k]);
        if got != want {
            return bad(format!("client: {k} is {got:?}, the program's {want:?}"));
        }
        n += want.len() as u64;
    }
    Ok(n)
}

fn judge_account(idl: &Idl, a: &(String, Pubkey, Vec<u8>, usize), v: &Value) -> R<()> {
    let (kind, _, d, full) = a;
    let want = fields(kind, d);
    if let Some(e) = v["error"].as_str() {
        return bad(format!("client: {kind} cannot be read: {e}"));
    }
    same_fields("client", kind, &want, &to_map(&v["fields"]))?;
    same_fields("client's filters", kind, &want, &to_map(&v["filters"]))?;
    same_fields("client's queries", kind, &want, &to_map(&v["listed"]))?;
    if v["key"] != json!(a.1.to_string()) {
        return bad(format!("client: the {kind} at {} is read as {}", a.1, v["key"]));
    }
    if !v["only"].is_null() && v["only"].as_u64() != Some(*full as u64) {
        return bad(format!("client: queries for a {kind} ask for {} bytes", v["only"]));
    }
    let size = if kind == "RewardPool" { 176 } else { 144 };
    if v["size"] != json!(size) || v["program"] != json!(mplx_rewards::ID.to_string()) {
        return bad(format!("client: {kind} has size {} and program {}", v["size"], v["program"]));
    }
    match idl.read(kind, d) {
        Ok((got, n)) if n == size => same_fields("IDL", kind, &want, &got),
        Ok((_, n)) => bad(format!("IDL: {kind} has {n} bytes")),
        Err(e) => bad(format!("IDL: {kind}: {e}")),
    }
}

fn accounts(w: &World) -> Vec<(String, Pubkey, Vec<u8>, usize)> {
    let mut out = vec![];
    for h in &w.pools {
        out.push(("RewardPool".to_string(), h.key, w.bank.get(&h.key).data[..300].to_vec(), w.bank.get(&h.key).data.len()));
        for k in &h.mining {
            let a = w.bank.get(k);
            if !a.data.is_empty() {
                out.push(("Mining".to_string(), *k, a.data[..300].to_vec(), a.data.len()));
            }
        }
    }
    out
}

fn job(rng: &mut Rng, bundle: &str, types: &Value) -> Out {
    let mut cfg = Cfg::base();
    cfg.pools = 2;
    cfg.users = 3;
    cfg.steps = 25 + rng.idx(40);
    cfg.wild = 0.05;
    cfg.probe = 0.0;
    let t0 = start_time(rng);
    let mut keys: HashSet<u64> = HashSet::new();
    let mut cases: Vec<Case> = vec![];
    let mut accts = vec![];
    let (w, r) = history(rng, &cfg, t0, Some(ID), &mut |w, rng| {
        if !rng.p(0.15) {
            return Ok(());
        }
        accts.extend(accounts(w));
        let s = Stage::new(w, rng);
        let kinds: Vec<u8> = (0..12).collect();
        let bank = std::rc::Rc::new(s.bank.clone());
        for ix in s.valid(rng, &kinds) {
            let c = Call::from_wire(&ix);
            for i in 0..5 {
                let call = if i == 0 { c.clone() } else { c.scramble(rng) };
                keys.insert(fnv(&call.describe()));
                cases.push(Case { call, bank: bank.clone(), omit: rng.p(0.5), installed: rng.p(0.5), alt: rng.p(0.5) });
            }
        }
        Ok(())
    });
    let mut o = pack(ID, w, r);
    o.evals = cases.len() as u64;
    o.keys = keys.into_iter().collect();
    o.sample = cases.first().map(|c| c.call.describe());
    let judged: R<()> = (|| {
        let idl = Idl::load()?;
        let n = idl.tables()?;
        o.st.count("IDL table entries compared", n);
        for c in &cases {
            let want = c.call.wire();
            match idl.build(&c.call) {
                Err(e) => return bad(format!("IDL: {e}: {}", c.call.describe())),
                Ok(got) => {
                    if let Some(m) = compare_form("IDL", &want, &mplx_rewards::ID, &got).or_else(|| compare_effect("IDL", &c.bank, &want, &got)) {
                        return bad(format!("{m}: {}", c.call.describe()));
                    }
                }
            }
            if c.bank.exec(&want).is_ok() {
                o.st.count("accepted calls compared", 1);
            }
            o.st.count("calls compared", 1);
        }
        let v = node(bundle, &cases, &accts, types)?;
        let n = judge_tables(&v["tables"])?;
        o.st.count("client table entries compared", n);
        for (i, c) in cases.iter().enumerate() {
            judge_call(c, &v["calls"][i])?;
        }
        for (i, a) in accts.iter().enumerate() {
            judge_account(&idl, a, &v["accounts"][i])?;
            o.st.count("accounts decoded", 1);
        }
        for f in v["fetched"].as_array().unwrap_or(&vec![]) {
            if let Some(m) = f["bad"].as_array().and_then(|b| b.first()) {
                return bad(format!("client: {}: {}", f["type"], m.as_str().unwrap_or("")));
            }
            o.st.count("answers of the fetchers compared", f["n"].as_u64().unwrap_or(0));
        }
        Ok(())
    })();
    if let Err(e) = judged {
        if !matches!(o.res, Some(Stop::Viol(ref v)) if v.tags.contains(&ID)) {
            o.res = Some(e);
        }
    }
    o
}

pub fn check(seed: u64, thorough: bool, ev: &str, only: Option<usize>, bundle: &str) -> i32 {
    let types: Value = std::fs::read_to_string(format!("{bundle}/types.json")).ok().and_then(|s| serde_json::from_str(&s).ok()).expect("types.json");
    let pl = Plan { jobs: if thorough { 8_000 } else { 250 }, cap: Duration::from_secs(if thorough { 600 } else { 120 }) };
    let rule = "a case is one call, with the arguments of a call possible in a state of a generated history or with arbitrary ones, built by the JS client (run in node) with or without its defaults, and as the IDL describes it, and executed; non-trivial: distinct arguments";
    let assume = [
        "the runtime of harness/src/svm.rs stands for the Solana runtime",
        "clients/js/umi.ts and serializers.ts stand for the umi packages the client imports, which are not installed here",
    ];
    drive(ID, seed, thorough, ev, only, pl, rule, &assume, &|j| {
        let mut rng = job_rng(ID, seed, j);
        job(&mut rng, bundle, &types)
    })
}
