//! Concrete, serialisable schedules: what reached the bank, when, with which
//! faults.

use {
    crate::{
        bank::{Ledger, Tx},
        model::Variant,
        native::CrashPoint,
        svm::Accounts,
        world::{MetaKind, MintInfo, MultiInfo, Pair, TokRef, World},
    },
    serde_json::{json, Value},
    solana_account::Account,
    solana_instruction::{AccountMeta, Instruction},
    solana_pubkey::Pubkey,
    std::str::FromStr,
};

#[derive(Clone, Debug)]
pub struct TxEvent {
    pub slot: u64,
    pub tx: Tx,
    pub canon: Option<Vec<Instruction>>,
    pub tags: u32,
    /// Intended Token Wrap instruction (tag byte of the honest request), 255: none.
    pub op: u8,
    pub label: String,
    pub opens: Vec<(Pubkey, Pubkey)>,
}

#[derive(Clone, Debug)]
pub enum Event {
    Tx(Box<TxEvent>),
    /// A third-party program changed one of its accounts.
    Put(Pubkey, Account),
    /// The cluster lowers its rent: lamports per byte and year.
    Rent(u64),
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok())
        .collect()
}
fn key(v: &Value) -> Option<Pubkey> {
    Pubkey::from_str(v.as_str()?).ok()
}
fn ixs_to(v: &[Instruction]) -> Value {
    v.iter()
        .map(|i| {
            json!({
                "program": i.program_id.to_string(),
                "accounts": i.accounts.iter().map(|m| {
                    format!("{}{}{}", m.pubkey, if m.is_signer { " s" } else { "" },
                        if m.is_writable { " w" } else { "" })
                }).collect::<Vec<_>>(),
                "data": hex(&i.data),
            })
        })
        .collect()
}
fn ixs_from(v: &Value) -> Option<Vec<Instruction>> {
    v.as_array()?
        .iter()
        .map(|i| {
            Some(Instruction {
                program_id: key(&i["program"])?,
                accounts: i["accounts"]
                    .as_array()?
                    .iter()
                    .map(|a| {
                        let mut p = a.as_str()?.split(' ');
                        let k = Pubkey::from_str(p.next()?).ok()?;
                        let f: Vec<&str> = p.collect();
                        Some(AccountMeta {
                            pubkey: k,
                            is_signer: f.contains(&"s"),
                            is_writable: f.contains(&"w"),
                        })
                    })
                    .collect::<Option<_>>()?,
                data: unhex(i["data"].as_str()?)?,
            })
        })
        .collect()
}

impl Event {
    pub fn to_json(&self) -> Value {
        match self {
            Event::Put(k, a) => json!({
                "put": k.to_string(), "owner": a.owner.to_string(),
                "lamports": a.lamports.to_string(), "data": hex(&a.data),
            }),
            Event::Rent(n) => json!({ "rent": n }),
            Event::Tx(t) => json!({
                "opens": t.opens.iter().map(|(a, b)| [a.to_string(), b.to_string()]).collect::<Vec<_>>(),
                "tx": t.label, "slot": t.slot, "op": t.op, "tags": t.tags,
                "payer": t.tx.payer.to_string(),
                "signers": t.tx.signers.iter().map(|k| k.to_string()).collect::<Vec<_>>(),
                "crash": match t.tx.crash {
                    CrashPoint::None => Value::Null,
                    CrashPoint::BeforeCpi(n) => json!(["before", n]),
                    CrashPoint::AfterCpi(n) => json!(["after", n]),
                },
                "cu": t.tx.cu_limit,
                "ixs": ixs_to(&t.tx.ixs),
                "canon": t.canon.as_ref().map(|c| ixs_to(c)),
            }),
        }
    }
    pub fn from_json(v: &Value) -> Option<Event> {
        if let Some(n) = v.get("rent") {
            return Some(Event::Rent(n.as_u64()?));
        }
        if let Some(k) = v.get("put") {
            return Some(Event::Put(
                key(k)?,
                Account {
                    lamports: v["lamports"].as_str()?.parse().ok()?,
                    data: unhex(v["data"].as_str()?)?,
                    owner: key(&v["owner"])?,
                    executable: false,
                    rent_epoch: u64::MAX,
                },
            ));
        }
        Some(Event::Tx(Box::new(TxEvent {
            slot: v["slot"].as_u64()?,
            op: v["op"].as_u64()? as u8,
            tags: v["tags"].as_u64()? as u32,
            label: v["tx"].as_str()?.to_string(),
            opens: match v.get("opens") {
                Some(o) => o.as_array()?.iter().map(|x| Some((key(&x[0])?, key(&x[1])?))).collect::<Option<_>>()?,
                None => vec![],
            },
            canon: match &v["canon"] {
                Value::Null => None,
                c => Some(ixs_from(c)?),
            },
            tx: Tx {
                ixs: ixs_from(&v["ixs"])?,
                payer: key(&v["payer"])?,
                signers: v["signers"].as_array()?.iter().map(key).collect::<Option<_>>()?,
                crash: match &v["crash"] {
                    Value::Null => CrashPoint::None,
                    c => {
                        let n = c[1].as_u64()? as u32;
                        if c[0] == "before" {
                            CrashPoint::BeforeCpi(n)
                        } else {
                            CrashPoint::AfterCpi(n)
                        }
                    }
                },
                cu_limit: v["cu"].as_u64()?,
            },
        })))
    }
}

const VARIANTS: [Variant; 3] = [Variant::Default, Variant::NoExtension, Variant::Compliance];

/// The world a schedule starts from, so that a replay file stands alone.
/// Program accounts are left out: they come with the simulator.
pub fn world_to_json(w: &World, programs: &Accounts) -> Value {
    let ks = |v: &[Pubkey]| v.iter().map(|k| k.to_string()).collect::<Vec<_>>();
    json!({
        "slot": w.ledger.slot,
        "rent": w.ledger.rate(),
        "variant": VARIANTS.iter().position(|v| *v == w.variant),
        "accounts": w.ledger.accounts.iter().filter(|(k, _)| !programs.contains_key(k)).map(|(k, a)| json!([
            k.to_string(), a.owner.to_string(), a.lamports.to_string(), hex(&a.data)])).collect::<Vec<_>>(),
        "mints": w.mints.iter().map(|m| json!({
            "key": m.key.to_string(), "issuer": m.issuer.to_string(), "program": m.program.to_string(), "ext": m.ext,
            "nested": m.nested_of, "meta": m.meta as u8, "native": m.native, "recyclable": m.recyclable})).collect::<Vec<_>>(),
        "pairs": w.pairs.iter().map(|p| json!([p.mint, p.unwrapped.to_string(), p.wprog.to_string(), p.depth])).collect::<Vec<_>>(),
        "users": ks(&w.users),
        "attacker": w.attacker.to_string(),
        "faucet": w.faucet.to_string(),
        "multis": w.multis.iter().map(|m| json!({
            "key": m.key.to_string(), "program": m.program.to_string(), "m": m.m, "members": ks(&m.members)})).collect::<Vec<_>>(),
        "toks": w.toks.iter().map(|t| [t.key.to_string(), t.mint.to_string()]).collect::<Vec<_>>(),
        "names": w.names.iter().map(|(k, n)| (k.to_string(), n)).collect::<std::collections::BTreeMap<_, _>>(),
    })
}

pub fn world_variant(v: &Value) -> Option<Variant> {
    VARIANTS.get(v["variant"].as_u64()? as usize).copied()
}

pub fn world_from_json(v: &Value, programs: Accounts) -> Option<World> {
    let keys = |v: &Value| v.as_array()?.iter().map(key).collect::<Option<Vec<_>>>();
    let mut ledger = Ledger { accounts: programs, slot: v["slot"].as_u64()?, rent: crate::bank::rent(v["rent"].as_u64()?) };
    for a in v["accounts"].as_array()? {
        ledger.accounts.insert(key(&a[0])?, Account {
            owner: key(&a[1])?,
            lamports: a[2].as_str()?.parse().ok()?,
            data: unhex(a[3].as_str()?)?,
            executable: false,
            rent_epoch: u64::MAX,
        });
    }
    Some(World {
        ledger,
        variant: world_variant(v)?,
        mints: v["mints"].as_array()?.iter().map(|m| Some(MintInfo {
            key: key(&m["key"])?,
            issuer: key(&m["issuer"])?,
            program: key(&m["program"])?,
            ext: m["ext"].as_u64()? as u32,
            nested_of: m["nested"].as_u64().map(|n| n as usize),
            meta: *MetaKind::ALL.get(m["meta"].as_u64()? as usize)?,
            native: m["native"].as_bool()?,
            recyclable: m["recyclable"].as_bool()?,
        })).collect::<Option<_>>()?,
        pairs: v["pairs"].as_array()?.iter().map(|p| Some(Pair::new(
            p[0].as_u64()? as usize, key(&p[1])?, key(&p[2])?, p[3].as_u64()? as usize))).collect::<Option<_>>()?,
        users: keys(&v["users"])?,
        attacker: key(&v["attacker"])?,
        faucet: key(&v["faucet"])?,
        multis: v["multis"].as_array()?.iter().map(|m| Some(MultiInfo {
            key: key(&m["key"])?,
            program: key(&m["program"])?,
            m: m["m"].as_u64()? as u8,
            members: keys(&m["members"])?,
        })).collect::<Option<_>>()?,
        toks: v["toks"].as_array()?.iter().map(|t| Some(TokRef { key: key(&t[0])?, mint: key(&t[1])? })).collect::<Option<_>>()?,
        names: v["names"].as_object()?.iter().map(|(k, n)| Some((Pubkey::from_str(k).ok()?, n.as_str()?.to_string()))).collect::<Option<_>>()?,
    })
}
