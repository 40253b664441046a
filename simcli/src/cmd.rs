//! A client command as data: how it is spelled on the command line, and what
//! the documentation says it must do on a given ledger.

use {
    crate::chain::blockhash,
    serde::{Deserialize, Serialize},
    serde_with::{serde_as, DisplayFromStr},
    solana_instruction::Instruction,
    solana_pubkey::Pubkey,
    std::{collections::BTreeMap, path::PathBuf},
    twsim::{
        bank::Ledger,
        model,
        rng::Rng,
        ops::{self, canon_close, canon_create, canon_sync_spl, canon_sync_t22, canon_unwrap, canon_wrap},
        world::{self, is_tp, key, Pair},
    },
};

pub const SPL: Pubkey = Pubkey::from_str_const("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub const T22: Pubkey = Pubkey::from_str_const("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");

/// Someone named on the command line: by key file, or only by address.
#[serde_as]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Who {
    #[serde_as(as = "DisplayFromStr")]
    pub key: Pubkey,
    pub held: bool,
}

/// A signature taken from the output of an earlier sign-only step.
#[serde_as]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Presigned {
    pub step: usize,
    #[serde_as(as = "DisplayFromStr")]
    pub key: Pubkey,
}

/// Options shared by wrap and unwrap.
#[serde_as]
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Signing {
    pub auth: Option<Who>,
    pub multi: Vec<Who>,
    /// Slot whose blockhash is given.
    pub blockhash: Option<u64>,
    pub presigned: Vec<Presigned>,
    pub sign_only: bool,
}

#[serde_as]
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cmd {
    Wrap {
        #[serde_as(as = "DisplayFromStr")]
        account: Pubkey,
        #[serde_as(as = "DisplayFromStr")]
        wprog: Pubkey,
        amount: u64,
        #[serde_as(as = "Option<DisplayFromStr>")]
        mint: Option<Pubkey>,
        #[serde_as(as = "Option<DisplayFromStr>")]
        recipient: Option<Pubkey>,
        #[serde_as(as = "Option<DisplayFromStr>")]
        uprog: Option<Pubkey>,
        sign: Signing,
    },
    Unwrap {
        #[serde_as(as = "DisplayFromStr")]
        account: Pubkey,
        #[serde_as(as = "DisplayFromStr")]
        recipient: Pubkey,
        amount: u64,
        #[serde_as(as = "Option<DisplayFromStr>")]
        mint: Option<Pubkey>,
        #[serde_as(as = "Option<DisplayFromStr>")]
        wprog: Option<Pubkey>,
        #[serde_as(as = "Option<DisplayFromStr>")]
        uprog: Option<Pubkey>,
        sign: Signing,
    },
    CreateMint {
        #[serde_as(as = "DisplayFromStr")]
        mint: Pubkey,
        #[serde_as(as = "DisplayFromStr")]
        wprog: Pubkey,
        idempotent: bool,
    },
    CreateEscrow {
        #[serde_as(as = "DisplayFromStr")]
        mint: Pubkey,
        #[serde_as(as = "DisplayFromStr")]
        wprog: Pubkey,
        idempotent: bool,
    },
    CloseStuck {
        #[serde_as(as = "DisplayFromStr")]
        mint: Pubkey,
        #[serde_as(as = "DisplayFromStr")]
        dest: Pubkey,
        #[serde_as(as = "DisplayFromStr")]
        wprog: Pubkey,
    },
    SyncT22 {
        #[serde_as(as = "DisplayFromStr")]
        mint: Pubkey,
        #[serde_as(as = "Option<DisplayFromStr>")]
        source: Option<Pubkey>,
        #[serde_as(as = "Option<DisplayFromStr>")]
        owner: Option<Pubkey>,
    },
    SyncSpl {
        #[serde_as(as = "DisplayFromStr")]
        mint: Pubkey,
        #[serde_as(as = "Option<DisplayFromStr>")]
        source: Option<Pubkey>,
        #[serde_as(as = "Option<DisplayFromStr>")]
        owner: Option<Pubkey>,
    },
    FindPdas {
        #[serde_as(as = "DisplayFromStr")]
        mint: Pubkey,
        #[serde_as(as = "DisplayFromStr")]
        wprog: Pubkey,
    },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Inv {
    pub cmd: Cmd,
    pub payer: Who,
    /// The payer comes from the configuration file instead of an option.
    pub payer_from_config: bool,
    pub dry: bool,
    /// "", "-v" or an output format.
    pub output: String,
    /// The process is killed this long after its start.
    pub kill: Option<u64>,
    /// Done with the JavaScript client.
    #[serde(default)]
    pub js: bool,
    /// How the words are arranged (0: the usual way).
    #[serde(default)]
    pub form: u64,
}

/// What the documentation says a command does on a ledger.
#[derive(Clone, Debug)]
pub enum Want {
    /// Refuses without touching anything.
    Refuse(&'static str),
    /// Nothing to do: succeeds without a transaction.
    Done,
    /// Sends one transaction with this effect.
    Tx(Vec<Instruction>),
    /// Prints signatures for this transaction.
    Sign(Vec<Instruction>),
    /// Signing offline for addresses that mean nothing: anything but sending.
    Unspecified,
}

impl Cmd {
    pub fn kind(&self) -> &'static str {
        match self {
            Cmd::Wrap { .. } => "wrap",
            Cmd::Unwrap { .. } => "unwrap",
            Cmd::CreateMint { .. } => "create-mint",
            Cmd::CreateEscrow { .. } => "create-escrow-account",
            Cmd::CloseStuck { .. } => "close-stuck-escrow",
            Cmd::SyncT22 { .. } => "sync-metadata-to-token2022",
            Cmd::SyncSpl { .. } => "sync-metadata-to-spl-token",
            Cmd::FindPdas { .. } => "find-pdas",
        }
    }
    pub fn sign(&self) -> Option<&Signing> {
        match self {
            Cmd::Wrap { sign, .. } | Cmd::Unwrap { sign, .. } => Some(sign),
            _ => None,
        }
    }
    pub fn sign_only(&self) -> bool {
        self.sign().is_some_and(|s| s.sign_only)
    }
    pub fn idempotent(&self) -> bool {
        matches!(self, Cmd::CreateMint { idempotent: true, .. } | Cmd::CreateEscrow { idempotent: true, .. })
    }
    /// The unwrapped mint and wrapped program, where they are arguments.
    pub fn pair(&self) -> Option<Pair> {
        let (m, w) = match self {
            Cmd::CreateMint { mint, wprog, .. }
            | Cmd::CreateEscrow { mint, wprog, .. }
            | Cmd::CloseStuck { mint, wprog, .. }
            | Cmd::FindPdas { mint, wprog } => (mint, *wprog),
            Cmd::SyncT22 { mint, .. } => (mint, T22),
            Cmd::SyncSpl { mint, .. } => (mint, SPL),
            _ => return None,
        };
        Some(Pair::new(0, *m, w, 0))
    }
}

/// A token account (not a mint) under a token program.
fn token_account(l: &Ledger, k: &Pubkey) -> Option<(Pubkey, Pubkey)> {
    let a = l.get(k)?;
    if !is_tp(&a.owner) {
        return None;
    }
    Some((world::tok(&a.data)?.mint, a.owner))
}
pub fn mint_program(l: &Ledger, k: &Pubkey) -> Option<Pubkey> {
    let a = l.get(k)?;
    if !is_tp(&a.owner) {
        return None;
    }
    world::mint_of(&a.data)?;
    Some(a.owner)
}

impl Inv {
    /// What must happen on `l`.
    pub fn want(&self, l: &Ledger) -> Want {
        use Want::*;
        let payer = self.payer.key;
        match &self.cmd {
            Cmd::Wrap { account, wprog, amount, mint, recipient, uprog, sign } => {
                // (the JavaScript functions take addresses as they are)
                let literal = self.js && sign.sign_only;
                if literal && uprog.is_some_and(|p| !is_tp(&p)) {
                    return Unspecified;
                }
                if !literal && (!is_tp(wprog) || uprog.is_some_and(|p| !is_tp(&p))) {
                    return Refuse("not a token program");
                }
                let found = token_account(l, account);
                let (m, u) = match (mint, uprog, found) {
                    // both given: nothing is looked up, the chain decides
                    (Some(m), Some(u), _) => (*m, *u),
                    (Some(_), None, None) if sign.sign_only && l.get(account).is_some() => return Unspecified,
                    (_, _, None) => return Refuse("not a token account"),
                    (m, u, Some((fm, fu))) => (m.unwrap_or(fm), u.unwrap_or(fu)),
                };
                if !sign.sign_only && found != Some((m, u)) {
                    return Refuse("accounts do not belong together");
                }
                let p = Pair::new(0, m, *wprog, 0);
                let dst = recipient.unwrap_or_else(|| model::ata(&payer, &p.wrapped, wprog));
                let who = sign.auth.map_or(payer, |a| a.key);
                let multi: Vec<Pubkey> = sign.multi.iter().map(|w| w.key).collect();
                let ixs = vec![canon_wrap(&p, &u, account, &dst, &who, &multi, &[], *amount)];
                if sign.sign_only { Sign(ixs) } else { Tx(ixs) }
            }
            Cmd::Unwrap { account, recipient, amount, mint, wprog, uprog, sign } => {
                if let (true, true, Some(m), Some(w), Some(u)) = (self.js, sign.sign_only, mint, wprog, uprog) {
                    if !is_tp(u) {
                        return Unspecified;
                    }
                    let p = Pair::new(0, *m, *w, 0);
                    let who = sign.auth.map_or(payer, |a| a.key);
                    let multi: Vec<Pubkey> = sign.multi.iter().map(|w| w.key).collect();
                    return Sign(vec![canon_unwrap(&p, u, account, recipient, &who, &multi, &[], *amount)]);
                }
                if wprog.is_some_and(|p| !is_tp(&p)) || uprog.is_some_and(|p| !is_tp(&p)) {
                    return Refuse("not a token program");
                }
                let Some((wm, wp)) = token_account(l, account) else {
                    return if sign.sign_only && l.get(account).is_some() { Unspecified } else { Refuse("wrapped account is not a token account") };
                };
                let Some((m, _)) = token_account(l, recipient) else {
                    return Refuse("recipient is not a token account");
                };
                let Some(u) = mint_program(l, &m) else {
                    return Refuse("no unwrapped mint");
                };
                if wprog.is_some_and(|p| p != wp) || mint.is_some_and(|x| x != m) || uprog.is_some_and(|p| p != u) {
                    return Refuse("given addresses contradict the chain");
                }
                let p = Pair::new(0, m, wp, 0);
                if !sign.sign_only && wm != p.wrapped {
                    return Refuse("accounts do not belong together");
                }
                let who = sign.auth.map_or(payer, |a| a.key);
                let multi: Vec<Pubkey> = sign.multi.iter().map(|w| w.key).collect();
                let ixs = vec![canon_unwrap(&p, &u, account, recipient, &who, &multi, &[], *amount)];
                if sign.sign_only { Sign(ixs) } else { Tx(ixs) }
            }
            Cmd::CreateMint { mint, wprog, .. } => {
                if !is_tp(wprog) {
                    return Refuse("not a token program");
                }
                let p = Pair::new(0, *mint, *wprog, 0);
                Tx(self.create_mint_ixs(Self::create_mint_rent(l, &p.wprog), (l.lamports(&p.wrapped), l.lamports(&p.backptr))))
            }
            Cmd::CreateEscrow { mint, wprog, idempotent } => {
                if !is_tp(wprog) && !self.js {
                    return Refuse("not a token program");
                }
                let Some(u) = mint_program(l, mint) else {
                    return Refuse("not a mint");
                };
                let p = Pair::new(0, *mint, *wprog, 0);
                if is_tp(&l.owner(&p.escrow(&u))) {
                    if self.js {
                        return Done;
                    }
                    return if *idempotent { Done } else { Refuse("escrow exists") };
                }
                Tx(vec![world::ata_ix(&payer, &p.auth, mint, &u, *idempotent)])
            }
            Cmd::CloseStuck { mint, dest, wprog } => {
                if !is_tp(wprog) {
                    return Refuse("not a token program");
                }
                let p = Pair::new(0, *mint, *wprog, 0);
                if l.owner(mint) != T22 {
                    return Refuse("not a Token-2022 mint");
                }
                Tx(vec![canon_close(&p, &T22, dest)])
            }
            Cmd::SyncT22 { mint, source, owner } => {
                if owner.is_some() && source.is_none() {
                    return Refuse("program without account");
                }
                let p = Pair::new(0, *mint, T22, 0);
                let src = match source {
                    Some(s) => Some(*s),
                    None if self.js => None,
                    None => {
                        let Some(u) = mint_program(l, mint) else {
                            return Refuse("not a mint");
                        };
                        let own = Some(model::metaplex_pda(mint));
                        if u == SPL {
                            own
                        } else {
                            match pointer_of(l, mint) {
                                None | Some(None) => own,
                                Some(Some(a)) if a == *mint => None,
                                Some(Some(a)) => Some(a),
                            }
                        }
                    }
                };
                Tx(vec![canon_sync_t22(&p, src.as_ref(), owner.as_ref())])
            }
            Cmd::SyncSpl { mint, source, owner } => {
                let p = Pair::new(0, *mint, SPL, 0);
                Tx(vec![canon_sync_spl(&p, source.as_ref(), owner.as_ref())])
            }
            Cmd::FindPdas { mint, wprog } => {
                if !is_tp(wprog) && !self.js {
                    return Refuse("not a token program");
                }
                if l.get(mint).is_none() && !self.js {
                    return Refuse("no such account");
                }
                Done
            }
        }
    }

    pub fn create_mint_ixs(&self, rent: (u64, u64), held: (u64, u64)) -> Vec<Instruction> {
        let Cmd::CreateMint { mint, wprog, idempotent } = &self.cmd else { return vec![] };
        let p = Pair::new(0, *mint, *wprog, 0);
        let mut v = vec![];
        for (k, need, have) in [(p.wrapped, rent.0, held.0), (p.backptr, rent.1, held.1)] {
            if need > have {
                v.push(solana_system_interface::instruction::transfer(&self.payer.key, &k, need - have));
            }
        }
        v.push(canon_create(&p, *idempotent));
        v
    }
    pub fn create_mint_rent(l: &Ledger, wprog: &Pubkey) -> (u64, u64) {
        (
            l.rent.minimum_balance(ops::wrapped_space(wprog, model::Variant::Default)),
            l.rent.minimum_balance(32),
        )
    }

    /// Everyone whose signature the transaction needs.
    pub fn required(&self) -> Vec<Pubkey> {
        let mut v = vec![self.payer.key];
        if let Some(s) = self.cmd.sign() {
            if s.multi.is_empty() {
                v.extend(s.auth.map(|a| a.key));
            } else {
                v.extend(s.multi.iter().map(|w| w.key));
            }
        }
        v.sort();
        v.dedup();
        v
    }
    /// A key is at hand for every role it plays, or for none.
    pub fn coherent(mut self) -> Inv {
        let had = self.held();
        self.payer.held |= had.contains(&self.payer.key);
        let s = match &mut self.cmd {
            Cmd::Wrap { sign, .. } | Cmd::Unwrap { sign, .. } => sign,
            _ => return self,
        };
        let fix = |w: &mut Who| w.held |= had.contains(&w.key);
        s.auth.iter_mut().for_each(fix);
        s.multi.iter_mut().for_each(fix);
        self
    }
    /// Those of them whose key this invocation was given.
    pub fn held(&self) -> Vec<Pubkey> {
        let mut v = vec![];
        if self.payer.held {
            v.push(self.payer.key);
        }
        if let Some(s) = self.cmd.sign() {
            if s.multi.is_empty() {
                v.extend(s.auth.filter(|a| a.held).map(|a| a.key));
            } else {
                v.extend(s.multi.iter().filter(|w| w.held).map(|w| w.key));
            }
        }
        v.sort();
        v.dedup();
        v
    }
    /// Do two invocations ask for the same transaction?
    pub fn same_request(&self, o: &Inv) -> bool {
        fn strip(c: &Cmd) -> Cmd {
            let mut c = c.clone();
            match &mut c {
                Cmd::Wrap { sign, .. } | Cmd::Unwrap { sign, .. } => {
                    sign.presigned.clear();
                    sign.sign_only = false;
                    if let Some(a) = &mut sign.auth {
                        a.held = false;
                    }
                    for w in &mut sign.multi {
                        w.held = false;
                    }
                }
                _ => {}
            }
            c
        }
        self.payer.key == o.payer.key && strip(&self.cmd) == strip(&o.cmd)
    }

    /// The words of the command line.
    pub fn args(&self, url: &str, keys: &KeyFiles, sigs: &dyn Fn(&Presigned) -> String) -> Vec<String> {
        // how it is written: where the general options go, short or long, with = or without
        let mut r = Rng::new(self.form);
        let plain = self.form == 0;
        let opt = |names: &[&str], value: &str, r: &mut Rng| -> Vec<String> {
            let n = if plain { names[0] } else { names[r.usize(names.len())] };
            if plain || r.pct(60) {
                vec![n.to_string(), value.to_string()]
            } else if n.starts_with("--") {
                vec![format!("{n}={value}")]
            } else {
                vec![format!("{n}{value}")]
            }
        };
        let mut general: Vec<Vec<String>> = vec![];
        let configured = if !plain && r.pct(25) { keys.config_with(&self.payer.key, url) } else { None };
        match configured {
            Some(c) => general.push(opt(&["-C", "--config"], &c, &mut r)),
            None => {
                general.push(opt(&["-C", "--config"], &keys.config(&self.payer.key), &mut r));
                general.push(opt(&["--url", "-u"], url, &mut r));
            }
        }
        if !self.payer_from_config || !self.payer.held {
            general.push(opt(&["--fee-payer"], &keys.who(&self.payer), &mut r));
        }
        if self.dry {
            general.push(vec![if plain || r.pct(70) { "--dry-run" } else { "--dryrun" }.to_string()]);
        }
        match self.output.as_str() {
            "" => {}
            "-v" => general.push(vec![if plain || r.pct(50) { "-v" } else { "--verbose" }.to_string()]),
            o => general.push(opt(&["--output"], o, &mut r)),
        }
        let mut words: Vec<String> = vec![];
        let mut opts: Vec<Vec<String>> = vec![];
        let mut add = |n: &str, k: &Option<Pubkey>| {
            if let Some(k) = k {
                opts.push(opt(&[n], &k.to_string(), &mut r));
            }
        };
        match &self.cmd {
            Cmd::Wrap { account, wprog, amount, mint, recipient, uprog, .. } => {
                words = vec![account.to_string(), wprog.to_string(), amount.to_string()];
                add("--unwrapped-mint", mint);
                add("--recipient-token-account", recipient);
                add("--unwrapped-token-program", uprog);
            }
            Cmd::Unwrap { account, recipient, amount, mint, wprog, uprog, .. } => {
                words = vec![account.to_string(), recipient.to_string(), amount.to_string()];
                add("--unwrapped-mint", mint);
                add("--wrapped-token-program", wprog);
                add("--unwrapped-token-program", uprog);
            }
            Cmd::CreateMint { mint, wprog, idempotent } | Cmd::CreateEscrow { mint, wprog, idempotent } => {
                words = vec![mint.to_string(), wprog.to_string()];
                if *idempotent {
                    opts.push(vec!["--idempotent".to_string()]);
                }
            }
            Cmd::CloseStuck { mint, dest, wprog } => {
                words = vec![mint.to_string(), dest.to_string(), wprog.to_string()];
            }
            Cmd::SyncT22 { mint, source, owner } => {
                words.push(mint.to_string());
                add("--metadata-account", source);
                add("--metadata-program-id", owner);
            }
            Cmd::SyncSpl { mint, source, owner } => {
                words.push(mint.to_string());
                add("--source-metadata", source);
                add("--owner-program", owner);
            }
            Cmd::FindPdas { mint, wprog } => {
                words = vec![mint.to_string(), wprog.to_string()];
            }
        }
        let mut lists: Vec<Vec<String>> = vec![];
        if let Some(s) = self.cmd.sign() {
            if let Some(a) = &s.auth {
                opts.push(opt(&["--transfer-authority"], &keys.who(a), &mut r));
            }
            for m in &s.multi {
                lists.push(opt(&["--multisig-signer"], &keys.who(m), &mut r));
            }
            if let Some(b) = s.blockhash {
                opts.push(opt(&["--blockhash"], &blockhash(b).to_string(), &mut r));
            }
            for x in &s.presigned {
                lists.push(opt(&["--signer"], &sigs(x), &mut r));
            }
            if s.sign_only {
                opts.push(vec!["--sign-only".to_string()]);
            }
        }
        let mut v = vec!["spl-token-wrap".to_string()];
        let mut late: Vec<Vec<String>> = vec![];
        for g in general {
            if plain || r.pct(60) {
                v.extend(g);
            } else {
                late.push(g);
            }
        }
        v.push(self.cmd.kind().to_string());
        // anywhere among the rest, the lists of signers after the plain words
        if plain {
            v.extend(words);
            v.extend(opts.into_iter().chain(lists).flatten());
        } else {
            // (the order of the signers is part of the request)
            let (mut early, mut rest) = (vec![], vec![]);
            for o in late.into_iter().chain(opts) {
                if r.pct(30) {
                    early.push(o);
                } else {
                    rest.push(o);
                }
            }
            r.shuffle(&mut early);
            r.shuffle(&mut rest);
            let mut at = 0;
            for l in lists {
                at += r.usize(rest.len() + 1 - at);
                rest.insert(at, l);
                at += 1;
            }
            v.extend(early.into_iter().flatten());
            v.extend(words);
            v.extend(rest.into_iter().flatten());
        }
        v
    }

    /// Readable form for traces.
    pub fn show(&self, names: &BTreeMap<Pubkey, String>) -> String {
        let n = |k: &Pubkey| names.get(k).cloned().unwrap_or_else(|| k.to_string()[..6].to_string());
        let mut s = format!("{:?}", self.cmd);
        for k in find_keys(&s) {
            s = s.replace(&k.to_string(), &n(&k));
        }
        format!("{} payer={}{}{}{}", s, n(&self.payer.key), if self.dry { " dry-run" } else { "" },
            if self.output.is_empty() { String::new() } else { format!(" {}", self.output) },
            self.kill.map_or(String::new(), |k| format!(" killed after {k} ms"))
            + if self.form == 0 { "" } else { " (words rearranged)" })
    }
}

fn find_keys(s: &str) -> Vec<Pubkey> {
    s.split(|c: char| !c.is_alphanumeric()).filter(|w| w.len() >= 32).filter_map(|w| w.parse().ok()).collect()
}

fn pointer_of(l: &Ledger, mint: &Pubkey) -> Option<Option<Pubkey>> {
    use spl_token_2022_interface::{
        extension::{metadata_pointer::MetadataPointer, BaseStateWithExtensions, StateWithExtensions},
        state::Mint,
    };
    let s = StateWithExtensions::<Mint>::unpack(l.data(mint)).ok()?;
    let p = s.get_extension::<MetadataPointer>().ok()?;
    Some(Option::<Pubkey>::from(p.metadata_address))
}

/// The cluster as an invocation reaches it.
pub fn url(id: usize) -> String {
    format!("http://sim.local/{id}")
}
/// Invocations of a run there are such configuration files for.
const CONFIGURED: usize = 12;

/// Key and configuration files of the simulated people.
pub struct KeyFiles {
    pub dir: PathBuf,
    pub names: BTreeMap<Pubkey, String>,
}
pub fn people() -> Vec<(&'static str, u64)> {
    let mut v = vec![("attacker", 0), ("faucet", 0)];
    v.extend((0..8).map(|i| ("cosigner", i)));
    v.extend((0..4).map(|i| ("user", i)));
    v.extend((0..4).map(|i| ("issuer", i)));
    v
}
impl KeyFiles {
    pub fn create() -> KeyFiles {
        let dir = PathBuf::from(format!("/tmp/twcli-{}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let mut names = BTreeMap::new();
        for (l, i) in people() {
            let k = key(l, i);
            let mut b = world::wallet_seed(l, i).to_vec();
            b.extend(k.to_bytes());
            let n = format!("{l}{i}");
            let f = dir.join(format!("{n}.json"));
            std::fs::write(&f, format!("{b:?}")).unwrap();
            std::fs::write(
                dir.join(format!("{n}.yml")),
                format!(
                    "json_rpc_url: http://unused.local\nwebsocket_url: ''\nkeypair_path: {}\naddress_labels: {{}}\ncommitment: confirmed\n",
                    f.display()
                ),
            )
            .unwrap();
            for id in 0..CONFIGURED {
                std::fs::write(
                    dir.join(format!("{n}-{id}.yml")),
                    format!(
                        "json_rpc_url: {}\nwebsocket_url: ''\nkeypair_path: {}\naddress_labels: {{}}\ncommitment: confirmed\n",
                        url(id), f.display()
                    ),
                )
                .unwrap();
            }
            names.insert(k, n);
        }
        KeyFiles { dir, names }
    }
    pub fn remove(&self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
    fn file(&self, k: &Pubkey, e: &str) -> String {
        let n = self.names.get(k).map_or("user0", |s| s.as_str());
        self.dir.join(format!("{n}.{e}")).display().to_string()
    }
    fn config(&self, k: &Pubkey) -> String {
        self.file(k, "yml")
    }
    /// A configuration file that names the cluster too.
    fn config_with(&self, k: &Pubkey, u: &str) -> Option<String> {
        let n = self.names.get(k).map_or("user0", |s| s.as_str());
        (0..CONFIGURED).find(|i| url(*i) == u).map(|i| self.dir.join(format!("{n}-{i}.yml")).display().to_string())
    }
    fn who(&self, w: &Who) -> String {
        if w.held && self.names.contains_key(&w.key) {
            self.file(&w.key, "json")
        } else {
            w.key.to_string()
        }
    }
    pub fn is_person(&self, k: &Pubkey) -> bool {
        self.names.contains_key(k)
    }
}
