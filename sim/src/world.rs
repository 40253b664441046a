//! The simulated world: mints, pairs, wallets, third-party accounts; and the
//! helpers that read them back from the ledger.

use {
    crate::{
        bank::{Ledger, Tx, Verdict},
        model::{self, Variant, SPL, T22},
        native::CrashPoint,
        rng::Rng,
        svm::{self, Engine},
        thirdparty::{HOOK, HOOK_STATE_LEN, META1, META2},
    },
    mpl_token_metadata::{
        accounts::Metadata,
        types::{Collection, CollectionDetails, Creator, Key, ProgrammableConfig, TokenStandard,
            UseMethod, Uses},
    },
    sha2::{Digest, Sha256},
    solana_account::Account,
    solana_instruction::Instruction,
    solana_pubkey::Pubkey,
    solana_rent::Rent,
    spl_token_2022_interface::{
        extension::{self, BaseStateWithExtensions, ExtensionType, StateWithExtensions},
        instruction as ti,
        state::{Account as TokenAccount, AccountState, Mint},
    },
    spl_token_metadata_interface::state::TokenMetadata,
    spl_type_length_value::variable_len_pack::VariableLenPack,
    std::collections::BTreeMap,
};

fn digest(label: &str, i: u64) -> [u8; 32] {
    let mut h = Sha256::new();
    h.update(b"twsim/");
    h.update(label.as_bytes());
    h.update(i.to_le_bytes());
    h.finalize().into()
}

/// The address known by a label. Wallets are real key pairs (their secret is
/// `wallet_seed`), everything else is just 32 bytes.
pub fn key(label: &str, i: u64) -> Pubkey {
    if !matches!(label, "user" | "issuer" | "attacker" | "faucet" | "cosigner") {
        return Pubkey::new_from_array(digest(label, i));
    }
    thread_local! {
        static CACHE: std::cell::RefCell<BTreeMap<[u8; 32], Pubkey>> = const { std::cell::RefCell::new(BTreeMap::new()) };
    }
    let seed = wallet_seed(label, i);
    CACHE.with(|c| {
        *c.borrow_mut().entry(seed).or_insert_with(|| {
            Pubkey::new_from_array(ed25519_dalek::SigningKey::from_bytes(&seed).verifying_key().to_bytes())
        })
    })
}
pub fn wallet_seed(label: &str, i: u64) -> [u8; 32] {
    digest(label, i)
}

pub const NATIVE: Pubkey = Pubkey::from_str_const("So11111111111111111111111111111111111111112");

/// Mint extension bits.
pub mod ext {
    pub const FEE: u32 = 1;
    pub const HOOK: u32 = 2;
    pub const PAUSE: u32 = 4;
    pub const DEFSTATE: u32 = 8;
    pub const CLOSE: u32 = 16;
    pub const PERMDEL: u32 = 32;
    pub const NONTRANSFER: u32 = 64;
    pub const INTEREST: u32 = 128;
    pub const SCALED: u32 = 256;
    pub const CT: u32 = 512;
    pub const POINTER: u32 = 1024;
    pub const DEFFROZEN: u32 = 2048; // with DEFSTATE: accounts start frozen
    pub const HOOK_NOLIST: u32 = 4096; // hook without validation account
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MetaKind {
    None,
    /// Metaplex account of the mint (no pointer)
    Metaplex,
    Unset,
    SelfT22,
    /// pointer to the mint's own Metaplex account
    PtrMetaplex,
    /// pointer to some other Metaplex-owned account
    PtrOtherMetaplex,
    PtrExternal,
    /// pointer to another Token-2022 mint
    PtrForeignMint,
    PtrNowhere,
}
impl MetaKind {
    pub const ALL: [MetaKind; 9] = [
        MetaKind::None, MetaKind::Metaplex, MetaKind::Unset, MetaKind::SelfT22, MetaKind::PtrMetaplex, MetaKind::PtrOtherMetaplex, MetaKind::PtrExternal, MetaKind::PtrForeignMint, MetaKind::PtrNowhere,
    ];
}

#[derive(Clone, Debug)]
pub struct MintInfo {
    pub key: Pubkey,
    /// Issuer wallet: mint, freeze, fee, pause... authority.
    pub issuer: Pubkey,
    /// Token program at creation (re-creation may change it).
    pub program: Pubkey,
    pub ext: u32,
    pub nested_of: Option<usize>, // pair whose wrapped mint this is
    pub meta: MetaKind,
    pub native: bool,
    pub recyclable: bool,
}

#[derive(Clone, Debug)]
pub struct Pair {
    pub mint: usize, // index into mints (the unwrapped side)
    pub unwrapped: Pubkey,
    pub wprog: Pubkey,
    pub wrapped: Pubkey,
    pub auth: Pubkey,
    pub backptr: Pubkey,
    pub pointer: Pubkey,
    pub escrow_spl: Pubkey,
    pub escrow_t22: Pubkey,
    pub metaplex: Pubkey, // of the wrapped mint
    pub depth: usize,
}
impl Pair {
    pub fn new(mint: usize, unwrapped: Pubkey, wprog: Pubkey, depth: usize) -> Self {
        let wrapped = model::wrapped_mint(&unwrapped, &wprog).0;
        let auth = model::authority(&wrapped).0;
        Pair {
            mint,
            unwrapped,
            wprog,
            wrapped,
            auth,
            backptr: model::backpointer(&wrapped).0,
            pointer: model::pointer(&unwrapped).0,
            escrow_spl: model::ata(&auth, &unwrapped, &SPL),
            escrow_t22: model::ata(&auth, &unwrapped, &T22),
            metaplex: model::metaplex_pda(&wrapped),
            depth,
        }
    }
    pub fn escrow(&self, uprog: &Pubkey) -> Pubkey {
        if *uprog == T22 {
            self.escrow_t22
        } else {
            self.escrow_spl
        }
    }
}

#[derive(Clone, Debug)]
pub struct MultiInfo {
    pub key: Pubkey,
    pub program: Pubkey,
    pub m: u8,
    pub members: Vec<Pubkey>,
}

#[derive(Clone, Debug)]
pub struct TokRef {
    pub key: Pubkey,
    pub mint: Pubkey,
}

#[derive(Clone)]
pub struct World {
    pub ledger: Ledger,
    pub variant: Variant,
    pub mints: Vec<MintInfo>,
    pub pairs: Vec<Pair>,
    pub users: Vec<Pubkey>,
    pub attacker: Pubkey,
    pub faucet: Pubkey,
    pub multis: Vec<MultiInfo>,
    pub toks: Vec<TokRef>,
    /// Names for readable traces.
    pub names: BTreeMap<Pubkey, String>,
}

/// Which kinds of worlds to build.
#[derive(Clone, Debug)]
pub struct WorldCfg {
    pub mints: (usize, usize),
    pub users: (usize, usize),
    pub both_programs: u64, // pct: pair with both token programs
    pub nested: u64,        // pct
    pub native: u64,        // pct
    pub ext_pct: u64,       // chance of each extension
    pub ext_mask: u32,
    pub recyclable: u64,    // pct
    pub meta: u64,          // pct that a mint has metadata machinery
    pub multis: usize,
    pub precreate: u64,     // pct that pairs are created in setup
    pub variants: bool,
    pub t22_pct: u64,
    pub noauth_pct: u64,    // mint without a mint authority / freeze authority
    pub unborn: u64,        // pct of mint addresses that hold something else than a mint
}
impl Default for WorldCfg {
    fn default() -> Self {
        WorldCfg {
            mints: (1, 3),
            users: (2, 3),
            both_programs: 60,
            nested: 15,
            native: 8,
            ext_pct: 18,
            ext_mask: !(ext::PERMDEL | ext::NONTRANSFER | ext::DEFFROZEN),
            recyclable: 15,
            meta: 30,
            multis: 1,
            precreate: 70,
            variants: false,
            t22_pct: 60,
            noauth_pct: 8,
            unborn: 3,
        }
    }
}

pub fn tok(data: &[u8]) -> Option<TokenAccount> {
    StateWithExtensions::<TokenAccount>::unpack(data).ok().map(|s| s.base)
}
pub fn mint_of(data: &[u8]) -> Option<Mint> {
    StateWithExtensions::<Mint>::unpack(data).ok().map(|s| s.base)
}
pub fn is_tp(k: &Pubkey) -> bool {
    *k == SPL || *k == T22
}

impl World {
    pub fn name(&self, k: &Pubkey) -> String {
        self.names.get(k).cloned().unwrap_or_else(|| {
            let s = k.to_string();
            s[..6].to_string()
        })
    }
    pub fn amount(&self, k: &Pubkey) -> Option<u64> {
        let a = self.ledger.get(k)?;
        if !is_tp(&a.owner) {
            return None;
        }
        Some(tok(&a.data)?.amount)
    }
    pub fn tok(&self, k: &Pubkey) -> Option<TokenAccount> {
        let a = self.ledger.get(k)?;
        if !is_tp(&a.owner) {
            return None;
        }
        tok(&a.data)
    }
    pub fn mint(&self, k: &Pubkey) -> Option<Mint> {
        let a = self.ledger.get(k)?;
        if !is_tp(&a.owner) {
            return None;
        }
        mint_of(&a.data)
    }
    pub fn wallets(&self) -> Vec<Pubkey> {
        let mut v = self.users.clone();
        v.push(self.attacker);
        v.push(self.faucet);
        for m in &self.mints {
            if !v.contains(&m.issuer) {
                v.push(m.issuer);
            }
        }
        v.extend([
            model::compliance::DELEGATE,
            model::compliance::FREEZE,
            model::compliance::PAUSE,
        ]);
        v
    }
    pub fn is_wallet(&self, k: &Pubkey) -> bool {
        self.users.contains(k)
            || *k == self.attacker
            || *k == self.faucet
            || self.mints.iter().any(|m| m.issuer == *k)
    }
    pub fn multi(&self, k: &Pubkey) -> Option<&MultiInfo> {
        self.multis.iter().find(|m| m.key == *k)
    }
    pub fn hook_extras(&self, mint: &Pubkey) -> Vec<Pubkey> {
        let d = self.ledger.data(mint);
        if self.ledger.owner(mint) != T22 {
            return vec![];
        }
        let Ok(s) = StateWithExtensions::<Mint>::unpack(d) else {
            return vec![];
        };
        match extension::transfer_hook::get_program_id(&s) {
            Some(p) => {
                let v = spl_transfer_hook_interface::get_extra_account_metas_address(mint, &p);
                if self.ledger.get(&v).is_some() {
                    vec![hook_state(mint), p, v]
                } else {
                    vec![p]
                }
            }
            None => vec![],
        }
    }
    pub fn exts(&self, mint: &Pubkey) -> Vec<ExtensionType> {
        if self.ledger.owner(mint) != T22 {
            return vec![];
        }
        StateWithExtensions::<Mint>::unpack(self.ledger.data(mint))
            .ok()
            .and_then(|s| s.get_extension_types().ok())
            .unwrap_or_default()
    }
    pub fn add_tok(&mut self, key: Pubkey, mint: Pubkey) {
        if !self.toks.iter().any(|t| t.key == key && t.mint == mint) {
            self.toks.push(TokRef { key, mint });
        }
    }
}

pub fn hook_state(mint: &Pubkey) -> Pubkey {
    key("hookstate", u64::from_le_bytes(mint.to_bytes()[..8].try_into().unwrap()))
}
pub fn hook_accounts(rent: &Rent, mint: &Pubkey, list: bool) -> Vec<(Pubkey, Account)> {
    let st = hook_state(mint);
    let mut v = vec![(
        st,
        Account {
            lamports: rent.minimum_balance(HOOK_STATE_LEN),
            data: vec![0; HOOK_STATE_LEN],
            owner: HOOK,
            executable: false,
            rent_epoch: u64::MAX,
        },
    )];
    if list {
        use spl_tlv_account_resolution::{account::ExtraAccountMeta, state::ExtraAccountMetaList};
        let metas = [ExtraAccountMeta::new_with_pubkey(&st, false, true).unwrap()];
        let mut d = vec![0; ExtraAccountMetaList::size_of(1).unwrap()];
        ExtraAccountMetaList::init::<spl_transfer_hook_interface::instruction::ExecuteInstruction>(
            &mut d, &metas,
        )
        .unwrap();
        v.push((
            spl_transfer_hook_interface::get_extra_account_metas_address(mint, &HOOK),
            Account {
                lamports: rent.minimum_balance(d.len()),
                data: d,
                owner: HOOK,
                executable: false,
                rent_epoch: u64::MAX,
            },
        ));
    }
    v
}

// ---- random content ----

pub fn rand_string(r: &mut Rng, max: usize) -> String {
    let n = match r.below(10) {
        0 => 0,
        1 => max,
        _ => r.usize(max.min(12) + 1),
    };
    (0..n)
        .map(|_| *r.pick(&['a', 'b', 'Z', '0', '-', '/', '.', ' ', '"', '\\', '\u{e9}', '\0']))
        .fold(String::new(), |mut s, c| {
            if s.len() + c.len_utf8() <= max {
                s.push(c)
            }
            s
        })
}

pub fn rand_metaplex(r: &mut Rng, mint: &Pubkey, auth: &Pubkey) -> Metadata {
    let creators = if r.pct(50) {
        let n = r.usize(4);
        let mut left = 100u8;
        let v: Vec<Creator> = (0..n)
            .map(|i| {
                let share = if i + 1 == n { left } else { (r.below(left as u64 + 1)) as u8 };
                left -= share;
                Creator { address: key("creator", r.below(4)), verified: r.pct(40), share }
            })
            .collect();
        Some(v)
    } else {
        None
    };
    Metadata {
        key: Key::MetadataV1,
        update_authority: *auth,
        mint: *mint,
        name: rand_string(r, 32),
        symbol: rand_string(r, 10),
        uri: rand_string(r, 200),
        seller_fee_basis_points: if r.pct(50) { 0 } else { r.below(10_001) as u16 },
        creators,
        primary_sale_happened: r.pct(50),
        is_mutable: r.pct(80),
        edition_nonce: r.pct(40).then(|| r.below(256) as u8),
        token_standard: r.pct(40).then(|| {
            *r.pick(&[
                TokenStandard::NonFungible,
                TokenStandard::FungibleAsset,
                TokenStandard::Fungible,
                TokenStandard::NonFungibleEdition,
            ])
        }),
        collection: r.pct(35).then(|| Collection {
            verified: r.pct(30),
            key: key("collection", r.below(3)),
        }),
        uses: r.pct(35).then(|| {
            let total = r.range(1, 5);
            let m = r.below(3);
            Uses {
                use_method: match m {
                    0 => UseMethod::Burn,
                    1 => UseMethod::Multiple,
                    _ => UseMethod::Single,
                },
                remaining: if m == 2 { 1 } else { total },
                total: if m == 2 { 1 } else { total },
            }
        }),
        collection_details: r.pct(20).then(|| CollectionDetails::V1 { size: r.below(9) }),
        programmable_config: r
            .pct(15)
            .then(|| ProgrammableConfig::V1 { rule_set: r.pct(50).then(|| key("rules", 1)) }),
    }
}

pub fn metaplex_bytes(m: &Metadata) -> Vec<u8> {
    let mut v = borsh::to_vec(m).unwrap();
    // on chain the account has a fixed size with trailing zeros
    v.resize(607.max(v.len()), 0);
    v
}

pub fn rand_fields(r: &mut Rng) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let n = r.usize(6);
    for _ in 0..n {
        let (k, val): (String, String) = match r.below(12) {
            0 => ("seller_fee_basis_points".into(), match r.below(5) {
                0 => "oops".into(),
                1 => "70000".into(),
                _ => r.below(10_001).to_string(),
            }),
            1 => ("creators".into(), if r.pct(15) {
                "[{".into()
            } else {
                let m = rand_metaplex(r, &key("x", 0), &key("x", 1));
                serde_json::to_string(&m.creators.unwrap_or_default()).unwrap()
            }),
            2 => ("collection".into(), if r.pct(15) {
                "null".into()
            } else {
                serde_json::to_string(&Collection { verified: r.pct(30), key: key("collection", r.below(3)) }).unwrap()
            }),
            3 => ("uses".into(), if r.pct(15) {
                "{}".into()
            } else {
                let t = r.range(1, 4);
                serde_json::to_string(&Uses { use_method: UseMethod::Multiple, remaining: t, total: t }).unwrap()
            }),
            4 => ("name".into(), rand_string(r, 8)),
            5 => ("is_mutable".into(), "true".into()),
            6 => ("key".into(), rand_string(r, 8)),
            n => (format!("k{}", n - 6), rand_string(r, 16)),
        };
        if let Some(e) = v.iter_mut().find(|e| e.0 == k) {
            if r.pct(80) {
                e.1 = val;
                continue;
            }
        }
        v.push((k, val));
    }
    v
}

thread_local! {
    /// Largest metadata a world holds, in bytes (0: the usual small ones).
    pub static LARGE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// How much there is to take apart: bytes, those outside ASCII counting eightfold.
pub fn weight(t: &TokenMetadata) -> usize {
    let all = [&t.name, &t.symbol, &t.uri];
    let all = all.into_iter().chain(t.additional_metadata.iter().flat_map(|(k, v)| [k, v]));
    t.get_packed_len().unwrap_or(0) + 7 * all.map(|s| s.bytes().filter(|b| *b >= 0x80).count()).sum::<usize>()
}
/// The most metadata C24 speaks of, by `weight`.
pub fn largest() -> usize {
    static N: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *N.get_or_init(|| std::env::var("TWSIM_LARGE").ok().and_then(|n| n.parse().ok()).unwrap_or(5000))
}
/// Makes metadata large: long values and many fields, within the limit.
fn enlarge(r: &mut Rng, t: &mut TokenMetadata) {
    let max = LARGE.with(|l| l.get());
    if max == 0 || !r.pct(60) {
        return;
    }
    // plain text mostly, and text that costs more to take apart or to print
    let letters: &[char] = match r.below(4) {
        0 => &['\u{e9}', '"', '\\', '\n', '\\', '"', '\u{6f22}', '\n', '\u{1f600}'],
        1 => &['a', '\u{e9}', '\\', ' '],
        _ => &['a', 'b', '0', '/', '.'],
    };
    let text = |r: &mut Rng, n: usize| -> String {
        let (mut t, mut used) = (String::with_capacity(n), 0);
        loop {
            let c = *r.pick(letters);
            if { used += if c.is_ascii() { 1 } else { 8 * c.len_utf8() }; used } > n {
                return t;
            }
            t.push(c);
        }
    };
    let longest = *r.pick(&[20, 60, 200, 800]);
    if r.pct(40) {
        let n = r.usize(longest + 1);
        t.uri = text(r, n);
    }
    if r.pct(10) {
        let n = r.usize(longest + 1);
        t.name = text(r, n);
    }
    if r.pct(30) {
        // as much as there may be
        let n = 1 + r.usize(25);
        let room = max.saturating_sub(weight(t) + 20 * n);
        for i in 0..n {
            let v = text(r, room / n);
            t.additional_metadata.push((format!("field-{i}"), v));
        }
        return;
    }
    let fields = r.usize(26);
    for i in 0..fields {
        let n = r.usize(longest + 1);
        let v = text(r, n);
        if weight(t) + n + 16 > max {
            break;
        }
        t.additional_metadata.push((format!("field-{i}"), v));
    }
}

pub fn rand_token_metadata(r: &mut Rng, mint: &Pubkey, auth: Option<Pubkey>) -> TokenMetadata {
    let mut t = TokenMetadata {
        update_authority: solana_nullable::MaybeNull::try_from(auth).unwrap_or_default(),
        mint: *mint,
        name: rand_string(r, 24),
        symbol: rand_string(r, 10),
        uri: rand_string(r, 40),
        additional_metadata: rand_fields(r),
    };
    enlarge(r, &mut t);
    t
}
pub fn external_bytes(mode: u8, m: &TokenMetadata) -> Vec<u8> {
    let mut v = vec![0u8; 1 + m.get_packed_len().unwrap()];
    v[0] = mode;
    m.pack_into_slice(&mut v[1..]).unwrap();
    v
}
pub fn external_key(mint: &Pubkey) -> Pubkey {
    key("extmeta", u64::from_le_bytes(mint.to_bytes()[..8].try_into().unwrap()))
}
pub fn other_metaplex_key(mint: &Pubkey) -> Pubkey {
    key("othermpl", u64::from_le_bytes(mint.to_bytes()[..8].try_into().unwrap()))
}

/// Pointer target for a metadata kind.
pub fn pointer_target(kind: MetaKind, mint: &Pubkey, foreign: &Pubkey) -> Option<Pubkey> {
    match kind {
        MetaKind::SelfT22 => Some(*mint),
        MetaKind::PtrMetaplex => Some(model::metaplex_pda(mint)),
        MetaKind::PtrOtherMetaplex => Some(other_metaplex_key(mint)),
        MetaKind::PtrExternal => Some(external_key(mint)),
        MetaKind::PtrForeignMint => Some(*foreign),
        MetaKind::PtrNowhere => Some(key("nowhere", 0)),
        _ => None,
    }
}

/// Instructions creating a mint account with the given extensions.
pub fn create_mint_ixs(
    rent: &Rent,
    payer: &Pubkey,
    mint: &Pubkey,
    issuer: &Pubkey,
    mint_auth: &Pubkey,
    program: &Pubkey,
    bits: u32,
    decimals: u8,
    freeze: bool,
    pointer: Option<Option<Pubkey>>,
    fee: (u16, u64),
) -> Vec<Instruction> {
    use extension as x;
    let mut exts = vec![];
    let mut init = vec![];
    let t = T22;
    if *program == T22 {
        let mut add = |b: u32, e: ExtensionType, i: Instruction| {
            if bits & b != 0 {
                exts.push(e);
                init.push(i);
            }
        };
        add(ext::FEE, ExtensionType::TransferFeeConfig,
            x::transfer_fee::instruction::initialize_transfer_fee_config(&t, mint, Some(issuer), Some(issuer), fee.0, fee.1).unwrap());
        add(ext::HOOK, ExtensionType::TransferHook,
            x::transfer_hook::instruction::initialize(&t, mint, Some(*issuer), Some(HOOK)).unwrap());
        add(ext::PAUSE, ExtensionType::Pausable,
            x::pausable::instruction::initialize(&t, mint, issuer).unwrap());
        add(ext::DEFSTATE, ExtensionType::DefaultAccountState,
            x::default_account_state::instruction::initialize_default_account_state(&t, mint,
                &if bits & ext::DEFFROZEN != 0 { AccountState::Frozen } else { AccountState::Initialized }).unwrap());
        add(ext::CLOSE, ExtensionType::MintCloseAuthority,
            ti::initialize_mint_close_authority(&t, mint, Some(issuer)).unwrap());
        add(ext::PERMDEL, ExtensionType::PermanentDelegate,
            ti::initialize_permanent_delegate(&t, mint, issuer).unwrap());
        add(ext::NONTRANSFER, ExtensionType::NonTransferable,
            ti::initialize_non_transferable_mint(&t, mint).unwrap());
        add(ext::INTEREST, ExtensionType::InterestBearingConfig,
            x::interest_bearing_mint::instruction::initialize(&t, mint, Some(*issuer), 100).unwrap());
        add(ext::SCALED, ExtensionType::ScaledUiAmount,
            x::scaled_ui_amount::instruction::initialize(&t, mint, Some(*issuer), 2.0).unwrap());
        add(ext::CT, ExtensionType::ConfidentialTransferMint,
            x::confidential_transfer::instruction::initialize_mint(&t, mint, Some(*issuer), true, None).unwrap());
        if let Some(p) = pointer {
            add(u32::MAX, ExtensionType::MetadataPointer,
                x::metadata_pointer::instruction::initialize(&t, mint, Some(*issuer), p).unwrap());
        }
    }
    let len = if *program == T22 {
        ExtensionType::try_calculate_account_len::<Mint>(&exts).unwrap()
    } else {
        82
    };
    let mut v = vec![solana_system_interface::instruction::create_account(
        payer,
        mint,
        rent.minimum_balance(len) + 50_000_000,
        len as u64,
        program,
    )];
    v.extend(init);
    v.push(ti::initialize_mint2(program, mint, mint_auth, freeze.then_some(issuer), decimals).unwrap());
    v
}

pub fn rand_bits(r: &mut Rng, cfg: &WorldCfg) -> u32 {
    let mut b = 0;
    for i in 0..10 {
        let bit = 1 << i;
        if cfg.ext_mask & bit != 0 && r.pct(cfg.ext_pct) {
            b |= bit;
        }
    }
    if b & ext::INTEREST != 0 {
        b &= !ext::SCALED;
    }
    if b & ext::FEE != 0 {
        b &= !ext::CT;
    }
    if b & ext::DEFSTATE != 0 && cfg.ext_mask & ext::DEFFROZEN != 0 && r.pct(40) {
        b |= ext::DEFFROZEN;
    }
    if b & ext::HOOK != 0 && r.pct(15) {
        b |= ext::HOOK_NOLIST;
    }
    b
}
pub fn rand_fee(r: &mut Rng) -> (u16, u64) {
    let bps = match r.below(6) {
        0 => 0,
        1 => 10_000,
        2 => 1,
        _ => r.below(1_000) as u16,
    };
    let max = match r.below(5) {
        0 => 0,
        1 => u64::MAX,
        2 => r.below(50),
        _ => r.below(100_000),
    };
    (bps, max)
}
pub fn rand_meta_kind(r: &mut Rng, program: &Pubkey, pct: u64) -> MetaKind {
    if !r.pct(pct) {
        return MetaKind::None;
    }
    if *program == SPL {
        return MetaKind::Metaplex;
    }
    *r.pick(&[
        MetaKind::Metaplex,
        MetaKind::Unset,
        MetaKind::SelfT22,
        MetaKind::SelfT22,
        MetaKind::SelfT22,
        MetaKind::PtrMetaplex,
        MetaKind::PtrMetaplex,
        MetaKind::PtrOtherMetaplex,
        MetaKind::PtrExternal,
        MetaKind::PtrExternal,
        MetaKind::PtrForeignMint,
        MetaKind::PtrNowhere,
    ])
}

/// Builds a world. `engine` is the model engine for the chosen variant.
pub fn build(r: &mut Rng, cfg: &WorldCfg, variant: Variant, engine: &mut Engine) -> World {
    let rent = Rent::default();
    let mut w = World {
        ledger: Ledger {
            accounts: engine.program_accounts().into_iter().collect(),
            slot: r.range(10, 2_000_000),
            rent: rent.clone(),
        },
        variant,
        mints: vec![],
        pairs: vec![],
        users: vec![],
        attacker: key("attacker", 0),
        faucet: key("faucet", 0),
        multis: vec![],
        toks: vec![],
        names: BTreeMap::new(),
    };
    w.names.insert(w.attacker, "attacker".into());
    w.names.insert(w.faucet, "faucet".into());
    w.names.insert(SPL, "spl-token".into());
    w.names.insert(T22, "token-2022".into());
    w.names.insert(model::PROGRAM, "token-wrap".into());
    w.names.insert(svm::ATA_PROGRAM, "ata-program".into());
    w.names.insert(svm::METAPLEX, "metaplex".into());
    w.names.insert(solana_system_interface::program::ID, "system".into());
    w.names.insert(HOOK, "hook-program".into());
    w.names.insert(META1, "meta1".into());
    w.names.insert(META2, "meta2".into());
    if cfg.meta >= 100 {
        add_collections(&mut w);
    }
    // clusters charge different rents
    let rate = if r.pct(30) { *r.pick(&[1, 348, 1740, 3481, 6960, 20_000]) } else { w.ledger.rate() };
    w.ledger.set_rate(rate);
    let rent = w.ledger.rent.clone();
    let nu = r.range(cfg.users.0 as u64, cfg.users.1 as u64);
    for i in 0..nu {
        let u = key("user", i);
        w.names.insert(u, format!("user{i}"));
        w.users.push(u);
    }
    let nm = r.range(cfg.mints.0 as u64, cfg.mints.1 as u64) as usize;
    let mut specs = vec![];
    for i in 0..nm {
        let native = r.pct(cfg.native) && !specs.iter().any(|s: &MintInfo| s.native);
        let k = if native { NATIVE } else { key("mint", i as u64) };
        let program = if !native && r.pct(cfg.t22_pct) { T22 } else { SPL };
        let issuer = key("issuer", i as u64);
        w.names.insert(k, if native { "native".into() } else { format!("mint{i}") });
        w.names.insert(issuer, format!("issuer{i}"));
        let recyclable = !native && program == T22 && r.pct(cfg.recyclable);
        let mut bits = if program == T22 { rand_bits(r, cfg) } else { 0 };
        if recyclable {
            bits |= ext::CLOSE;
        }
        let meta = if native { MetaKind::None } else { rand_meta_kind(r, &program, cfg.meta) };
        specs.push(MintInfo {
            key: k,
            issuer,
            program,
            ext: bits,
            nested_of: None,
            meta,
            native,
            recyclable,
        });
    }
    w.mints = specs;
    for k in w.wallets() {
        w.ledger.put(k, Account {
            lamports: 1 << 46,
            rent_epoch: u64::MAX,
            ..Account::default()
        });
    }
    for i in 0..w.mints.len() {
        if !w.mints[i].native && r.pct(cfg.unborn) {
            init_other(&mut w, r, engine, i);
        } else {
            init_mint(&mut w, r, engine, cfg, i);
        }
    }
    // multisigs
    for i in 0..cfg.multis {
        let program = if r.pct(50) { SPL } else { T22 };
        let k = key("multisig", i as u64);
        w.names.insert(k, format!("multisig{i}"));
        let mut pool = w.users.clone();
        pool.push(w.attacker);
        // a few are boards of as many as a multisig account can hold
        let board = r.pct(20);
        pool.extend((0..if board { 8 } else { 1 }).map(|n| key("cosigner", n)));
        r.shuffle(&mut pool);
        let n = if board { r.range(5, pool.len().min(11) as u64) } else { r.range(1, pool.len().min(4) as u64) } as usize;
        let members: Vec<Pubkey> = pool[..n].to_vec();
        let m = r.range(1, n as u64) as u8;
        let refs: Vec<&Pubkey> = members.iter().collect();
        must(&mut w, engine, vec![
            solana_system_interface::instruction::create_account(&key("faucet", 0), &k,
                rent.minimum_balance(355), 355, &program),
            ti::initialize_multisig2(&program, &k, &refs, m).unwrap(),
        ], &[k]);
        w.multis.push(MultiInfo { key: k, program, m, members });
    }
    // pairs
    for i in 0..w.mints.len() {
        add_pairs(&mut w, r, cfg, i, 0);
    }
    if r.pct(cfg.nested) && !w.pairs.is_empty() {
        let p = r.usize(w.pairs.len());
        let (wrapped, wprog, base) = {
            let q = &w.pairs[p];
            (q.wrapped, q.wprog, q.mint)
        };
        let issuer = w.mints[base].issuer;
        w.mints.push(MintInfo {
            key: wrapped,
            issuer,
            program: wprog,
            ext: 0,
            nested_of: Some(p),
            meta: MetaKind::None,
            native: false,
            recyclable: false,
        });
        let m = w.mints.len() - 1;
        add_pairs(&mut w, r, cfg, m, 1);
    }
    // what looks like a mint, but belongs to no token program
    if r.pct(30) && !w.mints.is_empty() {
        let m = w.mints[r.usize(w.mints.len())].key;
        if let Some(mut a) = w.ledger.get(&m).cloned().filter(|a| a.data.len() >= 82) {
            a.owner = if r.pct(70) { META1 } else { Pubkey::default() };
            a.data[..4].copy_from_slice(&1u32.to_le_bytes());
            let who = if r.pct(50) { w.attacker } else { w.users[0] };
            a.data[4..36].copy_from_slice(who.as_ref());
            w.names.insert(impostor(), "impostor".into());
            w.ledger.put(impostor(), a);
        }
    }
    // users' accounts and initial balances
    for i in 0..w.mints.len() {
        if w.mints[i].nested_of.is_some() {
            continue;
        }
        let m = w.mints[i].clone();
        let mut holders = w.users.clone();
        for x in &w.multis {
            if x.program == m.program && r.pct(70) {
                holders.push(x.key);
            }
        }
        if r.pct(30) {
            holders.push(w.attacker);
        }
        for h in holders {
            if r.pct(12) {
                continue;
            }
            let a = open_ata(&mut w, engine, &h, &m.key, &m.program);
            let Some(a) = a else { continue };
            if m.native {
                must(&mut w, engine, vec![
                    solana_system_interface::instruction::transfer(&key("faucet", 0), &a, r.range(1, 1 << 34)),
                    spl_token_interface::instruction::sync_native(&SPL, &a).unwrap(),
                ], &[]);
                continue;
            }
            if m.recyclable && r.pct(75) {
                continue;
            }
            let has_auth = w.mint(&m.key).is_some_and(|x| x.mint_authority.is_some());
            if has_auth {
                let amt = rand_balance(r);
                let iss = m.issuer;
                let _ = exec(&mut w, engine, vec![ti::mint_to(&m.program, &m.key, &a, &iss, &[], amt).unwrap()], &[iss]);
            }
        }
    }
    // some pairs exist already
    for p in 0..w.pairs.len() {
        if r.pct(cfg.precreate) {
            create_pair(&mut w, r, engine, p, 100);
        }
    }
    // third-party supply can be capped now: drop mint authorities
    for i in 0..w.mints.len() {
        let m = w.mints[i].clone();
        if m.nested_of.is_none() && !m.native && !m.recyclable && r.pct(cfg.noauth_pct) {
            let _ = exec(&mut w, engine, vec![ti::set_authority(&m.program, &m.key, None,
                ti::AuthorityType::MintTokens, &m.issuer, &[]).unwrap()], &[m.issuer]);
        }
    }
    w
}

pub fn rand_balance(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 if r.pct(30) => *r.pick(&[u64::MAX, u64::MAX - 1, u64::MAX - 1_000_003, 1 << 63, (1 << 63) + 1, (1 << 53) + 1, (1 << 32) + 1]),
        0 => 0,
        1 => r.below(10),
        2 => 1 << 60,
        3 => r.below(1 << 40),
        _ => r.range(1_000, 1_000_000),
    }
}

pub fn exec(w: &mut World, e: &mut Engine, ixs: Vec<Instruction>, signers: &[Pubkey]) -> Verdict {
    let payer = w.faucet;
    let mut s = signers.to_vec();
    s.push(payer);
    let tx = Tx { ixs, payer, signers: s, crash: CrashPoint::None, cu_limit: 1_400_000 };
    let x = w.ledger.run(e, &tx);
    w.ledger.commit(&x);
    x.verdict
}
pub fn must(w: &mut World, e: &mut Engine, ixs: Vec<Instruction>, signers: &[Pubkey]) {
    let d = format!("{:?}", ixs.iter().map(|i| (w.name(&i.program_id), i.data.clone())).collect::<Vec<_>>());
    let v = exec(w, e, ixs, signers);
    assert!(v == Verdict::Ok, "harness: setup transaction failed: {v:?} {d}");
}

/// Something of a token program at a mint address that is not (yet) a mint.
fn init_other(w: &mut World, r: &mut Rng, e: &mut Engine, i: usize) {
    let m = w.mints[i].clone();
    let rent = w.ledger.rent.clone();
    let f = w.faucet;
    w.mints[i].ext = 0;
    w.mints[i].meta = MetaKind::None;
    let alloc = |len: usize, p: &Pubkey| {
        solana_system_interface::instruction::create_account(&f, &m.key, rent.minimum_balance(len), len as u64, p)
    };
    match r.below(4) {
        0 if i > 0 && w.mint(&w.mints[0].key).is_some() => {
            let base = w.mints[0].key;
            let p = w.ledger.owner(&base);
            let len = extension::account_len::try_calculate_account_len_from_mint_data(w.ledger.data(&base), &[]).unwrap_or(165);
            w.mints[i].program = p;
            must(w, e, vec![alloc(len, &p), ti::initialize_account3(&p, &m.key, &base, &m.issuer).unwrap()], &[m.key]);
        }
        1 => must(w, e, vec![alloc(355, &m.program), ti::initialize_multisig2(&m.program, &m.key, &[&m.issuer], 1).unwrap()], &[m.key]),
        _ => must(w, e, vec![alloc(82, &m.program)], &[m.key]),
    }
}

fn init_mint(w: &mut World, r: &mut Rng, e: &mut Engine, cfg: &WorldCfg, i: usize) {
    let m = w.mints[i].clone();
    let rent = w.ledger.rent.clone();
    if m.native {
        use solana_program_pack::Pack;
        let mut d = vec![0; 82];
        spl_token_interface::state::Mint {
            mint_authority: solana_program_option::COption::None,
            supply: 0,
            decimals: 9,
            is_initialized: true,
            freeze_authority: solana_program_option::COption::None,
        }
        .pack_into_slice(&mut d);
        w.ledger.put(m.key, Account {
            lamports: 1_461_600,
            data: d,
            owner: SPL,
            executable: false,
            rent_epoch: u64::MAX,
        });
        return;
    }
    let decimals = *r.pick(&[0u8, 2, 6, 9, 9, 12, 255]);
    let freeze = r.pct(100 - cfg.noauth_pct) || m.ext & ext::DEFSTATE != 0;
    let foreign = key("mint", 99);
    let ptr = matches!(m.meta, MetaKind::None | MetaKind::Metaplex);
    let pointer = (!ptr).then(|| pointer_target(m.meta, &m.key, &foreign));
    let fee = rand_fee(r);
    let ixs = create_mint_ixs(&rent, &w.faucet, &m.key, &m.issuer, &m.issuer, &m.program, m.ext, decimals, freeze, pointer, fee);
    must(w, e, ixs, &[m.key]);
    mint_surroundings(w, r, e, i);
}

/// Third-party accounts belonging to a mint: hook lists, metadata.
pub fn mint_surroundings(w: &mut World, r: &mut Rng, e: &mut Engine, i: usize) {
    let m = w.mints[i].clone();
    let rent = w.ledger.rent.clone();
    if m.ext & ext::HOOK != 0 {
        for (k, a) in hook_accounts(&rent, &m.key, m.ext & ext::HOOK_NOLIST == 0) {
            w.ledger.put(k, a);
        }
    }
    match m.meta {
        MetaKind::SelfT22 => {
            if r.pct(85) {
                let t = rand_token_metadata(r, &m.key, Some(m.issuer));
                let mut ixs = vec![spl_token_metadata_interface::instruction::initialize(
                    &T22, &m.key, &m.issuer, &m.key, &m.issuer, t.name, t.symbol, t.uri)];
                for (k, v) in t.additional_metadata {
                    ixs.push(spl_token_metadata_interface::instruction::update_field(
                        &T22, &m.key, &m.issuer,
                        spl_token_metadata_interface::state::Field::Key(k), v));
                }
                let iss = m.issuer;
                let _ = exec(w, e, ixs, &[iss]);
            }
        }
        MetaKind::None | MetaKind::Unset => {}
        _ => {
            for (k, a) in metadata_accounts(r, &rent, &m.key, &m.issuer) {
                w.ledger.put(k, a);
            }
        }
    }
}

/// Metadata and edition accounts of a collection NFT.
pub fn collection_accounts(mint: &Pubkey) -> (Pubkey, Pubkey) {
    let m = model::metaplex_pda(mint);
    let e = Pubkey::find_program_address(
        &[b"metadata", svm::METAPLEX.as_ref(), mint.as_ref(), b"edition"],
        &svm::METAPLEX,
    )
    .0;
    (m, e)
}
pub fn collection_authority() -> Pubkey {
    key("collection-authority", 0)
}
/// The collections that metadata may name exist, so that they can be verified.
fn add_collections(w: &mut World) {
    use solana_program_pack::Pack;
    for i in 0..3 {
        let mint = key("collection", i);
        let (meta, edition) = collection_accounts(&mint);
        let mut d = vec![0; 82];
        spl_token_interface::state::Mint {
            mint_authority: Some(edition).into(),
            supply: 1,
            decimals: 0,
            is_initialized: true,
            freeze_authority: Some(edition).into(),
        }
        .pack_into_slice(&mut d);
        let md = Metadata {
            key: Key::MetadataV1,
            update_authority: collection_authority(),
            mint,
            name: "c".into(),
            symbol: "c".into(),
            uri: "".into(),
            seller_fee_basis_points: 0,
            creators: None,
            primary_sale_happened: false,
            is_mutable: true,
            edition_nonce: None,
            token_standard: Some(TokenStandard::NonFungible),
            collection: None,
            uses: None,
            collection_details: None,
            programmable_config: None,
        };
        // MasterEditionV2, no copies allowed
        let mut ed = vec![6u8];
        ed.extend(0u64.to_le_bytes());
        ed.push(1);
        ed.extend(0u64.to_le_bytes());
        ed.resize(282, 0);
        for (k, owner, data) in [(mint, SPL, d), (meta, svm::METAPLEX, metaplex_bytes(&md)), (edition, svm::METAPLEX, ed)] {
            let lamports = w.ledger.rent.minimum_balance(data.len());
            w.ledger.put(k, Account { lamports, data, owner, executable: false, rent_epoch: u64::MAX });
        }
    }
}

/// External metadata accounts for a mint, with fresh random content.
pub fn metadata_accounts(r: &mut Rng, rent: &Rent, mint: &Pubkey, issuer: &Pubkey) -> Vec<(Pubkey, Account)> {
    let acct = |owner: Pubkey, data: Vec<u8>| Account {
        lamports: rent.minimum_balance(data.len()),
        data,
        owner,
        executable: false,
        rent_epoch: u64::MAX,
    };
    let mut v = vec![];
    let mp = rand_metaplex(r, mint, issuer);
    v.push((model::metaplex_pda(mint), acct(svm::METAPLEX, metaplex_bytes(&mp))));
    let mp = rand_metaplex(r, mint, issuer);
    v.push((other_metaplex_key(mint), acct(svm::METAPLEX, metaplex_bytes(&mp))));
    let t = rand_token_metadata(r, mint, Some(*issuer));
    let mode = if r.pct(60) { 0 } else { r.below(5) as u8 };
    v.push((external_key(mint), acct(if r.pct(70) { META1 } else { META2 }, external_bytes(mode, &t))));
    v
}

pub fn impostor() -> Pubkey {
    key("impostor", 0)
}

/// Metaplex metadata the pair's authority may update, but of another mint.
pub fn decoy(auth: &Pubkey) -> Pubkey {
    model::metaplex_pda(&decoy_mint(auth))
}
fn decoy_mint(auth: &Pubkey) -> Pubkey {
    key("decoy", u64::from_le_bytes(auth.to_bytes()[..8].try_into().unwrap()))
}
pub fn decoy_account(r: &mut Rng, rent: &Rent, auth: &Pubkey) -> (Pubkey, Account) {
    let mut mp = rand_metaplex(r, &decoy_mint(auth), auth);
    mp.is_mutable = true;
    let data = metaplex_bytes(&mp);
    (decoy(auth), Account { lamports: rent.minimum_balance(data.len()), data, owner: svm::METAPLEX, executable: false, rent_epoch: u64::MAX })
}

fn add_pairs(w: &mut World, r: &mut Rng, cfg: &WorldCfg, i: usize, depth: usize) {
    let k = w.mints[i].key;
    let first = if r.pct(50) { SPL } else { T22 };
    let mut progs = vec![first];
    if r.pct(cfg.both_programs) {
        progs.push(if first == SPL { T22 } else { SPL });
    }
    for p in progs {
        let pair = Pair::new(i, k, p, depth);
        let n = w.pairs.len();
        w.names.insert(pair.wrapped, format!("wmint{n}"));
        w.names.insert(pair.auth, format!("wauth{n}"));
        w.names.insert(pair.backptr, format!("backptr{n}"));
        w.names.insert(pair.escrow_spl, format!("escrow{n}.spl"));
        w.names.insert(pair.escrow_t22, format!("escrow{n}.t22"));
        w.names.insert(pair.metaplex, format!("wmetaplex{n}"));
        w.names.insert(pair.pointer, format!("pointer-of-{}", w.name(&k)));
        if p == SPL && r.pct(50) {
            let (k, a) = decoy_account(r, &w.ledger.rent, &pair.auth);
            w.names.insert(k, format!("decoy{n}"));
            w.ledger.put(k, a);
        }
        w.pairs.push(pair);
    }
}

pub fn ata_ix(payer: &Pubkey, owner: &Pubkey, mint: &Pubkey, program: &Pubkey, idempotent: bool) -> Instruction {
    use spl_associated_token_account_interface::instruction as a;
    if idempotent {
        a::create_associated_token_account_idempotent(payer, owner, mint, program)
    } else {
        a::create_associated_token_account(payer, owner, mint, program)
    }
}
pub fn open_ata(w: &mut World, e: &mut Engine, owner: &Pubkey, mint: &Pubkey, program: &Pubkey) -> Option<Pubkey> {
    let k = model::ata(owner, mint, program);
    let f = w.faucet;
    let v = exec(w, e, vec![ata_ix(&f, owner, mint, program, false)], &[]);
    if v != Verdict::Ok {
        return None;
    }
    let n = format!("{}:{}", w.name(owner), w.name(mint));
    w.names.insert(k, n);
    w.add_tok(k, *mint);
    Some(k)
}

/// Creates a pair (mint, back pointer, escrow, some holders) in setup, through
/// the model engine.
pub fn create_pair(w: &mut World, r: &mut Rng, e: &mut Engine, p: usize, wrap_pct: u64) {
    let q = w.pairs[p].clone();
    let uprog = w.ledger.owner(&q.unwrapped);
    if !is_tp(&uprog) {
        return;
    }
    let f = w.faucet;
    use solana_system_interface::instruction::transfer;
    let v = exec(w, e, vec![
        transfer(&f, &q.wrapped, 1_000_000_000),
        transfer(&f, &q.backptr, 1_000_000_000),
        crate::ops::canon_create(&q, false),
    ], &[]);
    if v != Verdict::Ok {
        return;
    }
    let _ = exec(w, e, vec![ata_ix(&f, &q.auth, &q.unwrapped, &uprog, false)], &[]);
    w.add_tok(q.escrow(&uprog), q.unwrapped);
    let mut owners = w.users.clone();
    for x in w.multis.clone() {
        if x.program == q.wprog && r.pct(60) {
            owners.push(x.key);
        }
    }
    for u in owners {
        if r.pct(85) {
            open_ata(w, e, &u, &q.wrapped, &q.wprog);
        }
    }
    let recyclable = w.mints[q.mint].recyclable;
    for u in w.users.clone() {
        if !recyclable && r.pct(wrap_pct.min(50)) {
            let src = model::ata(&u, &q.unwrapped, &uprog);
            let dst = model::ata(&u, &q.wrapped, &q.wprog);
            let bal = w.amount(&src).unwrap_or(0);
            if bal > 0 && w.amount(&dst).is_some() {
                let amt = r.range(1, bal);
                let ex = w.hook_extras(&q.unwrapped);
                let _ = exec(w, e, vec![crate::ops::canon_wrap(&q, &uprog, &src, &dst, &u, &[], &ex, amt)], &[u]);
            }
        }
    }
}
