//! The reference model: a small, independent statement of what each Token Wrap
//! request must do, written against the documentation. It runs at the program's
//! address in a second executor, against the same real token programs, so that
//! the only difference between the two executions is Token Wrap itself.

use {
    mpl_token_metadata::{
        accounts::Metadata,
        instructions::{
            CreateMetadataAccountV3Builder, UpdateMetadataAccountV2Builder,
        },
        types::{Collection, Creator, DataV2, Uses},
    },
    solana_account_info::AccountInfo,
    solana_cpi::{get_return_data, invoke, invoke_signed},
    solana_program_error::{ProgramError, ProgramResult},
    solana_program_pack::Pack,
    solana_pubkey::Pubkey,
    solana_sysvar::Sysvar,
    spl_token_2022_interface::{
        extension::{
            self, metadata_pointer::MetadataPointer, transfer_fee::TransferFeeConfig,
            BaseStateWithExtensions, ExtensionType, StateWithExtensions,
        },
        state::{Account as TokenAccount, AccountState, Mint},
    },
    spl_token_metadata_interface::{
        instruction as tmi,
        state::{Field, TokenMetadata},
    },
    spl_type_length_value::variable_len_pack::VariableLenPack,
    std::collections::BTreeMap,
};

pub const SPL: Pubkey = spl_token::ID;
pub const T22: Pubkey = spl_token_2022::ID;
const NO: ProgramError = ProgramError::Custom(0xdead);

/// Which shipped mint customizer this deployment was built with.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Variant {
    Default,
    NoExtension,
    Compliance,
}

// ---- addresses (re-derived here, not taken from the library) ----

thread_local! {
    static FOUND: std::cell::RefCell<std::collections::BTreeMap<Vec<u8>, (Pubkey, u8)>> = Default::default();
}
/// Derived addresses, remembered for the thread (one run).
fn find(seeds: &[&[u8]], program: &Pubkey) -> (Pubkey, u8) {
    let mut k = program.to_bytes().to_vec();
    for s in seeds {
        k.push(s.len() as u8);
        k.extend_from_slice(s);
    }
    FOUND.with(|f| *f.borrow_mut().entry(k).or_insert_with(|| Pubkey::find_program_address(seeds, program)))
}
pub fn pda(seeds: &[&[u8]]) -> (Pubkey, u8) {
    find(seeds, &PROGRAM)
}
pub const PROGRAM: Pubkey =
    Pubkey::from_str_const("TwRapQCDhWkZRrDaHfZGuHxkZ91gHDRkyuzNqeU5MgR");
pub fn wrapped_mint(unwrapped: &Pubkey, wrapped_program: &Pubkey) -> (Pubkey, u8) {
    pda(&[b"mint", unwrapped.as_ref(), wrapped_program.as_ref()])
}
pub fn authority(wrapped: &Pubkey) -> (Pubkey, u8) {
    pda(&[b"authority", wrapped.as_ref()])
}
pub fn backpointer(wrapped: &Pubkey) -> (Pubkey, u8) {
    pda(&[b"backpointer", wrapped.as_ref()])
}
pub fn pointer(unwrapped: &Pubkey) -> (Pubkey, u8) {
    pda(&[b"canonical_pointer", unwrapped.as_ref()])
}
pub fn ata(owner: &Pubkey, mint: &Pubkey, program: &Pubkey) -> Pubkey {
    find(
        &[owner.as_ref(), program.as_ref(), mint.as_ref()],
        &crate::svm::ATA_PROGRAM,
    )
    .0
}
pub fn metaplex_pda(mint: &Pubkey) -> Pubkey {
    find(
        &[b"metadata", crate::svm::METAPLEX.as_ref(), mint.as_ref()],
        &crate::svm::METAPLEX,
    )
    .0
}

fn need(c: bool) -> ProgramResult {
    if c {
        Ok(())
    } else {
        Err(NO)
    }
}
fn is_token_program(k: &Pubkey) -> bool {
    *k == SPL || *k == T22
}

pub fn process_default(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    process(Variant::Default, p, a, d)
}
pub fn process_noext(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    process(Variant::NoExtension, p, a, d)
}
pub fn process_compliance(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    process(Variant::Compliance, p, a, d)
}

fn process(v: Variant, _program: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    match (d.first(), d.len()) {
        (Some(0), 2) if d[1] < 2 => create_mint(v, a, d[1] == 1),
        (Some(1), 9) => wrap(a, u64::from_le_bytes(d[1..].try_into().unwrap())),
        (Some(2), 9) => unwrap(a, u64::from_le_bytes(d[1..].try_into().unwrap())),
        (Some(3), 1) => close_stuck(a),
        (Some(4), 1) => sync_t22(a),
        (Some(5), 1) => sync_spl(a),
        (Some(6), 33) => set_pointer(a, &d[1..]),
        _ => Err(NO),
    }
}

fn arg<'a, 'b>(a: &'b [AccountInfo<'a>], i: usize) -> Result<&'b AccountInfo<'a>, ProgramError> {
    a.get(i).ok_or(NO)
}

/// Turns a pre-funded, data-less PDA into an account of `owner`.
fn claim(acct: &AccountInfo, space: usize, owner: &Pubkey, seeds: &[&[u8]]) -> ProgramResult {
    need(acct.lamports() >= solana_rent::Rent::get()?.minimum_balance(space))?;
    use solana_system_interface::instruction as sys;
    invoke_signed(&sys::allocate(acct.key, space as u64), &[acct.clone()], &[seeds])?;
    invoke_signed(&sys::assign(acct.key, owner), &[acct.clone()], &[seeds])
}

pub mod compliance {
    use solana_pubkey::Pubkey;
    pub const DELEGATE: Pubkey =
        Pubkey::from_str_const("deLpBmD7UP27BHTuhnxR7mBE9rEV6mWUnwWsXMXTFwR");
    pub const CT: Pubkey = Pubkey::from_str_const("con2YXp7bKscyhzJzbSQgwz6RFcXqe6otUGK5Rr8saK");
    pub const FREEZE: Pubkey =
        Pubkey::from_str_const("freTRAXwCVELv5k7V6UobnCiG1hmhnj79AezxRwAR3h");
    pub const PAUSE: Pubkey =
        Pubkey::from_str_const("pauySfjziLCpPMoaeFsWgvBCe7ygHKr6wXCyvTNZyGv");
    pub const AUDITOR: &str = "yonKhqkoXNvMbN/tU6fjHFhfZuNPpvMj8L55aP2bBG4=";
}

fn create_mint(v: Variant, a: &[AccountInfo], idempotent: bool) -> ProgramResult {
    let (wm, bp, um, wprog) = (arg(a, 0)?, arg(a, 1)?, arg(a, 2)?, arg(a, 4)?);
    let (wm_key, wm_bump) = wrapped_mint(um.key, wprog.key);
    let (bp_key, bp_bump) = backpointer(&wm_key);
    need(*wm.key == wm_key && *bp.key == bp_key && is_token_program(um.owner))?;

    if !wm.data_is_empty() || !bp.data_is_empty() {
        // already there: only an idempotent request on genuine accounts is fine
        return need(idempotent && wm.owner == wprog.key && *bp.owner == PROGRAM);
    }
    need(is_token_program(wprog.key))?;

    let (decimals, freeze) = {
        let d = um.try_borrow_data()?;
        let m = StateWithExtensions::<Mint>::unpack(&d)?;
        (m.base.decimals, Option::<Pubkey>::from(m.base.freeze_authority))
    };
    let freeze = match v {
        Variant::Compliance => Some(compliance::FREEZE),
        _ => freeze,
    };
    let t22 = *wprog.key == T22;
    let exts: &[ExtensionType] = match (t22, v) {
        (false, _) | (true, Variant::NoExtension) => &[],
        (true, Variant::Default) => {
            &[ExtensionType::ConfidentialTransferMint, ExtensionType::MetadataPointer]
        }
        (true, Variant::Compliance) => &[
            ExtensionType::PermanentDelegate,
            ExtensionType::ConfidentialTransferMint,
            ExtensionType::DefaultAccountState,
            ExtensionType::Pausable,
        ],
    };
    let space = if t22 {
        ExtensionType::try_calculate_account_len::<Mint>(exts)?
    } else {
        spl_token_interface::state::Mint::LEN
    };
    claim(wm, space, wprog.key, &[b"mint", um.key.as_ref(), wprog.key.as_ref(), &[wm_bump]])?;
    let auth = authority(&wm_key).0;
    for e in exts {
        let ix = match e {
            ExtensionType::ConfidentialTransferMint => {
                let (ct, auditor) = match v {
                    Variant::Compliance => (
                        Some(compliance::CT),
                        Some(std::str::FromStr::from_str(compliance::AUDITOR).map_err(|_| NO)?),
                    ),
                    _ => (None, None),
                };
                extension::confidential_transfer::instruction::initialize_mint(
                    &T22, &wm_key, ct, true, auditor,
                )?
            }
            ExtensionType::MetadataPointer => extension::metadata_pointer::instruction::initialize(
                &T22,
                &wm_key,
                Some(auth),
                Some(wm_key),
            )?,
            ExtensionType::PermanentDelegate => {
                spl_token_2022_interface::instruction::initialize_permanent_delegate(
                    &T22,
                    &wm_key,
                    &compliance::DELEGATE,
                )?
            }
            ExtensionType::DefaultAccountState => {
                extension::default_account_state::instruction::initialize_default_account_state(
                    &T22,
                    &wm_key,
                    &AccountState::Initialized,
                )?
            }
            _ => extension::pausable::instruction::initialize(&T22, &wm_key, &compliance::PAUSE)?,
        };
        invoke(&ix, &[wm.clone()])?;
    }
    let ix = spl_token_2022_interface::instruction::initialize_mint2(
        wprog.key,
        &wm_key,
        &auth,
        freeze.as_ref(),
        decimals,
    )?;
    invoke(&ix, &[wm.clone()])?;
    claim(bp, 32, &PROGRAM, &[b"backpointer", wm_key.as_ref(), &[bp_bump]])?;
    bp.try_borrow_mut_data()?.copy_from_slice(um.key.as_ref());
    Ok(())
}

/// Fee the mint charges on a transfer of `amount` in the current epoch.
fn current_fee(mint: &AccountInfo, amount: u64) -> Result<(u64, u8), ProgramError> {
    let d = mint.try_borrow_data()?;
    let m = StateWithExtensions::<Mint>::unpack(&d)?;
    let epoch = solana_clock::Clock::get()?.epoch;
    let fee = match m.get_extension::<TransferFeeConfig>() {
        Ok(c) => {
            let f = if epoch >= u64::from(c.newer_transfer_fee.epoch) {
                c.newer_transfer_fee
            } else {
                c.older_transfer_fee
            };
            let bps = u16::from(f.transfer_fee_basis_points) as u128;
            let raw = (amount as u128 * bps).div_ceil(10_000);
            (raw.min(u64::from(f.maximum_fee) as u128)) as u64
        }
        Err(_) => 0,
    };
    Ok((fee, m.base.decimals))
}

/// Signers the token program must see when `who` is a multisig.
fn members<'a, 'b>(
    who: &AccountInfo<'a>,
    extra: &'b [AccountInfo<'a>],
) -> Option<Vec<&'b AccountInfo<'a>>> {
    use spl_token_2022_interface::{pod::PodMultisig, state::PackedSizeOf};
    if !is_token_program(who.owner) || who.data_len() != PodMultisig::SIZE_OF {
        return None;
    }
    let d = who.try_borrow_data().ok()?;
    let n = d[1] as usize;
    let keys: Vec<&[u8]> = d[3..3 + 32 * n.min(11)].chunks(32).collect();
    Some(extra.iter().filter(|x| keys.contains(&x.key.as_ref())).collect())
}

fn derive_pair(
    um: &AccountInfo,
    wprog: &Pubkey,
    wm: &AccountInfo,
    auth: &AccountInfo,
) -> Result<u8, ProgramError> {
    need(*wm.key == wrapped_mint(um.key, wprog).0)?;
    let (k, bump) = authority(wm.key);
    need(*auth.key == k)?;
    Ok(bump)
}

fn wrap(a: &[AccountInfo], amount: u64) -> ProgramResult {
    need(amount > 0 && a.len() >= 9)?;
    let [recipient, wm, auth, uprog, wprog, source, um, escrow, who] = [0, 1, 2, 3, 4, 5, 6, 7, 8]
        .map(|i| &a[i]);
    let bump = derive_pair(um, wprog.key, wm, auth)?;
    need(*escrow.key == ata(auth.key, um.key, uprog.key))?;
    {
        let d = escrow.try_borrow_data()?;
        let s = StateWithExtensions::<TokenAccount>::unpack(&d)?;
        need(s.base.owner == *auth.key)?;
        // what goes in must be able to come out
        need(s.get_extension::<extension::non_transferable::NonTransferableAccount>().is_err())?;
    }
    let (fee, decimals) = current_fee(um, amount)?;
    let net = amount.checked_sub(fee).ok_or(NO)?;
    // The mint is lent out for the duration of the transfer in the shipped
    // program as well; it is read-only.
    spl_token_2022::onchain::invoke_transfer_checked(
        uprog.key,
        source.clone(),
        um.clone(),
        escrow.clone(),
        who.clone(),
        &a[9..],
        amount,
        decimals,
        &[],
    )?;
    let mut mint_to = spl_token_2022_interface::instruction::mint_to(
        wprog.key,
        wm.key,
        recipient.key,
        auth.key,
        &[],
        net,
    )?;
    mint_to.program_id = *wprog.key;
    invoke_signed(
        &mint_to,
        &[wm.clone(), recipient.clone(), auth.clone()],
        &[&[b"authority", wm.key.as_ref(), &[bump]]],
    )
}

fn unwrap(a: &[AccountInfo], amount: u64) -> ProgramResult {
    need(amount > 0 && a.len() >= 9)?;
    let [escrow, recipient, auth, um, wprog, uprog, holder, wm, who] = [0, 1, 2, 3, 4, 5, 6, 7, 8]
        .map(|i| &a[i]);
    let bump = derive_pair(um, wprog.key, wm, auth)?;
    need(*escrow.key == ata(auth.key, um.key, uprog.key))?;
    let signers = members(who, &a[9..]).unwrap_or_default();
    let keys: Vec<&Pubkey> = signers.iter().map(|s| s.key).collect();
    let burn = spl_token_2022_interface::instruction::burn(
        wprog.key, holder.key, wm.key, who.key, &keys, amount,
    )?;
    invoke(&burn, &a[6..])?;
    let decimals = current_fee(um, amount)?.1;
    spl_token_2022::onchain::invoke_transfer_checked(
        uprog.key,
        escrow.clone(),
        um.clone(),
        recipient.clone(),
        auth.clone(),
        &a[9..],
        amount,
        decimals,
        &[&[b"authority", wm.key.as_ref(), &[bump]]],
    )
}

fn close_stuck(a: &[AccountInfo]) -> ProgramResult {
    need(a.len() >= 6)?;
    let [escrow, dest, um, wm, auth] = [0, 1, 2, 3, 4].map(|i| &a[i]);
    need(*escrow.owner == T22 && *um.owner == T22)?;
    let bump = derive_pair(um, wm.owner, wm, auth)?;
    need(*escrow.key == ata(auth.key, um.key, &T22))?;
    {
        let d = escrow.try_borrow_data()?;
        let e = StateWithExtensions::<TokenAccount>::unpack(&d)?;
        need(
            e.base.owner == *auth.key
                && e.base.amount == 0
                && e.base.state == AccountState::Initialized,
        )?;
        let md = um.try_borrow_data()?;
        let m = StateWithExtensions::<Mint>::unpack(&md)?;
        let mut wanted: Vec<u16> =
            { #[allow(deprecated)] ExtensionType::get_required_init_account_extensions(&m.get_extension_types()?) }
                .into_iter()
                .chain([ExtensionType::ImmutableOwner])
                .map(|x| x as u16)
                .collect();
        let mut have: Vec<u16> = e.get_extension_types()?.into_iter().map(|x| x as u16).collect();
        wanted.sort();
        wanted.dedup();
        have.sort();
        need(wanted != have)?;
    }
    invoke_signed(
        &spl_token_2022_interface::instruction::close_account(
            &T22,
            escrow.key,
            dest.key,
            auth.key,
            &[],
        )?,
        &[escrow.clone(), dest.clone(), auth.clone()],
        &[&[b"authority", wm.key.as_ref(), &[bump]]],
    )
}

// ---- metadata ----

/// Content a wrapped mint must mirror.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Content {
    pub name: String,
    pub symbol: String,
    pub uri: String,
    /// In source order; a repeated key counts with its last value.
    pub fields: Vec<(String, String)>,
}

pub fn content_of_metaplex(raw: &[u8]) -> Option<Content> {
    let m = Metadata::safe_deserialize(raw).ok()?;
    fn js<T: serde::Serialize>(v: &T) -> Option<String> {
        serde_json::to_string(v).ok()
    }
    let mut f: Vec<(&str, String)> = vec![
        ("key", js(&m.key)?),
        ("seller_fee_basis_points", format!("{}", m.seller_fee_basis_points)),
        ("primary_sale_happened", format!("{}", m.primary_sale_happened)),
        ("is_mutable", format!("{}", m.is_mutable)),
    ];
    if let Some(c) = m.creators.as_ref().filter(|c| !c.is_empty()) {
        let unverified: Vec<Creator> = c
            .iter()
            .map(|c| Creator { verified: false, address: c.address, share: c.share })
            .collect();
        f.push(("creators", js(&unverified)?));
    }
    if let Some(n) = m.edition_nonce {
        f.push(("edition_nonce", format!("{n}")));
    }
    if let Some(x) = &m.token_standard {
        f.push(("token_standard", js(x)?));
    }
    if let Some(x) = &m.collection {
        f.push(("collection", js(x)?));
    }
    if let Some(x) = &m.uses {
        f.push(("uses", js(x)?));
    }
    if let Some(x) = &m.collection_details {
        f.push(("collection_details", js(x)?));
    }
    if let Some(x) = &m.programmable_config {
        f.push(("programmable_config", js(x)?));
    }
    Some(Content {
        name: m.name,
        symbol: m.symbol,
        uri: m.uri,
        fields: f.into_iter().map(|(k, v)| (k.to_string(), v)).collect(),
    })
}
pub fn content_of_t22(m: TokenMetadata) -> Content {
    Content { name: m.name, symbol: m.symbol, uri: m.uri, fields: m.additional_metadata }
}

fn source_content(
    um: &AccountInfo,
    src: Option<&AccountInfo>,
    owner_prog: Option<&AccountInfo>,
) -> Result<Content, ProgramError> {
    let own_metaplex = || {
        let s = src.ok_or(NO)?;
        need(*s.owner == crate::svm::METAPLEX && *s.key == metaplex_pda(um.key))?;
        content_of_metaplex(&s.try_borrow_data()?).ok_or(NO)
    };
    if *um.owner == SPL {
        return own_metaplex();
    }
    need(*um.owner == T22)?;
    let named = {
        let d = um.try_borrow_data()?;
        let m = StateWithExtensions::<Mint>::unpack(&d)?;
        let Ok(p) = m.get_extension::<MetadataPointer>() else {
            return own_metaplex();
        };
        let named = Option::<Pubkey>::from(p.metadata_address).ok_or(NO)?;
        if named == *um.key {
            return Ok(content_of_t22(m.get_variable_len_extension::<TokenMetadata>()?));
        }
        named
    };
    let s = src.ok_or(NO)?;
    need(*s.key == named && *s.owner != T22)?;
    if *s.owner == crate::svm::METAPLEX {
        return content_of_metaplex(&s.try_borrow_data()?).ok_or(NO);
    }
    let prog = owner_prog.ok_or(NO)?;
    need(prog.key == s.owner)?;
    invoke(&tmi::emit(prog.key, s.key, None, None), &[s.clone()])?;
    match get_return_data() {
        Some((p, data)) if p == *prog.key => {
            Ok(content_of_t22(TokenMetadata::unpack_from_slice(&data)?))
        }
        _ => Err(NO),
    }
}

fn sync_t22(a: &[AccountInfo]) -> ProgramResult {
    need(a.len() >= 4)?;
    let [wm, auth, um, prog] = [0, 1, 2, 3].map(|i| &a[i]);
    need(*prog.key == T22 && *wm.owner == T22)?;
    let bump = derive_pair(um, &T22, wm, auth)?;
    let want = source_content(um, a.get(4), a.get(5))?;
    let seeds: &[&[u8]] = &[b"authority", wm.key.as_ref(), &[bump]];
    let infos = [wm.clone(), auth.clone()];
    let set = |f: Field, v: &str| {
        invoke_signed(
            &tmi::update_field(&T22, wm.key, auth.key, f, v.to_string()),
            &infos,
            &[seeds],
        )
    };
    let have = {
        let d = wm.try_borrow_data()?;
        StateWithExtensions::<Mint>::unpack(&d)?
            .get_variable_len_extension::<TokenMetadata>()
            .ok()
    };
    let old: BTreeMap<String, String> = match have {
        None => {
            invoke_signed(
                &tmi::initialize(
                    &T22,
                    wm.key,
                    auth.key,
                    wm.key,
                    auth.key,
                    want.name.clone(),
                    want.symbol.clone(),
                    want.uri.clone(),
                ),
                &infos,
                &[seeds],
            )?;
            BTreeMap::new()
        }
        Some(h) => {
            for (f, now, new) in [
                (Field::Name, &h.name, &want.name),
                (Field::Symbol, &h.symbol, &want.symbol),
                (Field::Uri, &h.uri, &want.uri),
            ] {
                if now != new {
                    set(f, new)?;
                }
            }
            h.additional_metadata.into_iter().collect()
        }
    };
    let mut last: BTreeMap<&str, &str> = BTreeMap::new();
    let mut order: Vec<&str> = vec![];
    for (k, v) in &want.fields {
        if last.insert(k, v).is_none() {
            order.push(k);
        }
    }
    for k in &order {
        if old.get(*k).map(|s| s.as_str()) != Some(last[k]) {
            set(Field::Key(k.to_string()), last[k])?;
        }
    }
    for k in old.keys().filter(|k| !last.contains_key(k.as_str())) {
        invoke_signed(
            &tmi::remove_key(&T22, wm.key, auth.key, k.clone(), false),
            &infos,
            &[seeds],
        )?;
    }
    Ok(())
}

/// Metaplex view of some content.
pub fn to_metaplex(c: &Content) -> Option<DataV2> {
    let get = |k: &str| c.fields.iter().rev().find(|f| f.0 == k).map(|f| f.1.as_str());
    // every occurrence must parse
    for (k, v) in &c.fields {
        let ok = match k.as_str() {
            "creators" => serde_json::from_str::<Vec<Creator>>(v).is_ok(),
            "seller_fee_basis_points" => v.parse::<u16>().is_ok(),
            "collection" => serde_json::from_str::<Collection>(v).is_ok(),
            "uses" => serde_json::from_str::<Uses>(v).is_ok(),
            _ => true,
        };
        if !ok {
            return None;
        }
    }
    Some(DataV2 {
        name: c.name.clone(),
        symbol: c.symbol.clone(),
        uri: c.uri.clone(),
        seller_fee_basis_points: get("seller_fee_basis_points").map_or(0, |v| v.parse().unwrap()),
        creators: get("creators").map(|v| {
            let mut cs: Vec<Creator> = serde_json::from_str(v).unwrap();
            cs.iter_mut().for_each(|c| c.verified = false);
            cs
        }),
        collection: get("collection").map(|v| {
            let c: Collection = serde_json::from_str(v).unwrap();
            Collection { verified: false, key: c.key }
        }),
        uses: get("uses").map(|v| serde_json::from_str(v).unwrap()),
    })
}

fn sync_spl(a: &[AccountInfo]) -> ProgramResult {
    need(a.len() >= 7)?;
    let [meta, auth, wm, um, mpl, system, rent] = [0, 1, 2, 3, 4, 5, 6].map(|i| &a[i]);
    need(*wm.owner == SPL)?;
    let bump = derive_pair(um, &SPL, wm, auth)?;
    need(*meta.key == metaplex_pda(wm.key) && *mpl.key == crate::svm::METAPLEX)?;
    let want = source_content(um, a.get(7), a.get(8))?;
    let mut data = to_metaplex(&want).ok_or(NO)?;
    // Nobody's verification is carried over from the source, and what creators
    // and collection have vouched for on the wrapped mint itself stays.
    let own = { Metadata::safe_deserialize(&meta.try_borrow_data()?).ok() };
    if let Some(own) = own {
        let vouched: Vec<Pubkey> = own.creators.unwrap_or_default().into_iter()
            .filter(|c| c.verified).map(|c| c.address).collect();
        for c in data.creators.iter_mut().flatten() {
            c.verified = vouched.contains(&c.address);
        }
        if let (Some(c), Some(o)) = (&mut data.collection, own.collection) {
            c.verified = o.verified && o.key == c.key;
        }
    }
    let seeds: &[&[u8]] = &[b"authority", wm.key.as_ref(), &[bump]];
    if meta.data_is_empty() {
        let ix = CreateMetadataAccountV3Builder::new()
            .metadata(*meta.key)
            .mint(*wm.key)
            .mint_authority(*auth.key)
            .payer(*auth.key)
            .update_authority(*auth.key, true)
            .system_program(*system.key)
            .rent(Some(*rent.key))
            .data(data)
            .is_mutable(true)
            .instruction();
        invoke_signed(
            &ix,
            &[meta.clone(), wm.clone(), auth.clone(), system.clone(), rent.clone()],
            &[seeds],
        )
    } else {
        let ix = UpdateMetadataAccountV2Builder::new()
            .metadata(*meta.key)
            .update_authority(*auth.key)
            .data(data)
            .instruction();
        invoke_signed(&ix, &[meta.clone(), auth.clone()], &[seeds])
    }
}

fn set_pointer(a: &[AccountInfo], new: &[u8]) -> ProgramResult {
    need(a.len() >= 4)?;
    let [who, ptr, um] = [0, 1, 2].map(|i| &a[i]);
    need(who.is_signer && is_token_program(um.owner))?;
    let current = {
        let d = um.try_borrow_data()?;
        StateWithExtensions::<Mint>::unpack(&d)?.base.mint_authority
    };
    need(Option::<Pubkey>::from(current) == Some(*who.key))?;
    let (k, bump) = pointer(um.key);
    need(*ptr.key == k)?;
    if ptr.data_is_empty() {
        claim(ptr, 32, &PROGRAM, &[b"canonical_pointer", um.key.as_ref(), &[bump]])?;
    }
    ptr.try_borrow_mut_data()?.copy_from_slice(new);
    Ok(())
}
