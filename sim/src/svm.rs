//! A minimal transaction executor over the real Solana program runtime: real
//! system program, real BPF loader, real token programs; the program under test
//! (or the reference model) sits at the Token Wrap address.

use {
    crate::native::{self, CrashPoint},
    agave_feature_set::FeatureSet,
    agave_syscalls::{
        create_program_runtime_environment_v1, create_program_runtime_environment_v2,
    },
    solana_account::{Account, AccountSharedData, ReadableAccount},
    solana_clock::Clock,
    solana_compute_budget::compute_budget::ComputeBudget,
    solana_hash_3::Hash,
    solana_instruction::Instruction,
    solana_instruction_error::InstructionError,
    solana_message::{LegacyMessage, Message, SanitizedMessage},
    solana_program_runtime::{
        invoke_context::{
            BuiltinFunctionWithContext, EnvironmentConfig, InvokeContext,
        },
        loaded_programs::{
            LoadProgramMetrics, ProgramCacheEntry, ProgramCacheForTxBatch,
            ProgramRuntimeEnvironments,
        },
        sysvar_cache::SysvarCache,
    },
    solana_pubkey::Pubkey,
    solana_rent::Rent,
    solana_svm_callback::InvokeContextCallback,
    solana_svm_feature_set::SVMFeatureSet,
    solana_svm_timings::ExecuteTimings,
    solana_svm_transaction::instruction::SVMInstruction,
    solana_transaction_context::{IndexOfAccount, TransactionContext},
    std::{
        collections::{BTreeMap, HashSet},
        sync::{Arc, OnceLock},
    },
};

pub type Accounts = BTreeMap<Pubkey, Account>;

struct NoStake;
impl InvokeContextCallback for NoStake {
    fn get_epoch_stake(&self) -> u64 {
        0
    }
    fn get_epoch_stake_for_vote_account(&self, _: &Pubkey) -> u64 {
        0
    }
    fn is_precompile(&self, _: &Pubkey) -> bool {
        false
    }
}

/// One frame of the executed instruction tree.
#[derive(Clone, Debug)]
pub struct Frame {
    pub depth: usize,
    pub program: Pubkey,
    pub accounts: Vec<(Pubkey, bool, bool)>, // key, signer, writable
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub result: Result<(), (u8, InstructionError)>,
    /// Every account the transaction loaded, as it stands afterwards.
    pub accounts: Vec<(Pubkey, Account, bool)>,
    pub trace: Vec<Frame>,
    pub cu: u64,
    pub cpis: u32,
    pub crashed: bool,
    pub return_data: Vec<u8>,
}

pub mod loader {
    use solana_pubkey::Pubkey;
    pub const V2: Pubkey = solana_sdk_ids::bpf_loader::ID;
    pub const V3: Pubkey = solana_sdk_ids::bpf_loader_upgradeable::ID;
    pub const NATIVE: Pubkey = solana_sdk_ids::native_loader::ID;
}

/// Programs shared by every engine in the process (compiled once).
struct Shared {
    programs: Vec<(Pubkey, Pubkey, Arc<ProgramCacheEntry>)>, // id, loader, entry
    env: ProgramRuntimeEnvironments,
    features: SVMFeatureSet,
    reserved: HashSet<Pubkey>,
}

pub const METAPLEX: Pubkey = mpl_token_metadata::ID;
pub const ATA_PROGRAM: Pubkey = spl_associated_token_account_interface::program::ID;

fn shared() -> &'static Shared {
    static S: OnceLock<Shared> = OnceLock::new();
    S.get_or_init(|| {
        native::install();
        let features = FeatureSet::all_enabled().runtime_features();
        let budget = ComputeBudget::new_with_defaults(true, true).to_budget();
        let env = ProgramRuntimeEnvironments {
            program_runtime_v1: Arc::new(
                create_program_runtime_environment_v1(&features, &budget, false, false).unwrap(),
            ),
            program_runtime_v2: Arc::new(create_program_runtime_environment_v2(&budget, false)),
        };
        let mut programs = vec![];
        let mut elf = |id: Pubkey, loader: Pubkey, bytes: &[u8]| {
            let e = ProgramCacheEntry::new(
                &loader,
                env.program_runtime_v1.clone(),
                0,
                0,
                bytes,
                bytes.len(),
                &mut LoadProgramMetrics::default(),
            )
            .unwrap();
            programs.push((id, loader, Arc::new(e)));
        };
        elf(
            spl_token::ID,
            loader::V2,
            mollusk_svm_programs_token::token::ELF,
        );
        elf(
            spl_token_2022::ID,
            loader::V3,
            include_bytes!("/repo/program/tests/fixtures/spl_token_2022.so"),
        );
        elf(
            ATA_PROGRAM,
            loader::V2,
            mollusk_svm_programs_token::associated_token::ELF,
        );
        elf(
            METAPLEX,
            loader::V3,
            include_bytes!("/repo/program/tests/fixtures/mpl_token_metadata.so"),
        );
        let builtin = |f: BuiltinFunctionWithContext| Arc::new(ProgramCacheEntry::new_builtin(0, 8, f));
        programs.push((
            solana_system_interface::program::ID,
            loader::NATIVE,
            builtin(solana_system_program::system_processor::Entrypoint::vm),
        ));
        programs.push((
            loader::V2,
            loader::NATIVE,
            builtin(solana_bpf_loader_program::Entrypoint::vm),
        ));
        programs.push((
            loader::V3,
            loader::NATIVE,
            builtin(solana_bpf_loader_program::Entrypoint::vm),
        ));
        let reserved = [
            solana_sdk_ids::sysvar::clock::ID,
            solana_sdk_ids::sysvar::rent::ID,
            solana_sdk_ids::sysvar::instructions::ID,
            solana_sdk_ids::sysvar::epoch_schedule::ID,
            solana_sdk_ids::sysvar::ID,
            solana_system_interface::program::ID,
            loader::V2,
            loader::V3,
            loader::NATIVE,
        ]
        .into_iter()
        .collect();
        Shared {
            programs,
            env,
            features,
            reserved,
        }
    })
}

/// The executor: the shared programs plus engine-specific builtins.
pub struct Engine {
    cache: ProgramCacheForTxBatch,
    native_ids: Vec<Pubkey>,
    vm_id: Option<Pubkey>,
}

impl Engine {
    /// The same engine with the program at `id` replaced by a build of it for
    /// the Solana VM.
    pub fn with_elf(mut self, id: Pubkey, bytes: &[u8]) -> Result<Self, String> {
        let s = shared();
        let e = ProgramCacheEntry::new(
            &loader::V3,
            s.env.program_runtime_v1.clone(),
            0,
            0,
            bytes,
            bytes.len(),
            &mut LoadProgramMetrics::default(),
        )
        .map_err(|e| format!("{e:?}"))?;
        self.cache.replenish(id, Arc::new(e));
        self.vm_id = Some(id);
        Ok(self)
    }

    pub fn new(builtins: &[(Pubkey, BuiltinFunctionWithContext)]) -> Self {
        let s = shared();
        let mut cache = ProgramCacheForTxBatch::default();
        for (id, _, e) in &s.programs {
            cache.replenish(*id, e.clone());
        }
        for (id, f) in builtins {
            cache.replenish(*id, Arc::new(ProgramCacheEntry::new_builtin(0, 8, *f)));
        }
        Engine {
            cache,
            native_ids: builtins.iter().map(|b| b.0).collect(),
            vm_id: None,
        }
    }

    /// Accounts of every program this engine can execute.
    pub fn program_accounts(&self) -> Vec<(Pubkey, Account)> {
        let mk = |owner: Pubkey| Account {
            lamports: 1_000_000_000,
            data: vec![1; 36],
            owner,
            executable: true,
            rent_epoch: u64::MAX,
        };
        shared()
            .programs
            .iter()
            .map(|(id, l, _)| (*id, mk(*l)))
            .chain(self.native_ids.iter().map(|id| (*id, mk(loader::NATIVE))))
            .collect()
    }

    pub fn execute_on(
        &mut self,
        instructions: &[Instruction],
        payer: &Pubkey,
        state: &dyn Fn(&Pubkey) -> Option<Account>,
        sysvars: &SysvarCache,
        rent: &Rent,
        cu_limit: u64,
        crash: CrashPoint,
    ) -> Outcome {
        let s = shared();
        let message = Message::new(instructions, Some(payer));
        let message = SanitizedMessage::Legacy(LegacyMessage::new(message, &s.reserved));
        let keys: Vec<Pubkey> = message.account_keys().iter().copied().collect();
        let loaded: Vec<(Pubkey, AccountSharedData)> = keys
            .iter()
            .map(|k| {
                let a = if *k == solana_sdk_ids::sysvar::instructions::ID {
                    Account {
                        lamports: 1,
                        data: vec![0; 8],
                        owner: solana_sdk_ids::sysvar::ID,
                        ..Account::default()
                    }
                } else {
                    let mut a = state(k).unwrap_or_else(|| Account {
                        rent_epoch: u64::MAX,
                        ..Account::default()
                    });
                    if self.vm_id == Some(*k) {
                        a.owner = loader::V3;
                    }
                    a
                };
                (*k, AccountSharedData::from(a))
            })
            .collect();
        let mut budget = ComputeBudget::new_with_defaults(true, true);
        budget.compute_unit_limit = cu_limit;
        let mut tc = TransactionContext::new(
            loaded,
            rent.clone(),
            budget.max_instruction_stack_depth,
            budget.max_instruction_trace_length,
        );
        let callback = NoStake;
        let mut ic = InvokeContext::new(
            &mut tc,
            &mut self.cache,
            EnvironmentConfig::new(
                Hash::default(),
                5000,
                &callback,
                &s.features,
                &s.env,
                &s.env,
                sysvars,
            ),
            None,
            budget.to_budget(),
            budget.to_cost(),
        );
        native::arm_crash(crash);
        let mut result = Ok(());
        let mut cu = 0;
        for (i, (_, cix)) in message.program_instructions_iter().enumerate() {
            let r = ic
                .prepare_next_top_level_instruction(
                    &message,
                    &SVMInstruction::from(cix),
                    cix.program_id_index as IndexOfAccount,
                    &cix.data,
                )
                .and_then(|_| {
                    let mut c = 0;
                    let r = ic.process_instruction(&mut c, &mut ExecuteTimings::default());
                    cu += c;
                    r
                });
            if let Err(e) = r {
                result = Err((i as u8, e));
                break;
            }
        }
        drop(ic);
        let cpis = native::cpi_count();
        let crashed = native::disarm_crash();
        let return_data = tc.get_return_data().1.to_vec();
        let trace = tc
            .take_instruction_trace()
            .into_iter()
            .filter(|f| (f.program_account_index_in_tx as usize) < keys.len())
            .map(|f| Frame {
                depth: f.nesting_level,
                program: keys[f.program_account_index_in_tx as usize],
                accounts: f
                    .instruction_accounts
                    .iter()
                    .map(|a| {
                        (
                            keys[a.index_in_transaction as usize],
                            a.is_signer(),
                            a.is_writable(),
                        )
                    })
                    .collect(),
                data: f.instruction_data.to_vec(),
            })
            .collect();
        let accounts = keys
            .iter()
            .enumerate()
            .map(|(i, k)| {
                let a = tc.accounts().try_borrow(i as IndexOfAccount).unwrap();
                (
                    *k,
                    Account {
                        lamports: a.lamports(),
                        data: a.data().to_vec(),
                        owner: *a.owner(),
                        executable: a.executable(),
                        rent_epoch: a.rent_epoch(),
                    },
                    message.is_writable(i),
                )
            })
            .collect();
        Outcome {
            result,
            accounts,
            trace,
            cu,
            cpis,
            crashed,
            return_data,
        }
    }
}

/// Sysvar cache for a given clock.
pub fn sysvars(clock: &Clock, rent: &Rent) -> SysvarCache {
    let mut c = SysvarCache::default();
    c.set_sysvar_for_tests(clock);
    c.set_sysvar_for_tests(rent);
    c.set_sysvar_for_tests(&solana_epoch_schedule::EpochSchedule::without_warmup());
    c
}
