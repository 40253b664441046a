//! Runs a Solana program's native (host) build inside the SVM: the syscall
//! boundary is the seam. CPIs, sysvars, return data and logs issued by the
//! program under test land here and go to the runtime of the current
//! transaction.

use {
    solana_account_info::AccountInfo,
    solana_instruction::{error::UNSUPPORTED_SYSVAR, Instruction},
    solana_instruction_error::InstructionError,
    solana_program_error::{ProgramError, ProgramResult},
    solana_program_runtime::{
        invoke_context::InvokeContext,
        serialization::{deserialize_parameters, serialize_parameters},
    },
    solana_pubkey::Pubkey,
    solana_svm_timings::ExecuteTimings,
    std::{
        cell::{Cell, RefCell},
        panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
        sync::Once,
    },
};

pub type Processor = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

/// A fault injected into the program under test while it runs.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CrashPoint {
    None,
    /// The transaction dies when the program issues its n-th CPI (0-based).
    BeforeCpi(u32),
    /// The transaction dies right after its n-th CPI has returned.
    AfterCpi(u32),
}

thread_local! {
    static CTX: Cell<usize> = const { Cell::new(0) };
    static CRASH: Cell<CrashPoint> = const { Cell::new(CrashPoint::None) };
    static CRASH_FIRED: Cell<bool> = const { Cell::new(false) };
    static CPI_COUNT: Cell<u32> = const { Cell::new(0) };
    static QUIET_PANIC: Cell<bool> = const { Cell::new(false) };
    static LOGS: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}

/// Carried by the unwind that models the VM aborting the whole transaction
/// when a CPI fails (or an injected crash hits).
struct VmAbort(InstructionError);

fn ctx<'a>() -> &'a mut InvokeContext<'a, 'a> {
    let p = CTX.with(|c| c.get());
    assert!(p != 0, "invoke context not set");
    unsafe { &mut *(p as *mut InvokeContext<'a, 'a>) }
}

pub fn arm_crash(c: CrashPoint) {
    CRASH.with(|x| x.set(c));
    CRASH_FIRED.with(|x| x.set(false));
    CPI_COUNT.with(|x| x.set(0));
}
pub fn disarm_crash() -> bool {
    CRASH.with(|x| x.set(CrashPoint::None));
    CRASH_FIRED.with(|x| x.replace(false))
}
pub fn cpi_count() -> u32 {
    CPI_COUNT.with(|x| x.get())
}
pub fn start_logs() {
    LOGS.with(|l| *l.borrow_mut() = Some(vec![]));
}
pub fn take_logs() -> Vec<String> {
    LOGS.with(|l| l.borrow_mut().take().unwrap_or_default())
}

fn abort(e: InstructionError) -> ! {
    resume_unwind(Box::new(VmAbort(e)))
}
fn must<T>(r: Result<T, InstructionError>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => abort(e),
    }
}

pub fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        solana_cpi::seam::install(solana_cpi::seam::Seam {
            invoke_signed,
            set_return_data,
            get_return_data,
        });
        solana_msg::seam::install(|m| {
            LOGS.with(|l| {
                if let Some(v) = l.borrow_mut().as_mut() {
                    v.push(m.to_string())
                }
            })
        });
        solana_sysvar::program_stubs::set_syscall_stubs(Box::new(Stubs));
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if !QUIET_PANIC.with(|q| q.get()) {
                prev(info)
            }
        }));
    });
}

struct Stubs;
fn write_sysvar<T: Clone>(r: Result<std::sync::Arc<T>, InstructionError>, p: *mut u8) -> u64 {
    match r {
        Ok(v) => unsafe {
            *(p as *mut T) = (*v).clone();
            0
        },
        Err(_) => UNSUPPORTED_SYSVAR,
    }
}
impl solana_sysvar::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        LOGS.with(|l| {
            if let Some(v) = l.borrow_mut().as_mut() {
                v.push(m.to_string())
            }
        })
    }
    fn sol_invoke_signed(
        &self,
        i: &Instruction,
        a: &[AccountInfo],
        s: &[&[&[u8]]],
    ) -> ProgramResult {
        invoke_signed(i, a, s)
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        write_sysvar(ctx().get_sysvar_cache().get_clock(), p)
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        write_sysvar(ctx().get_sysvar_cache().get_rent(), p)
    }
    fn sol_get_epoch_schedule_sysvar(&self, p: *mut u8) -> u64 {
        write_sysvar(ctx().get_sysvar_cache().get_epoch_schedule(), p)
    }
    fn sol_get_sysvar(&self, id: *const u8, var: *mut u8, offset: u64, length: u64) -> u64 {
        let id = unsafe { *(id as *const [u8; 32]) };
        let buf = ctx()
            .get_sysvar_cache()
            .sysvar_id_to_buffer(&Pubkey::new_from_array(id))
            .clone();
        match buf {
            Some(b) if (offset.saturating_add(length)) as usize <= b.len() => unsafe {
                std::ptr::copy_nonoverlapping(b[offset as usize..].as_ptr(), var, length as usize);
                0
            },
            _ => UNSUPPORTED_SYSVAR,
        }
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        get_return_data()
    }
    fn sol_set_return_data(&self, d: &[u8]) {
        set_return_data(d)
    }
    fn sol_get_stack_height(&self) -> u64 {
        ctx().get_stack_height() as u64
    }
}

fn get_return_data() -> Option<(Pubkey, Vec<u8>)> {
    let (p, d) = ctx().transaction_context.get_return_data();
    if d.is_empty() {
        None
    } else {
        Some((*p, d.to_vec()))
    }
}
fn set_return_data(d: &[u8]) {
    let c = ctx();
    let me = {
        let ic = must(c.transaction_context.get_current_instruction_context());
        *must(ic.get_program_key())
    };
    if d.len() > 1024 {
        abort(InstructionError::ProgramFailedToComplete);
    }
    must(c.transaction_context.set_return_data(me, d.to_vec()));
}

fn invoke_signed(
    instruction: &Instruction,
    infos: &[AccountInfo],
    seeds: &[&[&[u8]]],
) -> ProgramResult {
    let n = CPI_COUNT.with(|x| x.replace(x.get() + 1));
    let crash = CRASH.with(|x| x.get());
    if crash == CrashPoint::BeforeCpi(n) {
        CRASH_FIRED.with(|x| x.set(true));
        abort(InstructionError::ComputationalBudgetExceeded);
    }
    let ic = ctx();
    if ic.consume_checked(1000).is_err() {
        abort(InstructionError::ComputationalBudgetExceeded);
    }
    let caller = {
        let c = must(ic.transaction_context.get_current_instruction_context());
        *must(c.get_program_key())
    };
    let signers: Vec<Pubkey> = seeds
        .iter()
        .map(|s| match Pubkey::create_program_address(s, &caller) {
            Ok(k) => k,
            Err(_) => abort(InstructionError::InvalidSeeds),
        })
        .collect();
    must(ic.prepare_next_instruction(instruction.clone(), &signers));

    // The callee sees what the caller has written so far.
    let mut back = vec![];
    {
        let tc = &ic.transaction_context;
        let cur = must(tc.get_current_instruction_context());
        let next = must(tc.get_next_instruction_context());
        let next_accounts = next.instruction_accounts();
        for (i, ia) in next_accounts.iter().enumerate() {
            if must(next.is_instruction_account_duplicate(i as u16)).is_some() {
                continue;
            }
            let key = *must(tc.get_key_of_account_at_index(ia.index_in_transaction));
            let in_caller = must(cur.get_index_of_account_in_instruction(ia.index_in_transaction));
            let mut acct = must(cur.try_borrow_instruction_account(in_caller));
            let Some(pos) = infos.iter().position(|x| *x.key == key) else {
                #[allow(deprecated)]
                if acct.is_executable() {
                    continue;
                }
                drop(acct);
                abort(InstructionError::MissingAccount);
            };
            let info = &infos[pos];
            let lamports = match info.try_borrow_lamports() {
                Ok(l) => **l,
                Err(_) => abort(InstructionError::AccountBorrowFailed),
            };
            if acct.get_lamports() != lamports {
                must(acct.set_lamports(lamports));
            }
            let data = match info.try_borrow_data() {
                Ok(d) => d,
                Err(_) => abort(InstructionError::AccountBorrowFailed),
            };
            if acct.get_data() != &data[..] {
                must(acct.can_data_be_resized(data.len()));
                must(acct.can_data_be_changed());
                must(acct.set_data_from_slice(&data));
            }
            if acct.get_owner() != info.owner {
                must(acct.set_owner(info.owner.as_ref()));
            }
            if cur.instruction_accounts()[in_caller as usize].is_writable() {
                back.push((ia.index_in_transaction, pos));
            }
        }
    }
    let mut cu = 0;
    // A failing CPI ends the transaction: the VM never returns to the caller.
    must(ic.process_instruction(&mut cu, &mut ExecuteTimings::default()));

    {
        let tc = &ic.transaction_context;
        let cur = must(tc.get_current_instruction_context());
        for (index, pos) in back {
            let in_caller = must(cur.get_index_of_account_in_instruction(index));
            let acct = must(cur.try_borrow_instruction_account(in_caller));
            let info = &infos[pos];
            match info.try_borrow_mut_lamports() {
                Ok(mut l) => **l = acct.get_lamports(),
                Err(_) => abort(InstructionError::AccountBorrowFailed),
            }
            if info.owner != acct.get_owner() {
                // The runtime writes the new owner into the caller's input
                // buffer, which is where `info.owner` points.
                info.assign(acct.get_owner());
            }
            let new = acct.get_data();
            if info.data_len() != new.len() && info.resize(new.len()).is_err() {
                abort(InstructionError::InvalidRealloc);
            }
            match info.try_borrow_mut_data() {
                Ok(mut d) => d.copy_from_slice(new),
                Err(_) => abort(InstructionError::AccountBorrowFailed),
            };
        }
    }
    if crash == CrashPoint::AfterCpi(n) {
        CRASH_FIRED.with(|x| x.set(true));
        abort(InstructionError::ComputationalBudgetExceeded);
    }
    Ok(())
}

/// Body of a builtin that runs `f` on the loader's serialized input, exactly as
/// the BPF loader would, and reads the results back out of that buffer.
pub fn run(f: Processor, ic: &mut InvokeContext) -> Result<(), InstructionError> {
    let prev = CTX.with(|c| c.replace(ic as *mut _ as usize));
    let r = run_inner(f, ic);
    CTX.with(|c| c.set(prev));
    r
}

fn run_inner(f: Processor, ic: &mut InvokeContext) -> Result<(), InstructionError> {
    let (mut mem, _regions, meta, _off) = {
        let c = ic.transaction_context.get_current_instruction_context()?;
        serialize_parameters(&c, false, false, true)?
    };
    let res = {
        let (pid, infos, data) =
            unsafe { solana_program_entrypoint::deserialize(mem.as_slice_mut().as_mut_ptr()) };
        let q = QUIET_PANIC.with(|q| q.replace(true));
        let r = catch_unwind(AssertUnwindSafe(|| f(pid, &infos, data)));
        QUIET_PANIC.with(|x| x.set(q));
        r
    };
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(InstructionError::from(u64::from(e))),
        Err(p) => {
            return Err(match p.downcast::<VmAbort>() {
                Ok(a) => a.0,
                Err(_) => InstructionError::ProgramFailedToComplete,
            })
        }
    }
    let c = ic.transaction_context.get_current_instruction_context()?;
    deserialize_parameters(&c, false, false, mem.as_slice(), &meta)
}

#[allow(unused)]
fn _unused(_: ProgramError) {}
