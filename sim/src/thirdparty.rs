//! Stand-in third-party programs that real deployments meet: a transfer-hook
//! program, and a metadata program answering `Emit`. Their behaviour is driven
//! by account data, so the simulator can change it at any time.

use {
    solana_program_runtime::{declare_process_instruction, invoke_context::InvokeContext},
    solana_instruction::Instruction,
    solana_instruction_error::InstructionError,
    solana_pubkey::Pubkey,
};

pub const HOOK: Pubkey = Pubkey::new_from_array([0x48; 32]);
pub const META1: Pubkey = Pubkey::new_from_array([0x4d; 32]);
pub const META2: Pubkey = Pubkey::new_from_array([0x4e; 32]);

struct Ctx {
    keys: Vec<Pubkey>,
    data: Vec<u8>,
    program: Pubkey,
}
fn ctx(ic: &InvokeContext) -> Result<Ctx, InstructionError> {
    let c = ic.transaction_context.get_current_instruction_context()?;
    let mut keys = vec![];
    for i in 0..c.get_number_of_instruction_accounts() {
        keys.push(*c.get_key_of_instruction_account(i)?);
    }
    Ok(Ctx {
        keys,
        data: c.get_instruction_data().to_vec(),
        program: *c.get_program_key()?,
    })
}
fn read(ic: &InvokeContext, i: u16) -> Result<Vec<u8>, InstructionError> {
    let c = ic.transaction_context.get_current_instruction_context()?;
    let a = c.try_borrow_instruction_account(i)?;
    Ok(a.get_data().to_vec())
}
fn write(ic: &InvokeContext, i: u16, d: &[u8]) -> Result<(), InstructionError> {
    let c = ic.transaction_context.get_current_instruction_context()?;
    let mut a = c.try_borrow_instruction_account(i)?;
    a.set_data_from_slice(d)
}

/// Hook state: [veto u8, pad 7, calls u64, total u64].
pub const HOOK_STATE_LEN: usize = 24;

// Transfer-hook Execute: accounts source, mint, dest, authority, validation,
// then the extra accounts from the validation account: [state (w)].
declare_process_instruction!(HookProgram, 1, |ic| {
    let c = ctx(ic)?;
    if c.data.len() < 16 {
        return Err(InstructionError::InvalidInstructionData);
    }
    let amount = u64::from_le_bytes(c.data[8..16].try_into().unwrap());
    // state account: whichever one we own and can find (absent when the mint
    // has no validation account)
    for i in 4..c.keys.len() as u16 {
        let mine = {
            let cx = ic.transaction_context.get_current_instruction_context()?;
            let a = cx.try_borrow_instruction_account(i)?;
            *a.get_owner() == c.program && a.get_data().len() == HOOK_STATE_LEN
        };
        if mine {
            let mut d = read(ic, i)?;
            if d[0] == 1 {
                return Err(InstructionError::Custom(77));
            }
            if d[0] == 2 {
                // a hostile hook that tries to call back into Token Wrap
                let ix = Instruction {
                    program_id: crate::model::PROGRAM,
                    accounts: vec![],
                    data: vec![3],
                };
                return ic.native_invoke(ix, &[]);
            }
            let calls = u64::from_le_bytes(d[8..16].try_into().unwrap()) + 1;
            let total = u64::from_le_bytes(d[16..24].try_into().unwrap()).wrapping_add(amount);
            d[8..16].copy_from_slice(&calls.to_le_bytes());
            d[16..24].copy_from_slice(&total.to_le_bytes());
            write(ic, i, &d)?;
        }
    }
    Ok(())
});

// Metadata program: account data = [mode u8, payload..].
//  0: return the payload   1: return nothing   2: return the payload truncated
//  3: let the other metadata program return the payload (foreign return data)
//  4: fail
declare_process_instruction!(MetaProgram, 1, |ic| {
    let c = ctx(ic)?;
    if c.keys.is_empty() {
        return Err(InstructionError::MissingAccount);
    }
    let d = read(ic, 0)?;
    if d.is_empty() {
        return Err(InstructionError::InvalidAccountData);
    }
    let payload = d[1..].to_vec();
    if payload.len() > 1024 {
        // what the VM lets a program return
        return Err(InstructionError::ProgramFailedToComplete);
    }
    let forced = c.data.first() == Some(&0xFE);
    match if forced { 0 } else { d[0] } {
        0 => ic.transaction_context.set_return_data(c.program, payload),
        1 => Ok(()),
        2 => ic
            .transaction_context
            .set_return_data(c.program, payload[..payload.len() / 2].to_vec()),
        3 => {
            // the callee has to be one of our accounts; it never is in a
            // genuine Token Wrap call, so speak for it directly
            let other = if c.program == META1 { META2 } else { META1 };
            ic.transaction_context.set_return_data(other, payload)
        }
        _ => Err(InstructionError::Custom(4)),
    }
});
