//! A one-node ledger around the executor: fees, signatures, rent states, the
//! clock, atomic commit.

use {
    crate::{
        native::CrashPoint,
        svm::{Accounts, Engine, Outcome},
    },
    solana_account::Account,
    solana_clock::Clock,
    solana_instruction::Instruction,
    solana_pubkey::Pubkey,
    solana_rent::Rent,
    std::collections::BTreeSet,
};

pub const SLOTS_PER_EPOCH: u64 = 432_000;

#[derive(Clone, Debug)]
pub struct Tx {
    pub ixs: Vec<Instruction>,
    pub payer: Pubkey,
    /// Keys whose private key actually signed.
    pub signers: Vec<Pubkey>,
    pub crash: CrashPoint,
    pub cu_limit: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    /// Executed and committed.
    Ok,
    /// Executed, failed, rolled back (only the fee was charged).
    Failed { ix: u8, err: String },
    /// Never executed (bad signature, cannot pay the fee).
    Rejected(&'static str),
}

#[derive(Clone)]
pub struct Ledger {
    pub accounts: Accounts,
    pub slot: u64,
    pub rent: Rent,
}

pub struct Executed {
    pub verdict: Verdict,
    pub outcome: Option<Outcome>,
}

/// Cluster rent at a rate of lamports per byte and year.
#[allow(deprecated)]
pub fn rent(rate: u64) -> Rent {
    Rent { lamports_per_byte_year: rate, ..Rent::default() }
}

impl Ledger {
    #[allow(deprecated)]
    pub fn rate(&self) -> u64 {
        self.rent.lamports_per_byte_year
    }
    /// Sets the rent, in its sysvar account too.
    pub fn set_rate(&mut self, rate: u64) {
        self.rent = rent(rate);
        self.put(solana_sdk_ids::sysvar::rent::ID, Account {
            lamports: 1_009_200,
            data: bincode::serialize(&self.rent).unwrap(),
            owner: solana_sdk_ids::sysvar::ID,
            executable: false,
            rent_epoch: u64::MAX,
        });
    }
    pub fn clock(&self) -> Clock {
        Clock {
            slot: self.slot,
            epoch: self.slot / SLOTS_PER_EPOCH,
            leader_schedule_epoch: self.slot / SLOTS_PER_EPOCH + 1,
            unix_timestamp: 1_700_000_000 + (self.slot as i64 * 2) / 5,
            epoch_start_timestamp: 1_700_000_000,
        }
    }
    pub fn get(&self, k: &Pubkey) -> Option<&Account> {
        self.accounts.get(k)
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        self.accounts.get(k).map_or(&[], |a| &a.data)
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accounts.get(k).map_or(0, |a| a.lamports)
    }
    pub fn owner(&self, k: &Pubkey) -> Pubkey {
        self.accounts.get(k).map_or(Pubkey::default(), |a| a.owner)
    }
    pub fn put(&mut self, k: Pubkey, a: Account) {
        if a.lamports == 0 {
            self.accounts.remove(&k);
        } else {
            self.accounts.insert(k, a);
        }
    }

    /// Checks that happen before execution.
    pub fn admissible(&self, tx: &Tx) -> Result<u64, &'static str> {
        let mut need: BTreeSet<Pubkey> = BTreeSet::new();
        need.insert(tx.payer);
        for i in &tx.ixs {
            for m in &i.accounts {
                if m.is_signer {
                    need.insert(m.pubkey);
                }
            }
        }
        if need.iter().any(|k| !tx.signers.contains(k)) {
            return Err("signature missing");
        }
        let fee = 5000 * need.len() as u64;
        match self.accounts.get(&tx.payer) {
            Some(a) if a.owner == Pubkey::default() && a.lamports >= fee + 890_880 => Ok(fee),
            _ => Err("payer cannot pay"),
        }
    }

    /// Executes without committing.
    pub fn run(&self, engine: &mut Engine, tx: &Tx) -> Executed {
        let fee = match self.admissible(tx) {
            Ok(f) => f,
            Err(e) => {
                return Executed {
                    verdict: Verdict::Rejected(e),
                    outcome: None,
                }
            }
        };
        let sv = crate::svm::sysvars(&self.clock(), &self.rent);
        let mut view = None;
        // the fee is charged first
        let accounts = {
            let mut v = self.accounts.get(&tx.payer).unwrap().clone();
            v.lamports -= fee;
            view.replace(v);
            Overlay {
                base: &self.accounts,
                key: tx.payer,
                acct: view.unwrap(),
            }
        };
        let mut o = engine.execute_on(
            &tx.ixs,
            &tx.payer,
            &|k| accounts.get(k).cloned(),
            &sv,
            &self.rent,
            tx.cu_limit,
            tx.crash,
        );
        let mut verdict = match &o.result {
            Ok(()) => Verdict::Ok,
            Err((ix, e)) => Verdict::Failed {
                ix: *ix,
                err: format!("{e:?}"),
            },
        };
        if verdict == Verdict::Ok {
            // rent states: nothing may end up below its rent-exempt minimum
            for (k, a, w) in &o.accounts {
                if *w
                    && a.lamports > 0
                    && a.lamports < self.rent.minimum_balance(a.data.len())
                {
                    let before = accounts.get(k);
                    let same = before
                        .is_some_and(|b| b.lamports >= a.lamports && b.data.len() == a.data.len()
                            && b.lamports < self.rent.minimum_balance(b.data.len()));
                    if !same {
                        verdict = Verdict::Failed {
                            ix: 255,
                            err: "InsufficientFundsForRent".into(),
                        };
                        break;
                    }
                }
            }
        }
        if verdict != Verdict::Ok {
            // roll back: only the fee survives
            o.accounts = vec![(tx.payer, accounts.acct.clone(), true)];
        }
        Executed {
            verdict,
            outcome: Some(o),
        }
    }

    pub fn commit(&mut self, ex: &Executed) {
        if let Some(o) = &ex.outcome {
            for (k, a, w) in &o.accounts {
                if *w && *k != solana_sdk_ids::sysvar::instructions::ID {
                    self.put(*k, a.clone());
                }
            }
        }
    }
}

struct Overlay<'a> {
    base: &'a Accounts,
    key: Pubkey,
    acct: Account,
}
impl Overlay<'_> {
    fn get(&self, k: &Pubkey) -> Option<&Account> {
        if *k == self.key {
            Some(&self.acct)
        } else {
            self.base.get(k)
        }
    }
}
