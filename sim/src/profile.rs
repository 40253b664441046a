//! Per-property workloads: which operations, worlds and faults to emphasise.

use crate::{
    model::Variant,
    ops::{Op, OpCfg, OPS},
    rng::Rng,
    sim::Faults,
    world::{ext, WorldCfg},
};

pub struct Profile {
    pub id: &'static str,
    pub variants: Vec<Variant>,
    pub weights: [u32; OPS],
    pub keep: &'static [Op],
    pub swarm_off: u64,
    pub ops: OpCfg,
    pub events: (usize, usize),
    pub director: u64,
    pub base: WorldCfg,
    pub faulty: u64,
    /// Largest token metadata, in bytes (0: small ones).
    pub large: bool,
    /// Runs of the quick and the thorough check.
    pub quick: u64,
    pub thorough: u64,
}

impl Profile {
    pub fn world(&self, r: &mut Rng) -> WorldCfg {
        let mut c = self.base.clone();
        // swarm over world shapes
        if r.pct(25) {
            c.ext_pct = 0;
        } else if r.pct(25) {
            c.ext_pct = 45;
        }
        if r.pct(15) {
            c.precreate = 20;
        }
        if matches!(self.id, "C04" | "C09") && r.pct(20) {
            c.ext_mask |= ext::NONTRANSFER;
            c.recyclable = c.recyclable.max(80);
            c.ext_pct = c.ext_pct.max(35);
        }
        // issuers that can take tokens back, out of an escrow too
        if !matches!(self.id, "C09") && r.pct(if self.id == "C03" { 25 } else { 12 }) {
            c.ext_mask |= ext::PERMDEL;
        }
        c
    }
    pub fn faults(&self, r: &mut Rng) -> Faults {
        if !r.pct(self.faulty) {
            return Faults { drop: 0, dup: 0, delay: 5, ack_loss: 0, crash: 0, cu: 0, stall: 0, partition: 0 };
        }
        Faults {
            drop: *r.pick(&[0, 3, 12]),
            dup: *r.pick(&[0, 4, 15]),
            delay: *r.pick(&[5, 20, 50]),
            ack_loss: *r.pick(&[0, 4, 15]),
            crash: *r.pick(&[0, 5, 20]),
            cu: *r.pick(&[0, 2, 8]),
            stall: *r.pick(&[0, 1, 3]),
            partition: *r.pick(&[0, 0, 2]),
        }
    }
}

pub const PROGRAM_PROPS: [&str; 17] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C22", "C24",
];

fn set(w: &mut [u32; OPS], v: &[(Op, u32)]) {
    for (o, n) in v {
        w[*o as usize] = *n;
    }
}

pub fn profile(id: &str) -> Option<Profile> {
    let id = *PROGRAM_PROPS.iter().find(|p| **p == id)?;
    use Op::*;
    let mut w = [0u32; OPS];
    set(&mut w, &[
        (Create, 5), (Escrow, 4), (OpenWrapped, 6), (OpenUnwrapped, 4), (Wrap, 34), (Unwrap, 24),
        (CloseStuck, 3), (SyncT22, 2), (SyncSpl, 2), (Pointer, 2), (Transfer, 7), (Burn, 2),
        (Approve, 4), (Freeze, 2), (Thaw, 4), (Pause, 2), (SetFee, 3), (HookMode, 2), (MintMore, 3),
        (CloseMint, 1), (Recreate, 4), (Harvest, 1), (BurnAll, 0), (UnwrapAll, 1), (EditMeta, 2),
        (MovePointer, 1), (Dust, 2), (RotateAuth, 1), (Memo, 1), (CpiGuard, 1), (Advance, 3),
        (CloseTok, 2), (Forge, 3), (SetOwner, 1), (Seize, 2), (FundMint, 1), (Setup, 5), (Verify, 0),
    ]);
    let mut p = Profile {
        id,
        variants: vec![Variant::Default],
        weights: w,
        keep: &[Wrap, OpenWrapped, Setup],
        swarm_off: 20,
        ops: OpCfg { mutate_sub: 8, mutate_auth: 6, mutate_data: 3, bundle: 12, odd_amount: 10 },
        events: (60, 260),
        director: 40,
        base: WorldCfg::default(),
        faulty: 70,
        large: false,
        quick: 5000,
        thorough: 300_000,
    };
    let w = &mut p.weights;
    match id {
        "C01" => {
            p.ops.mutate_sub = 15;
            p.ops.mutate_auth = 10;
            if true {
                set(w, &[(Forge, 5), (Advance, 5)]);
            }
        }
        "C02" => {
            set(w, &[(Wrap, 60), (Unwrap, 12), (SetFee, 6), (Advance, 6), (Approve, 6)]);
            p.ops.odd_amount = 22;
        }
        "C03" => {
            set(w, &[(Unwrap, 60), (Wrap, 25), (SetFee, 5), (Advance, 5), (Approve, 6), (Seize, 3)]);
            p.ops.odd_amount = 22;
            p.keep = &[Wrap, Unwrap, OpenWrapped, Setup];
        }
        "C04" => {
            set(w, &[(SetOwner, 4), (Freeze, 5), (Pause, 4), (HookMode, 4), (SetFee, 5), (Burn, 5), (CpiGuard, 3), (Memo, 3)]);
            p.base.nested = 30;
            p.director = 60;
            p.base.multis = 2;
        }
        "C05" => {
            set(w, &[(Approve, 14), (SetOwner, 6), (Wrap, 36), (Unwrap, 36), (Pointer, 4), (Forge, 5), (CpiGuard, 2)]);
            p.ops.mutate_auth = 40;
            p.ops.mutate_sub = 12;
            p.base.multis = 3;
        }
        "C06" => {
            set(w, &[(Forge, 14), (Create, 10), (CloseStuck, 8), (SyncT22, 6), (SyncSpl, 6), (Pointer, 5)]);
            p.ops.mutate_sub = 65;
            p.base.mints = (2, 3);
            p.base.both_programs = 85;
            p.base.meta = 50;
        }
        "C07" => {
            set(w, &[(Create, 50), (Setup, 12), (Dust, 6), (Wrap, 12), (Unwrap, 6), (Recreate, 6), (SyncT22, 4), (SyncSpl, 4)]);
            p.base.precreate = 10;
            p.base.mints = (3, 6);
            p.base.unborn = 15;
            p.base.both_programs = 90;
            p.base.ext_pct = 30;
            p.events = (25, 90);
            p.keep = &[Create, Setup];
            p.ops.mutate_sub = 15;
            p.base.nested = 40;
            p.quick = 12_000;
        }
        "C08" => {
            set(w, &[(Create, 60), (Setup, 15), (Dust, 25), (Wrap, 8), (Unwrap, 4), (Recreate, 4), (SyncT22, 3)]);
            p.base.precreate = 15;
            p.base.mints = (2, 4);
            p.base.both_programs = 80;
            p.events = (25, 110);
            p.keep = &[Create, Setup, Dust];
            p.quick = 12_000;
        }
        "C09" => {
            set(w, &[(CloseStuck, 40), (Recreate, 8), (CloseMint, 6), (Escrow, 10), (UnwrapAll, 5), (BurnAll, 4), (Harvest, 4), (Wrap, 14), (Freeze, 4), (Dust, 1)]);
            p.base.recyclable = 90;
            p.base.t22_pct = 95;
            p.base.mints = (1, 2);
            p.base.noauth_pct = 3;
            p.director = 100;
            p.keep = &[CloseStuck, Escrow];
            p.events = (80, 320);
        }
        "C10" | "C11" | "C12" => {
            let (a, b) = match id {
                "C10" => (45, 4),
                "C11" => (4, 45),
                _ => (30, 30),
            };
            set(w, &[(SyncT22, a), (SyncSpl, b), (EditMeta, 30), (MovePointer, 9), (FundMint, 5), (Wrap, 4), (Unwrap, 3), (Forge, 6), (Recreate, 2), (Create, 6)]);
            p.base.meta = 100;
            p.base.native = 3;
            p.base.ext_pct = 8;
            p.base.precreate = 90;
            p.base.both_programs = 75;
            p.keep = &[SyncT22, SyncSpl, EditMeta];
            p.events = (40, 130);
            p.ops.mutate_sub = if id == "C12" { 45 } else { 8 };
            if id == "C12" {
                set(w, &[(Forge, 20), (MovePointer, 14)]);
            }
            if id == "C11" {
                set(w, &[(Verify, 12)]);
            }
            p.director = 10;
            p.base.nested = 5;
        }
        "C13" => {
            set(w, &[(Pointer, 60), (RotateAuth, 14), (Dust, 8), (Wrap, 6), (Unwrap, 4), (Recreate, 6), (CloseMint, 3)]);
            p.ops.mutate_auth = 30;
            p.ops.mutate_sub = 15;
            p.base.nested = 25;
            p.keep = &[Pointer, RotateAuth];
            p.events = (40, 160);
            p.quick = 9000;
        }
        "C14" => {
            set(w, &[(Create, 12), (SyncT22, 8), (SyncSpl, 8), (Pointer, 10), (CloseStuck, 8), (EditMeta, 6)]);
            p.ops.mutate_data = 45;
            p.ops.mutate_sub = 0;
            p.ops.odd_amount = 25;
            p.base.multis = 3;
            p.base.meta = 60;
            p.base.recyclable = 30;
        }
        "C15" => {
            set(w, &[(Freeze, 6), (Thaw, 7), (Pause, 7), (HookMode, 6), (SetFee, 6), (Advance, 5), (Memo, 4), (CpiGuard, 4), (Approve, 5), (SetOwner, 3)]);
            p.base.ext_pct = 45;
            p.base.t22_pct = 90;
            p.base.ext_mask = !ext::PERMDEL;
            p.base.multis = 3;
        }
        "C22" => {
            p.variants = vec![Variant::NoExtension, Variant::Compliance];
            set(w, &[(Create, 14), (Setup, 10), (Freeze, 4), (Pause, 4)]);
            p.base.precreate = 50;
            p.base.both_programs = 80;
        }
        "C24" => {
            set(w, &[(Create, 10), (SyncT22, 22), (SyncSpl, 10), (EditMeta, 16), (MovePointer, 4), (Pointer, 6),
                (CloseStuck, 6), (Wrap, 22), (Unwrap, 16), (Escrow, 5), (Recreate, 5)]);
            p.base.meta = 80;
            p.base.both_programs = 70;
            p.base.multis = 2;
            p.base.recyclable = 30;
            p.base.nested = 20;
            p.ops.mutate_data = 6;
            p.events = (40, 160);
            p.large = true;
            p.faulty = 50;
        }
        _ => {}
    }
    if id == "C01" {
        p.base.ext_mask = !(ext::NONTRANSFER | ext::DEFFROZEN);
    }
    Some(p)
}
