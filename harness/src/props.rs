//! The properties: workload, monitors, and deep checks run at quiescent points on forks of the real state.
use crate::chain::*;
use crate::engine::*;
use crate::model::*;
use crate::obs;
use crate::ops::*;
use crate::price::*;
use crate::rng::{comb, hash_str, Rng};
use crate::sig;
use cosmwasm_std::Uint256;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// histories from a fresh book
    History,
    /// histories from stored books of an earlier build
    Upgrade,
    /// single inputs
    Input,
}
pub type InputFn = fn(u64, u64, &str, Option<&serde_json::Value>, &mut Stats) -> (serde_json::Value, Option<Div>);

pub struct Prop {
    pub id: &'static str,
    pub mode: Mode,
    pub cats: &'static [&'static str],
    pub flags: Flags,
    pub profiles: &'static [fn() -> Profile],
    /// long histories, used for a few cases in a hundred
    pub deep: &'static [fn() -> Profile],
    pub check: Option<fn(&mut Engine, u64)>,
    pub at_end: Option<fn(&mut Engine, u64)>,
    pub input: Option<InputFn>,
    pub trace: bool,
    pub quick: u64,
    pub thorough: u64,
    pub min_distinct: usize,
    pub rule: &'static str,
}

const F0: Flags = Flags {
    level: false,
    pool: false,
    ptr: false,
    iso: false,
    solv: false,
    cost: false,
    events: false,
    roles: false,
    fifo: false,
    liqsum: false,
    ledger: false,
};
const P0: Prop = Prop {
    id: "",
    mode: Mode::History,
    cats: &[],
    flags: F0,
    profiles: &[p_std],
    deep: &[],
    check: None,
    at_end: None,
    input: None,
    trace: false,
    quick: 2_500,
    thorough: 30_000,
    min_distinct: 200,
    rule: "",
};

// ---------------------------------------------------------------------------------------------- workloads
//                       place cancel claim batch swap totick auth sudo pause fault time junk migr check
fn p_std() -> Profile {
    Profile { fee_only: true, w: [60, 28, 32, 6, 32, 12, 2, 0, 0, 0, 2, 0, 1, 0], ..Profile::default() }
}
fn p_std_check() -> Profile {
    Profile { fee_only: true, w: [60, 28, 28, 6, 32, 12, 2, 0, 0, 0, 2, 0, 1, 8], ..Profile::default() }
}
/// one or few levels, long queues, many cancels: the interesting region for time priority and lazy cancellation
fn p_queue() -> Profile {
    Profile {
        ops: (40, 260),
        tick_modes: &[TickMode::Single, TickMode::Single, TickMode::Few],
        qty_modes: &[QtyMode::Tiny, QtyMode::Normal, QtyMode::Scaled, QtyMode::Mixed],
        w: [30, 24, 12, 2, 14, 3, 0, 0, 0, 0, 1, 0, 0, 0],
        max_orders: 60,
        ..Profile::default()
    }
}
fn p_queue_check() -> Profile {
    let mut p = p_queue();
    p.w[13] = 4;
    p
}
/// hundreds of orders and cancels at one level
fn p_queue_deep() -> Profile {
    Profile {
        ops: (500, 1100),
        tick_modes: &[TickMode::Single, TickMode::Single, TickMode::Few],
        qty_modes: &[QtyMode::Tiny, QtyMode::Normal, QtyMode::Scaled, QtyMode::Mixed],
        w: [34, 24, 10, 1, 8, 2, 0, 0, 0, 0, 1, 0, 0, 0],
        max_orders: 320,
        ..Profile::default()
    }
}
fn p_queue_deep_check() -> Profile {
    let mut p = p_queue_deep();
    p.w[13] = 2;
    p
}
/// many levels, mostly swaps
fn p_swap() -> Profile {
    Profile {
        ops: (25, 110),
        tick_modes: &[TickMode::Few, TickMode::Spread, TickMode::Mixed, TickMode::Spread],
        w: [34, 8, 6, 1, 24, 14, 0, 0, 0, 0, 1, 0, 0, 0],
        max_orders: 80,
        ..Profile::default()
    }
}
fn p_swap_check() -> Profile {
    let mut p = p_swap();
    p.w[13] = 6;
    p
}
/// dozens to hundreds of levels, deep sweeps
fn p_wall() -> Profile {
    Profile {
        ops: (120, 360),
        tick_modes: &[TickMode::Wall],
        qty_modes: &[QtyMode::Tiny, QtyMode::Normal, QtyMode::Scaled, QtyMode::Mixed],
        w: [70, 4, 3, 0, 7, 4, 0, 0, 0, 0, 0, 0, 0, 0],
        max_orders: 300,
        phases: false,
        invalid: 2,
        ..Profile::default()
    }
}
/// several hundred levels
fn p_great_wall() -> Profile {
    Profile {
        ops: (500, 1000),
        tick_modes: &[TickMode::GreatWall],
        qty_modes: &[QtyMode::Tiny, QtyMode::Normal, QtyMode::Scaled, QtyMode::Mixed],
        w: [180, 2, 2, 0, 4, 4, 0, 0, 0, 0, 0, 0, 0, 0],
        max_orders: 900,
        phases: false,
        invalid: 1,
        ..Profile::default()
    }
}
fn p_great_wall_check() -> Profile {
    let mut p = p_great_wall();
    p.w[13] = 1;
    p
}
/// Workloads of the other properties, which every property is also tried on now and then.
const GUESTS: &[fn() -> Profile] =
    &[p_std, p_queue, p_swap, p_fees, p_faults, p_pause, p_iso, p_cancel, p_records, p_solv, p_place, p_det, p_page, p_wall];
pub fn guest(p: &Prop, r: &mut Rng) -> Profile {
    let own = (p.profiles[0])();
    let mut g = (GUESTS[r.usz(GUESTS.len())])();
    // deep checks are as frequent as at home
    let (a, b) = (own.w.iter().sum::<u32>().max(1), g.w.iter().sum::<u32>());
    g.w[13] = (own.w[13] * b / a).min(6);
    if p.profiles[0] as usize == p_page as usize || g.max_orders > 100 {
        g.w[13] = g.w[13].min(1);
    }
    g
}
fn p_wall_check() -> Profile {
    let mut p = p_wall();
    p.w[13] = 1;
    p
}
fn p_faults() -> Profile {
    Profile {
        fee_only: true,
        bounty: 50,
        fee: 70,
        w: [28, 10, 16, 8, 14, 6, 2, 0, 0, 10, 1, 0, 0, 4],
        ..Profile::default()
    }
}
fn p_fees() -> Profile {
    Profile {
        fee_only: true,
        bounty: 75,
        fee: 90,
        w: [26, 4, 22, 6, 18, 4, 8, 0, 0, 0, 1, 0, 0, 0],
        qty_modes: &[QtyMode::Normal, QtyMode::Huge, QtyMode::Scaled, QtyMode::Mixed],
        ..Profile::default()
    }
}
fn p_cancel() -> Profile {
    Profile {
        invalid: 14,
        w: [34, 28, 8, 1, 12, 3, 0, 0, 0, 0, 1, 0, 0, 0],
        ..Profile::default()
    }
}
fn p_place() -> Profile {
    Profile {
        invalid: 35,
        bounty: 45,
        w: [60, 6, 4, 1, 8, 2, 0, 0, 0, 0, 1, 0, 0, 0],
        ..Profile::default()
    }
}
fn p_roles() -> Profile {
    Profile {
        ops: (30, 140),
        w: [6, 1, 2, 0, 2, 0, 60, 8, 4, 0, 1, 0, 1, 2],
        ..Profile::default()
    }
}
fn p_pause() -> Profile {
    Profile {
        w: [26, 10, 12, 4, 14, 6, 3, 4, 16, 0, 1, 0, 1, 5],
        ..Profile::default()
    }
}
fn p_cost() -> Profile {
    Profile {
        ops: (300, 900),
        tick_modes: &[TickMode::Single, TickMode::Few, TickMode::Spread],
        qty_modes: &[QtyMode::Tiny, QtyMode::Normal],
        w: [40, 34, 6, 0, 6, 2, 0, 0, 0, 0, 0, 0, 0, 3],
        max_orders: 400,
        invalid: 1,
        ..Profile::default()
    }
}
/// thousands of cancels at one level
fn p_cost_deep() -> Profile {
    Profile {
        ops: (1500, 5000),
        tick_modes: &[TickMode::Single],
        qty_modes: &[QtyMode::Tiny, QtyMode::Normal, QtyMode::Mixed],
        w: [50, 46, 3, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0],
        max_orders: 2500,
        invalid: 0,
        ..Profile::default()
    }
}
/// histories that are run again with claims moved or withdrawn orders mixed in
fn p_neutral() -> Profile {
    Profile { fee_only: true, invalid: 3, w: [60, 30, 24, 4, 40, 14, 2, 0, 1, 0, 1, 0, 1, 0], ..Profile::default() }
}
fn p_neutral_queue() -> Profile {
    let mut p = p_queue();
    p.invalid = 3;
    p
}
fn p_iso() -> Profile {
    Profile {
        ops: (20, 90),
        fee_only: true,
        w: [26, 16, 14, 6, 16, 8, 2, 1, 0, 1, 1, 0, 1, 0],
        max_orders: 25,
        invalid: 10,
        ..Profile::default()
    }
}
fn p_solv() -> Profile {
    Profile {
        ops: (20, 100),
        fee_only: true,
        w: [28, 14, 12, 4, 16, 6, 1, 0, 0, 2, 1, 0, 0, 5],
        max_orders: 30,
        ..Profile::default()
    }
}
fn p_page() -> Profile {
    Profile {
        ops: (30, 160),
        users: 3,
        w: [50, 10, 8, 2, 10, 2, 0, 0, 0, 0, 1, 0, 0, 8],
        max_orders: 130,
        ..Profile::default()
    }
}
/// more than a hundred orders of one owner: default page sizes matter
fn p_page_big() -> Profile {
    Profile {
        ops: (130, 260),
        users: 2,
        w: [80, 4, 4, 0, 4, 0, 0, 0, 0, 0, 1, 0, 0, 2],
        max_orders: 240,
        phases: false,
        invalid: 1,
        ..Profile::default()
    }
}
/// several hundred orders of one owner or at one level
fn p_page_huge() -> Profile {
    Profile {
        ops: (500, 900),
        users: 2,
        tick_modes: &[TickMode::Single, TickMode::Few, TickMode::Spread],
        w: [220, 4, 4, 0, 2, 0, 0, 0, 0, 0, 1, 0, 0, 1],
        max_orders: 800,
        phases: false,
        invalid: 1,
        ..Profile::default()
    }
}
/// batches with as many claimable entries as a batch can have
fn p_batch_big() -> Profile {
    Profile {
        ops: (200, 500),
        fee_only: true,
        bounty: 50,
        fee: 70,
        w: [80, 2, 1, 4, 14, 2, 1, 0, 0, 2, 1, 0, 0, 2],
        max_orders: 260,
        phases: false,
        invalid: 2,
        ..Profile::default()
    }
}
fn p_junk() -> Profile {
    Profile {
        invalid: 15,
        w: [30, 12, 12, 4, 14, 8, 5, 3, 2, 2, 1, 25, 1, 0],
        ..Profile::default()
    }
}
fn p_det() -> Profile {
    Profile {
        fee_only: true,
        bounty: 40,
        fee: 60,
        w: [28, 12, 14, 8, 16, 6, 2, 1, 1, 2, 2, 0, 1, 0],
        invalid: 10,
        ..Profile::default()
    }
}
fn p_upgrade() -> Profile {
    Profile {
        ops: (10, 60),
        fee_only: true,
        w: [14, 18, 26, 4, 16, 6, 2, 1, 1, 0, 1, 0, 3, 0],
        max_orders: 120,
        ..Profile::default()
    }
}
/// roles, offers and settings go on after an upgrade
fn p_upgrade_roles() -> Profile {
    Profile { fee_only: false, w: [14, 18, 26, 4, 16, 6, 24, 2, 4, 0, 1, 0, 3, 0], ..p_upgrade() }
}
fn p_records() -> Profile {
    Profile {
        bounty: 50,
        fee_only: true,
        w: [32, 12, 18, 5, 16, 6, 1, 0, 0, 0, 6, 0, 0, 0],
        ..Profile::default()
    }
}

// ---------------------------------------------------------------------------------------------- table
const SWAP_ALL: &[&str] = &["swap.out", "swap.fills", "swap.under", "swap.taken"];

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        cats: &["solv", "drain"],
        flags: Flags { solv: true, ..F0 },
        profiles: &[p_solv, p_solv, p_solv, p_solv, p_solv, p_std_check, p_queue_check],
        deep: &[p_queue_deep_check],
        check: Some(ck_drain),
        quick: 10_000,
        thorough: 150_000,
        rule: "one evaluation = one comparison of holdings with obligations after an operation, or one exit step of a forked full exit; non-trivial when something is owed; distinct by (size class owed, denom, number of levels) and by exit case",
        ..P0
    },
    Prop {
        id: "C02",
        cats: &["fifo", "fill"],
        flags: Flags { fifo: true, ..F0 },
        profiles: &[p_queue, p_queue, p_std],
        deep: &[p_queue_deep],
        quick: 22_500,
        thorough: 300_000,
        rule: "one evaluation = one queue (level and side) or one claim judged after an operation; non-trivial when the queue holds two or more orders and some of it has traded; distinct by the open/partly/fully filled pattern",
        ..P0
    },
    Prop {
        id: "C03",
        cats: &["fill", "pay.total", "pay.owner", "claim.reject", "claim.accept.unfilled", "claim.accept.notfound", "claim.accept.funds", "batch.reject", "rec.gone.claim", "rec.shrink"],
        profiles: &[p_std, p_queue, p_fees],
        deep: &[p_queue_deep],
        quick: 22_500,
        thorough: 300_000,
        rule: "one evaluation = one judged claim outcome; distinct by (side, price decade, fill size, full/partial, position in queue, cancels at the level, bounty, fee, claimer)",
        ..P0
    },
    Prop {
        id: "C04",
        cats: &["cancel", "refund", "rec.gone.cancel"],
        profiles: &[p_cancel, p_queue],
        deep: &[p_queue_deep],
        quick: 22_500,
        thorough: 300_000,
        rule: "one evaluation = one judged cancel; distinct by (outcome, side, queue position and length, earlier cancels and swaps at the level, partly claimed)",
        ..P0
    },
    Prop {
        id: "C05",
        cats: SWAP_ALL,
        profiles: &[p_swap, p_swap, p_swap, p_std, p_std, p_std, p_wall],
        deep: &[p_great_wall, p_swap, p_swap],
        quick: 27_500,
        thorough: 400_000,
        rule: "one evaluation = one judged aspect of an executed swap; distinct by (direction, bounded or not, levels filled, dust, refund, full or partial last level, price decade, size class)",
        ..P0
    },
    Prop {
        id: "C06",
        cats: &["swap.minout", "swap.nonzero", "swap.beyond", "swap.refundcap", "swap.over", "swap.stray", "swap.data", "swap.accept", "limit"],
        profiles: &[p_swap_check, p_swap_check, p_swap_check, p_std_check, p_std_check, p_std_check, p_wall_check],
        check: Some(ck_limit),
        deep: &[p_great_wall_check, p_swap_check, p_swap_check],
        quick: 17_500,
        thorough: 250_000,
        rule: "one evaluation = one limit of one swap judged (minimum output, no partial fill, tick bound, refund); distinct by refusal reason and swap shape",
        ..P0
    },
    Prop {
        id: "C07",
        cats: &["quote", "readonly"],
        profiles: &[p_swap_check, p_swap_check, p_swap_check, p_std_check, p_std_check, p_std_check, p_wall_check],
        check: Some(ck_quote),
        deep: &[p_great_wall_check, p_swap_check, p_swap_check],
        quick: 15_000,
        thorough: 200_000,
        rule: "one evaluation = one quote compared with executing the same swap on a fork of the same state; distinct by (direction, outcome, size class, number of levels)",
        ..P0
    },
    Prop {
        id: "C08",
        cats: &["lvl", "pool", "liqsum"],
        flags: Flags { level: true, pool: true, liqsum: true, ..F0 },
        profiles: &[p_std, p_queue],
        deep: &[p_queue_deep, p_queue_deep, p_queue_deep, p_great_wall],
        quick: 10_000,
        thorough: 150_000,
        rule: "one evaluation = one published liquidity figure compared after an operation; distinct by (side, orders, cancels and swaps at the level, size class)",
        ..P0
    },
    Prop {
        id: "C09",
        cats: &["ptr", "spot"],
        flags: Flags { ptr: true, ..F0 },
        profiles: &[p_swap, p_swap, p_swap, p_std, p_std, p_std, p_wall],
        deep: &[p_great_wall, p_swap, p_swap],
        quick: 22_500,
        thorough: 300_000,
        rule: "one evaluation = one best price or spot price compared after an operation; distinct by (price decade of both pointers, number of levels, tick hash)",
        ..P0
    },
    Prop {
        id: "C12",
        cats: &["pubclaim"],
        profiles: &[p_queue_check, p_std_check, p_queue_check, p_std_check, p_wall_check],
        deep: &[p_queue_deep_check, p_queue_deep_check, p_great_wall_check],
        check: Some(ck_pubclaim),
        quick: 12_500,
        thorough: 150_000,
        rule: "one evaluation = one order whose published figures are compared with claiming or cancelling it on a fork; distinct by (open/partly/fully filled, cancels absorbed or not, queue position, side)",
        ..P0
    },
    Prop {
        id: "C13",
        cats: &["cost"],
        flags: Flags { cost: true, ..F0 },
        profiles: &[p_cost, p_cost, p_cost, p_cost, p_wall_check, p_cost_deep],
        check: Some(ck_cost_queries),
        deep: &[p_great_wall_check, p_cost, p_cost],
        quick: 900,
        thorough: 12_000,
        rule: "one evaluation = one message whose storage accesses are compared with the bound for the book's size; non-trivial when the queue or level history has 8 or more entries; distinct by (size class, span, accesses)",
        ..P0
    },
    Prop {
        id: "C14",
        cats: &["page"],
        profiles: &[p_page, p_page, p_page, p_page, p_page_big, p_page_big, p_wall_check],
        deep: &[p_page_huge, p_page_huge, p_great_wall_check],
        check: Some(ck_page),
        quick: 3_000,
        thorough: 40_000,
        rule: "one evaluation = one listing query compared with the full listing; distinct by (query, bounds given, limit class, result size)",
        ..P0
    },
    Prop {
        id: "C15",
        cats: &["auth", "sudo", "roles.admin", "roles.admin_offer", "roles.moderator", "roles.moderator_offer", "xfer.auth"],
        flags: Flags { roles: true, ..F0 },
        profiles: &[p_roles],
        check: Some(ck_roles),
        quick: 15_000,
        thorough: 200_000,
        rule: "one evaluation = one role message judged, or one role read back; distinct by (message, caller's roles, pending offers, outcome)",
        ..P0
    },
    Prop {
        id: "C16",
        cats: &["place.accept.inactive", "cancel.accept.inactive", "claim.accept.inactive", "batch.accept.inactive", "swap.accept.inactive", "paused", "roles.active", "pause"],
        flags: Flags { roles: true, ..F0 },
        profiles: &[p_pause],
        check: Some(ck_pause),
        quick: 15_000,
        thorough: 200_000,
        rule: "one evaluation = one message or query judged while paused, or a pause/resume cycle on a fork; distinct by (message, state of roles, book size)",
        ..P0
    },
    Prop {
        id: "C17",
        cats: &["feecap", "roles.fee", "auth.accept.fee", "auth.accept.unauthorized", "place.accept.bounty", "pay.fee", "pay.bounty", "pay.owner", "pay.stray"],
        flags: Flags { roles: true, ..F0 },
        profiles: &[p_fees],
        quick: 22_500,
        thorough: 300_000,
        rule: "one evaluation = one payout share or fee setting judged; distinct by (side, price decade, fill size, bounty, fee, claimer's role)",
        ..P0
    },
    Prop {
        id: "C18",
        cats: &["swallow", "foreign", "claim.accept.payout", "cancel.accept.payout", "batch", "swap.accept.payout", "pay.total.batch", "fill.batch", "batchseq", "atomic"],
        profiles: &[p_faults],
        deep: &[p_batch_big],
        check: Some(ck_batch),
        quick: 15_000,
        thorough: 200_000,
        rule: "one evaluation = one message judged under injected payout failures, or one batch compared with single claims on a fork; distinct by (message, failing party, batch size, claimable entries, duplicates)",
        ..P0
    },
    Prop {
        id: "C19",
        cats: &["id", "rec", "receipt"],
        flags: Flags { level: true, events: true, ..F0 },
        profiles: &[p_records, p_std, p_roles],
        quick: 15_000,
        thorough: 200_000,
        rule: "one evaluation = one order record or receipt field compared; distinct by (field, side, size class, price decade, origin)",
        ..P0
    },
    Prop {
        id: "C20",
        cats: &["iso", "foreign"],
        flags: Flags { iso: true, ..F0 },
        profiles: &[p_iso],
        quick: 10_000,
        thorough: 150_000,
        rule: "one evaluation = one before/after comparison of everything a message must not touch; distinct by (message, accepted or not, levels, bystander orders)",
        ..P0
    },
    Prop {
        id: "C21",
        cats: &["det"],
        profiles: &[p_det],
        trace: true,
        at_end: Some(ck_det),
        quick: 12_500,
        thorough: 200_000,
        rule: "one evaluation = one message executed again on an independent instance (interleaved with unrelated traffic, on another thread, and at another block time) and compared; distinct by (message hash, outcome)",
        ..P0
    },
    Prop {
        id: "C22",
        cats: &["panic"],
        profiles: &[p_junk],
        quick: 20_000,
        thorough: 300_000,
        rule: "one evaluation = one message or query that must end in an answer or an error, never an abort; distinct by message text or shape",
        ..P0
    },
    Prop {
        id: "C23",
        cats: &["place", "escrow", "xfer.place"],
        profiles: &[p_place],
        quick: 22_500,
        thorough: 300_000,
        rule: "one evaluation = one placement judged; distinct by (outcome or reason, side, price decade, size class, bounty, number of coins)",
        ..P0
    },
    Prop {
        id: "C24",
        cats: &["swap.reject", "place.reject", "avail"],
        profiles: &[p_swap_check, p_std_check, p_queue_check, p_swap_check, p_std_check, p_wall_check],
        check: Some(ck_avail),
        deep: &[p_great_wall_check, p_swap_check, p_swap_check],
        quick: 12_500,
        thorough: 200_000,
        rule: "one evaluation = one swap the book can serve that must not be refused; distinct by (direction, levels, price decade, size class, kind of probe)",
        ..P0
    },
    Prop {
        id: "C25",
        mode: Mode::Input,
        cats: &["init"],
        input: Some(crate::inst::run),
        quick: 50_000,
        thorough: 400_000,
        min_distinct: 50,
        rule: "one evaluation = one aspect of a freshly created (or refused) book; distinct by (pair of denoms, supplies, aspect)",
        ..P0
    },
    Prop {
        id: "C26",
        mode: Mode::Upgrade,
        cats: &["upgrade", "start", "lvl", "rec", "pool", "ptr", "roles", "obs", "claim", "cancel", "fill", "pay", "refund", "swap", "batch", "place", "migrate"],
        flags: Flags { level: true, pool: true, ptr: true, roles: true, ..F0 },
        profiles: &[p_upgrade, p_upgrade, p_upgrade, p_upgrade_roles],
        at_end: Some(ck_upgrade),
        quick: 7_500,
        thorough: 100_000,
        rule: "one evaluation = one observation of a book stored by an earlier build after upgrading to the current one; distinct by category signature",
        ..P0
    },
    Prop {
        id: "C27",
        cats: &["ledger"],
        flags: Flags { ledger: true, ..F0 },
        profiles: &[p_queue, p_cancel, p_std, p_queue],
        deep: &[p_queue_deep, p_queue_deep, p_cost_deep],
        at_end: Some(ck_ledger),
        quick: 22_500,
        thorough: 300_000,
        rule: "one evaluation = one rule (order, links, sums, heights, balance, entries) judged on one side of one level's stored cancellation tree after a message that touched the level; non-trivial with two or more entries; distinct by the shape of the tree (up to 24 entries) or its size and height",
        ..P0
    },
    Prop {
        id: "C28",
        cats: &["neutral"],
        profiles: &[p_neutral, p_neutral, p_neutral_queue],
        deep: &[p_queue_deep],
        at_end: Some(ck_neutral),
        trace: true,
        quick: 10_000,
        thorough: 150_000,
        rule: "one evaluation = one message of a recorded history whose outcome is compared in a history that differs only in claims or in withdrawn orders, or one comparison of the books and holdings in which they end; distinct by call and kind of change, and by the shape of the final book",
        ..P0
    },
];

pub fn by_id(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

// ---------------------------------------------------------------------------------------------- helpers
/// a copy of the state in which payouts work and the book is open
fn open_fork(e: &Engine) -> World {
    let mut w = e.w.fork();
    w.blocked.clear();
    if !e.m.active {
        resume(&mut w, &e.m);
    }
    // the prober can always pay
    for d in [BASE, QUOTE] {
        let have = w.bank.get(WHALE, d);
        w.bank.mint(WHALE, d, (1u128 << 126).saturating_sub(have));
    }
    w
}
/// reopen by whatever role still exists
fn resume(w: &mut World, m: &Model) -> bool {
    if w.sudo(None, r#"{"set_active":{"active":true}}"#).r.is_ok() {
        return true;
    }
    for a in [&m.moder, &m.admin].into_iter().flatten() {
        if w.exec(a, &[], r#"{"auth":{"set_active":{"active":true}}}"#).r.is_ok() {
            return true;
        }
    }
    false
}
fn digest(w: &World) -> u64 {
    let mut h = 1u64;
    for (k, v) in &w.store.data {
        for b in k.iter().chain(v.iter()) {
            h = h.wrapping_mul(0x100000001b3) ^ *b as u64;
        }
        h = comb(h, k.len() as u64);
    }
    h
}
fn claim_json(t: i64, i: u64) -> String {
    format!(r#"{{"claim_limit":{{"tick_id":{t},"order_id":{i}}}}}"#)
}
fn cancel_json(t: i64, i: u64) -> String {
    format!(r#"{{"cancel_limit":{{"tick_id":{t},"order_id":{i}}}}}"#)
}
fn swap_json(sender: &str, din: &str, dout: &str, amt: u128, min: u128) -> String {
    format!(
        r#"{{"swap_exact_amount_in":{{"sender":"{sender}","token_in":{{"denom":"{din}","amount":"{amt}"}},"token_out_denom":"{dout}","token_out_min_amount":"{min}","swap_fee":"0"}}}}"#
    )
}
fn snap(e: &mut Engine, w: &World) -> Option<obs::BookObs> {
    match obs::snapshot(w) {
        Ok(b) => Some(b),
        Err(x) => {
            e.chk(("obs", "snapshot", ""), false, None, || format!("book not readable: {x}"));
            None
        }
    }
}
fn io(bid_side: bool) -> (&'static str, &'static str) {
    if bid_side {
        (BASE, QUOTE)
    } else {
        (QUOTE, BASE)
    }
}
/// an input amount around the interesting boundaries of the live book
fn probe_amt(e: &Engine, r: &mut Rng, bid_side: bool) -> u128 {
    let cap = 1u128 << 126;
    let live = e.m.live_ticks(bid_side, if bid_side { MIN_TICK } else { MAX_TICK });
    let s = bid_side as usize;
    let mut sum = Uint256::zero();
    let k = if live.is_empty() { 0 } else { 1 + r.usz(live.len()) };
    for t in live.iter().take(k) {
        sum += taker_cost(bid_side, e.m.levels[t].liq[s], *t);
    }
    let sum = to_u128(sum).unwrap_or(cap).min(cap);
    let x = match r.below(9) {
        0 => sum,
        1 => sum + 1,
        2 => sum.saturating_sub(1),
        3 => 1 + r.below128(sum.max(1)),
        4 => sum / (2 + r.below128(6)),
        5 => 1 + r.below128(20),
        6 => r.logu(80),
        7 => live
            .first()
            .and_then(|t| to_u128(taker_cost(bid_side, 1 + r.below128(e.m.levels[t].liq[s]), *t)))
            .unwrap_or(1),
        _ => sum.saturating_add(1 + r.below128(sum / 2 + 5)),
    };
    x.clamp(1, cap)
}

// ---------------------------------------------------------------------------------------------- C01
/// Everyone leaves, in random order, on a fork: every claim and every cancel must be payable in full.
fn ck_drain(e: &mut Engine, seed: u64) {
    let mut r = Rng::new(seed);
    let mut w = open_fork(e);
    let b = match snap(e, &w) {
        Some(b) => b,
        None => return,
    };
    let mut list: Vec<(i64, u64)> = b
        .levels
        .iter()
        .flat_map(|(t, l)| l.orders.keys().map(move |i| (*t, *i)))
        .collect();
    match r.below(3) {
        0 => list.sort_by_key(|x| x.1),
        1 => list.sort_by_key(|x| std::cmp::Reverse(x.1)),
        _ => {
            for i in (1..list.len()).rev() {
                let j = r.usz(i + 1);
                list.swap(i, j);
            }
        }
    }
    let n = list.len() as u64;
    for (t, i) in list {
        let o = &b.levels[&t].orders[&i];
        let bid = o.rec.bid();
        let own = o.rec.owner.clone();
        let sg = sig!(bid, decade(t), n.min(30), o.claimable > 0, o.claimable == o.rec.qty(), bits(o.claimable) / 8);
        let value = maker_value(bid, o.claimable, t);
        if o.claimable > 0 {
            let res = w.exec(&own, &[], &claim_json(t, i)).r;
            let msg = res.as_ref().err().map(|x| x.text());
            if e.chk(("drain", "claim", ""), msg.is_none(), Some(sg), || {
                format!("{own} cannot claim {} filled of order {t}/{i}: {:?}", o.claimable, msg)
            }) {
                let tot = res.unwrap().agg().values().fold(Uint256::zero(), |a, x| a + *x);
                e.chk(("drain", "short", ""), tot >= value, Some(sg), || {
                    format!("claim of {t}/{i} paid {tot}, owed {value}")
                });
            }
        }
        let open = o.rec.qty() - o.claimable;
        if open > 0 {
            let res = w.exec(&own, &[], &cancel_json(t, i)).r;
            let msg = res.as_ref().err().map(|x| x.text());
            if e.chk(("drain", "cancel", ""), msg.is_none(), Some(sg), || {
                format!("{own} cannot withdraw {open} unfilled of order {t}/{i}: {:?}", msg)
            }) {
                let got = res.unwrap().agg().get(&(own.clone(), in_denom(bid).to_string())).copied().unwrap_or_default();
                e.chk(("drain", "refund", ""), got >= u(open), Some(sg), || {
                    format!("cancel of {t}/{i} returned {got}, deposited and unfilled {open}")
                });
            }
        }
    }
    e.st.bump("full_exits", 1);
    e.st.bump("orders_exited", n);
    if let Some(a) = snap(e, &w) {
        let left: usize = a.levels.values().map(|l| l.orders.len()).sum();
        e.chk(("drain", "left", ""), left == 0, Some(n), || format!("{left} orders remain after everyone left"));
    }
}

// ---------------------------------------------------------------------------------------------- C06
fn ck_limit(e: &mut Engine, seed: u64) {
    let mut r = Rng::new(seed);
    let base = open_fork(e);
    for _ in 0..3 {
        let bs = r.chance(50);
        let (din, dout) = io(bs);
        let amt = probe_amt(e, &mut r, bs);
        let full = |w: &World, min: u128| {
            let mut w = w.fork();
            let x = w.sudo(Some((WHALE, din, amt)), &swap_json(WHALE, din, dout, amt, min));
            x.r
        };
        let free = full(&base, 0);
        if let Ok(ok) = &free {
            let out = ok.agg().get(&(WHALE.to_string(), dout.to_string())).copied().unwrap_or_default();
            let out = match to_u128(out) {
                Some(o) => o,
                None => continue,
            };
            let sg = sig!(bs, bits(amt) / 4, bits(out) / 4, e.m.levels.len().min(20));
            let at = full(&base, out);
            let msg = at.as_ref().err().map(|x| x.text());
            e.chk(("limit", "exact", ""), msg.is_none(), Some(sg), || {
                format!("swap of {amt}{din} yields {out} but is refused with that minimum: {:?}", msg)
            });
            let above = full(&base, out + 1);
            e.chk(("limit", "above", ""), above.is_err(), Some(sg), || {
                format!("swap of {amt}{din} yields {out} yet passes a minimum of {}", out + 1)
            });
            // same input, bounded at the worst price actually used, never yields more than the unbounded swap
            let live = e.m.live_ticks(bs, if bs { MIN_TICK } else { MAX_TICK });
            if !live.is_empty() {
                let t = live[r.usz(live.len())];
                let mut w = base.fork();
                let pre = obs::all_ticks(&w).unwrap_or_default();
                let j = format!(
                    r#"{{"swap_to_tick":{{"sender":"{WHALE}","token_in":{{"denom":"{din}","amount":"{amt}"}},"token_out_denom":"{dout}","token_out_min_amount":"0","swap_fee":"0","target_tick":{t}}}}}"#
                );
                if let Ok(k) = w.sudo(Some((WHALE, din, amt)), &j).r {
                    let o2 = k.agg().get(&(WHALE.to_string(), dout.to_string())).copied().unwrap_or_default();
                    e.chk(("limit", "bounded", ""), o2 <= u(out), Some(sg), || {
                        format!("bounded swap of {amt}{din} to tick {t} yields {o2}, unbounded {out}")
                    });
                    let post = obs::all_ticks(&w).unwrap_or_default();
                    let far: Vec<i64> = pre
                        .iter()
                        .zip(post.iter())
                        .filter(|(a, b)| {
                            a.tick_id == b.tick_id
                                && a.tick_state != b.tick_state
                                && if bs { a.tick_id < t } else { a.tick_id > t }
                        })
                        .map(|(a, _)| a.tick_id)
                        .collect();
                    e.chk(("limit", "bound", ""), far.is_empty(), Some(sg), || {
                        format!("swap bounded at {t} changed levels {:?}", far)
                    });
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------- C07
fn ck_quote(e: &mut Engine, seed: u64) {
    let mut r = Rng::new(seed);
    let base = open_fork(e);
    let nl = e.m.levels.len().min(20);
    for k in 0..4 {
        let bs = r.chance(50);
        let (din, dout) = io(bs);
        let amt = if k == 3 && r.chance(30) { r.u128() } else { probe_amt(e, &mut r, bs) };
        let d0 = digest(&base);
        let q1 = obs::quote_raw(&base, "calc_out_amount_given_in", din, amt, dout, "0");
        let q2 = obs::quote_raw(&base, "calc_out_amt_given_in", din, amt, dout, "0");
        let same_state = digest(&base) == d0;
        e.chk(("readonly", "", ""), same_state, None, || "a quote changed the stored state".into());
        let key = |q: &Result<(String, Uint256), TxErr>| q.as_ref().ok().cloned();
        let (a, b) = (key(&q1), key(&q2));
        let sg0 = sig!(bs, q1.is_ok(), bits(amt) / 3, nl);
        e.chk(("quote", "alias", ""), a == b, Some(sg0), || format!("the two quote queries differ: {:?} / {:?}", a, b));
        let mut w = base.fork();
        if w.bank.get(WHALE, din) < amt {
            // cannot be funded: only the quote's own sanity can be judged
            continue;
        }
        let x = w.sudo(Some((WHALE, din, amt)), &swap_json(WHALE, din, dout, amt, 0)).r;
        match (&q1, &x) {
            (Ok((d, q)), Ok(ok)) => {
                let got = ok.agg().get(&(WHALE.to_string(), dout.to_string())).copied().unwrap_or_default();
                let sg = sig!(bs, bits(amt) / 3, bits(to_u128(got).unwrap_or(u128::MAX)) / 3, nl, k);
                e.chk(("quote", "match", ""), got == *q, Some(sg), || {
                    format!("quote for {amt}{din} is {q}, the swap delivers {got}")
                });
                e.chk(("quote", "denom", ""), d == dout, Some(sg), || format!("quote is in {d}, output is {dout}"));
            }
            (Ok((_, q)), Err(t)) => {
                e.chk(("quote", "void", ""), q.is_zero(), Some(sg0), || {
                    format!("quote for {amt}{din} is {q} but the swap is refused: {}", t.text())
                });
            }
            (Err(t), Ok(_)) => {
                let t = t.text();
                e.chk(("quote", "refused", ""), false, None, || {
                    format!("no quote for {amt}{din} ({t}) although the swap goes through")
                });
            }
            (Err(_), Err(_)) => {
                e.chk(("quote", "refused", ""), true, Some(sg0), String::new);
            }
        }
        // the quote does not depend on the switch: same state, paused
        if r.chance(25) {
            let mut p = base.fork();
            if p.sudo(None, r#"{"set_active":{"active":false}}"#).r.is_ok() {
                let q3 = obs::quote_raw(&p, "calc_out_amount_given_in", din, amt, dout, "0");
                let c = key(&q3);
                e.chk(("quote", "paused", ""), c == a, Some(sg0), || format!("quote while paused {:?}, while open {:?}", c, a));
            }
        }
        // malformed requests are not answered with a number, under either name
        for name in ["calc_out_amount_given_in", "calc_out_amt_given_in"] {
            let h = sig!(hash_str(name), sg0);
            let fee = *r.pick(&["0.003", "1", "0.000000000000000001"]);
            for (o, f, what) in [(dout, fee, "with an unsupported swap fee"), (OTHER, "0", "into a foreign denom"), (din, "0", "from a denom into itself"), ("", "0", "into no denom")] {
                let x = obs::quote_raw(&base, name, din, amt, o, f);
                e.chk(("quote", "bad", ""), x.is_err(), Some(h), || format!("a quote {what} was answered by {name}: {:?}", x.as_ref().ok()));
            }
            let x = obs::quote_raw(&base, name, OTHER, amt, dout, "0");
            e.chk(("quote", "bad", ""), x.is_err(), Some(h), || format!("a quote of a foreign denom was answered by {name}: {:?}", x.as_ref().ok()));
        }
    }
}

// ---------------------------------------------------------------------------------------------- C12
fn ck_pubclaim(e: &mut Engine, seed: u64) {
    let mut r = Rng::new(seed);
    let base = open_fork(e);
    let b = match snap(e, &base) {
        Some(b) => b,
        None => return,
    };
    let mut list: Vec<(i64, u64)> = b
        .levels
        .iter()
        .flat_map(|(t, l)| l.orders.keys().map(move |i| (*t, *i)))
        .collect();
    while list.len() > 10 {
        let i = r.usz(list.len());
        list.swap_remove(i);
    }
    let fee = e.m.fee;
    for (t, lv) in &b.levels {
        for bid in [false, true] {
            // the front of the queue: the oldest order with something open
            let front = lv.orders.values().find(|o| o.rec.bid() == bid && o.claimable < o.rec.qty());
            if let Some(o) = front {
                let at = lv.front[bid as usize];
                let want = parse_dec(&o.rec.etas).map(|x| x + u(o.claimable) * u(ONE18));
                let (cn, sn) = e.m.levels.get(t).map_or((0, 0), |l| (l.cancels[bid as usize], l.swaps[bid as usize]));
                let id = o.rec.order_id;
                e.chk(("pubclaim", "front", ""), at.is_some() && at == want, Some(sig!(bid, cn.min(25), sn.min(8), lv.orders.len().min(20))), || {
                    format!("level {t} bid {bid}: published position {:?}, the front order {id} is at {:?}", at, want)
                });
            }
        }
    }
    // the figures do not depend on how many levels are asked for at once, nor in which order
    if !b.levels.is_empty() {
        let all: Vec<i64> = b.levels.keys().copied().collect();
        let n = if r.chance(30) { all.len() } else { 1 + r.usz(all.len() + 3) };
        let mut ids: Vec<i64> = if r.chance(50) { all.iter().copied().take(n).collect() } else { (0..n).map(|_| all[r.usz(all.len())]).collect() };
        let got = obs::unrealized_many(&base, &ids);
        let want: Result<Vec<(i64, obs::Unreal)>, String> = ids.iter().map(|t| obs::unrealized(&base, *t).map(|x| (*t, x))).collect();
        e.chk(("pubclaim", "many", ""), got == want, Some(sig!(ids.len().min(300), all.len().min(300))), || {
            format!("unrealised cancels of {} levels at once: {} answers, not those of each level alone", ids.len(), got.as_ref().map_or(0, |v| v.len()))
        });
        if let Some(m) = (0..80).map(|k| all[0] + k).find(|x| all.binary_search(x).is_err()) {
            ids.push(m);
            let bad = obs::unrealized_many(&base, &ids);
            e.chk(("pubclaim", "unknown", ""), bad.is_err(), Some(sig!(ids.len().min(60))), || format!("unrealised cancels of unknown level {m} answered: {:?}", bad.map(|v| v.len())));
        }
    }
    for (t, i) in list {
        let lv = &b.levels[&t];
        let o = &lv.orders[&i];
        let bid = o.rec.bid();
        let q = o.rec.qty();
        let c = o.claimable;
        let pos = lv.orders.iter().filter(|(k, x)| **k < i && x.rec.bid() == bid).count();
        let (cn, sn) = e.m.levels.get(&t).map_or((0, 0), |l| (l.cancels[bid as usize], l.swaps[bid as usize]));
        let sg = sig!(bid, c > 0, c == q, pos.min(15), cn.min(25), sn.min(8), o.rec.quantity != o.rec.placed_quantity);
        let own = o.rec.owner.clone();
        let mut w = base.fork();
        let x = w.exec(&own, &[], &claim_json(t, i)).r;
        let txt = x.as_ref().err().map(|k| k.text());
        e.chk(("pubclaim", "claim", ""), x.is_ok() == (c > 0), Some(sg), || {
            format!("order {t}/{i}: published figures say {c} of {q} is claimable, claiming says {:?}", txt)
        });
        if let Ok(ok) = &x {
            let left = obs::order(&w, t, i).ok().flatten().map_or(0, |p| p.qty());
            let took = q.saturating_sub(left);
            e.chk(("pubclaim", "amount", ""), took == c, Some(sg), || {
                format!("order {t}/{i}: published claimable amount {c}, claim realised {took}")
            });
            let bounty = o.rec.claim_bounty.as_ref().and_then(|s| parse_dec(s)).and_then(to_u128);
            let raw = maker_value(bid, c, t);
            let (bo, fe, _) = split(raw, bounty, fee);
            let total = ok.agg().values().fold(Uint256::zero(), |a, v| a + *v);
            e.chk(("pubclaim", "value", ""), total == raw, Some(sg), || {
                format!("order {t}/{i}: {c} filled is worth {raw} (bounty {bo}, fee {fe}), claim paid {total}")
            });
        }
        let mut w = base.fork();
        let y = w.exec(&own, &[], &cancel_json(t, i)).r;
        let txt = y.as_ref().err().map(|k| k.text());
        e.chk(("pubclaim", "cancel", ""), y.is_ok() == (c == 0), Some(sg), || {
            format!("order {t}/{i}: published claimable amount {c}, cancelling says {:?}", txt)
        });
    }
}

// ---------------------------------------------------------------------------------------------- C13
fn ck_cost_queries(e: &mut Engine, _seed: u64) {
    let lv: Vec<(i64, usize)> = e
        .m
        .levels
        .iter()
        .map(|(t, l)| (*t, (l.cancels[0] + l.cancels[1]) as usize + l.q[0].len() + l.q[1].len()))
        .collect();
    for (t, n) in lv.into_iter().take(6) {
        let (r, c) = e.w.query_cost(&format!(r#"{{"get_unrealized_cancels":{{"tick_ids":[{t}]}}}}"#));
        if r.is_err() {
            continue;
        }
        let lg = 64 - ((n + 2) as u64).leading_zeros() as u64;
        let bound = 40 + 12 * lg;
        e.st.maxi("max_unrealized_query_accesses", c);
        e.chk(("cost", "query", ""), c <= bound, Some(sig!(bits(n as u128), c)), || {
            format!("unrealised-cancel query used {c} accesses with {n} entries; allowed {bound}")
        });
    }
    let n = e.m.levels.len() as u64;
    for (d, o) in [(BASE, QUOTE), (QUOTE, BASE)] {
        let (r, c) = e.w.query_cost(&format!(
            r#"{{"calc_out_amount_given_in":{{"token_in":{{"denom":"{d}","amount":"1000"}},"token_out_denom":"{o}","swap_fee":"0"}}}}"#
        ));
        let _ = r;
        e.chk(("cost", "quote", ""), c <= 20 + 4 * n, Some(sig!(n, c)), || {
            format!("quote used {c} accesses with {n} levels")
        });
    }
}

// ---------------------------------------------------------------------------------------------- C14
fn ck_page(e: &mut Engine, seed: u64) {
    let mut r = Rng::new(seed);
    let w = e.w.fork();
    let ticks = match obs::all_ticks(&w) {
        Ok(t) => t,
        Err(x) => {
            e.chk(("page", "ticks", ""), false, None, || format!("levels not listable: {x}"));
            return;
        }
    };
    // levels ascend, each listed once, and every level with a resting order is there
    let asc = ticks.windows(2).all(|p| p[0].tick_id < p[1].tick_id);
    e.chk(("page", "order", "levels"), asc, Some(sig!(ticks.len().min(200))), || {
        format!("levels are not listed in ascending order: {:?}", ticks.iter().map(|t| t.tick_id).collect::<Vec<_>>())
    });
    let mut ticks = ticks;
    ticks.sort_by_key(|t| t.tick_id);
    let absent: Vec<i64> = e.m.orders().map(|o| o.tick).filter(|t| ticks.binary_search_by_key(t, |x| x.tick_id).is_err()).collect();
    e.chk(("page", "complete", "levels"), absent.is_empty(), Some(sig!(ticks.len().min(200))), || {
        format!("levels with resting orders missing from the listing: {absent:?}")
    });
    // every order the model knows is listed exactly once, by level and by owner
    let mut by_tick: BTreeMap<(i64, u64), obs::OrderRec> = BTreeMap::new();
    let mut dup = false;
    for t in &ticks {
        match obs::orders_by_tick(&w, t.tick_id, None, None, None) {
            Ok(v) => {
                let n = v.orders.len() as u64;
                let cnt = v.count;
                e.chk(("page", "count", "tick"), cnt == n, Some(sig!(n.min(200))), || {
                    format!("level {} lists {n} orders but counts {cnt}", t.tick_id)
                });
                let sorted = v.orders.windows(2).all(|p| p[0].order_id < p[1].order_id);
                e.chk(("page", "order", "tick"), sorted, Some(sig!(n.min(200))), || {
                    format!("orders of level {} are not listed oldest first", t.tick_id)
                });
                for o in v.orders {
                    let k = (t.tick_id, o.order_id);
                    if o.tick_id != t.tick_id || by_tick.insert(k, o).is_some() {
                        dup = true;
                    }
                }
            }
            Err(x) => {
                e.chk(("page", "tick", ""), false, None, || format!("orders of level {} not listable: {x}", t.tick_id));
                return;
            }
        }
    }
    e.chk(("page", "once", ""), !dup, None, || "an order is listed twice or at the wrong level".into());
    let known: BTreeSet<(i64, u64)> = e.m.orders().map(|o| (o.tick, o.id)).collect();
    let listed: BTreeSet<(i64, u64)> = by_tick.keys().copied().collect();
    e.chk(("page", "complete", ""), known == listed, Some(sig!(known.len().min(300))), || {
        format!(
            "missing from the listings: {:?}; unexpected: {:?}",
            known.difference(&listed).collect::<Vec<_>>(),
            listed.difference(&known).collect::<Vec<_>>()
        )
    });
    // level listing: bounds and limits
    let rnd_t = |r: &mut Rng| -> Option<i64> {
        match r.below(5) {
            0 => None,
            1 => Some(*r.pick(&[MIN_TICK, MAX_TICK, 0, i64::MIN, i64::MAX])),
            _ => {
                if ticks.is_empty() {
                    Some(0)
                } else {
                    Some(ticks[r.usz(ticks.len())].tick_id + r.range(-1, 1))
                }
            }
        }
    };
    for _ in 0..4 {
        let (a, b) = (rnd_t(&mut r), rnd_t(&mut r));
        let l = if r.chance(50) { None } else { Some(r.below(ticks.len() as u64 + 2)) };
        let exp: Vec<i64> = ticks
            .iter()
            .map(|t| t.tick_id)
            .filter(|t| a.map_or(true, |a| *t >= a) && b.map_or(true, |b| *t <= b))
            .take(l.unwrap_or(u64::MAX) as usize)
            .collect();
        let got = obs::all_ticks_pg(&w, a, b, l);
        let ids = got.as_ref().map(|v| v.iter().map(|t| t.tick_id).collect::<Vec<_>>());
        let same = ids.as_ref().ok() == Some(&exp)
            && got
                .as_ref()
                .map_or(true, |v| v.iter().all(|x| ticks.iter().any(|t| t.tick_id == x.tick_id && t.tick_state == x.tick_state)));
        let sg = sig!(a.is_some(), b.is_some(), l.map_or(99, |x| x.min(20)), exp.len());
        e.chk(("page", "levels", ""), same, Some(sg), || {
            format!("levels from {:?} to {:?} limit {:?}: got {:?}, expected {:?}", a, b, l, ids, exp)
        });
    }
    if !ticks.is_empty() {
        let n = if r.chance(60) { 1 + r.usz(4) } else { 1 + r.usz(ticks.len() + 20) };
        let mut ids: Vec<i64> = (0..n).map(|_| ticks[r.usz(ticks.len())].tick_id).collect();
        let got = obs::ticks_by_id(&w, &ids);
        let ok = got.as_ref().map_or(false, |v| {
            v.len() == ids.len()
                && v.iter().zip(&ids).all(|(x, i)| {
                    x.tick_id == *i && ticks.iter().any(|t| t.tick_id == *i && t.tick_state == x.tick_state)
                })
        });
        e.chk(("page", "byid", ""), ok, Some(sig!(ids.len())), || format!("levels by id {:?}: {:?}", ids, got.map(|v| v.len())));
        let missing = (0..50).map(|k| ticks[0].tick_id + k).find(|x| !ticks.iter().any(|t| t.tick_id == *x));
        if let Some(m) = missing {
            ids.push(m);
            let bad = obs::ticks_by_id(&w, &ids);
            e.chk(("page", "byid_missing", ""), bad.is_err(), Some(sig!(ids.len())), || {
                format!("unknown level {m} was answered: {:?}", bad.map(|v| v.len()))
            });
        }
    }
    // orders of one level
    for _ in 0..5 {
        if ticks.is_empty() {
            break;
        }
        let t = ticks[r.usz(ticks.len())].tick_id;
        let all: Vec<u64> = by_tick.keys().filter(|k| k.0 == t).map(|k| k.1).collect();
        let pick = |r: &mut Rng| -> Option<u64> {
            match r.below(5) {
                0 => None,
                1 => Some(*r.pick(&[0, u64::MAX, 1])),
                _ if all.is_empty() => Some(r.below(10)),
                _ => Some((all[r.usz(all.len())] as i64 + r.range(-1, 1)).max(0) as u64),
            }
        };
        let (a, b) = (pick(&mut r), pick(&mut r));
        let l = if r.chance(40) { None } else { Some(r.below(all.len() as u64 + 3)) };
        let inb: Vec<u64> = all
            .iter()
            .copied()
            .filter(|i| a.map_or(true, |a| *i >= a) && b.map_or(true, |b| *i <= b))
            .collect();
        let exp: Vec<u64> = inb.iter().copied().take(l.unwrap_or(u64::MAX) as usize).collect();
        let got = obs::orders_by_tick(&w, t, a, b, l);
        let ids = got.as_ref().map(|v| v.orders.iter().map(|o| o.order_id).collect::<Vec<_>>());
        let rec = got
            .as_ref()
            .map_or(true, |v| v.orders.iter().all(|o| by_tick.get(&(o.tick_id, o.order_id)) == Some(o)));
        let cnt = got.as_ref().map(|v| v.count).unwrap_or(0);
        let sg = sig!(a.is_some(), b.is_some(), l.map_or(999, |x| x.min(40)), exp.len().min(60));
        e.chk(("page", "tick", ""), ids.as_ref().ok() == Some(&exp) && rec, Some(sg), || {
            format!("orders of level {t} from {:?} to {:?} limit {:?}: got {:?}, expected {:?}", a, b, l, ids, exp)
        });
        e.chk(("page", "count", "range"), cnt == inb.len() as u64, Some(sg), || {
            format!("level {t} from {:?} to {:?} counts {cnt}, holds {}", a, b, inb.len())
        });
    }
    // orders of one owner
    let mut owners: BTreeSet<String> = by_tick.values().map(|o| o.owner.clone()).collect();
    owners.insert(user(9));
    for own in owners {
        let all: Vec<(i64, u64)> = by_tick.iter().filter(|(_, o)| o.owner == own).map(|(k, _)| *k).collect();
        for round in 0..4 {
            let pick = |r: &mut Rng| -> Option<(i64, u64)> {
                match r.below(4) {
                    0 => None,
                    1 => Some((*r.pick(&[MIN_TICK, 0, MAX_TICK]), *r.pick(&[0, u64::MAX]))),
                    _ if all.is_empty() => Some((0, 0)),
                    _ => {
                        let x = all[r.usz(all.len())];
                        Some((x.0, (x.1 as i64 + r.range(-1, 1)).max(0) as u64))
                    }
                }
            };
            let (a, b, l) = if round == 0 {
                (None, None, Some(10_000))
            } else if round == 1 {
                (None, None, None)
            } else {
                (pick(&mut r), pick(&mut r), if r.chance(40) { None } else { Some(r.below(all.len() as u64 + 3)) })
            };
            let exp: Vec<(i64, u64)> = all
                .iter()
                .copied()
                .filter(|i| a.map_or(true, |a| *i >= a) && b.map_or(true, |b| *i <= b))
                .take(l.unwrap_or(100) as usize)
                .collect();
            let got = obs::orders_by_owner(&w, &own, a, b, l);
            let ids = got
                .as_ref()
                .map(|v| v.orders.iter().map(|o| (o.tick_id, o.order_id)).collect::<Vec<_>>());
            let rec = got
                .as_ref()
                .map_or(true, |v| v.orders.iter().all(|o| by_tick.get(&(o.tick_id, o.order_id)) == Some(o)));
            let cnt = got.as_ref().map(|v| v.count).unwrap_or(u64::MAX);
            let sg = sig!(a.is_some(), b.is_some(), l.map_or(999, |x| x.min(40)), exp.len().min(130), round);
            e.chk(("page", "owner", ""), ids.as_ref().ok() == Some(&exp) && rec, Some(sg), || {
                format!("orders of {own} from {:?} to {:?} limit {:?}: got {:?}, expected {:?}", a, b, l, ids, exp)
            });
            e.chk(("page", "count", "owner"), cnt == all.len() as u64, Some(sg), || {
                format!("{own} has {} orders, count says {cnt}", all.len())
            });
        }
        // walking page by page visits everything exactly once
        if !all.is_empty() && r.chance(40) {
            let step = 1 + r.below(7);
            let mut cur: Option<(i64, u64)> = None;
            let mut seen = vec![];
            for _ in 0..all.len() + 2 {
                let v = match obs::orders_by_owner(&w, &own, cur, None, Some(step + cur.is_some() as u64)) {
                    Ok(v) => v,
                    Err(_) => break,
                };
                let mut new: Vec<(i64, u64)> = v.orders.iter().map(|o| (o.tick_id, o.order_id)).collect();
                if cur.is_some() && !new.is_empty() && Some(new[0]) == cur {
                    new.remove(0);
                }
                if new.is_empty() {
                    break;
                }
                cur = new.last().copied();
                seen.extend(new);
            }
            e.chk(("page", "walk", ""), seen == all, Some(sig!(step, all.len().min(130))), || {
                format!("paging through {own} by {step} visits {:?}, has {:?}", seen, all)
            });
        }
    }
}

// ---------------------------------------------------------------------------------------------- C15
fn ck_roles(e: &mut Engine, seed: u64) {
    let mut r = Rng::new(seed);
    let mut who: BTreeSet<String> = BTreeSet::new();
    for x in [&e.m.admin, &e.m.moder, &e.m.admin_offer, &e.m.moder_offer].into_iter().flatten() {
        who.insert(x.clone());
    }
    who.insert(GOV.into());
    who.insert(SUBDAO.into());
    who.insert(e.m.recipient.clone());
    who.insert(CONTRACT.into());
    who.insert(user(r.usz(6)));
    let new = user(6 + r.usz(3));
    let ops = [
        AuthOp::TransferAdmin(new.clone()),
        AuthOp::CancelAdminTransfer,
        AuthOp::RejectAdminTransfer,
        AuthOp::ClaimAdmin,
        AuthOp::Renounce,
        AuthOp::OfferModerator(new.clone()),
        AuthOp::RejectModerator,
        AuthOp::ClaimModerator,
        AuthOp::SetActive(!e.m.active),
        AuthOp::SetFee(MAX_FEE),
        AuthOp::SetFee(MAX_FEE + 1),
        AuthOp::SetRecipient(new),
    ];
    for who in who {
        for a in &ops {
            let mut m = e.m.clone();
            let exp = m.auth(&who, a);
            let mut w = e.w.fork();
            let x = w.exec(&who, &[], &a.json()).r;
            let sg = sig!(hash_str(a.kind()), e.role_of(&who), exp.is_ok(), e.m.admin.is_some(), e.m.active);
            let txt = x.as_ref().err().map(|t| t.text());
            match (&exp, &x) {
                (Ok(()), _) => {
                    e.chk(("auth", "reject", ""), x.is_ok(), Some(sg), || {
                        format!("{who} may {} but was refused: {:?}", a.kind(), txt)
                    });
                }
                (Err(reason), _) => {
                    let reason: &'static str = reason;
                    e.chk(("auth", "accept", reason), x.is_err(), Some(sg), || {
                        format!("{who} may not {} ({reason}) but it was accepted", a.kind())
                    });
                }
            }
            for (k, ex) in [
                ("admin", &m.admin),
                ("admin_offer", &m.admin_offer),
                ("moderator", &m.moder),
                ("moderator_offer", &m.moder_offer),
            ] {
                let g = obs::auth(&w, k);
                e.chk(("roles", k, ""), g.as_ref().ok() == Some(ex), Some(sg), || {
                    format!("after {} by {who}: {k} is {:?}, expected {:?}", a.kind(), g, ex)
                });
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------- C16
fn ck_pause(e: &mut Engine, seed: u64) {
    let mut r = Rng::new(seed);
    let open = open_fork(e);
    if obs::active(&open) != Ok(true) {
        // every way to reopen is judged by the lockstep monitor; nothing to fork from here
        return;
    }
    let mut w = open.fork();
    let how = r.below(3);
    let paused = match how {
        0 => w.sudo(None, r#"{"set_active":{"active":false}}"#).r.is_ok(),
        1 => e.m.admin.as_ref().map_or(false, |a| w.exec(a, &[], r#"{"auth":{"set_active":{"active":false}}}"#).r.is_ok()),
        _ => e.m.moder.as_ref().map_or(false, |a| w.exec(a, &[], r#"{"auth":{"set_active":{"active":false}}}"#).r.is_ok()),
    };
    if !paused {
        return;
    }
    let sg = sig!(how, e.m.n_orders.min(30), e.m.levels.len().min(15));
    e.chk(("pause", "flag", ""), obs::active(&w) == Ok(false), Some(sg), || "switch does not read back as paused".into());
    let b0 = obs::snapshot(&open);
    let books = |w: &World| (obs::book(w).ok(), obs::pool(w).ok(), obs::spot(w, QUOTE, BASE).ok(), obs::spot(w, BASE, QUOTE).ok(), obs::maker_fee(w).ok());
    let same_q = books(&open) == books(&w);
    e.chk(("pause", "queries", ""), same_q, Some(sg), || "queries answer differently while paused".into());
    // everything that trades or moves deposits is refused and changes nothing
    let bank0 = w.bank.clone();
    let d0 = digest(&w);
    let mut msgs: Vec<(&'static str, String, Vec<(String, u128)>, String)> = vec![];
    let t = e.m.levels.keys().next().copied().unwrap_or(0);
    msgs.push((
        "place",
        user(0),
        vec![(QUOTE.into(), 1000)],
        format!(r#"{{"place_limit":{{"tick_id":{t},"order_direction":"bid","quantity":"1000","claim_bounty":null}}}}"#),
    ));
    msgs.push((
        "place",
        user(0),
        vec![(BASE.into(), 1000)],
        format!(r#"{{"place_limit":{{"tick_id":{t},"order_direction":"ask","quantity":"1000","claim_bounty":null}}}}"#),
    ));
    let os: Vec<MOrder> = e.m.orders().cloned().collect();
    if let Some(o) = os.iter().find(|o| o.filled == 0) {
        msgs.push(("cancel", o.owner.clone(), vec![], cancel_json(o.tick, o.id)));
    }
    if let Some(o) = os.iter().find(|o| o.filled > 0) {
        msgs.push(("claim", o.owner.clone(), vec![], claim_json(o.tick, o.id)));
        msgs.push(("batch", user(1), vec![], format!(r#"{{"batch_claim":{{"orders":[[{},{}]]}}}}"#, o.tick, o.id)));
    }
    msgs.push(("batch", user(1), vec![], r#"{"batch_claim":{"orders":[]}}"#.into()));
    for (k, who, funds, m) in &msgs {
        let x = w.exec(who, funds, m).r;
        let shape = sig!(hash_str(k), sg);
        e.chk(("pause", "refuse", ""), x.is_err(), Some(shape), || format!("{k} was accepted while paused: {m}"));
    }
    for bs in [true, false] {
        let (din, dout) = io(bs);
        let amt = probe_amt(e, &mut r, bs);
        let x = w.sudo(Some((WHALE, din, amt)), &swap_json(WHALE, din, dout, amt, 0)).r;
        e.chk(("pause", "refuse", ""), x.is_err(), Some(sig!(bs, sg)), || "a swap was accepted while paused".into());
        let tt = if bs { e.m.best_bid } else { e.m.best_ask };
        let j = format!(
            r#"{{"swap_to_tick":{{"sender":"{WHALE}","token_in":{{"denom":"{din}","amount":"{amt}"}},"token_out_denom":"{dout}","token_out_min_amount":"0","swap_fee":"0","target_tick":{tt}}}}}"#
        );
        let x = w.sudo(Some((WHALE, din, amt)), &j).r;
        e.chk(("pause", "refuse", ""), x.is_err(), Some(sig!(bs, sg)), || "a bounded swap was accepted while paused".into());
    }
    let frozen = digest(&w) == d0 && w.bank == bank0;
    e.chk(("pause", "frozen", ""), frozen, Some(sg), || "refused messages changed state while paused".into());
    // reopen through every road that must exist
    let mut roads: Vec<(&'static str, World, bool)> = vec![];
    let mut s = w.fork();
    let ok = s.sudo(None, r#"{"set_active":{"active":true}}"#).r.is_ok();
    roads.push(("governance", s, ok));
    if let Some(a) = &e.m.admin {
        let mut s = w.fork();
        let ok = s.exec(a, &[], r#"{"auth":{"set_active":{"active":true}}}"#).r.is_ok();
        roads.push(("admin", s, ok));
    }
    if let Some(a) = &e.m.moder {
        let mut s = w.fork();
        let ok = s.exec(a, &[], r#"{"auth":{"set_active":{"active":true}}}"#).r.is_ok();
        roads.push(("moderator", s, ok));
    }
    for (n, s, ok) in &roads {
        e.chk(("pause", "resume", ""), *ok && obs::active(s) == Ok(true), Some(sig!(hash_str(n), sg)), || {
            format!("{n} cannot reopen a paused book")
        });
        if *ok {
            let b1 = obs::snapshot(s);
            let same = match (&b0, &b1) {
                (Ok(a), Ok(b)) => format!("{:?}", a.levels) == format!("{:?}", b.levels),
                _ => b0.is_err() == b1.is_err(),
            };
            e.chk(("pause", "intact", ""), same && books(s) == books(&open), Some(sig!(hash_str(n), sg)), || {
                format!("book differs after pausing and reopening by {n}")
            });
        }
    }
    // an outsider cannot operate the switch
    let out = user(7);
    if e.role_of(&out) & 3 == 0 {
        let x = w.exec(&out, &[], r#"{"auth":{"set_active":{"active":true}}}"#).r;
        e.chk(("pause", "outsider", ""), x.is_err(), Some(sg), || "an address without a role reopened the book".into());
    }
}

// ---------------------------------------------------------------------------------------------- C18
fn ck_batch(e: &mut Engine, seed: u64) {
    let mut r = Rng::new(seed);
    let base = open_fork(e);
    let os: Vec<(i64, u64, u128)> = e.m.orders().map(|o| (o.tick, o.id, o.filled)).collect();
    if os.is_empty() {
        return;
    }
    let n = 1 + r.usz(12);
    let mut v: Vec<(i64, u64)> = vec![];
    let mut full: Vec<(i64, u64)> = os.iter().filter(|o| o.2 > 0).map(|o| (o.0, o.1)).collect();
    if full.len() >= 30 && r.chance(70) {
        // as many claimable entries as one message may carry
        while full.len() > 100 {
            let i = r.usz(full.len());
            full.swap_remove(i);
        }
        for i in (1..full.len()).rev() {
            full.swap(i, r.usz(i + 1));
        }
        v = full;
    }
    let few = v.is_empty();
    for _ in 0..if few { n } else { 0 } {
        let o = os[r.usz(os.len())];
        v.push(match r.below(8) {
            0 => (o.0 + 1, o.1),
            1 => (o.0, o.1 + 100_000),
            _ => (o.0, o.1),
        });
    }
    let who = if r.chance(50) { user(r.usz(8)) } else { e.m.recipient.clone() };
    let msg = serde_json::json!({ "batch_claim": { "orders": v } }).to_string();
    let mut a = base.fork();
    let ra = a.exec(&who, &[], &msg).r;
    let mut b = base.fork();
    let mut k = 0;
    for (t, i) in &v {
        if b.exec(&who, &[], &claim_json(*t, *i)).r.is_ok() {
            k += 1;
        }
    }
    let uniq: BTreeSet<_> = v.iter().collect();
    let sg = sig!(v.len(), k, uniq.len(), e.m.fee > 0);
    let t = ra.as_ref().err().map(|x| x.text());
    e.chk(("batchseq", "accept", ""), ra.is_ok(), Some(sg), || {
        format!("a batch in which {k} of {} entries can be claimed was refused: {:?}", v.len(), t)
    });
    if ra.is_ok() {
        e.chk(("batchseq", "bank", ""), a.bank == b.bank, Some(sg), || {
            format!("claiming {:?} in one batch pays differently from claiming one by one", v)
        });
        let (sa, sb) = (obs::snapshot(&a), obs::snapshot(&b));
        let same = match (&sa, &sb) {
            (Ok(x), Ok(y)) => {
                x.levels.len() == y.levels.len()
                    && x.levels.iter().all(|(t, l)| {
                        y.levels.get(t).map_or(false, |m| {
                            l.liq == m.liq
                                && l.orders.len() == m.orders.len()
                                && l.orders
                                    .iter()
                                    .all(|(i, o)| m.orders.get(i).map_or(false, |p| p.rec == o.rec && p.claimable == o.claimable))
                        })
                    })
            }
            _ => false,
        };
        e.chk(("batchseq", "book", ""), same, Some(sg), || {
            format!("claiming {:?} in one batch leaves a different book from claiming one by one", v)
        });
    }
    // with one receiver refusing funds: all or nothing
    let filled: Vec<&MOrder> = e.m.orders().filter(|o| o.filled > 0).collect();
    if filled.is_empty() {
        return;
    }
    let o = filled[r.usz(filled.len())].clone();
    let plan = e.m.claim_plan(&o, o.filled);
    let z = Uint256::zero();
    let (victim, hit) = match r.below(3) {
        0 => (o.owner.clone(), plan.owner_amt > z),
        1 => (who.clone(), plan.bounty > z || (who == o.owner && plan.owner_amt > z)),
        _ => (e.m.recipient.clone(), plan.fee > z),
    };
    let hit = hit || (victim == o.owner && plan.owner_amt > z) || (victim == who && plan.bounty > z) || (victim == e.m.recipient && plan.fee > z);
    let mut w = base.fork();
    w.blocked.insert(victim.clone());
    let bank0 = w.bank.clone();
    for (j, m) in [
        claim_json(o.tick, o.id),
        format!(r#"{{"batch_claim":{{"orders":[[{},{}]]}}}}"#, o.tick, o.id),
    ]
    .into_iter()
    .enumerate()
    {
        let mut f = w.fork();
        let x = f.exec(&who, &[], &m).r;
        let sg = sig!(j, hit, plan.fee > z, plan.bounty > z, victim == o.owner, victim == who);
        if hit {
            e.chk(("atomic", "claim", ""), x.is_err() && f.bank == bank0, Some(sg), || {
                format!("{victim} cannot be paid, yet claiming {}/{} was committed", o.tick, o.id)
            });
        } else {
            let t = x.as_ref().err().map(|t| t.text());
            e.chk(("atomic", "claim", ""), x.is_ok(), Some(sg), || {
                format!("claiming {}/{} does not pay {victim}, yet it failed: {:?}", o.tick, o.id, t)
            });
        }
        if hit {
            // the fill is still there once the receiver can be paid again
            f.blocked.clear();
            let y = f.exec(&who, &[], &m).r;
            let t = y.as_ref().err().map(|t| t.text());
            let tot = y.as_ref().map(|k| k.agg().values().fold(z, |a, v| a + *v)).unwrap_or(z);
            e.chk(("atomic", "retry", ""), y.is_ok() && tot == plan.raw, Some(sg), || {
                format!("after the failed payout the claim yields {tot} ({:?}), owed {}", t, plan.raw)
            });
        }
    }
}

// ---------------------------------------------------------------------------------------------- C21
const PROBES: &[&str] = &[
    r#"{"orderbook_state":{}}"#,
    r#"{"get_total_pool_liquidity":{}}"#,
    r#"{"all_ticks":{"start_from":null,"end_at":null,"limit":null}}"#,
    r#"{"is_active":{}}"#,
    r#"{"get_maker_fee":{}}"#,
    r#"{"denoms":{}}"#,
    r#"{"get_swap_fee":{}}"#,
    r#"{"spot_price":{"quote_asset_denom":"uquote","base_asset_denom":"ubase"}}"#,
    r#"{"calc_out_amount_given_in":{"token_in":{"denom":"ubase","amount":"777"},"token_out_denom":"uquote","swap_fee":"0"}}"#,
];
/// queries over several levels and owners at once
fn multi_probes(w: &World) -> Vec<String> {
    let mut v: Vec<i64> = obs::all_ticks(w).unwrap_or_default().iter().map(|t| t.tick_id).collect();
    v.truncate(40);
    let l = |v: &[i64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let mut o = vec![];
    for q in ["ticks_by_id", "get_unrealized_cancels"] {
        o.push(format!(r#"{{"{q}":{{"tick_ids":[{}]}}}}"#, l(&v)));
        let mut rev = v.clone();
        rev.reverse();
        o.push(format!(r#"{{"{q}":{{"tick_ids":[{}]}}}}"#, l(&rev)));
    }
    for t in v.iter().take(4) {
        o.push(format!(r#"{{"orders_by_tick":{{"tick_id":{t},"start_from":null,"end_at":null,"limit":null}}}}"#));
    }
    for i in 0..6 {
        o.push(format!(r#"{{"orders_by_owner":{{"owner":"{}","start_from":null,"end_at":null,"limit":null}}}}"#, user(i)));
    }
    o
}
fn ck_det(e: &mut Engine, seed: u64) {
    let log = match e.w.log.take() {
        Some(l) => l,
        None => return,
    };
    let mut r = Rng::new(seed ^ 0x5151);
    // an independent instance with unrelated traffic next to it, on a different thread than the original
    let final_store = e.w.store.data.clone();
    let bank = e.w.bank.clone();
    let seed2 = r.next();
    type Out = Vec<(usize, String)>;
    let replay = |shift: u64, decoy: bool| -> (Out, World, Vec<u64>) {
        let mut w = new_world();
        w.names = e.w.names;
        let im = inst_msg();
        let mut out: Out = vec![];
        if w.call(Call::Inst { sender: GOV, msg: &im }).r.is_err() {
            out.push((0, "instantiate failed".into()));
        }
        let mut d = new_world();
        d.names = e.w.names;
        let _ = d.call(Call::Inst { sender: GOV, msg: &im });
        let mut rr = Rng::new(seed2);
        let mut sigs = vec![];
        for (i, l) in log.iter().enumerate() {
            if decoy {
                // foreign traffic on another instance in between
                let j = rr.usz(log.len());
                d.height = 5;
                let _ = log[j].call.run(&mut d);
            }
            w.height = l.height + shift;
            w.time = l.time + shift * 1_000_000_007;
            w.blocked = l.blocked.clone();
            let x = l.call.run(&mut w);
            if x.r != l.out {
                out.push((i, format!("{:?}: first {:?}, again {:?}", l.call, l.out, x.r)));
            }
            sigs.push(comb(hash_str(&format!("{:?}", l.call)), x.r.is_ok() as u64));
            if i + 1 == log.len() || rr.chance(5) {
                for p in PROBES.iter().map(|p| p.to_string()).chain(multi_probes(&w)) {
                    let p = p.as_str();
                    let q = w.query(p);
                    let q2 = w.query(p);
                    if q != q2 {
                        out.push((i, format!("query {p} answered {:?} and then {:?}", q, q2)));
                    }
                }
            }
        }
        (out, w, sigs)
    };
    let (o1, w1, sigs) = replay(0, true);
    let (o2, w2, _) = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, || {
                let (o, w, _) = replay(0, false);
                (o, w.store.data, w.bank)
            })
            .unwrap()
            .join()
            .unwrap()
    });
    let (o3, w3, _) = replay(1 + r.below(1_000_000), false);
    for s in &sigs {
        e.chk(("det", "step", ""), true, Some(*s), String::new);
    }
    // the same history on an instance that only differs in its address and its denoms
    let mut w4 = World { bank: new_world().bank.renamed(), contract: CONTRACT2, ..World::default() };
    let mut o4: Out = vec![];
    if w4.call(Call::Inst { sender: GOV, msg: &renamed(&inst_msg()) }).r.is_err() {
        o4.push((0, "instantiate failed".into()));
    }
    for (i, l) in log.iter().enumerate() {
        w4.height = l.height;
        w4.time = l.time;
        w4.blocked = l.blocked.iter().map(|a| renamed(a)).collect();
        let x = l.call.renamed().run(&mut w4);
        let want = renamed_out(&l.out);
        if x.r != want {
            o4.push((i, format!("{:?}: first {:?}, there {:?}", l.call, want, x.r)));
        }
    }
    let ren = |x: Result<Vec<u8>, TxErr>| x.map(|v| renamed_bytes(&v)).map_err(|t| renamed(&t.text()));
    for p in PROBES.iter().map(|p| p.to_string()).chain(multi_probes(&w1)) {
        let want = ren(e.w.query(&p));
        let got = w4.query(&renamed(&p)).map_err(|t| t.text());
        e.chk(("det", "instance.query", ""), want == got, Some(hash_str(&p)), || {
            format!("query {p} on the book at another address: {:?} / {:?}", want, got)
        });
    }
    let f = |o: &Out| o.first().map(|x| format!("call {}: {}", x.0, x.1));
    let m = f(&o4);
    e.chk(("det", "instance", ""), m.is_none(), None, || format!("outcome differs on a book with other denoms at another address: {:?}", m));
    e.chk(("det", "instance.bank", ""), w4.bank == e.w.bank.renamed(), None, || "identical histories pay differently on a book with other denoms".into());
    let m = f(&o1);
    e.chk(("det", "interleaved", ""), m.is_none(), None, || format!("outcome differs on an identical instance: {:?}", m));
    let m = f(&o2);
    e.chk(("det", "thread", ""), m.is_none(), None, || format!("outcome differs on another thread: {:?}", m));
    let m = f(&o3);
    e.chk(("det", "time", ""), m.is_none(), None, || format!("outcome depends on the block time: {:?}", m));
    // apart from the recorded placement times, the book reads the same whenever the messages arrived
    fn untimed(v: &mut serde_json::Value) {
        match v {
            serde_json::Value::Object(m) => {
                m.remove("placed_at");
                m.values_mut().for_each(untimed);
            }
            serde_json::Value::Array(a) => a.iter_mut().for_each(untimed),
            _ => {}
        }
    }
    let ut = |x: Result<Vec<u8>, TxErr>| {
        x.map_err(|t| t.text()).map(|b| {
            serde_json::from_slice::<serde_json::Value>(&b).map_or(serde_json::Value::Null, |mut v| {
                untimed(&mut v);
                v
            })
        })
    };
    for p in PROBES.iter().map(|p| p.to_string()).chain(multi_probes(&w1)) {
        let (a, b) = (ut(e.w.query(&p)), ut(w3.query(&p)));
        e.chk(("det", "time.query", ""), a == b, Some(hash_str(&p)), || format!("query {p} depends on when the messages arrived: {:?} / {:?}", a, b));
    }
    e.chk(("det", "state", ""), w1.store.data == final_store && w2 == final_store, Some(sig!(final_store.len().min(400))), || {
        "identical histories leave different stored state".into()
    });
    e.chk(("det", "bank", ""), w1.bank == bank && w3.bank == bank, None, || "identical histories pay differently".into());
    for p in PROBES.iter().map(|p| p.to_string()).chain(multi_probes(&w1)) {
        let p = p.as_str();
        let (a, b) = (e.w.query(p), w1.query(p));
        e.chk(("det", "query", ""), a == b, Some(hash_str(p)), || format!("query {p}: {:?} / {:?}", a, b));
    }
    e.st.bump("calls_replayed", 4 * log.len() as u64);
}

// ---------------------------------------------------------------------------------------------- C27
fn ck_ledger(e: &mut Engine, _seed: u64) {
    let ts: Vec<i64> = e.m.levels.keys().copied().collect();
    for t in ts {
        e.obs_ledger(t);
    }
}

// ---------------------------------------------------------------------------------------------- C26
/// the listings by owner (kept in an index of their own) cover the stored orders, and the stored book can be quoted
pub fn ck_upgrade(e: &mut Engine, _seed: u64) {
    let mut by: BTreeMap<String, Vec<(i64, u64)>> = BTreeMap::new();
    for (t, l) in &e.m.levels {
        let mut ids: Vec<(u64, String)> = l.q.iter().flat_map(|q| q.values()).map(|o| (o.id, o.owner.clone())).collect();
        ids.sort();
        for (id, o) in ids {
            by.entry(o).or_default().push((*t, id));
        }
    }
    for (own, exp) in by {
        let got = obs::orders_by_owner(&e.w, &own, None, None, Some(10_000));
        let ids = got.as_ref().map(|v| v.orders.iter().map(|o| (o.tick_id, o.order_id)).collect::<Vec<_>>());
        let n = got.as_ref().map(|v| v.count).unwrap_or(u64::MAX);
        let ok = ids.as_ref().ok() == Some(&exp) && n == exp.len() as u64;
        e.chk(("upgrade", "owner", ""), ok, Some(sig!(exp.len().min(40))), || {
            format!("orders of {own} are listed as {:?} (count {n}), stored are {:?}", ids, exp)
        });
    }
}

// ---------------------------------------------------------------------------------------------- C28
fn ck_neutral(e: &mut Engine, seed: u64) {
    use crate::neutral::*;
    let log = match e.w.log.take() {
        Some(l) => l,
        None => return,
    };
    let base = run(e.w.names, &log, How::Same, seed);
    if base.diff.is_some() || base.broke {
        // not even repeatable: nothing can be concluded from variations (that is C21's subject)
        e.st.bump("not_repeatable", 1);
        return;
    }
    let seen0 = base.seen.clone();
    let b0 = match settle(base) {
        Some(b) => b,
        None => {
            e.st.bump("unreadable_end", 1);
            return;
        }
    };
    for (k, how) in [("late", How::Late), ("early", How::Early), ("noise", How::Noise), ("noise", How::Noise)].into_iter().enumerate() {
        let (name, how) = how;
        let r = run(e.w.names, &log, how, seed ^ (k as u64 * 977));
        e.st.bump(name, 1);
        e.st.bump("calls_compared", r.compared);
        e.st.bump("withdrawn_orders", r.noise);
        let cat = |c: &'static str| ("neutral", name, c);
        let sg0 = hash_str(name);
        for (i, l) in log.iter().enumerate().take(r.compared as usize) {
            let _ = i;
            let sg = matches!(l.call, OwnedCall::Sudo { .. }).then(|| comb(sg0, hash_str(&format!("{:?}", l.out.as_ref().map(|k| &k.xfers).map_err(|_| ())))));
            e.chk(cat("outcome"), true, sg, String::new);
        }
        let d = r.diff.clone();
        let (calls, noise) = (r.compared, r.noise);
        if !e.chk(cat("outcome"), d.is_none(), None, || d.clone().unwrap_or_default()) {
            continue;
        }
        for (i, f) in &r.seen {
            if let Some(f0) = seen0.get(i) {
                let sg = Some(comb(sg0, hash_str(f0)));
                e.chk(cat("seen"), f == f0, sg, || format!("after call {i}: {f} / without the change: {f0}"));
            }
        }
        if r.broke {
            e.st.bump("given_up", 1);
            continue;
        }
        match settle(r) {
            None => e.st.bump("unreadable_end", 1),
            Some(b) => {
                let sg = Some(comb(sg0, sig!(calls.min(60), noise.min(20), e.m.n_orders.min(30), e.m.levels.len().min(12))));
                let s = same(&b0, &b);
                e.chk(cat("book"), s.is_ok(), sg, || s.clone().unwrap_err());
                let s = if how == How::Noise { held_same(&b0, &b) } else { money(&b0, &b) };
                e.chk(cat("held"), s.is_ok(), sg, || s.clone().unwrap_err());
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------- C24
fn ck_avail(e: &mut Engine, seed: u64) {
    let mut r = Rng::new(seed);
    let base = open_fork(e);
    for bs in [true, false] {
        let (din, dout) = io(bs);
        let s = bs as usize;
        let live = e.m.live_ticks(bs, if bs { MIN_TICK } else { MAX_TICK });
        if live.is_empty() {
            continue;
        }
        let best = live[0];
        let nl = live.len().min(25);
        let cap = 1u128 << 126;
        let sum = |k: usize| -> Option<u128> {
            let mut t = Uint256::zero();
            for x in live.iter().take(k) {
                t += taker_cost(bs, e.m.levels[x].liq[s], *x);
            }
            to_u128(t).filter(|x| *x <= cap)
        };
        let one = to_u128(taker_cost(bs, 1, best)).filter(|x| *x <= cap);
        let k = 1 + r.usz(live.len());
        let exact = r.below128(e.m.levels[&best].liq[s]) + 1;
        let mut probes: Vec<(&'static str, Option<u128>)> = vec![
            ("smallest", one),
            ("part", to_u128(taker_cost(bs, exact, best)).filter(|x| *x <= cap)),
            ("levels", sum(k)),
            ("everything", sum(live.len())),
        ];
        probes.push(("some", sum(live.len()).map(|x| 1 + r.below128(x))));
        for (what, amt) in probes {
            let amt = match amt {
                Some(a) if a > 0 => a,
                _ => continue,
            };
            // the reference plan says whether this must go through
            let plan = e.m.plan_swap(bs, amt, if bs { MIN_TICK } else { MAX_TICK });
            let must = matches!(&plan, Ok(p) if !p.out.is_zero());
            if !must {
                continue;
            }
            let mut w = base.fork();
            let x = w.sudo(Some((WHALE, din, amt)), &swap_json(WHALE, din, dout, amt, 0)).r;
            let t = x.as_ref().err().map(|t| t.text());
            let sg = sig!(bs, hash_str(what), nl, decade(best), bits(amt) / 4, bits(e.m.levels[&best].liq[s]) / 4);
            e.chk(("avail", "full", ""), x.is_ok(), Some(sg), || {
                format!("the book can serve {amt}{din} ({what}), yet the swap is refused: {:?}", t)
            });
            if what == "everything" && x.is_ok() {
                let left = obs::all_ticks(&w)
                    .unwrap_or_default()
                    .iter()
                    .filter(|t| t.tick_state.liq(bs) != Some(0))
                    .count();
                e.chk(("avail", "emptied", ""), left == 0, Some(sg), || {
                    format!("paying for the whole side leaves liquidity at {left} levels")
                });
            }
            let mut w = base.fork();
            let tt = live[r.usz(live.len())];
            let p2 = e.m.plan_swap(bs, amt, tt);
            if matches!(&p2, Ok(p) if !p.out.is_zero()) {
                let j = format!(
                    r#"{{"swap_to_tick":{{"sender":"{WHALE}","token_in":{{"denom":"{din}","amount":"{amt}"}},"token_out_denom":"{dout}","token_out_min_amount":"0","swap_fee":"0","target_tick":{tt}}}}}"#
                );
                let x = w.sudo(Some((WHALE, din, amt)), &j).r;
                let t = x.as_ref().err().map(|t| t.text());
                e.chk(("avail", "bounded", ""), x.is_ok(), Some(sg), || {
                    format!("the book can serve {amt}{din} up to tick {tt}, yet the swap is refused: {:?}", t)
                });
            }
        }
    }
}

/// workload for books stored as fixtures
pub fn fixture_profile() -> Profile {
    Profile {
        ops: (70, 110),
        bounty: 40,
        tick_modes: &[TickMode::Few, TickMode::Few, TickMode::Spread],
        w: [34, 14, 4, 1, 14, 6, 0, 0, 0, 0, 4, 0, 0, 0],
        phases: false,
        max_orders: 60,
        ..Profile::default()
    }
}
