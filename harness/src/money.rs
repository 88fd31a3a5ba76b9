//! Rewards, balances, minimum balances and round arithmetic.
use crate::nd;
use algorsand::config::ConsensusParams;
use algorsand::data::basics::*;
use algorsand::data::bookkeeping::RewardsState;

fn params() -> ConsensusParams {
    ConsensusParams::default()
}
fn addr(b: u8) -> Address {
    Address([b; 32])
}
fn rewards_state() -> RewardsState {
    RewardsState {
        fee_sink: Address(nd::bytes("fee_sink")),
        rewards_pool: Address(nd::bytes("rewards_pool")),
        rewards_level: nd::u64("level"),
        rewards_rate: nd::u64("rate"),
        rewards_residue: nd::u64("residue"),
        rewards_recalculation_round: Round(nd::u64("recalc_round")),
    }
}

/// One transition of the reward distribution against its definition.
pub fn rewards_next() {
    let s = rewards_state();
    let mut p = params();
    p.min_balance = nd::u64("min_balance");
    p.pending_residue_rewards = nd::bool("pending_residue");
    p.rewards_rate_refresh_interval = nd::u64("interval");
    nd::assume(p.rewards_rate_refresh_interval != 0);
    let round = nd::u64("round");
    nd::assume(round.checked_add(p.rewards_rate_refresh_interval).is_some());
    let pool = nd::u64("pool");
    let units = nd::u64("units");
    let (min_balance, residue_counts, interval) = (p.min_balance, p.pending_residue_rewards, p.rewards_rate_refresh_interval);
    let n = s.next_state(Round(round), p, MicroAlgos(pool), units);
    nd::check(n.fee_sink == s.fee_sink && n.rewards_pool == s.rewards_pool, "special addresses are carried over");
    if round == s.rewards_recalculation_round.0 {
        nd::cover("refresh");
        let floor = min_balance as u128 + if residue_counts { s.rewards_residue as u128 } else { 0 };
        if (pool as u128) < floor {
            nd::cover("pool exhausted");
            nd::check(n.rewards_rate == 0, "nothing is paid out of a pool below its floor");
        } else {
            let spendable = pool - floor as u64;
            nd::check(n.rewards_rate == spendable / interval, "the refreshed rate spends what is above the floor over one interval");
        }
        nd::check(n.rewards_recalculation_round.0 == round + interval, "next refresh is one interval later");
    } else {
        nd::cover("no refresh");
        nd::check(n.rewards_rate == s.rewards_rate && n.rewards_recalculation_round == s.rewards_recalculation_round, "the rate only changes on a refresh round");
    }
    if units == 0 {
        nd::cover("no units");
        nd::check(n.rewards_level == s.rewards_level && n.rewards_residue == s.rewards_residue, "without reward units nothing is distributed");
        return;
    }
    match s.rewards_rate.checked_add(s.rewards_residue) {
        None => {
            nd::cover("overflow");
            nd::check(n.rewards_level == s.rewards_level && n.rewards_residue == s.rewards_residue, "an overflow leaves level and residue alone");
        }
        Some(total) => {
            let (q, r) = (total / units, total % units);
            match s.rewards_level.checked_add(q) {
                None => {
                    nd::cover("level overflow");
                    nd::check(n.rewards_level == s.rewards_level && n.rewards_residue == s.rewards_residue, "an overflow leaves level and residue alone");
                }
                Some(l) => {
                    nd::cover("distributed");
                    nd::check(n.rewards_level == l, "the level rises by the whole rewards per unit");
                    nd::check(n.rewards_residue == r, "what does not divide stays as residue");
                }
            }
        }
    }
}

/// Over several rounds, every microalgo set aside is either credited through the level or still in the residue.
pub fn rewards_conserved() {
    let k = if nd::thorough() { 3 } else { 2 };
    let mut s = RewardsState {
        fee_sink: addr(1),
        rewards_pool: addr(2),
        rewards_level: nd::below(1 << 20, "level"),
        rewards_rate: nd::below(1 << 6, "rate"),
        rewards_residue: nd::below(1 << 6, "residue"),
        rewards_recalculation_round: Round(nd::below(16, "recalc")),
    };
    let start = nd::below(8, "start");
    for i in 0..k {
        let mut p = params();
        p.min_balance = 10;
        p.pending_residue_rewards = true;
        p.rewards_rate_refresh_interval = 2;
        let units = nd::below(4, "units");
        nd::assume(units != 0);
        let units = nd::concretize(units);
        let pool = nd::below(1 << 7, "pool");
        let n = s.next_state(Round(start + i), p, MicroAlgos(pool), units);
        nd::check(n.rewards_level >= s.rewards_level, "the level never falls");
        nd::check((n.rewards_level - s.rewards_level) * units + n.rewards_residue == s.rewards_rate + s.rewards_residue, "no reward is created or lost");
        nd::check(n.rewards_residue < units, "the residue is less than one microalgo per unit");
        if n.rewards_recalculation_round != s.rewards_recalculation_round {
            nd::cover("refreshed on the way");
            nd::check(n.rewards_rate * 2 + if pool >= 10 { 10 } else { 0 } <= pool, "one interval never overspends the pool");
        }
        s = n;
    }
}

fn status(c: usize) -> Status {
    match c {
        0 => Status::Offline,
        1 => Status::Online,
        _ => Status::NotParticipating,
    }
}
fn account() -> AccountData {
    AccountData {
        status: status(nd::choose(3, "status")),
        micro_algos: MicroAlgos(nd::u64("algos")),
        rewards_base: nd::u64("base"),
        rewarded_micro_algos: MicroAlgos(nd::u64("rewarded")),
        vote_key_dilution: nd::u64("dilution"),
        total_app_schema: StateSchema { num_uint: nd::u64("nu"), num_byte_slice: nd::u64("nb") },
        total_extra_app_pages: nd::u32("pages"),
        vote_first_valid: Round(nd::u64("vf")),
        vote_last_valid: Round(nd::u64("vl")),
        auth_addr: Address(nd::bytes("auth")),
        ..Default::default()
    }
}
fn same_rest(a: &AccountData, b: &AccountData) -> bool {
    a.status == b.status
        && a.vote_key_dilution == b.vote_key_dilution
        && a.total_app_schema == b.total_app_schema
        && a.total_extra_app_pages == b.total_extra_app_pages
        && a.vote_first_valid == b.vote_first_valid
        && a.vote_last_valid == b.vote_last_valid
        && a.auth_addr == b.auth_addr
        && a.assets.len() == b.assets.len()
        && a.app_params.len() == b.app_params.len()
}

/// Applying deferred rewards credits exactly units x level difference, refuses to overflow, and only participating accounts earn.
pub fn account_rewards() {
    let a = account();
    let mut p = params();
    p.reward_unit = nd::u64("unit");
    nd::assume(p.reward_unit != 0);
    let level = nd::u64("level");
    let participating = a.status != Status::NotParticipating;
    let fits = if participating {
        if level < a.rewards_base {
            false
        } else {
            let r = (a.micro_algos.0 / p.reward_unit).checked_mul(level - a.rewards_base);
            r.map_or(false, |r| a.micro_algos.0.checked_add(r).is_some())
        }
    } else {
        true
    };
    let which = nd::choose(2, "which");
    nd::panics_allowed(!fits);
    if which == 0 {
        let b = a.verif_with_updated_rewards(&p, level);
        nd::panics_allowed(false);
        nd::check(fits, "a credit that does not fit never goes unnoticed");
        nd::check(same_rest(&a, &b), "only balance, base and total change");
        if participating {
            nd::cover("earns");
            let r = (a.micro_algos.0 / p.reward_unit) * (level - a.rewards_base);
            nd::check(b.micro_algos.0 == a.micro_algos.0 + r, "credited units times level difference");
            nd::check(b.rewards_base == level, "the base moves to the level");
            nd::check(b.rewarded_micro_algos.0 == a.rewarded_micro_algos.0.wrapping_add(r), "the lifetime total counts the credit");
            // idempotent: nothing is credited twice
            let c = b.verif_with_updated_rewards(&p, level);
            nd::check(c.micro_algos == b.micro_algos && c.rewarded_micro_algos == b.rewarded_micro_algos && c.rewards_base == level, "crediting again at the same level changes nothing");
        } else {
            nd::cover("does not participate");
            nd::check(b.micro_algos == a.micro_algos && b.rewards_base == a.rewards_base && b.rewarded_micro_algos == a.rewarded_micro_algos, "a non-participating account earns nothing");
        }
    } else {
        let (m, r) = a.verif_money(&p, level);
        nd::panics_allowed(false);
        nd::check(fits, "a balance that does not fit never goes unnoticed");
        if participating {
            let e = (a.micro_algos.0 / p.reward_unit) * (level - a.rewards_base);
            nd::check(m.0 == a.micro_algos.0 + e && r.0 == a.rewarded_micro_algos.0.wrapping_add(e), "effective balance includes pending rewards");
            let pend = a.verif_pending_rewards(&p, a.micro_algos, a.rewards_base, level);
            nd::check(pend.0 == e, "pending rewards are what will be credited");
        } else {
            nd::check(m == a.micro_algos && r == a.rewarded_micro_algos, "a non-participating account earns nothing");
        }
    }
}

/// Only online accounts carry voting stake; key dilution falls back to the protocol's default.
pub fn account_stake() {
    let a = account();
    let mut p = params();
    p.default_key_dilution = nd::u64("default_dilution");
    let online = a.status == Status::Online;
    if online {
        nd::cover("online");
    } else {
        nd::cover("not online");
    }
    nd::check(a.voting_stake().0 == if online { a.micro_algos.0 } else { 0 }, "voting stake is the balance of online accounts only");
    let d = a.verif_key_dilution(&p);
    nd::check(d == if a.vote_key_dilution == 0 { p.default_key_dilution } else { a.vote_key_dilution }, "key dilution defaults to the protocol's");
    let fresh = AccountData::verif_new(a.status, a.micro_algos);
    nd::check(fresh.status == a.status && fresh.micro_algos == a.micro_algos && fresh.rewards_base == 0 && fresh.rewarded_micro_algos.0 == 0 && fresh.auth_addr == Address::default(), "a new account has nothing but its status and balance");
}

/// The normalized balance is floor(algos * unit / (unit + base)), without overflow.
pub fn normalized() {
    let a = account();
    let mut p = params();
    p.reward_unit = nd::u64("unit");
    nd::assume(p.reward_unit != 0);
    let n = a.verif_normalized_online_balance(&p);
    if a.status != Status::Online {
        nd::cover("not online");
        nd::check(n == 0, "accounts which are not online have no normalized balance");
    } else {
        nd::cover("online");
        let spec = a.micro_algos.0 as u128 * p.reward_unit as u128 / (a.rewards_base as u128 + p.reward_unit as u128);
        nd::check(n as u128 == spec, "normalized balance");
    }
}
/// Smaller numbers, where the solver can decide the relation itself.
pub fn normalized_small() {
    let mut a = AccountData::verif_new(Status::Online, MicroAlgos(nd::below(64, "algos")));
    a.rewards_base = nd::below(16, "base");
    let mut p = params();
    p.reward_unit = nd::below(16, "unit");
    nd::assume(p.reward_unit != 0);
    let n = a.verif_normalized_online_balance(&p);
    let per = a.rewards_base + p.reward_unit;
    let prod = a.micro_algos.0 * p.reward_unit;
    nd::check(n <= a.micro_algos.0, "normalizing never raises a balance");
    nd::check(n * per <= prod && prod < (n + 1) * per, "the quotient rounded down");
    let mut b = a.clone();
    b.micro_algos = MicroAlgos(nd::below(64, "algos2"));
    if b.micro_algos >= a.micro_algos {
        nd::check(b.verif_normalized_online_balance(&p) >= n, "normalizing keeps the order of equally old accounts");
    }
}

fn sat_add(a: u128, b: u128) -> u128 {
    let s = a + b;
    if s > u64::MAX as u128 { u64::MAX as u128 } else { s }
}
/// The minimum balance: one formula over everything the account stores, saturating instead of wrapping.
pub fn min_balance() {
    let mut a = account();
    let (n_assets, n_params, n_local) = [(0, 0, 0), (1, 0, 2), (2, 1, 0), (0, 2, 1), (2, 2, 2)][nd::choose(5, "counts")];
    a.total_app_schema = if n_assets == 0 { StateSchema::default() } else { StateSchema { num_uint: 1, num_byte_slice: 2 } };
    for i in 0..n_assets {
        a.assets.insert(i as u64, AssetHolding { amount: nd::u64("amount"), frozen: false });
    }
    let kv = || TealKeyValue::verif_new(vec![]);
    for i in 0..n_params {
        a.app_params.insert(AppIndex(i as u64), AppParams {
            approval_program: vec![],
            clear_state_program: vec![],
            global_state: kv(),
            state_schemas: StateSchemas { local_state_schema: StateSchema::default(), global_state_schema: StateSchema { num_uint: 3, num_byte_slice: 2 } },
            extra_program_pages: 1,
        });
    }
    for i in 0..n_local {
        a.app_local_states.insert(AppIndex(i as u64), AppLocalState { schema: StateSchema { num_uint: 1, num_byte_slice: 1 }, key_value: kv() });
    }
    // asset parameters do not count: every created asset is also held
    a.asset_params.insert(77, AssetParams { total: 1, decimals: 0, default_frozen: false, unit_name: String::new(), asset_name: String::new(), url: String::new(), metadata_hash: [0; 32], manager: addr(0), reserve: addr(0), freeze: addr(0), clawback: addr(0) });
    let mut p = params();
    p.min_balance = nd::u64("min_balance");
    p.app_flat_params_min_balance = nd::u64("flat_params");
    p.app_flat_opt_in_min_balance = nd::u64("flat_opt_in");
    p.schema_min_balance_per_entry = nd::u64("entry");
    p.schema_uint_min_balance = nd::u64("uint");
    p.schema_bytes_min_balance = nd::u64("bytes");
    let mul = |x: u64, y: u64| x.saturating_mul(y);
    let s = a.total_app_schema;
    let schema = mul(p.schema_min_balance_per_entry, s.num_uint + s.num_byte_slice)
        .saturating_add(mul(p.schema_uint_min_balance, s.num_uint))
        .saturating_add(mul(p.schema_bytes_min_balance, s.num_byte_slice));
    let want = p.min_balance
        .saturating_add(mul(p.min_balance, n_assets as u64))
        .saturating_add(mul(p.app_flat_params_min_balance, n_params as u64))
        .saturating_add(mul(p.app_flat_opt_in_min_balance, n_local as u64))
        .saturating_add(schema)
        .saturating_add(mul(p.app_flat_params_min_balance, a.total_extra_app_pages as u64));
    let got = a.verif_min_balance(&p);
    nd::cover("computed");
    nd::check(got.0 == want, "minimum balance");
}

/// The minimum balance of a schema, saturating.
pub fn schema_cost() {
    let s = StateSchema { num_uint: nd::u64("nu"), num_byte_slice: nd::u64("nb") };
    let mut p = params();
    p.schema_min_balance_per_entry = nd::u64("entry");
    p.schema_uint_min_balance = nd::u64("uint");
    p.schema_bytes_min_balance = nd::u64("bytes");
    let mul = |x: u64, y: u64| x.saturating_mul(y);
    let entries = s.num_uint.saturating_add(s.num_byte_slice);
    let schema = mul(p.schema_min_balance_per_entry, entries)
        .saturating_add(mul(p.schema_uint_min_balance, s.num_uint))
        .saturating_add(mul(p.schema_bytes_min_balance, s.num_byte_slice));
    nd::check(s.min_balance(&p).0 == schema, "minimum balance of a schema");
}

/// Schema arithmetic saturates component-wise.
pub fn schema() {
    let a = StateSchema { num_uint: nd::u64("au"), num_byte_slice: nd::u64("ab") };
    let b = StateSchema { num_uint: nd::u64("bu"), num_byte_slice: nd::u64("bb") };
    let add = |x: u64, y: u64| sat_add(x as u128, y as u128) as u64;
    let sub = |x: u64, y: u64| if x > y { x - y } else { 0 };
    let s = a.add_schema(b);
    nd::check(s.num_uint == add(a.num_uint, b.num_uint) && s.num_byte_slice == add(a.num_byte_slice, b.num_byte_slice), "sum of schemas");
    let d = a.sub_schema(b);
    nd::check(d.num_uint == sub(a.num_uint, b.num_uint) && d.num_byte_slice == sub(a.num_byte_slice, b.num_byte_slice), "difference of schemas");
    if s.num_uint != u64::MAX && s.num_byte_slice != u64::MAX {
        nd::cover("no saturation");
        nd::check(s.sub_schema(b) == a, "taking away what was added restores the schema");
    }
    nd::check(a.num_entries() == add(a.num_uint, a.num_byte_slice), "entries of a schema");
}

/// Rounds: key identifiers, capped subtraction, rounding up, checked sums.
pub fn rounds() {
    let r = nd::u64("r");
    let s = nd::u64("s");
    nd::check(Round(r).verif_sub_capped(Round(s)).0 == if r > s { r - s } else { 0 }, "capped subtraction");
    nd::check((Round(r) < Round(s)) == (r < s) && (Round(r) == Round(s)) == (r == s), "rounds are ordered as numbers");
    nd::check((MicroAlgos(r) < MicroAlgos(s)) == (r < s) && MicroAlgos(r).to_u64() == r && MicroAlgos(r).is_zero() == (r == 0), "microalgos are ordered as numbers");
    if s != 0 {
        let id = Round(r).ots_id(s);
        nd::check(id.batch == r / s && id.offset == r % s, "one-time key of a round");
        let mut p = params();
        p.reward_unit = s;
        nd::check(MicroAlgos(r).reward_units(&p) == r / s, "whole reward units");
    }
    nd::panics_allowed(r.checked_add(s).is_none());
    let sum = if nd::flip("algos") { (MicroAlgos(r) + MicroAlgos(s)).0 } else { (Round(r) + Round(s)).0 };
    nd::panics_allowed(false);
    nd::check(r.checked_add(s) == Some(sum), "sums never wrap around");
}
/// Smaller numbers: the defining relations rather than the same division.
pub fn rounds_small() {
    let r = nd::below(1024, "r");
    let s = nd::below(64, "s");
    nd::assume(s != 0);
    let m = Round(r).verif_round_up_to_multiple_of(Round(s)).0;
    nd::check(m >= r && m - r < s && m % s == 0, "the least multiple not below the round");
    let id = Round(r).ots_id(s);
    nd::check(id.offset < s && id.batch * s + id.offset == r, "every round has its own one-time key");
}
