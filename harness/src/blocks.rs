//! Blocks: succession of headers, protocol upgrades, and the commitment to the transactions.
use crate::nd;
use crate::txs::{fields_of, h32, stx};
use algorsand::config::{self, ConsensusParams};
use algorsand::crypto::hashable::*;
use algorsand::data::basics::*;
use algorsand::data::bookkeeping::*;
use algorsand::data::transactions::*;
use algorsand::protocol::ConsensusVersion::{self, *};

pub fn params(v: ConsensusVersion) -> &'static ConsensusParams {
    &config::CONSENSUS.0[&v]
}
pub const ALL: [ConsensusVersion; 25] =
    [V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, Future];
pub fn pick(vs: &[ConsensusVersion], name: &str) -> ConsensusVersion {
    vs[nd::choose(vs.len(), name)]
}
pub fn small_hash(name: &str) -> CryptoHash {
    let mut a = [0; 32];
    a[3] = nd::u8(name);
    CryptoHash(a)
}
/// Moves what is different about a hash to its other half.
fn moved(mut h: CryptoHash, there: bool) -> CryptoHash {
    if there {
        h.0.swap(3, 29);
    }
    h
}
fn state_eq(a: &UpgradeState, b: &UpgradeState) -> bool {
    a.current_protocol == b.current_protocol
        && a.next_protocol == b.next_protocol
        && a.next_protocol_approvals == b.next_protocol_approvals
        && a.next_protocol_vote_before == b.next_protocol_vote_before
        && a.next_protocol_switch_on == b.next_protocol_switch_on
}

/// A state of the upgrade machine after the block of round `r`, restricted to what its invariant allows.
fn upgrade_state(r: u64, currents: &[ConsensusVersion], nexts: &[ConsensusVersion]) -> UpgradeState {
    let current = pick(currents, "current");
    let n = nd::choose(nexts.len() + 1, "next");
    let s = UpgradeState {
        current_protocol: current,
        next_protocol: if n == 0 { None } else { Some(nexts[n - 1]) },
        next_protocol_approvals: if n == 0 { 0 } else { nd::u64("approvals") },
        next_protocol_vote_before: Round(if n == 0 { 0 } else { nd::u64("vote_before") }),
        next_protocol_switch_on: Round(if n == 0 { 0 } else { nd::u64("switch_on") }),
    };
    nd::assume(invariant(&s, r));
    s
}
/// What holds of the upgrade state after every block of a chain (`r` is the round of the block).
fn invariant(s: &UpgradeState, r: u64) -> bool {
    let p = params(s.current_protocol);
    let (a, v, w) = (s.next_protocol_approvals, s.next_protocol_vote_before.0, s.next_protocol_switch_on.0);
    if s.next_protocol.is_none() {
        return a == 0 && v == 0 && w == 0;
    }
    // the vote is open for a fixed number of rounds, each of which approved at most once, ...
    let opened = v.wrapping_sub(p.upgrade_vote_rounds);
    let voted = if r < v { r.wrapping_sub(opened).wrapping_add(1) } else { p.upgrade_vote_rounds };
    // ... is followed by the agreed wait, and lingers past its end only when it was won
    let lo = if p.max_upgrade_wait_rounds == 0 || p.min_upgrade_wait_rounds == 0 { 0 } else { p.min_upgrade_wait_rounds };
    let hi = if p.max_upgrade_wait_rounds == 0 { p.default_upgrade_wait_rounds } else { p.max_upgrade_wait_rounds };
    v >= p.upgrade_vote_rounds && v < (1 << 62) && opened <= r && a <= voted && w > v && w - v >= lo && w - v <= hi && r < w && (r < v || a >= p.upgrade_threshold)
}
fn a_vote(proposals: &[ConsensusVersion]) -> UpgradeVote {
    UpgradeVote { upgrade_propose: pick(proposals, "propose"), upgrade_delay: Round(nd::u64("delay")), upgrade_approve: nd::bool("approve") }
}
/// The transition of the upgrade state by the rules (None: the vote is illegal).
fn upgrade_spec(s: &UpgradeState, round: u64, vote: &UpgradeVote) -> Option<UpgradeState> {
    let p = params(s.current_protocol);
    let proposes = vote.upgrade_propose != s.current_protocol;
    let delay = vote.upgrade_delay.0;
    if proposes && (s.next_protocol.is_some() || delay > p.max_upgrade_wait_rounds || delay < p.min_upgrade_wait_rounds) || !proposes && delay != 0 {
        return None;
    }
    let (next, before, on, approvals) = if proposes {
        let d = if delay == 0 { p.default_upgrade_wait_rounds } else { delay };
        (Some(vote.upgrade_propose), round + p.upgrade_vote_rounds, round + p.upgrade_vote_rounds + d, 0)
    } else {
        (s.next_protocol, s.next_protocol_vote_before.0, s.next_protocol_switch_on.0, s.next_protocol_approvals)
    };
    if vote.upgrade_approve && (next.is_none() || round >= before) {
        return None;
    }
    let approvals = approvals + vote.upgrade_approve as u64;
    let lost = round == before && approvals < p.upgrade_threshold;
    let switches = round == on && next.is_some() && !lost;
    Some(if lost || switches {
        UpgradeState {
            current_protocol: if switches { next.unwrap() } else { s.current_protocol },
            next_protocol: None,
            next_protocol_approvals: 0,
            next_protocol_vote_before: Round(0),
            next_protocol_switch_on: Round(0),
        }
    } else {
        UpgradeState {
            current_protocol: s.current_protocol,
            next_protocol: next,
            next_protocol_approvals: approvals,
            next_protocol_vote_before: Round(before),
            next_protocol_switch_on: Round(on),
        }
    })
}

/// One block's vote, applied to any reachable state: the transition is the specified one and keeps the invariant.
pub fn upgrade_step() {
    let r = nd::u64("round");
    nd::assume(r < 1 << 61);
    let currents: &[ConsensusVersion] = if nd::thorough() { &ALL } else { &[V13, V20, V21, V22, V30] };
    let s = upgrade_state(r, currents, &[V23, Future]);
    let vote = a_vote(&[s.current_protocol, V18, V30]);
    let round = r + 1;
    let got = s.verif_apply_upgrade_vote(Round(round), &vote);
    let want = upgrade_spec(&s, round, &vote);
    nd::check(got.is_ok() == want.is_some(), "a vote is legal exactly when the rules allow it");
    if let (Ok(n), Some(w)) = (got, want) {
        nd::check(state_eq(&n, &w), "the upgrade state follows the rules");
        if n.current_protocol != s.current_protocol {
            nd::cover("switched");
            nd::check(Some(n.current_protocol) == s.next_protocol, "the chain switches to the protocol voted on");
            nd::check(s.next_protocol_approvals >= params(s.current_protocol).upgrade_threshold, "the chain only switches to an approved protocol");
            nd::check(round == s.next_protocol_switch_on.0, "the chain switches on the announced round");
        } else {
            nd::check(invariant(&n, round), "the state stays within its invariant");
        }
        if n.current_protocol != s.current_protocol {
            nd::check(n.next_protocol.is_none() && n.next_protocol_approvals == 0, "a switch closes the proposal");
        }
        if s.next_protocol.is_none() && n.next_protocol.is_some() {
            nd::cover("proposed");
        }
        if s.next_protocol.is_some() && n.next_protocol.is_none() && n.current_protocol == s.current_protocol {
            nd::cover("lost");
        }
    }
}
/// The vote this node casts is legal in every reachable state and only supports approved protocols.
pub fn upgrade_own_vote() {
    let r = nd::u64("round");
    nd::assume(r < 1 << 61);
    let mut prev = BlockHeader::default();
    let currents: &[ConsensusVersion] = if nd::thorough() { &ALL } else { &[V10, V17, V20, V22, V29, V30] };
    prev.upgrade_state = upgrade_state(r, currents, &[V11, V18, V23, V30]);
    prev.round = Round(r);
    let p = params(prev.upgrade_state.current_protocol);
    let res = process_upgrade_params(&prev);
    nd::check(res.is_ok(), "the node's own vote is legal");
    if let Ok((vote, next)) = res {
        let s = &prev.upgrade_state;
        let want = upgrade_spec(s, r + 1, &vote);
        nd::check(want.map_or(false, |w| state_eq(&w, &next)), "the announced state is the one the vote leads to");
        let open = s.next_protocol.is_some() && r + 1 < s.next_protocol_vote_before.0;
        if vote.upgrade_propose != s.current_protocol {
            nd::cover("proposes");
            nd::check(s.next_protocol.is_none() && p.approved_upgrades.get(&vote.upgrade_propose) == Some(&vote.upgrade_delay.0) && vote.upgrade_approve, "only approved upgrades are proposed, with their delay");
        } else {
            nd::check(s.next_protocol.is_some() || p.approved_upgrades.is_empty(), "an approved upgrade is proposed when no vote is open");
            let yes = open && p.approved_upgrades.contains_key(&s.next_protocol.unwrap());
            nd::check(vote.upgrade_approve == yes, "exactly the open votes on approved upgrades are supported");
            if yes {
                nd::cover("approves");
            }
        }
    }
}
/// Which protocol the next block is expected to have.
pub fn version_info() {
    let r = nd::u64("round");
    nd::assume(r < 1 << 61);
    let mut h = BlockHeader::default();
    h.upgrade_state = upgrade_state(r, &[V20, V28], &[V21, V29]);
    h.round = Round(r);
    let s = &h.upgrade_state;
    let (v, on, supported) = h.next_version_info();
    if s.next_protocol.is_some() && r >= s.next_protocol_vote_before.0 {
        nd::cover("scheduled");
        nd::check(v == s.next_protocol && on == s.next_protocol_switch_on && supported, "an approved upgrade is announced with its round");
    } else {
        nd::check(v == Some(s.current_protocol) && on.0 == r + 1 && supported, "without an approved upgrade the next block has the current protocol");
    }
}

const IDS: [&str; 5] = ["", "net-v1", "net-v2", "net", "net-v10"];

/// A header is accepted after another exactly when every rule of succession holds.
pub fn succession() {
    let mut prev = BlockHeader::default();
    prev.round = Round(nd::u64("prev_round"));
    nd::assume(prev.round.0 < 1 << 61);
    prev.timestamp = nd::u64("prev_time");
    nd::assume(prev.timestamp < 1 << 61);
    prev.genesis_id = IDS[nd::choose(2, "prev_id")].into();
    let upgrading = nd::flip("upgrading");
    let there = !upgrading && nd::flip("hashes differ late");
    prev.genesis_hash = moved(small_hash("prev_gh"), there);
    prev.upgrade_state.current_protocol = V13;
    if upgrading {
        prev.upgrade_state.next_protocol = Some(V14);
        prev.upgrade_state.next_protocol_approvals = 9000;
        prev.upgrade_state.next_protocol_vote_before = Round(20000);
        prev.upgrade_state.next_protocol_switch_on = Round(30000);
    }
    let mut h = BlockHeader::default();
    h.round = Round(nd::u64("round"));
    h.timestamp = nd::u64("time");
    h.genesis_id = IDS[nd::choose(if upgrading { 3 } else { 5 }, "id")].into();
    h.genesis_hash = moved(small_hash("gh"), there);
    h.upgrade_vote = UpgradeVote { upgrade_propose: V13, upgrade_delay: Round(0), upgrade_approve: nd::flip("approve") };
    h.upgrade_state = prev.upgrade_state.clone();
    h.upgrade_state.next_protocol_approvals = nd::u64("approvals");
    if nd::flip("switched") {
        h.upgrade_state = UpgradeState { current_protocol: V14, next_protocol: None, next_protocol_approvals: 0, next_protocol_vote_before: Round(0), next_protocol_switch_on: Round(0) };
    }
    let parent = hash_obj(&prev);
    h.branch = if nd::flip("right parent") { parent.clone() } else { h32("branch") };
    let r = h.pre_check(&prev);
    let round = prev.round.0 + 1;
    let p = params(h.upgrade_state.current_protocol);
    let none = CryptoHash([0; 32]);
    let next = upgrade_spec(&prev.upgrade_state, round, &h.upgrade_vote);
    let ok = h.round.0 == round
        && h.branch == parent
        && next.map_or(false, |n| state_eq(&n, &h.upgrade_state))
        && (prev.timestamp == 0 || h.timestamp >= prev.timestamp && h.timestamp <= prev.timestamp + p.max_timestamp_increment)
        && !h.genesis_id.is_empty()
        && (prev.genesis_id.is_empty() || prev.genesis_id == h.genesis_id)
        && if p.support_genesis_hash { h.genesis_hash != none && (prev.genesis_hash == none || prev.genesis_hash == h.genesis_hash) } else { h.genesis_hash == none };
    if ok {
        nd::cover("accepted");
        if h.upgrade_state.current_protocol == V14 {
            nd::cover("accepted with new protocol");
        }
    }
    nd::check(r.is_ok() == ok, "a header is accepted exactly when every rule of succession holds");
    if let Err(InvalidBlock::WrongRound(..)) = r {
        nd::check(h.round.0 != round, "a wrong round is reported as such");
    }
}
/// A header of a protocol this node does not know is rejected.
pub fn unknown_protocol() {
    let prev = BlockHeader::default();
    let mut h = BlockHeader::default();
    h.upgrade_state.current_protocol = pick(&[DeprecatedV0, DeprecatedV1, DeprecatedV2, DeprecatedV3, DeprecatedV4, DeprecatedV5, DeprecatedV6], "version");
    h.round = Round(nd::u64("round"));
    nd::check(h.pre_check(&prev).is_err(), "blocks of unsupported protocols are rejected");
}
/// The header authenticates the whole previous header: changing any part of it breaks the link.
pub fn branch_binds() {
    let mut prev = BlockHeader::default();
    prev.genesis_id = "net".into();
    prev.upgrade_state.current_protocol = V17;
    prev.upgrade_vote.upgrade_propose = V17;
    prev.seed.0 = [1; 32];
    let mut other = prev.clone();
    let part = nd::choose(17, "part");
    // hashes are encoded byte by byte, each in one or two bytes: change two at a time
    let mut d = if part == 2 { [1; 32] } else { [0; 32] };
    if matches!(part, 1 | 2 | 3 | 6) {
        let at = nd::choose(16, "at") * 2;
        d[at] = nd::u8("b0");
        d[at + 1] = nd::u8("b1");
    } else if matches!(part, 7 | 8) {
        d = nd::bytes("address");
    }
    let a = Address(d);
    let n = nd::u64("number");
    let before = (prev.clone(), hash_obj(&prev));
    let changed = match part {
        0 => { other.round.0 = n; n != 0 }
        1 => { other.branch.0 = d; d != [0; 32] }
        2 => { other.seed.0 = d; d != [1; 32] }
        3 => { other.tx_root.0 = d; d != [0; 32] }
        4 => { other.timestamp = n; n != 0 }
        5 => { let i = nd::choose(4, "id"); other.genesis_id = ["net", "ne", "nett", "nes"][i].into(); i != 0 }
        6 => { other.genesis_hash.0 = d; d != [0; 32] }
        7 => { other.rewards_state.fee_sink = a; d != [0; 32] }
        8 => { other.rewards_state.rewards_pool = a; d != [0; 32] }
        9 => { other.rewards_state.rewards_level = n; n != 0 }
        10 => { other.rewards_state.rewards_rate = n; n != 0 }
        11 => { other.rewards_state.rewards_residue = n; n != 0 }
        12 => { other.rewards_state.rewards_recalculation_round.0 = n; n != 0 }
        13 => { let v = pick(&[V17, V18], "v"); other.upgrade_state.current_protocol = v; v != V17 }
        14 => {
            let i = nd::choose(4, "upgrade field");
            match i {
                0 => { other.upgrade_state.next_protocol = Some(V18); true }
                1 => { other.upgrade_state.next_protocol_approvals = n; n != 0 }
                2 => { other.upgrade_state.next_protocol_vote_before.0 = n; n != 0 }
                _ => { other.upgrade_state.next_protocol_switch_on.0 = n; n != 0 }
            }
        }
        15 => {
            let i = nd::choose(3, "vote field");
            match i {
                0 => { other.upgrade_vote.upgrade_propose = V18; true }
                1 => { other.upgrade_vote.upgrade_delay.0 = n; n != 0 }
                _ => { other.upgrade_vote.upgrade_approve = nd::bool("approve"); other.upgrade_vote.upgrade_approve }
            }
        }
        _ => { other.tx_counter = n; n != 0 }
    };
    nd::check((hash_obj(&other) == before.1) == !changed, "the digest of a header covers all of it");
    let b = Block { header: other.clone(), payset: Payset::default() };
    nd::check(b.digest() == hash_obj(&other), "the digest of a block is that of its header");
}
/// The empty block built on any header is a valid successor of it, whatever the clock shows.
pub fn next_block() {
    let r = nd::u64("round");
    nd::assume(r < 1 << 61);
    let mut prev = BlockHeader::default();
    let i = nd::choose(5, "case");
    prev.upgrade_state = match i {
        0 => upgrade_state(r, &[V21], &[V23]),
        1 => upgrade_state(r, &[V30], &[]),
        2 => upgrade_state(r, &[V25], &[V26]),
        3 => upgrade_state(r, &[V22], &[]),
        _ => upgrade_state(r, &[V29], &[V29]),
    };
    prev.round = Round(r);
    prev.timestamp = nd::u64("prev_time");
    nd::assume(prev.timestamp < 1 << 61);
    prev.genesis_id = "net-v1".into();
    prev.genesis_hash = CryptoHash([7; 32]);
    prev.rewards_state.fee_sink = Address(nd::bytes("sink"));
    prev.rewards_state.rewards_pool = Address(nd::bytes("pool"));
    prev.seed.0 = [5; 32];
    let now = nd::u64("clock");
    nd::assume(now < 1 << 61);
    nd::set_clock(now);
    let b = Block::new(&prev);
    nd::check(b.header.pre_check(&prev).is_ok(), "a new block is a valid successor");
    nd::check(b.verif_contents_match_header(), "a new block commits to its transactions");
    nd::check(b.payset.0.is_empty() && b.round().0 == r + 1, "a new block is empty and next");
    nd::check(b.header.rewards_state.fee_sink == prev.rewards_state.fee_sink && b.header.rewards_state.rewards_pool == prev.rewards_state.rewards_pool, "a new block keeps the special addresses");
    nd::check(b.genesis_id() == prev.genesis_id && b.genesis_hash() == prev.genesis_hash, "a new block stays on its network");
    let inc = params(b.header.upgrade_state.current_protocol).max_timestamp_increment;
    let want = if prev.timestamp == 0 { now } else { now.clamp(prev.timestamp, prev.timestamp + inc) };
    nd::check(b.header.timestamp == want, "the time of a new block is the present, moved into the legal window");
    let s = b.with_seed(algorsand::data::committee::Seed([3; 32]));
    nd::check(s.seed().0 == [3; 32] && s.header.branch == b.header.branch && s.header.round == b.header.round, "setting the seed changes nothing else");
}

/// The first block of a network.
pub fn genesis_block() {
    let proto = pick(if nd::thorough() { &ALL } else { &[V13, V14, V25, V26, V30] }, "proto");
    let p = params(proto);
    let (sink, pool) = (Address([1; 32]), Address([2; 32]));
    let money = nd::u64("pool_money");
    let mut bal = std::collections::HashMap::new();
    bal.insert(sink, account(5));
    bal.insert(pool, account(money));
    let ts = nd::u64("timestamp");
    // times within the range every other rule is exact in
    nd::assume(ts < 1 << 61);
    let hash = small_hash("hash");
    let b = verif_create_genesis_block(proto, bal, sink, pool, ts, "net-v1", hash.clone());
    nd::check(b.is_ok(), "the first block can be made");
    let b = b.unwrap();
    let h = &b.header;
    nd::check(h.round.0 == 0 && h.branch.0 == [0; 32] && h.timestamp == ts && h.genesis_id == "net-v1" && h.tx_counter == 0, "the first block starts the chain");
    nd::check(h.genesis_hash.0 == if p.support_genesis_hash { hash.0 } else { [0; 32] }, "the genesis hash is recorded where supported");
    nd::check(h.seed.0 == hash.0, "the first seed is the genesis hash");
    let s = &h.rewards_state;
    let spend = if p.initial_rewards_rate_calculation { money.saturating_sub(p.min_balance) } else { money };
    nd::check(s.rewards_level == 0 && s.rewards_residue == 0 && s.rewards_rate == spend / p.rewards_rate_refresh_interval, "the first rewards rate spreads the pool over one interval");
    nd::check(s.rewards_recalculation_round.0 == p.rewards_rate_refresh_interval && s.fee_sink == sink && s.rewards_pool == pool, "rewards are refreshed after one interval");
    nd::check(h.upgrade_state.current_protocol == proto && h.upgrade_state.next_protocol.is_none() && invariant(&h.upgrade_state, 0), "the first block starts without a proposal");
    nd::check(h.tx_root == Payset::default().commit_genesis(), "the first block is empty");
    if proto == V30 {
        nd::set_clock(1 << 30);
        let mut n = Block::new(h);
        n.header.rewards_state = s.clone();
        nd::check(hash.0 == [0; 32] || ts >= 1 << 61 || n.header.pre_check(h).is_ok(), "the second block follows the first");
        nd::cover("second block");
    }
    nd::check(verif_genesis_id("betanet", "v1.0") == "betanet-v1.0", "genesis identifier");
}
fn account(money: u64) -> AccountData {
    AccountData::verif_new(
        match nd::choose(2, "status") { 0 => Status::NotParticipating, _ => Status::Offline },
        MicroAlgos(money),
    )
}

fn block_header(v: ConsensusVersion) -> BlockHeader {
    let mut h = BlockHeader::default();
    h.upgrade_state.current_protocol = v;
    h.round = Round(7);
    h.genesis_id = "net-v1".into();
    if params(v).support_genesis_hash {
        h.genesis_hash = small_hash("network");
        nd::assume(h.genesis_hash != CryptoHash([0; 32]));
    }
    h
}
fn tx(kind: usize, gid: &str, gh: CryptoHash, group: CryptoHash) -> SignedTx {
    let mut t = stx(Transaction {
        header: Header {
            sender: Address([1; 32]),
            fee: MicroAlgos(1000),
            first_valid: Round(1),
            last_valid: Round(2),
            note: vec![],
            genesis_id: gid.into(),
            genesis_hash: gh,
            group,
            lease: [0; 32],
            rekey_to: Address([0; 32]),
        },
        fields: fields_of(kind),
    });
    t.sig = algorsand::crypto::Signature::new([2; 64]);
    t
}
fn zero() -> CryptoHash {
    CryptoHash([0; 32])
}

/// Putting a signed transaction into a block and taking it out again gives the same transaction, or it is refused.
pub fn stib_roundtrip() {
    let v = pick(if nd::thorough() { &ALL } else { &[V10, V11, V14, V16, V30] }, "version");
    let p = params(v);
    let mut h = block_header(v);
    let kind = nd::choose(7, "type");
    let id = IDS[nd::choose(if kind == 0 || nd::thorough() { 5 } else { 3 }, "id")];
    let there = kind == 0 && nd::flip("hashes differ late");
    h.genesis_hash = moved(h.genesis_hash, there);
    let gh = moved(small_hash("gh"), there);
    let mut st = tx(kind, id, gh.clone(), moved(small_hash("group"), there));
    st.tx.header.sender = Address(nd::bytes("sender"));
    st.tx.header.fee = MicroAlgos(nd::u64("fee"));
    let mut ad = ApplyData::default();
    ad.closing_amount = MicroAlgos(nd::u64("closing"));
    let r = h.encode_signed_tx(st.clone(), ad.clone());
    let ok = !p.support_signed_tx_in_block
        || (id.is_empty() || id == h.genesis_id) && (gh == zero() && !p.require_genesis_hash || gh == h.genesis_hash && gh != zero());
    nd::check(r.is_ok() == ok, "exactly the transactions of this network fit into its blocks");
    if let Ok(b) = r {
        nd::cover("encoded");
        if p.support_signed_tx_in_block {
            nd::check(b.tx.tx.tx.header.genesis_id.is_empty() && b.tx.tx.tx.header.genesis_hash == zero(), "what the header says is not repeated");
        }
        let d = h.decode_signed_tx(&b);
        nd::check(d.is_ok(), "what was put into a block can be taken out");
        let d = d.unwrap();
        nd::check(d.tx == st, "the transaction comes out of the block unchanged");
        nd::check(d.ad == ad, "its effects come out of the block unchanged");
        nd::check(d.tx.id().0 == st.id().0, "the identifier of the transaction survives");
    } else {
        nd::cover("refused");
    }
}
/// Every acceptable form of a transaction in a block is the one the transaction is put in as.
pub fn stib_canonical() {
    let v = pick(if nd::thorough() { &ALL } else { &[V10, V11, V14, V16, V30] }, "version");
    let p = params(v);
    let h = block_header(v);
    let mut b = SignedTxInBlock {
        tx: SignedTxWithAD { tx: tx(0, IDS[nd::choose(5, "id")], small_hash("gh"), zero()), ad: ApplyData::default() },
        has_genesis_id: nd::bool("has_id"),
        has_genesis_hash: nd::bool("has_gh"),
    };
    if !p.support_signed_tx_in_block {
        b.has_genesis_id = false;
        b.has_genesis_hash = false;
    }
    if !p.support_genesis_hash {
        nd::assume(!b.has_genesis_hash);
    }
    let ok = !p.support_signed_tx_in_block
        || b.tx.tx.tx.header.genesis_id.is_empty() && b.tx.tx.tx.header.genesis_hash == zero() && !(p.require_genesis_hash && b.has_genesis_hash);
    let d = h.decode_signed_tx(&b);
    nd::check(d.is_ok() == ok, "redundant network fields are refused");
    if let Ok(d) = d {
        nd::cover("decoded");
        if p.support_signed_tx_in_block {
            let gid = if b.has_genesis_id { h.genesis_id.as_str() } else { "" };
            let gh = if b.has_genesis_hash || p.require_genesis_hash { h.genesis_hash.clone() } else { zero() };
            nd::check(d.tx.tx.header.genesis_id == gid && d.tx.tx.header.genesis_hash == gh, "the network is restored as flagged");
        }
        let again = h.encode_signed_tx(d.tx, d.ad);
        nd::check(again.map_or(false, |x| x == b), "a transaction has one form in a block");
    }
}
fn small_stib(kind: usize, name: &str) -> SignedTxInBlock {
    let mut t = tx(kind, "", zero(), zero());
    t.tx.header.sender.0[9] = nd::u8(name);
    SignedTxInBlock { tx: SignedTxWithAD { tx: t, ad: ApplyData::default() }, has_genesis_id: false, has_genesis_hash: false }
}
fn same(a: &[SignedTxInBlock], b: &[SignedTxInBlock]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y)
}
/// The commitment in the header fixes the transactions: their number, order, contents and effects.
pub fn payset_binds() {
    let v = pick(&[V25, V30], "version");
    let h = block_header(v);
    let max = if nd::thorough() { 5 } else { 4 };
    let n = nd::choose(max, "n");
    let m = nd::choose(max, "m");
    let a: Vec<_> = (0..n).map(|_| small_stib(0, "a")).collect();
    let mut b: Vec<_> = (0..m).map(|_| small_stib(0, "b")).collect();
    if m > 0 {
        match nd::choose(6, "other part") {
            0 => b[m - 1].has_genesis_id = true,
            1 => b[0].tx.ad.closing_amount = MicroAlgos(1),
            2 => b[0].tx.tx.sig = algorsand::crypto::Signature::new([3; 64]),
            3 => b[0].tx.tx.auth_addr = Address([8; 32]),
            4 => b[m - 1].tx.tx.tx.header.lease[31] = 1,
            _ => {}
        }
    }
    let one = Block { header: h.clone(), payset: Payset(a.clone()) };
    let root = one.payset_commit();
    nd::check(root.is_ok(), "every block has a commitment");
    let mut other = Block { header: h, payset: Payset(b.clone()) };
    other.header.tx_root = root.unwrap();
    let eq = same(&a, &b);
    nd::check(other.verif_contents_match_header() == eq, "the commitment fixes the transactions of the block");
    if eq && n > 1 {
        nd::cover("same");
    }
}
/// A block whose transactions cannot be decoded has no commitment that matches, and does not crash the node.
pub fn payset_undecodable() {
    let h = block_header(V30);
    let mut s = vec![small_stib(0, "a"), small_stib(0, "b")];
    let at = nd::choose(2, "at");
    match nd::choose(3, "how") {
        0 => s[at].tx.tx.tx.header.genesis_id = "net-v1".into(),
        1 => s[at].tx.tx.tx.header.genesis_hash = CryptoHash([9; 32]),
        _ => s[at].has_genesis_hash = true,
    }
    let mut b = Block { header: h, payset: Payset(s) };
    b.header.tx_root = h32("root");
    nd::check(!b.verif_contents_match_header(), "an undecodable block does not match its header");
    nd::check(b.decode_payset_flat().is_err() && b.decode_payset_groups().is_err(), "an undecodable block has no transactions");
}
/// The Merkle commitment supports proofs for single transactions.
pub fn payset_proofs() {
    let h = block_header(V30);
    let n = 1 + nd::choose(if nd::thorough() { 5 } else { 3 }, "n");
    let s: Vec<_> = (0..n).map(|_| small_stib(0, "a")).collect();
    let b = Block { header: h, payset: Payset(s) };
    let leaves = TxMerkleArray::from_block(&b);
    nd::check(leaves.is_ok(), "leaves");
    let leaves = leaves.unwrap().0;
    let t = b.tx_merkle_tree().unwrap();
    nd::check(t.root() == b.payset_commit().unwrap(), "the commitment is the root of the tree");
    let i = nd::choose(n, "i");
    let proof = t.prove(&mut vec![i as u64]);
    nd::check(proof.is_ok(), "there is a proof for every transaction");
    let leaf = hash_obj(&leaves[i]);
    let j = nd::choose(n, "j");
    let mut m = std::collections::HashMap::new();
    m.insert(j as u64, leaf.clone());
    let r = algorsand::crypto::merklearray::Tree::verify(&t.root(), m, &proof.unwrap());
    nd::check(i != j || r.is_ok(), "the proof shows the transaction in the block");
    nd::check(i == j || r.is_err() || hash_obj(&leaves[j]) == leaf, "the proof shows the position of the transaction");
}

fn grouped(h: &BlockHeader, n: usize) -> (Vec<SignedTx>, Vec<SignedTxInBlock>, Vec<CryptoHash>) {
    let mut txs = vec![];
    let mut stibs = vec![];
    let mut groups = vec![];
    // (identifiers may differ in any byte)
    let byte = if n < 4 || nd::thorough() { [31, 0, 13][nd::choose(3, "byte")] } else { 31 };
    for i in 0..n {
        let mut g = [0; 32];
        g[byte] = nd::u8("group");
        nd::assume(g[byte] < 4);
        let mut t = tx([0, 5, 6][i % 3], "", h.genesis_hash.clone(), CryptoHash(g));
        t.tx.header.fee = MicroAlgos(i as u64);
        stibs.push(h.encode_signed_tx(t.clone(), ApplyData::default()).unwrap());
        txs.push(t);
        groups.push(CryptoHash(g));
    }
    (txs, stibs, groups)
}
/// Splitting transactions into groups keeps all of them in order and cuts exactly at group boundaries.
pub fn grouping() {
    let h = block_header(V30);
    let n = nd::choose(if nd::thorough() { 6 } else { 5 }, "n");
    let (txs, stibs, groups) = grouped(&h, n);
    let lens: Vec<usize>;
    if nd::flip("in block") {
        let b = Block { header: h, payset: Payset(stibs) };
        let flat = b.decode_payset_flat().unwrap();
        nd::check(flat.len() == n && flat.iter().zip(&txs).all(|(a, b)| a.tx == *b), "all transactions of the block, in order");
        let g = b.decode_payset_groups().unwrap();
        lens = g.iter().map(|x| x.len()).collect();
        let again: Vec<_> = g.into_iter().flatten().collect();
        nd::check(again.len() == n && again.iter().zip(&flat).all(|(a, b)| a == b), "groups keep all transactions in order");
    } else {
        let g = signed_txs_to_group(&txs);
        lens = g.iter().map(|x| x.len()).collect();
        let again = signed_tx_groups_flatten(g);
        nd::check(again.len() == n && again.iter().zip(&txs).all(|(a, b)| a == b), "groups keep all transactions in order");
    }
    let mut at = 0;
    let mut starts = vec![false; n + 1];
    for l in lens {
        nd::check(l > 0, "no group is empty");
        starts[at] = true;
        at += l;
    }
    for i in 0..n {
        let together = i > 0 && groups[i].0 != [0; 32] && groups[i] == groups[i - 1];
        nd::check(starts[i] != together, "transactions are together exactly when they share a group");
        if together {
            nd::cover("grouped");
        }
    }
}
/// Groups of any size stay together.
pub fn grouping_large() {
    let h = block_header(V30);
    let n = if nd::thorough() { 3 + nd::choose(30, "n") } else { [5, 8, 16, 17][nd::choose(4, "n")] };
    let (id, other) = (nd::bytes::<32>("group"), nd::bytes::<32>("other group"));
    let odd = nd::choose(n + 1, "odd one");
    let mut txs = vec![];
    for i in 0..n {
        let mut t = tx(0, "", h.genesis_hash.clone(), CryptoHash(if i == odd { other } else { id }));
        t.tx.header.fee = MicroAlgos(i as u64);
        txs.push(t);
    }
    let lens: Vec<usize>;
    if nd::flip("in block") {
        let stibs = txs.iter().map(|t| h.encode_signed_tx(t.clone(), ApplyData::default()).unwrap()).collect();
        let g = Block { header: h, payset: Payset(stibs) }.decode_payset_groups().unwrap();
        lens = g.iter().map(|x| x.len()).collect();
        let again: Vec<_> = g.into_iter().flatten().collect();
        nd::check(again.len() == n && again.iter().zip(&txs).all(|(a, b)| a.tx == *b), "groups keep all transactions in order");
    } else {
        let g = signed_txs_to_group(&txs);
        lens = g.iter().map(|x| x.len()).collect();
        let again = signed_tx_groups_flatten(g);
        nd::check(again.len() == n && again.iter().zip(&txs).all(|(a, b)| a == b), "groups keep all transactions in order");
    }
    let want: Vec<usize> = if id == [0; 32] {
        vec![1; n]
    } else if odd == n || id == other {
        nd::cover("one group");
        vec![n]
    } else {
        [odd, 1, n - 1 - odd].iter().copied().filter(|x| *x > 0).collect()
    };
    nd::check(lens == want, "transactions are together exactly when they share a group");
}
