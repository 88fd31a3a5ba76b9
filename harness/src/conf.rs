//! Protocol versions, local settings, key files, and what is hashed as what.
use crate::nd;
use crate::txs::{fields_of, some_adr};
use algorsand::config::{verif_keyfile::*, *};
use algorsand::crypto::{self, hashable::Hashable, CryptoHash};
use algorsand::data::basics::{AppIndex, MicroAlgos, Round};
use algorsand::data::bookkeeping::BlockHeader;
use algorsand::data::committee::{credential::verif_hashable_credential_hash_rep, Seed};
use algorsand::data::transactions::*;
use algorsand::protocol::{self, ConsensusVersion as V};
use std::collections::HashMap;

const VS: [V; 4] = [V::V27, V::V28, V::V29, V::V30];

// ---- protocol versions ----
/// Parameters recognizable by two of them, with upgrades to some of the versions.
fn params(name: &str, to: &[V]) -> ConsensusParams {
    let mut p = ConsensusParams { min_balance: nd::u64(name), max_tx_life: nd::u64(name), ..Default::default() };
    for v in to {
        p.approved_upgrades.insert(*v, nd::u64(name));
    }
    p
}
fn same(a: &ConsensusParams, b: &ConsensusParams) -> bool {
    a.min_balance == b.min_balance && a.max_tx_life == b.max_tx_life && a.approved_upgrades == b.approved_upgrades
}
fn same_all(a: &ConsensusProtocols, b: &[(V, ConsensusParams)]) -> bool {
    a.len() == b.len() && a.is_empty() == b.is_empty() && b.iter().all(|(v, p)| a.0.get(v).map_or(false, |q| same(p, q)))
}
fn subset(k: usize, of: &[V]) -> Vec<V> {
    of.iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|(_, v)| *v).collect()
}
/// Merging changes exactly what is configured: empty versions go, with all upgrades to them, others are added or replaced.
pub fn merge() {
    let n = if nd::thorough() { 4 } else { 3 };
    let vs = &VS[..n];
    let mut base: Vec<(V, ConsensusParams)> = vec![];
    for (i, v) in vs.iter().enumerate() {
        if i == 0 || nd::flip("present") {
            let to = [&vs[..], &vs[n - 1..], &vs[..0]][nd::choose(3, "upgrades")];
            base.push((*v, params("present", to)));
        }
    }
    let mut conf: Vec<(V, ConsensusParams)> = vec![];
    for v in vs {
        match nd::choose(3, "configured") {
            0 => {}
            1 => conf.push((*v, params("empty", &[]))),
            _ => conf.push((*v, params("changed", &vs[if nd::thorough() { nd::choose(2, "to") } else { 0 }..]))),
        }
    }
    let gone = |v: &V| conf.iter().any(|(w, p)| w == v && p.approved_upgrades.is_empty());
    let mut want: Vec<(V, ConsensusParams)> = base.iter().filter(|(v, _)| !conf.iter().any(|(w, _)| w == v)).cloned().collect();
    want.extend(conf.iter().filter(|(v, _)| !gone(v)).cloned());
    for (_, p) in &mut want {
        p.approved_upgrades.retain(|v, _| !gone(v));
    }
    let mut b = ConsensusProtocols(base.iter().cloned().collect());
    let got = b.merge(ConsensusProtocols(conf.iter().cloned().collect()));
    nd::check(same_all(&got, &want), "exactly what is configured is changed");
    nd::check(same_all(&b, &base), "and the protocols merged into are not");
    nd::cover(if conf.is_empty() { "nothing configured" } else if conf.iter().any(|(v, _)| gone(v)) { "removed" } else { "changed" });
}
/// The built-in protocols fit together.
pub fn protocol_table() {
    let all: Vec<V> = {
        let mut x: Vec<V> = CONSENSUS.0.keys().copied().collect();
        x.sort_by_key(|v| format!("{:?}", v));
        x
    };
    nd::check(all.len() == 25, "every version has its parameters");
    let v = all[nd::choose(all.len(), "version")];
    let p = &CONSENSUS.0[&v];
    let quorum = |size: u64, threshold: u64| 2 * threshold > size && threshold <= size;
    nd::check(
        quorum(p.soft_committee_size, p.soft_committee_threshold)
            && quorum(p.cert_committee_size, p.cert_committee_threshold)
            && quorum(p.next_committee_size, p.next_committee_threshold)
            && quorum(p.late_committee_size, p.late_committee_threshold)
            && quorum(p.redo_committee_size, p.redo_committee_threshold)
            && quorum(p.down_committee_size, p.down_committee_threshold)
            && quorum(p.upgrade_vote_rounds, p.upgrade_threshold),
        "majorities decide",
    );
    nd::check(p.rewards_rate_refresh_interval > 0 && p.reward_unit > 0 && p.seed_lookback > 0 && p.seed_refresh_interval > 0 && p.max_tx_group_size > 0, "nothing is divided by zero");
    nd::check(p.default_key_dilution > 0 && p.num_proposers > 0 && p.max_timestamp_increment > 0 && p.max_tx_life > 0, "keys, proposers and time go on");
    for (to, delay) in &p.approved_upgrades {
        nd::check(CONSENSUS.0.contains_key(to), "upgrades lead to versions that exist");
        nd::check(*to != v, "and to others");
        let w = if *delay == 0 { p.default_upgrade_wait_rounds } else { *delay };
        nd::check(w > 0 && (p.max_upgrade_wait_rounds == 0 || p.min_upgrade_wait_rounds <= w && w <= p.max_upgrade_wait_rounds), "after a delay that may be voted for");
        nd::check(to.to_string().len() as u64 <= p.max_version_string_len as u64, "under names that fit into headers");
        let q = &CONSENSUS.0[to];
        let on = |a: bool, b: bool| !a || b;
        nd::check(
            on(p.fast_partition_recovery, q.fast_partition_recovery)
                && on(p.support_signed_tx_in_block, q.support_signed_tx_in_block)
                && on(p.apply_data, q.apply_data)
                && on(p.support_genesis_hash, q.support_genesis_hash)
                && on(p.require_genesis_hash, q.require_genesis_hash)
                && on(p.rewards_in_apply_data, q.rewards_in_apply_data)
                && on(p.force_non_participating_fee_sink, q.force_non_participating_fee_sink)
                && on(p.credential_domain_separation_enabled, q.credential_domain_separation_enabled)
                && on(p.pending_residue_rewards, q.pending_residue_rewards)
                && on(p.tx_counter, q.tx_counter)
                && on(p.asset, q.asset)
                && on(p.support_tx_groups, q.support_tx_groups)
                && on(p.support_transaction_leases, q.support_transaction_leases)
                && on(p.fix_transaction_leases, q.fix_transaction_leases)
                && on(p.support_become_non_participating_transactions, q.support_become_non_participating_transactions)
                && on(p.application, q.application)
                && on(p.support_rekeying, q.support_rekeying)
                && on(p.enable_asset_close_amount, q.enable_asset_close_amount)
                && on(p.initial_rewards_rate_calculation, q.initial_rewards_rate_calculation)
                && on(p.no_empty_local_deltas, q.no_empty_local_deltas)
                && on(p.enable_fee_pooling, q.enable_fee_pooling)
                && on(p.enable_keyreg_coherency_check, q.enable_keyreg_coherency_check)
                && on(p.enable_extra_pages_on_app_update, q.enable_extra_pages_on_app_update)
                && on(p.enable_app_cost_pooling, q.enable_app_cost_pooling),
            "what an earlier version has, a later one has",
        );
        nd::check(
            p.logic_sig_version <= q.logic_sig_version
                && p.min_balance <= q.min_balance
                && p.max_tx_group_size <= q.max_tx_group_size
                && p.max_version_string_len <= q.max_version_string_len
                && p.max_asset_decimals <= q.max_asset_decimals
                && p.max_asset_url_bytes <= q.max_asset_url_bytes
                && p.max_app_program_len <= q.max_app_program_len
                && p.max_apps_opted_in <= q.max_apps_opted_in
                && p.max_app_tx_foreign_apps <= q.max_app_tx_foreign_apps
                && p.max_app_tx_foreign_assets <= q.max_app_tx_foreign_assets,
            "and no limit shrinks",
        );
    }
    let w = all[nd::choose(all.len(), "other version")];
    nd::check((v.to_string() == w.to_string()) == (v == w), "versions have different names");
}

// ---- local settings ----
/// Which checks are on follows the flags.
pub fn settings_flags() {
    let l = Local { dns_security_flags: nd::u32("dns"), catchup_block_validate_mode: nd::u32("catchup"), ..Default::default() };
    let (d, c) = (l.dns_security_flags, l.catchup_block_validate_mode);
    let bit = |x: u32, i: u32| x >> i & 1 == 1;
    nd::check(l.dnssec_srv_enforced() == bit(d, 0) && l.dnssec_relay_addr_enforced() == bit(d, 1) && l.dnssec_telemetry_enforced() == bit(d, 2), "each flag enforces its check");
    nd::check(l.catchup_verify_certificate() != bit(c, 0) && l.catchup_verify_payset_hash() != bit(c, 1), "each flag skips its check");
    nd::check(l.catchup_verify_transaction_signatures() == bit(c, 2) && l.catchup_verify_apply_data() == bit(c, 3), "each flag adds its check");
}
fn ascii(n: usize, name: &str) -> String {
    let b = nd::vec(n, name);
    for c in &b {
        nd::assume(*c < 128);
    }
    String::from_utf8(b).unwrap()
}
/// The names under which a network's relays are found.
pub fn bootstrap() {
    let default = Local::default();
    let net = match nd::choose(6, "network") {
        0 => DEVNET.to_owned(),
        1 => BETANET.to_owned(),
        2 => TESTNET.to_owned(),
        3 => "devnet2".to_owned(),
        4 => String::new(),
        _ => ascii(3, "network"),
    };
    let x = nd::choose(10, "id");
    let parts: Vec<String> = match x {
        0 => vec![default.dns_bootstrap_id.clone()],
        1 => vec!["<network>.algorand.network2".into()],
        2 => vec![ascii(2, "id"), "<network>".into(), ascii(1, "id")],
        3 => vec!["<network>".into(), ascii(2, "id"), "<network>".into()],
        4 => vec!["<networ".into(), ascii(2, "id"), "a".into()],
        5 => vec![";a;;".into(), ascii(2, "id"), "<network>;".into()],
        6 => vec![";;".into()],
        7 => vec!["<<network>>".into()],
        8 => vec!["<network>.".repeat(9), ascii(1, "id")],
        _ => vec![],
    };
    let id: String = parts.concat();
    nd::assume(net.len() < 3 || !net.contains(';'));
    let l = Local { dns_bootstrap_id: id.clone(), ..Local::default() };
    let want = if id == default.dns_bootstrap_id && net == "devnet" {
        "devnet.algodev.network".to_owned()
    } else if id == default.dns_bootstrap_id && net == "betanet" {
        "betanet.algodev.network".to_owned()
    } else {
        let (mut out, mut i) = (vec![], 0);
        let b = id.as_bytes();
        while i < b.len() {
            if b.len() - i >= 9 && &b[i..i + 9] == b"<network>" {
                out.extend_from_slice(net.as_bytes());
                i += 9;
            } else {
                out.push(b[i]);
                i += 1;
            }
        }
        String::from_utf8(out).unwrap()
    };
    nd::check(l.verif_dns_bootstrap(&net) == want, "the network's name is put in, but for the default of the development networks");
    let mut list: Vec<Vec<u8>> = vec![vec![]];
    for c in want.bytes() {
        if c == b';' {
            list.push(vec![]);
        } else {
            list.last_mut().unwrap().push(c);
        }
    }
    list.retain(|e| !e.is_empty());
    let got = l.verif_dns_bootstrap_array(&net);
    nd::check(got.len() == list.len() && got.iter().zip(&list).all(|(a, b)| a.as_bytes() == &b[..]), "every entry between semicolons, and no empty ones");
}

// ---- key files ----
/// An account's name, and rounds; one of them is symbolic.
fn account_rounds() -> (String, Round, Round) {
    let k = nd::choose(8, "which");
    let r = if nd::thorough() { nd::u8("round") as u64 } else { nd::below(120, "round") };
    let (first, last) = match k {
        0 => (r, 10),
        1 => (9, r),
        2 => (r, r + nd::u8("more") as u64 % 2),
        3 => (r, u64::MAX),
        _ => [(0, 0), (5, 12), (12, 5), (u64::MAX, u64::MAX)][nd::choose(4, "rounds")],
    };
    let a = match k {
        4 => "a.1.2.partkey".to_owned(),
        5 => "x.rootkey".to_owned(),
        6 => "7.8".to_owned(),
        7 => {
            let n = nd::choose(3, "length");
            ascii(n, "account")
        }
        _ => "a".to_owned(),
    };
    (a, Round(first), Round(last))
}
/// Names of key files are recognized and give back what they were made of.
pub fn key_files() {
    nd::number_text(true);
    let (a, first, last) = account_rounds();
    let r = root_key_filename(&a);
    nd::check(r.as_bytes() == [a.as_bytes(), b".rootkey"].concat(), "a root key file is named after its account");
    nd::check(is_root_key_filename(&r) && matches_root_key_filename(&a, &r) && account_name_from_root_key_filename(&r) == a, "and recognized");
    nd::check(!is_part_key_filename(&r) && !matches_part_key_filename(&a, &r), "as nothing else");
    let p = part_key_filename(&a, first, last);
    let good = first <= last;
    nd::check(is_part_key_filename(&p) == good && matches_part_key_filename(&a, &p) == good, "a participation key file is recognized if its rounds are in order");
    nd::check(!is_root_key_filename(&p) && !matches_root_key_filename(&a, &p), "and not as a root key file");
    nd::check(account_name_from_part_key_filename(&p) == if good { &a[..] } else { &p[..] }, "it gives back its account");
}
/// Different keys have different files.
pub fn key_files_differ() {
    nd::number_text(true);
    let one = |n: &str| -> (String, Round, Round) {
        let a = match nd::choose(4, "account") {
            0 => "".to_owned(),
            1 => "a".to_owned() + &ascii(1, n),
            2 => "a.1".to_owned(),
            _ => "a.1.2.partkey".to_owned(),
        };
        let r = if nd::thorough() { nd::u8(n) as u64 } else { nd::below(12, n) };
        if nd::flip("first") {
            (a, Round(r), Round(12))
        } else {
            (a, Round(2), Round(r + 2))
        }
    };
    let (a, b) = (one("one"), one("other"));
    let (p, q) = (part_key_filename(&a.0, a.1, a.2), part_key_filename(&b.0, b.1, b.2));
    nd::check((p == q) == (a == b), "different accounts or rounds, different files");
    nd::check(matches_part_key_filename(&b.0, &p) == (a.0 == b.0), "a participation key file belongs to one account");
    let r = root_key_filename(&a.0);
    nd::check((root_key_filename(&b.0) == r) == (a.0 == b.0) && matches_root_key_filename(&b.0, &r) == (a.0 == b.0), "so does a root key file");
}
/// No other names are taken for key files.
pub fn other_files() {
    nd::number_text(true);
    let name = match nd::choose(9, "form") {
        0 => "rootkey".to_owned(),
        1 => ascii(1, "name") + "rootkey",
        2 => "a.rootke".to_owned() + &ascii(1, "name"),
        3 => ["a.1", &ascii(1, "name"), ".2.partkey"].concat(),
        4 => ["a.", &ascii(2, "name"), ".25.partkey"].concat(),
        5 => ["a.3.", &ascii(2, "name"), ".partkey"].concat(),
        6 => ["a.3.4.partke", &ascii(1, "name")].concat(),
        7 => ["3.4", &ascii(1, "name"), "partkey"].concat(),
        _ => [&ascii(1, "name"), ".3.4.partkey"].concat(),
    };
    let b = name.as_bytes();
    let root = b.len() >= 8 && &b[b.len() - 8..] == b".rootkey";
    nd::check(is_root_key_filename(&name) == root, "root key files end in .rootkey");
    let acc = if root { &b[..b.len() - 8] } else { b };
    nd::check(account_name_from_root_key_filename(&name).as_bytes() == acc, "what is before is the account");
    // account, a number, a number and the ending, the numbers written as numbers are and in order
    let mut dots: Vec<usize> = (0..b.len()).filter(|i| b[*i] == b'.').collect();
    let mut want = None;
    if dots.len() >= 3 {
        dots.drain(..dots.len() - 3);
        let number = |s: &[u8]| {
            let ok = !s.is_empty() && s.iter().all(|c| c.is_ascii_digit()) && (s[0] != b'0' || s.len() == 1);
            if ok {
                Some(s.iter().fold(0u64, |x, c| 10 * x + (c - b'0') as u64))
            } else {
                None
            }
        };
        if &b[dots[2]..] == b".partkey" {
            if let (Some(f), Some(l)) = (number(&b[dots[0] + 1..dots[1]]), number(&b[dots[1] + 1..dots[2]])) {
                if f <= l {
                    want = Some(&b[..dots[0]]);
                }
            }
        }
    }
    nd::check(is_part_key_filename(&name) == want.is_some(), "participation key files have an account, two rounds in order and the ending");
    if let Some(a) = want {
        nd::cover("participation keys");
        nd::check(account_name_from_part_key_filename(&name).as_bytes() == a, "what is before the rounds is the account");
    }
    if root {
        nd::cover("root key");
    }
}

// ---- what is hashed as what ----
fn any_hash(name: &str) -> CryptoHash {
    CryptoHash(nd::bytes(name))
}
fn tx(kind: usize, name: &str) -> Transaction {
    Transaction { header: Header { sender: some_adr(3, name), note: nd::vec(1, name), ..Default::default() }, fields: fields_of(kind) }
}
/// The bytes hashed for an object of one of several kinds with arbitrary contents.
fn hashed(kind: usize, name: &str, rich: bool) -> Vec<u8> {
    let pick = |n: usize| if rich { nd::choose(n, name) } else { n - 1 };
    match kind {
        0 => ascii(pick(4), name).hash_rep(),
        1 => tx(pick(7), name).hash_rep(),
        2 => verif_tx_group_hash_rep((0..pick(3)).map(|_| any_hash_short(name)).collect()),
        3 => Seed(nd::bytes(name)).hash_rep(),
        4 => AppIndex(nd::u64(name)).hash_rep(),
        5 => BlockHeader { round: Round(nd::u8(name) as u64), ..Default::default() }.hash_rep(),
        6 => verif_hashable_credential_hash_rep(crypto::VrfOutput([nd::u8(name); 64]), some_adr(3, name), nd::u64(name)),
        7 => stib(pick(7), name).hash_rep(),
        8 => algorsand::data::bookkeeping::TxMerkleElem { tx: tx(0, name), stib: stib(0, name) }.hash_rep(),
        _ => Payset(vec![]).hash_rep(),
    }
}
fn stib(kind: usize, name: &str) -> SignedTxInBlock {
    SignedTxInBlock { tx: SignedTxWithAD { tx: crate::txs::stx(tx(kind, name)), ad: ApplyData::default() }, has_genesis_id: nd::flip(name), has_genesis_hash: false }
}
fn any_hash_short(name: &str) -> CryptoHash {
    let mut h = [0; 32];
    h[0] = nd::u8(name) & 0x7f;
    CryptoHash(h)
}
const IDS: [(&str, &str); 10] = [
    ("MX", protocol::MESSAGE),
    ("TX", protocol::TRANSACTION),
    ("TG", protocol::TX_GROUP),
    ("SD", protocol::SEED),
    ("appID", protocol::APP_INDEX),
    ("BH", protocol::BLOCK_HEADER),
    ("CR", protocol::CREDENTIAL),
    ("STIB", protocol::SIGNED_TX_IN_BLOCK),
    ("TL", protocol::TX_MERKLE_LEAF),
    ("PF", protocol::PAYSET_FLAT),
];
/// Objects of different kinds are never hashed, and so never signed, from the same bytes.
pub fn hash_kinds() {
    let k = nd::choose(10, "kind");
    let l = nd::choose(10, "other kind");
    let a = hashed(k, "one", true);
    nd::check(a.len() >= IDS[k].0.len() && &a[..IDS[k].0.len()] == IDS[k].0.as_bytes() && IDS[k].0 == IDS[k].1, "what is hashed begins with its kind");
    if k != l {
        let b = hashed(l, "other", nd::thorough());
        nd::check(a != b && crypto::hash(&a) != crypto::hash(&b), "different kinds have different hashes");
    }
}
/// Objects of a kind are hashed from the same bytes exactly if they are the same.
pub fn hash_contents() {
    match nd::choose(4, "kind") {
        0 => {
            let s = |n: &str| ascii(nd::choose(4, n), n);
            let (a, b) = (s("one"), s("other"));
            nd::check((crypto::hash_obj(&a) == crypto::hash_obj(&b)) == (a.as_bytes() == b.as_bytes()), "messages");
        }
        1 => {
            let (a, b) = (Seed(nd::bytes("one")), Seed(nd::bytes("other")));
            nd::check((crypto::hash_obj(&a) == crypto::hash_obj(&b)) == (a.0 == b.0), "seeds");
        }
        2 => {
            let (a, b) = (AppIndex(nd::u64("one")), AppIndex(nd::u64("other")));
            nd::check((crypto::hash_obj(&a) == crypto::hash_obj(&b)) == (a == b), "applications");
            nd::check((a.verif_address() == b.verif_address()) == (a == b), "every application has its own address");
        }
        _ => {
            let h = any_hash("hash");
            nd::check(h.is_zero() == h.0.iter().all(|x| *x == 0), "zero is zero");
            nd::check(h.trim_to_u64() == (0..8).fold(0u64, |x, i| x | (h.0[i] as u64) << (8 * i)), "the first eight bytes are the number");
        }
    }
}
const ALL_IDS: [&str; 32] = [
    protocol::APP_INDEX,
    protocol::AUCTION_BID,
    protocol::AUCTION_DEPOSIT,
    protocol::AUCTION_OUTCOMES,
    protocol::AUCTION_PARAMS,
    protocol::AUCTION_SETTLEMENT,
    protocol::COMPACT_CERT_COIN,
    protocol::COMPACT_CERT_PART,
    protocol::COMPACT_CERT_SIG,
    protocol::AGREEMENT_SELECTOR,
    protocol::BLOCK_HEADER,
    protocol::BALANCE_RECORD,
    protocol::CREDENTIAL,
    protocol::GENESIS,
    protocol::MERKLE_ARRAY_NODE,
    protocol::MESSAGE,
    protocol::NET_PRIO_RESPONSE,
    protocol::ONE_TIME_SIG_KEY1,
    protocol::ONE_TIME_SIG_KEY2,
    protocol::PAYSET_FLAT,
    protocol::PAYLOAD,
    protocol::PROGRAM,
    protocol::PROGRAM_DATA,
    protocol::PROPOSER_SEED,
    protocol::SEED,
    protocol::SPECIAL_ADDR,
    protocol::SIGNED_TX_IN_BLOCK,
    protocol::TEST_HASHABLE,
    protocol::TX_GROUP,
    protocol::TX_MERKLE_LEAF,
    protocol::TRANSACTION,
    protocol::VOTE,
];
struct Any(&'static str, Vec<u8>);
impl Hashable for Any {
    fn to_be_hashed(&self) -> (protocol::HashID, Vec<u8>) {
        (self.0, self.1.clone())
    }
}
/// Whatever follows, two kinds are never hashed from the same bytes.
pub fn hash_prefixes() {
    let (i, j) = (nd::choose(32, "kind"), nd::choose(32, "other kind"));
    let (m, n) = (nd::choose(if i == j { 3 } else { 9 }, "length"), nd::choose(if i == j { 3 } else { 1 }, "length"));
    // (if both are the same length: otherwise they differ anyway)
    let (x, y) = (ALL_IDS[i], ALL_IDS[j]);
    let n = if i == j { n } else { (x.len() + m).saturating_sub(y.len()) };
    let (a, b) = (Any(x, nd::vec(m, "one")), Any(y, nd::vec(n, "other")));
    nd::check((a.hash_rep() == b.hash_rep()) == (i == j && a.1 == b.1), "kind and contents can be told from the bytes hashed");
}
/// A hash is written as text that gives it back, and only that.
pub fn hash_text() {
    use std::convert::TryFrom;
    let mut h = [nd::choose(2, "rest") as u8 * 0xa5; 32];
    let i = [0usize, 15, 31][nd::choose(3, "which")];
    let back = nd::flip("written");
    h[i] = nd::u8("byte");
    let s = CryptoHash(h).to_string();
    nd::check(s.len() == 52, "52 characters");
    if back {
        nd::check(CryptoHash::try_from(&s[..]).map_or(false, |x| x.0 == h), "the printed form reads back");
        return;
    }
    let mut t = CryptoHash([0x5a; 32]).to_string().into_bytes();
    let n = [0, 1, 40, 49, 50, 51, 52, 53, 54][nd::choose(9, "length")];
    t.resize(n, b'A');
    if n > 0 {
        let k = [0, n / 2, n - 1][nd::choose(3, "where")];
        t[k] = nd::u8("char");
        nd::assume(t[k] < 128);
    }
    let t = String::from_utf8(t).unwrap();
    match CryptoHash::try_from(&t[..]) {
        Ok(x) => {
            nd::cover("read");
            nd::check(n == 52 && x.to_string() == t, "only what is printed for a hash is read");
        }
        Err(_) => nd::cover("refused"),
    }
}
