//! Encodings: what is encoded is read back the same, identifiers cover everything, damaged input is only ever refused.
use crate::blocks::small_hash;
use crate::nd;
use crate::txs::{fields_of, pk, stx};
use algorsand::crypto::{self, hashable::*};
use algorsand::data::basics::*;
use algorsand::data::bookkeeping::*;
use algorsand::data::committee::Seed;
use algorsand::data::signed_tx_group::verif_signed_tx_vec_id;
use algorsand::data::transactions::*;
use algorsand::protocol::{self, decode, encode, ConsensusVersion::*};

fn small_adr(n: &str) -> Address {
    let mut a = [5; 32];
    a[1] = nd::u8(n);
    Address(a)
}
fn any_adr(n: &str) -> Address {
    Address(nd::bytes(n))
}
fn name(n: &str) -> String {
    ["", "a", "net-v1", "n\u{e9}"][nd::choose(4, n)].into()
}
fn blob(n: &str) -> Vec<u8> {
    nd::vec(nd::choose(3, n), n)
}
pub fn a_tx(kind: usize) -> Transaction {
    Transaction {
        header: Header {
            sender: Address([1; 32]),
            fee: MicroAlgos(1000),
            first_valid: Round(1),
            last_valid: Round(2),
            note: vec![],
            genesis_id: String::new(),
            genesis_hash: CryptoHash([0; 32]),
            group: CryptoHash([0; 32]),
            lease: [0; 32],
            rekey_to: Address([0; 32]),
        },
        fields: fields_of(kind),
    }
}
const FOCUS: [usize; 7] = [3, 6, 13, 5, 3, 12, 2];
/// Zeros but for one byte.
fn one_byte<const N: usize>(n: &str, at: usize) -> [u8; N] {
    let mut a = [0; N];
    a[at] = nd::u8(n);
    a
}
/// Makes one field (or two related ones) of a transaction arbitrary; of fields written byte by byte, the byte at `at`.
fn vary(t: &mut Transaction, k: usize, at: usize) {
    let h = &mut t.header;
    match k {
        0 => h.sender = any_adr("sender"),
        1 => h.fee = MicroAlgos(nd::u64("fee")),
        2 => h.first_valid = Round(nd::u64("fv")),
        3 => h.last_valid = Round(nd::u64("lv")),
        4 => h.note = blob("note"),
        5 => h.genesis_id = name("gen"),
        6 => h.genesis_hash = CryptoHash(one_byte("gh", at)),
        7 => h.group = CryptoHash(one_byte("grp", at)),
        8 => h.lease = one_byte("lx", at),
        9 => h.rekey_to = any_adr("rekey"),
        _ => vary_fields(&mut t.fields, k - 10, at),
    }
}
fn vary_fields(f: &mut TxFields, k: usize, at: usize) {
    match f {
        TxFields::Payment(f) => match k {
            0 => f.receiver = any_adr("rcv"),
            1 => f.amount = MicroAlgos(nd::u64("amt")),
            _ => f.close_remainder_to = if nd::flip("close") { Some(any_adr("close_to")) } else { None },
        },
        TxFields::Keyreg(f) => match k {
            0 => f.vote_pk = pk(&nd::bytes("vote")),
            1 => f.selection_pk = crypto::VrfPublicKey::verif_new(one_byte("sel", at)),
            2 => f.vote_first = Round(nd::u64("vf")),
            3 => f.vote_last = Round(nd::u64("vl")),
            4 => f.vote_key_dilution = nd::u64("dil"),
            _ => f.nonparticipation = nd::bool("nonpart"),
        },
        TxFields::AssetConfig(f) => match k {
            0 => f.config_asset = nd::u64("asset"),
            1 => f.asset_params.total = nd::u64("total"),
            2 => f.asset_params.decimals = nd::u32("decimals"),
            3 => f.asset_params.default_frozen = nd::bool("frozen"),
            4 => f.asset_params.unit_name = name("unit"),
            5 => f.asset_params.asset_name = name("name"),
            6 => f.asset_params.url = name("url"),
            7 => f.asset_params.metadata_hash = one_byte("meta", at),
            8 => f.asset_params.manager = any_adr("manager"),
            9 => f.asset_params.reserve = any_adr("reserve"),
            10 => f.asset_params.freeze = any_adr("freeze"),
            11 => f.asset_params.clawback = any_adr("clawback"),
            _ => {
                f.asset_params.manager = small_adr("manager");
                f.asset_params.clawback = small_adr("clawback");
            }
        },
        TxFields::AssetTransfer(f) => match k {
            0 => f.transfer_asset = nd::u64("asset"),
            1 => f.asset_amount = nd::u64("amount"),
            2 => f.asset_sender = any_adr("asnd"),
            3 => f.asset_receiver = any_adr("arcv"),
            _ => f.asset_close_to = any_adr("aclose"),
        },
        TxFields::AssetFreeze(f) => match k {
            0 => f.freeze_account = any_adr("acct"),
            1 => f.freeze_asset = nd::u64("asset"),
            _ => f.asset_frozen = nd::bool("frozen"),
        },
        TxFields::AppCall(f) => match k {
            0 => f.application_id = AppIndex(nd::u64("app")),
            1 => f.on_completion = crate::txs::on_completion(nd::choose(6, "oc")),
            2 => f.application_args = (0..nd::choose(3, "args")).map(|_| blob("arg")).collect(),
            3 => f.accounts = (0..nd::choose(3, "accounts")).map(|_| any_adr("acct")).collect(),
            4 => f.foreign_apps = (0..nd::choose(3, "apps")).map(|_| AppIndex(nd::u8("app") as u64)).collect(),
            5 => f.foreign_assets = (0..nd::choose(3, "assets")).map(|_| nd::u8("asset") as u64).collect(),
            6 => f.local_state_schema = StateSchema { num_uint: nd::u64("nui"), num_byte_slice: 3 },
            7 => f.global_state_schema = StateSchema { num_uint: 3, num_byte_slice: nd::u64("nbs") },
            8 => f.approval_program = blob("approval"),
            9 => f.clear_state_program = blob("clear"),
            10 => f.extra_program_pages = nd::u32("epp"),
            _ => {
                f.approval_program = blob("approval");
                f.clear_state_program = blob("clear");
            }
        },
        TxFields::CompactCert(f) => match k {
            0 => f.cert_round = Round(nd::u64("rnd")),
            _ => f.cert_type = protocol::CompactCertType::Basic,
        },
    }
}
fn varied() -> (usize, usize, usize) {
    let kind = nd::choose(7, "type");
    let k = nd::choose(10 + FOCUS[kind], "field");
    let written_bytewise = if kind == 0 { (6..=8).contains(&k) } else { kind == 1 && k == 11 || kind == 2 && k == 17 };
    (kind, k, if written_bytewise { nd::choose(32, "at") } else { 31 })
}

/// A transaction of any type, any of its fields arbitrary, is read back as it was written.
pub fn tx_codec() {
    let (kind, k, at) = varied();
    let mut t = a_tx(kind);
    vary(&mut t, k, at);
    let e = encode(&t);
    nd::check(encode(&t) == e, "the encoding is deterministic");
    let d = decode::<Transaction>(&e);
    nd::check(d.is_ok(), "an encoded transaction can be decoded");
    let d = d.unwrap();
    nd::check(d == t, "a transaction is decoded as it was encoded");
    nd::check(d.id().0 == t.id().0, "the identifier of a transaction survives encoding");
    nd::check(t.id().0 == hash(&[&b"TX"[..], &e].concat()), "the identifier covers the encoding");
}
/// Two transactions have the same identifier exactly if they are the same.
pub fn tx_id_binds() {
    let (kind, k, at) = varied();
    let (mut a, mut b) = (a_tx(kind), a_tx(kind));
    vary(&mut a, k, at);
    vary(&mut b, k, at);
    let same = a == b;
    nd::check((a.id().0 == b.id().0) == same, "different transactions have different identifiers");
    if same {
        nd::cover("same");
    } else {
        nd::cover("different");
    }
    let other = a_tx((kind + 1 + nd::choose(6, "other type")) % 7);
    nd::check(other.id().0 != a.id().0, "transactions of different types have different identifiers");
}
fn a_msig() -> crypto::MultisigSignature {
    let n = nd::choose(3, "subsigs");
    crypto::MultisigSignature {
        version: if n == 1 { nd::u8("version") } else { 1 },
        threshold: if n == 2 { nd::u8("threshold") } else { 1 },
        subsigs: (0..n)
            .map(|i| crypto::MultisigSubsig { key: crate::crypt::keypair(i as u8 + 1).public, sig: if nd::flip("signed") { Some(a_sig()) } else { None } })
            .collect(),
    }
}
fn a_sig() -> crypto::Signature {
    let at = if nd::thorough() { nd::choose(64, "at") } else { [0, 3, 31, 32, 60, 63][nd::choose(6, "at")] };
    let mut s = one_byte("sig", at);
    s[63] &= 0x1f; // a signature whose scalar is too large cannot be represented
    crypto::Signature::new(s)
}
fn a_delta() -> StateDelta {
    let n = nd::choose(3, "keys");
    StateDelta::verif_new(
        (0..n)
            .map(|i| {
                let action = match nd::choose(3, "action") {
                    0 => DeltaAction::SetBytes,
                    1 => DeltaAction::SetUint,
                    _ => DeltaAction::Delete,
                };
                (["k", "key"][i].to_string(), ValueDelta { action, bytes: nd::vec(i, "value"), uint: if i == 0 { nd::u8("uint") as u64 } else { 9 } })
            })
            .collect(),
    )
}
/// Signed transactions with every kind of signature.
pub fn stx_codec() {
    let mut s = stx(a_tx(0));
    match nd::choose(4, "signature") {
        0 => {}
        1 => s.sig = a_sig(),
        2 => s.msig = Some(a_msig()),
        _ => {
            let mut l = LogicSig { logic: vec![1], sig: crypto::Signature::new([0; 64]), msig: Default::default(), args: vec![] };
            match nd::choose(4, "part") {
                0 => l.logic = blob("logic"),
                1 => l.sig = a_sig(),
                2 => l.msig = a_msig(),
                _ => l.args = (0..nd::choose(3, "args")).map(|_| blob("arg")).collect(),
            }
            s.lsig = Some(l);
        }
    }
    if nd::flip("rekeyed") {
        s.auth_addr = any_adr("auth");
    }
    let e = encode(&s);
    let d = decode::<SignedTx>(&e);
    nd::check(d.map_or(false, |d| d == s), "a signed transaction is decoded as it was encoded");
    nd::check(s.get_encoded_length() == e.len(), "encoded length");
}
fn an_ad(k: usize) -> ApplyData {
    let mut ad = ApplyData::default();
    match k {
        0 => {}
        1 => ad.closing_amount = MicroAlgos(nd::u64("v")),
        2 => ad.asset_closing_amount = nd::u64("v"),
        3 => ad.sender_rewards = MicroAlgos(nd::u64("v")),
        4 => ad.receiver_rewards = MicroAlgos(nd::u64("v")),
        5 => ad.close_rewards = MicroAlgos(nd::u64("v")),
        6 => ad.config_asset = nd::u64("v"),
        7 => ad.application_id = AppIndex(nd::u64("v")),
        8 => ad.eval_delta.global_delta = a_delta(),
        9 => {
            for i in 0..nd::choose(3, "locals") {
                ad.eval_delta.local_deltas.insert(nd::u8("who") as u64, StateDelta::verif_new(vec![("a".into(), ValueDelta { action: DeltaAction::SetUint, bytes: vec![], uint: i as u64 })]));
            }
        }
        10 => ad.eval_delta.logs = (0..nd::choose(3, "logs")).map(|_| name("log")).collect(),
        _ => ad.eval_delta.inner_txs = (0..nd::choose(3, "inner")).map(|_| SignedTxWithAD { tx: stx({ let mut t = a_tx(0); t.header.sender = small_adr("isnd"); t }), ad: ApplyData::default() }).collect(),
    }
    ad
}
/// Transactions in blocks, with all of their effects.
pub fn stib_codec() {
    let k = nd::choose(12, "effect");
    let s = SignedTxInBlock {
        tx: SignedTxWithAD { tx: stx(a_tx(0)), ad: an_ad(k) },
        has_genesis_id: nd::bool("hgi"),
        has_genesis_hash: nd::bool("hgh"),
    };
    let e = encode(&s);
    let d = decode::<SignedTxInBlock>(&e);
    nd::check(d.map_or(false, |d| d == s), "a transaction in a block is decoded as it was encoded");
    if k > 0 {
        let b = SignedTxInBlock { tx: SignedTxWithAD { tx: stx(a_tx(0)), ad: an_ad(k) }, has_genesis_id: s.has_genesis_id, has_genesis_hash: s.has_genesis_hash };
        nd::check((hash_obj(&b) == hash_obj(&s)) == (b == s), "different effects have different digests");
    }
}
/// Deltas are encoded by what they say, not by the order in which it was said.
pub fn delta_order() {
    let v = |i: usize| ValueDelta { action: if i == 0 { DeltaAction::SetUint } else { DeltaAction::SetBytes }, bytes: nd::vec(i, "bytes"), uint: nd::u8("uint") as u64 };
    let keys = ["k", "key", "a"];
    let e: Vec<(String, ValueDelta)> = (0..3).map(|i| (keys[i].to_string(), v(i))).collect();
    let perm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][nd::choose(6, "order")];
    let a = StateDelta::verif_new(e.clone());
    let b = StateDelta::verif_new(perm.iter().map(|&i| e[i].clone()).collect());
    nd::check(a == b && encode(&a) == encode(&b), "the order in which keys were set does not show");
    let mut x = EvalDelta::default();
    let mut y = EvalDelta::default();
    let who = [3u64, 0, 200];
    for i in 0..3 {
        x.local_deltas.insert(who[i], a.clone());
        y.local_deltas.insert(who[perm[i]], b.clone());
    }
    nd::check(x == y && encode(&x) == encode(&y), "the order in which accounts were touched does not show");
}
/// The block header.
pub fn header_codec() {
    let mut h = BlockHeader::default();
    h.upgrade_state.current_protocol = V30;
    let field = nd::choose(21, "field");
    let at = if matches!(field, 1 | 2 | 3 | 6) { nd::choose(32, "at") } else { 0 };
    match field {
        0 => h.round = Round(nd::u64("v")),
        1 => h.branch = CryptoHash(one_byte("v", at)),
        2 => h.seed = Seed(one_byte("v", at)),
        3 => h.tx_root = CryptoHash(one_byte("v", at)),
        4 => h.timestamp = nd::u64("v"),
        5 => h.genesis_id = name("v"),
        6 => h.genesis_hash = CryptoHash(one_byte("v", at)),
        7 => h.rewards_state.fee_sink = any_adr("v"),
        8 => h.rewards_state.rewards_pool = any_adr("v"),
        9 => h.rewards_state.rewards_level = nd::u64("v"),
        10 => h.rewards_state.rewards_rate = nd::u64("v"),
        11 => h.rewards_state.rewards_residue = nd::u64("v"),
        12 => h.rewards_state.rewards_recalculation_round = Round(nd::u64("v")),
        13 => h.upgrade_state.next_protocol = [None, Some(V7), Some(Future)][nd::choose(3, "next")],
        14 => h.upgrade_state.next_protocol_approvals = nd::u64("v"),
        15 => h.upgrade_state.next_protocol_vote_before = Round(nd::u64("v")),
        16 => h.upgrade_state.next_protocol_switch_on = Round(nd::u64("v")),
        17 => h.upgrade_vote.upgrade_delay = Round(nd::u64("v")),
        18 => h.upgrade_vote.upgrade_propose = [V7, V18, Future][nd::choose(3, "propose")],
        19 => h.upgrade_vote.upgrade_approve = nd::bool("v"),
        _ => h.tx_counter = nd::u64("v"),
    }
    let d = decode::<BlockHeader>(&encode(&h));
    nd::check(d.is_ok(), "an encoded header can be decoded");
    let d = d.unwrap();
    let r = |h: &BlockHeader| (h.rewards_state.fee_sink, h.rewards_state.rewards_pool, h.rewards_state.rewards_level, h.rewards_state.rewards_rate, h.rewards_state.rewards_residue, h.rewards_state.rewards_recalculation_round);
    let v = |h: &BlockHeader| (h.upgrade_vote.upgrade_propose, h.upgrade_vote.upgrade_delay, h.upgrade_vote.upgrade_approve);
    nd::check(
        d.round == h.round && d.branch == h.branch && d.seed.0 == h.seed.0 && d.tx_root == h.tx_root && d.timestamp == h.timestamp && d.genesis_id == h.genesis_id
            && d.genesis_hash == h.genesis_hash && r(&d) == r(&h) && d.upgrade_state == h.upgrade_state && v(&d) == v(&h) && d.tx_counter == h.tx_counter && d.compact_certs.is_empty(),
        "a header is decoded as it was encoded",
    );
    nd::check(hash_obj(&d) == hash_obj(&h), "the digest of a header survives encoding");
}
/// Account data.
pub fn account_codec() {
    let status = match nd::choose(3, "status") { 0 => Status::Offline, 1 => Status::Online, _ => Status::NotParticipating };
    let mut a = AccountData::verif_new(status, MicroAlgos(7));
    let who = small_adr("params");
    match nd::choose(13, "field") {
        0 => a.micro_algos = MicroAlgos(nd::u64("v")),
        1 => a.rewards_base = nd::u64("v"),
        2 => a.rewarded_micro_algos = MicroAlgos(nd::u64("v")),
        3 => a.vote_id = pk(&nd::bytes("v")),
        4 => a.selection_id = crypto::VrfPublicKey::verif_new({ let mut a = [0; 32]; a[2] = nd::u8("sel"); a }),
        5 => a.vote_first_valid = Round(nd::u64("v")),
        6 => a.vote_last_valid = Round(nd::u64("v")),
        7 => a.vote_key_dilution = nd::u64("v"),
        8 => a.auth_addr = any_adr("v"),
        9 => a.total_app_schema = StateSchema { num_uint: nd::u8("v") as u64, num_byte_slice: nd::u8("v") as u64 },
        10 => a.total_extra_app_pages = nd::u32("v"),
        11 => {
            a.assets.insert([0, 300, u64::MAX][nd::choose(3, "index")], AssetHolding { amount: nd::u8("v") as u64, frozen: nd::bool("frozen") });
        }
        _ => {
            a.asset_params.insert([1, 70000][nd::choose(2, "index")], AssetParams { manager: who, ..crate::txs::asset_params() });
        }
    }
    let d = decode::<AccountData>(&encode(&a));
    nd::check(d.is_ok(), "encoded account data can be decoded");
    let d = d.unwrap();
    let f = |a: &AccountData| (a.status, a.micro_algos, a.rewards_base, a.rewarded_micro_algos, a.vote_first_valid, a.vote_last_valid, a.vote_key_dilution, a.auth_addr, a.total_extra_app_pages);
    nd::check(f(&a) == f(&d) && a.vote_id == d.vote_id && a.selection_id == d.selection_id && a.total_app_schema == d.total_app_schema, "account data is decoded as it was encoded");
    nd::check(d.assets.len() == a.assets.len() && a.assets.iter().all(|(i, x)| d.assets.get(i).map_or(false, |y| x.amount == y.amount && x.frozen == y.frozen)), "asset holdings are decoded as they were encoded");
    nd::check(d.asset_params.len() == a.asset_params.len() && a.asset_params.iter().all(|(i, x)| d.asset_params.get(i) == Some(x)), "asset parameters are decoded as they were encoded");
}
/// Key/value stores and their changes.
pub fn teal_values() {
    let bytes = blob("value");
    let uint = nd::u64("uint");
    let v = if nd::flip("bytes") { TealValue::new_bytes(bytes.clone()) } else { TealValue::new_uint(uint) };
    let back = v.to_value_delta().verif_to_teal_value();
    nd::check(back.map_or(false, |b| b.teal_type == v.teal_type && b.bytes == v.bytes && b.uint == v.uint), "a value survives being made a delta");
    let d = v.to_value_delta();
    nd::check(match d.action { DeltaAction::SetBytes => d.uint == 0, _ => d.bytes.is_empty() }, "a delta carries nothing else");
    let del = ValueDelta { action: DeltaAction::Delete, bytes: bytes.clone(), uint };
    nd::check(del.verif_to_teal_value().is_none(), "a deletion has no value");
    let set = ValueDelta { action: if nd::flip("set bytes") { DeltaAction::SetBytes } else { DeltaAction::SetUint }, bytes: bytes.clone(), uint };
    let t = set.verif_to_teal_value();
    nd::check(
        t.map_or(false, |t| match set.action { DeltaAction::SetBytes => t.teal_type == TealType::Bytes && t.bytes == bytes && t.uint == 0, _ => t.teal_type == TealType::Uint && t.uint == uint && t.bytes.is_empty() }),
        "a delta sets the value it carries and nothing else",
    );
    // what a store contains, counted by type
    let n = nd::choose(4, "entries");
    let kinds: Vec<bool> = (0..n).map(|_| nd::flip("kind")).collect();
    let kv = TealKeyValue::verif_new(kinds.iter().enumerate().map(|(i, k)| (["a", "b", "ab"][i].to_string(), if *k { TealValue::new_uint(uint) } else { TealValue::new_bytes(vec![]) })).collect());
    let s = kv.to_state_schema();
    let uints = kinds.iter().filter(|k| **k).count() as u64;
    nd::check(s.num_uint == uints && s.num_byte_slice == n as u64 - uints, "a store is counted by type");
}
/// A delta is acceptable exactly within the limits on keys and values.
pub fn delta_limits() {
    let mut p = algorsand::config::ConsensusParams::default();
    p.max_app_key_len = nd::u32("key limit");
    p.max_app_bytes_value_len = nd::u32("value limit");
    p.max_app_sum_key_value_lens = nd::u32("sum limit");
    let n = nd::choose(3, "entries");
    let mut ok = true;
    let e: Vec<(String, ValueDelta)> = (0..n)
        .map(|i| {
            let key = [["", "k", "key"], ["z", "zz", "zzzz"]][i][nd::choose(3, "key")].to_string();
            let bytes: Vec<u8> = nd::vec(nd::choose(4, "length"), "bytes");
            let k = nd::choose(3, "action");
            let (kl, bl) = (key.len() as u32, bytes.len() as u32);
            ok &= p.max_app_key_len != 0 && kl <= p.max_app_key_len;
            ok &= k != 0 || bl <= p.max_app_bytes_value_len && kl + bl <= p.max_app_sum_key_value_lens;
            (key, ValueDelta { action: match k { 0 => DeltaAction::SetBytes, 1 => DeltaAction::SetUint, _ => DeltaAction::Delete }, bytes, uint: 3 })
        })
        .collect();
    let valid = StateDelta::verif_new(e).is_valid(p);
    nd::check(valid == ok, "a delta is valid exactly within the limits");
    nd::cover(if valid { "valid" } else { "invalid" });
}
/// Reads a value; what is accepted must have one canonical form.
fn read<T: serde::Serialize + serde::de::DeserializeOwned>(b: &[u8]) {
    match decode::<T>(b) {
        Ok(x) => {
            nd::cover("read");
            let e = encode(&x);
            let y = decode::<T>(&e);
            nd::check(y.map_or(false, |y| encode(&y) == e), "what is read has one form");
        }
        Err(_) => nd::cover("refused"),
    }
}
fn read_any(b: &[u8], k: usize) {
    match k {
        0 => read::<Transaction>(b),
        1 => read::<SignedTx>(b),
        2 => read::<SignedTxInBlock>(b),
        3 => read::<BlockHeader>(b),
        4 => read::<EvalDelta>(b),
        5 => read::<crypto::MultisigSignature>(b),
        6 => read::<Address>(b),
        7 => read::<CryptoHash>(b),
        8 => read::<crypto::VrfOutput>(b),
        9 => read::<crypto::OTS>(b),
        10 => read::<AccountData>(b),
        _ => read::<Payset>(b),
    }
}
/// Reading arbitrary bytes never crashes.
pub fn garbage() {
    nd::fork_offsets(true);
    let k = nd::choose(12, "what");
    let n = nd::choose(if nd::thorough() { 6 } else { 4 }, "length");
    read_any(&nd::vec(n, "input"), k);
}
/// Reading a valid encoding with one byte changed never crashes.
pub fn damaged() {
    nd::fork_offsets(true);
    let kind = if nd::thorough() { nd::choose(7, "type") } else { 0 };
    let mut t = a_tx([0, 5, 2, 1, 3, 4, 6][kind]);
    t.header.note = vec![1, 2];
    let signed = nd::thorough() && kind == 0 && nd::flip("signed");
    let mut b = if signed { encode(&stx(t)) } else { encode(&t) };
    let at = nd::choose((b.len() + 63) / 64, "position") * 64 + nd::choose(64, "position");
    nd::assume(at < b.len());
    b[at] = nd::u8("byte");
    if signed {
        read::<SignedTx>(&b)
    } else {
        read::<Transaction>(&b)
    }
}
/// The identifier of a list of transactions is the identifier of exactly these, in this order.
pub fn group_ids() {
    let make = |n: usize, name: &str| -> Vec<SignedTx> { (0..n).map(|_| stx({ let mut t = a_tx(0); t.header.sender = small_adr(name); t })).collect() };
    let (n, m) = (nd::choose(3, "n"), nd::choose(3, "m"));
    let (a, b) = (make(n, "a"), make(m, "b"));
    let same = n == m && a.iter().zip(&b).all(|(x, y)| x == y);
    nd::check((verif_signed_tx_vec_id(a).0 == verif_signed_tx_vec_id(b).0) == same, "a list of transactions has its own identifier");
    let g = |n: usize, name: &str| -> Vec<CryptoHash> { (0..n).map(|_| small_hash(name)).collect() };
    let (x, y) = (g(n, "x"), g(m, "y"));
    nd::check((algorsand::data::transactions::verif_tx_group_hash_rep(x.clone()) == algorsand::data::transactions::verif_tx_group_hash_rep(y.clone())) == (x == y), "a group has its own identifier");
}
