//! Transactions: well-formedness, liveness, fees, addresses, identifiers and signing.
use crate::nd;
use algorsand::config::ConsensusParams;
use algorsand::crypto::{self, hashable::*};
use algorsand::data::basics::*;
use algorsand::data::transactions::*;
use algorsand::protocol;

pub fn adr(name: &str) -> Address {
    Address(nd::bytes(name))
}
/// An arbitrary address out of a small set of distinct ones (keeps relations, not bit patterns, symbolic).
pub fn some_adr(n: u8, name: &str) -> Address {
    let mut a = [0; 32];
    a[7] = nd::u8(name);
    nd::assume(a[7] < n);
    Address(a)
}
/// A public key from bytes (natively, not all bytes are one).
pub fn pk(b: &[u8; 32]) -> ed25519_dalek::PublicKey {
    let r = ed25519_dalek::PublicKey::from_bytes(b);
    nd::assume(r.is_ok());
    r.unwrap()
}
pub fn h32(name: &str) -> CryptoHash {
    CryptoHash(nd::bytes(name))
}
fn small_hash(name: &str) -> CryptoHash {
    let mut a = [0; 32];
    a[3] = nd::u8(name);
    a[31] = nd::u8(name);
    CryptoHash(a)
}
pub fn pay() -> TxFields {
    TxFields::Payment(PaymentFields { receiver: Address([9; 32]), amount: MicroAlgos(1), close_remainder_to: None })
}
/// A transaction of every type, its own fields unremarkable.
pub fn fields_of(kind: usize) -> TxFields {
    match kind {
        0 => pay(),
        1 => TxFields::Keyreg(KeyregFields {
            vote_pk: Default::default(),
            selection_pk: Default::default(),
            vote_first: Round(0),
            vote_last: Round(0),
            vote_key_dilution: 0,
            nonparticipation: false,
        }),
        2 => TxFields::AssetConfig(AssetConfigFields { config_asset: 0, asset_params: asset_params() }),
        3 => TxFields::AssetTransfer(AssetTransferFields {
            transfer_asset: 5,
            asset_amount: 6,
            asset_sender: Address([0; 32]),
            asset_receiver: Address([4; 32]),
            asset_close_to: Address([0; 32]),
        }),
        4 => TxFields::AssetFreeze(AssetFreezeFields { freeze_account: Address([3; 32]), freeze_asset: 8, asset_frozen: true }),
        5 => TxFields::AppCall(AppCallFields::default()),
        _ => TxFields::CompactCert(CompactCertFields { cert_round: Round(1), cert_type: protocol::CompactCertType::Basic }),
    }
}
pub fn asset_params() -> AssetParams {
    AssetParams {
        total: 1,
        decimals: 0,
        default_frozen: false,
        unit_name: String::new(),
        asset_name: String::new(),
        url: String::new(),
        metadata_hash: [0; 32],
        manager: Address([0; 32]),
        reserve: Address([0; 32]),
        freeze: Address([0; 32]),
        clawback: Address([0; 32]),
    }
}
/// Parameters under which everything is switched on and nothing is limited.
pub fn open_params() -> ConsensusParams {
    let mut p = ConsensusParams::default();
    p.asset = true;
    p.application = true;
    p.compact_cert_rounds = 128;
    p.support_tx_groups = true;
    p.support_transaction_leases = true;
    p.support_rekeying = true;
    p.enable_fee_pooling = true;
    p.support_become_non_participating_transactions = true;
    p.max_tx_life = 1000;
    p.max_tx_note_bytes = 1024;
    p
}
fn spec2() -> SpecialAddresses {
    SpecialAddresses { fee_sink: adr("fee_sink"), rewards_pool: adr("rewards_pool") }
}
fn zero(a: &Address) -> bool {
    a.0 == [0; 32]
}

/// What every transaction must satisfy, whatever its type.
fn header_ok(t: &Transaction, spec: &SpecialAddresses, p: &ConsensusParams) -> bool {
    let h = &t.header;
    let cert = matches!(t.fields, TxFields::CompactCert(_));
    (p.enable_fee_pooling || cert || h.fee.0 >= p.min_tx_fee)
        && h.last_valid.0 >= h.first_valid.0
        && h.last_valid.0 - h.first_valid.0 <= p.max_tx_life
        && h.note.len() <= p.max_tx_note_bytes as usize
        && h.sender != spec.rewards_pool
        && !zero(&h.sender)
        && (p.support_transaction_leases || h.lease == [0; 32])
        && (p.support_tx_groups || h.group.0 == [0; 32])
        && (p.support_rekeying || zero(&h.rekey_to))
}
fn spender_ok(f: &PaymentFields, h: &Header, spec: &SpecialAddresses) -> bool {
    f.close_remainder_to != Some(h.sender) && (h.sender != spec.fee_sink || (f.receiver == spec.rewards_pool && f.close_remainder_to.is_none()))
}

/// The rules shared by all transaction types.
pub fn wf_header() {
    let kind = nd::choose(6, "type");
    let note = [0, 3, 1025][nd::choose(3, "note")];
    let t = Transaction {
        header: Header {
            sender: adr("sender"),
            fee: MicroAlgos(nd::u64("fee")),
            first_valid: Round(nd::u64("fv")),
            last_valid: Round(nd::u64("lv")),
            note: vec![1; note],
            genesis_id: String::new(),
            genesis_hash: h32("gh"),
            group: h32("group"),
            lease: nd::bytes("lease"),
            rekey_to: adr("rekey"),
        },
        fields: fields_of(kind),
    };
    let mut p = open_params();
    p.enable_fee_pooling = nd::bool("pooling");
    p.min_tx_fee = nd::u64("min_fee");
    p.max_tx_life = nd::u64("max_life");
    p.max_tx_note_bytes = nd::u32("max_note");
    p.support_transaction_leases = nd::bool("leases");
    p.support_tx_groups = nd::bool("groups");
    p.support_rekeying = nd::bool("rekeying");
    let spec = spec2();
    let r = t.is_well_formed(&spec, &p);
    let mut want = header_ok(&t, &spec, &p);
    if kind == 0 {
        want = want && t.header.sender != spec.fee_sink || want && spec.rewards_pool == Address([9; 32]);
    }
    match r {
        Ok(()) => {
            nd::cover("accepted");
            nd::check(want, "an accepted transaction satisfies every rule");
        }
        Err(e) => {
            nd::cover("rejected");
            nd::check(!want, "a rejected transaction violates a rule");
            nd::check(truthful(&e, &t, &spec, &p), "the error names a rule which is violated");
        }
    }
}
/// The rule an error complains about really is violated.
fn truthful(e: &InvalidTx, t: &Transaction, spec: &SpecialAddresses, p: &ConsensusParams) -> bool {
    let h = &t.header;
    match e {
        InvalidTx::FeeLessThanMin(_, _) => !p.enable_fee_pooling && h.fee.0 < p.min_tx_fee,
        InvalidTx::BadValidityRange(_, _) => h.last_valid < h.first_valid,
        InvalidTx::ExcessiveValidityRange(_, _) => h.last_valid >= h.first_valid && h.last_valid.0 - h.first_valid.0 > p.max_tx_life,
        InvalidTx::NoteTooBig(_, _) => h.note.len() > p.max_tx_note_bytes as usize,
        InvalidTx::SenderIsRewardsPool => h.sender == spec.rewards_pool,
        InvalidTx::ZeroSender => zero(&h.sender),
        InvalidTx::LeasesNotSupported => !p.support_transaction_leases && h.lease != [0; 32],
        InvalidTx::GroupsNotSupported => !p.support_tx_groups && h.group.0 != [0; 32],
        InvalidTx::RekeyingNotSupported => !p.support_rekeying && !zero(&h.rekey_to),
        InvalidTx::InvalidPayment(_) => matches!(&t.fields, TxFields::Payment(f) if !spender_ok(f, h, spec)),
        _ => false,
    }
}
fn plain_header() -> Header {
    Header { sender: Address([1; 32]), first_valid: Round(10), last_valid: Round(20), ..Default::default() }
}
fn plain_spec() -> SpecialAddresses {
    SpecialAddresses { fee_sink: Address([7; 32]), rewards_pool: Address([8; 32]) }
}

/// Payments: who may close to whom, and what the fee sink may do.
pub fn wf_payment() {
    let close = if nd::flip("closes") { Some(adr("close")) } else { None };
    let f = PaymentFields { receiver: adr("receiver"), amount: MicroAlgos(nd::u64("amount")), close_remainder_to: close };
    let h = Header { sender: adr("sender"), ..plain_header() };
    let spec = spec2();
    let p = open_params();
    let want = spender_ok(&f, &h, &spec);
    let r = f.check_spender(&h, &spec, &p);
    match r {
        Ok(()) => nd::check(want, "a payment that is let through obeys the spending rules"),
        Err(e) => {
            nd::check(!want, "a payment is refused only for breaking the spending rules");
            nd::check(
                match e {
                    PaymentError::CannotCloseToSender => close == Some(h.sender),
                    PaymentError::CannotSpendFromFeeSink => h.sender == spec.fee_sink && f.receiver != spec.rewards_pool,
                    PaymentError::CannotCloseFeeSink => h.sender == spec.fee_sink && close.is_some(),
                },
                "the error names the rule which is violated",
            );
        }
    }
    let t = Transaction { header: h, fields: TxFields::Payment(f) };
    let ok = t.is_well_formed(&spec, &p).is_ok();
    if ok {
        nd::cover("payment accepted");
    }
    nd::check(ok == (want && header_ok(&t, &spec, &p)), "well-formed payments");
}

/// Key registrations: coherent keys, ranges and the switch to non-participation.
pub fn wf_keyreg() {
    let vote = pk(&nd::bytes("vote_pk"));
    let sk = nd::bytes::<32>("selection_pk");
    let f = KeyregFields {
        vote_pk: vote,
        selection_pk: crypto::VrfPublicKey::verif_new(sk),
        vote_first: Round(nd::u64("vf")),
        vote_last: Round(nd::u64("vl")),
        vote_key_dilution: nd::u64("kd"),
        nonparticipation: nd::bool("nonpart"),
    };
    let mut h = plain_header();
    h.last_valid = Round(nd::u64("lv"));
    h.first_valid = h.last_valid;
    let mut p = open_params();
    p.enable_keyreg_coherency_check = nd::bool("coherency");
    p.support_become_non_participating_transactions = nd::bool("nonpart allowed");
    let no_vote = vote.to_bytes() == crypto::OTSVerifier::default().to_bytes();
    let no_sel = sk == [0; 32];
    let online = !no_vote && !no_sel && f.vote_key_dilution != 0;
    let offline = no_vote && no_sel && f.vote_key_dilution == 0;
    let coherent = f.vote_first <= f.vote_last
        && (online || offline)
        && (!offline || (f.vote_first.0 == 0 && f.vote_last.0 == 0))
        && (!online || (f.vote_last.0 != 0 && (h.last_valid.0 == u64::MAX || f.vote_first.0 <= h.last_valid.0 + 1)));
    nd::check(f.check_coherency(&h).is_ok() == coherent, "coherent key registrations");
    let want = (!p.enable_keyreg_coherency_check || coherent)
        && (!f.nonparticipation || (p.support_become_non_participating_transactions && (no_vote || no_sel)));
    let t = Transaction { header: h, fields: TxFields::Keyreg(f) };
    let ok = t.is_well_formed(&plain_spec(), &p).is_ok();
    nd::cover(if ok { "accepted" } else { "rejected" });
    nd::check(ok == want, "well-formed key registrations");
}

/// Assets: the parameters' limits, and whether assets exist at all.
pub fn wf_asset() {
    let kind = 2 + nd::choose(3, "type");
    let mut p = open_params();
    p.asset = nd::bool("assets");
    p.max_asset_name_bytes = nd::u32("max_name");
    p.max_asset_unit_name_bytes = nd::u32("max_unit");
    p.max_asset_url_bytes = nd::u32("max_url");
    p.max_asset_decimals = nd::u32("max_decimals");
    let lens = [0usize, 1, 8, 9, 33];
    let mut fields = fields_of(kind);
    let mut fits = true;
    if let TxFields::AssetConfig(f) = &mut fields {
        let (n, u, l) = (lens[nd::choose(5, "name")], lens[nd::choose(4, "unit")], lens[nd::choose(3, "url")]);
        f.asset_params.asset_name = "n".repeat(n);
        f.asset_params.unit_name = "u".repeat(u);
        f.asset_params.url = "l".repeat(l);
        f.asset_params.decimals = nd::u32("decimals");
        f.asset_params.total = nd::u64("total");
        f.config_asset = nd::u64("id");
        fits = n <= p.max_asset_name_bytes as usize && u <= p.max_asset_unit_name_bytes as usize && l <= p.max_asset_url_bytes as usize && f.asset_params.decimals <= p.max_asset_decimals;
    }
    let t = Transaction { header: plain_header(), fields };
    let ok = t.is_well_formed(&plain_spec(), &p).is_ok();
    nd::cover(if ok { "accepted" } else { "rejected" });
    nd::check(ok == (p.asset && fits), "well-formed asset transactions");
}

fn app_params() -> ConsensusParams {
    let mut p = open_params();
    p.max_app_args = 16;
    p.max_app_total_arg_len = 2048;
    p.max_app_tx_accounts = 4;
    p.max_app_tx_foreign_apps = 8;
    p.max_app_tx_foreign_assets = 8;
    p.max_app_total_tx_references = 8;
    p.max_app_program_len = 2048;
    p.max_app_total_program_len = 2048;
    p.max_extra_app_program_pages = 3;
    p.max_local_schema_entries = 16;
    p.max_global_schema_entries = 64;
    p
}
pub fn on_completion(k: usize) -> OnCompletion {
    match k {
        0 => OnCompletion::NoOpOC,
        1 => OnCompletion::OptInOC,
        2 => OnCompletion::CloseOutOC,
        3 => OnCompletion::ClearStateOC,
        4 => OnCompletion::UpdateApplicationOC,
        _ => OnCompletion::DeleteApplicationOC,
    }
}
/// Application calls: how many arguments and references.
pub fn wf_app_refs() {
    let mut p = app_params();
    p.application = nd::bool("apps");
    p.max_app_args = nd::u32("max_args");
    p.max_app_total_arg_len = nd::u32("max_arg_len");
    p.max_app_tx_accounts = nd::u32("max_accounts");
    p.max_app_tx_foreign_apps = nd::u32("max_apps");
    p.max_app_tx_foreign_assets = nd::u32("max_assets");
    p.max_app_total_tx_references = nd::u32("max_refs");
    let n = [[0usize, 0, 0, 0], [2, 1, 0, 0], [1, 0, 2, 1], [0, 2, 1, 3], [3, 1, 1, 1], [1, 3, 3, 2]][nd::choose(6, "counts")];
    let f = AppCallFields {
        application_id: AppIndex(nd::u64("app")),
        application_args: (0..n[0]).map(|i| vec![0; 1 + 2 * i]).collect(),
        accounts: vec![Address([5; 32]); n[1]],
        foreign_apps: vec![AppIndex(3); n[2]],
        foreign_assets: vec![4; n[3]],
        ..Default::default()
    };
    let total: usize = n[0] * n[0];
    let want = p.application
        && n[0] <= p.max_app_args as usize
        && total <= p.max_app_total_arg_len as usize
        && n[1] <= p.max_app_tx_accounts as usize
        && n[2] <= p.max_app_tx_foreign_apps as usize
        && n[3] <= p.max_app_tx_foreign_assets as usize
        && n[1] + n[2] + n[3] <= p.max_app_total_tx_references as usize;
    let t = Transaction { header: plain_header(), fields: TxFields::AppCall(f) };
    let ok = t.is_well_formed(&plain_spec(), &p).is_ok();
    nd::cover(if ok { "accepted" } else { "rejected" });
    nd::check(ok == want, "well-formed application calls: arguments and references");
}
/// Application calls: programs, pages and schemas, on creation, update and anything else.
pub fn wf_app_programs() {
    let mut p = app_params();
    p.enable_extra_pages_on_app_update = nd::bool("pages on update");
    p.max_app_program_len = nd::below(1 << 12, "max_program") as u32;
    p.max_app_total_program_len = nd::below(1 << 12, "max_total") as u32;
    p.max_extra_app_program_pages = nd::below(16, "max_pages") as u32;
    p.max_local_schema_entries = nd::u64("max_local");
    p.max_global_schema_entries = nd::u64("max_global");
    let (a, c) = [(0usize, 0usize), (5, 0), (0, 7), (9, 6)][nd::choose(4, "programs")];
    let update = nd::choose(3, "completion");
    let f = AppCallFields {
        application_id: AppIndex(nd::u64("app")),
        on_completion: on_completion([0, 4, 5][update]),
        approval_program: vec![2; a],
        clear_state_program: vec![3; c],
        extra_program_pages: nd::u32("pages"),
        local_state_schema: StateSchema { num_uint: nd::u64("lu"), num_byte_slice: nd::u64("lb") },
        global_state_schema: StateSchema { num_uint: nd::u64("gu"), num_byte_slice: nd::u64("gb") },
        ..Default::default()
    };
    let create = f.application_id.0 == 0;
    let entries = |s: &StateSchema| s.num_uint.checked_add(s.num_byte_slice).unwrap_or(u64::MAX);
    let empty = |s: &StateSchema| s.num_uint == 0 && s.num_byte_slice == 0;
    let pages = 1 + if !create && p.enable_extra_pages_on_app_update { p.max_extra_app_program_pages } else { f.extra_program_pages } as u64;
    let want = (create || update == 1 || (a == 0 && c == 0))
        && (create || (empty(&f.local_state_schema) && empty(&f.global_state_schema) && f.extra_program_pages == 0))
        && f.extra_program_pages <= p.max_extra_app_program_pages
        && a as u64 <= pages * p.max_app_program_len as u64
        && c as u64 <= pages * p.max_app_program_len as u64
        && (a + c) as u64 <= pages * p.max_app_total_program_len as u64
        && entries(&f.local_state_schema) <= p.max_local_schema_entries
        && entries(&f.global_state_schema) <= p.max_global_schema_entries;
    let t = Transaction { header: plain_header(), fields: TxFields::AppCall(f) };
    let ok = t.is_well_formed(&plain_spec(), &p).is_ok();
    if ok {
        nd::cover(if create { "created" } else if update == 1 { "updated" } else { "called" });
    }
    nd::check(ok == want, "well-formed application calls: programs, pages and schemas");
}

/// Compact certificates: only from their own sender, with nothing else in the header.
pub fn wf_cert() {
    let mut p = open_params();
    p.compact_cert_rounds = nd::u64("cert_rounds");
    p.enable_fee_pooling = nd::bool("pooling");
    p.min_tx_fee = nd::u64("min_fee");
    let right = nd::flip("right sender");
    let sender = if right { *COMPACT_CERT_SENDER } else { adr("sender") };
    let note = nd::choose(2, "note");
    let h = Header {
        sender,
        fee: MicroAlgos(nd::u64("fee")),
        note: vec![0; note],
        group: h32("group"),
        lease: nd::bytes("lease"),
        rekey_to: adr("rekey"),
        ..plain_header()
    };
    let want = p.compact_cert_rounds != 0 && sender == *COMPACT_CERT_SENDER && h.fee.0 == 0 && note == 0 && h.group.0 == [0; 32] && zero(&h.rekey_to) && h.lease == [0; 32];
    let t = Transaction { header: h, fields: fields_of(6) };
    let r = t.is_well_formed(&plain_spec(), &p);
    nd::cover(if r.is_ok() { "accepted" } else { "rejected" });
    nd::check(r.is_ok() == want, "well-formed compact certificates");
    nd::check(r != Err(InvalidTx::FeeLessThanMin(MicroAlgos(0), MicroAlgos(p.min_tx_fee))), "compact certificates need no fee");
}

/// A transaction is alive exactly within its rounds and on its own network.
pub fn alive() {
    let ids = ["", "a", "ab", "b"];
    let (g, tg) = (ids[nd::choose(4, "genesis id")], ids[nd::choose(4, "tx genesis id")]);
    let mut p = open_params();
    p.support_genesis_hash = nd::bool("support hash");
    p.require_genesis_hash = nd::bool("require hash");
    let h = Header { first_valid: Round(nd::u64("fv")), last_valid: Round(nd::u64("lv")), genesis_id: tg.to_owned(), genesis_hash: h32("tx hash"), ..plain_header() };
    let round = nd::u64("round");
    let gh = h32("hash");
    let r = h.verif_alive(Round(round), &p, g, gh.clone());
    let has = h.genesis_hash.0 != [0; 32];
    let in_rounds = h.first_valid.0 <= round && round <= h.last_valid.0;
    let id_ok = tg.is_empty() || tg == g;
    let hash_ok = if p.support_genesis_hash { if has { h.genesis_hash == gh } else { !p.require_genesis_hash } } else { !has };
    match r {
        Ok(()) => {
            nd::cover("alive");
            nd::check(in_rounds && id_ok && hash_ok, "only in its rounds, on its network");
        }
        Err(e) => {
            nd::check(!(in_rounds && id_ok && hash_ok), "a live transaction is let through");
            let t = match e {
                InvalidTx::Dead { .. } => !in_rounds,
                InvalidTx::GenesisIdMismatch(_, _) => !id_ok,
                InvalidTx::GenesisHashMismatch(_, _) => has && h.genesis_hash != gh,
                InvalidTx::GenesisHashMissing => !has,
                InvalidTx::GenesisHashNotAllowed => has && !p.support_genesis_hash,
                _ => false,
            };
            nd::check(t, "the reason given is a real one");
        }
    }
}

pub fn stx(tx: Transaction) -> SignedTx {
    SignedTx { sig: crypto::Signature::new([0; 64]), msig: None, lsig: None, tx, auth_addr: Address([0; 32]) }
}
/// The fee credit of a group: everything paid beyond one minimum fee per paying transaction.
pub fn fee_pool() {
    let n = nd::choose(4, "size");
    let min = nd::u64("min_fee");
    let mut sum = 0u64;
    let mut count = 0u64;
    let mut g = Vec::new();
    for i in 0..n {
        let kind = if i == 0 { nd::choose(7, "type0") } else { [0, 6, 5][nd::choose(3, "type")] };
        let fee = nd::u64("fee");
        sum = sum.saturating_add(fee);
        if kind != 6 {
            count += 1;
        }
        g.push(stx(Transaction { header: Header { fee: MicroAlgos(fee), ..plain_header() }, fields: fields_of(kind) }));
    }
    let need = min.checked_mul(count);
    let paid = sum;
    let r = fee_credit(&g, min);
    match (r, need) {
        (Ok(c), Some(need)) => {
            nd::cover("credit");
            nd::check(paid >= need && c == paid - need, "the credit is what was paid beyond the requirement");
        }
        (Ok(_), None) => nd::check(false, "a requirement that overflows cannot be met"),
        (Err(()), need) => {
            nd::cover("too little");
            nd::check(need.map_or(true, |x| paid < x), "a group that paid enough is accepted");
        }
    }
}
/// The same for groups as large as they get.
pub fn fee_pool_large() {
    let n = if nd::thorough() { [8, 16, 17][nd::choose(3, "size")] } else { 16 };
    let min = nd::u64("min_fee");
    let free = if nd::thorough() { nd::choose(n + 1, "certificate") } else { [n, 0, n - 1][nd::choose(3, "certificate")] };
    let paying = if nd::thorough() { nd::choose(n, "paying") } else { [0, n - 1][nd::choose(2, "paying")] };
    let (most, fee) = (nd::u64("fee of most"), nd::u64("fee"));
    let g: Vec<_> = (0..n)
        .map(|i| stx(Transaction { header: Header { fee: MicroAlgos(if i == paying { fee } else { most }), ..plain_header() }, fields: fields_of(if i == free { 6 } else { 0 }) }))
        .collect();
    let count = if free < n { n - 1 } else { n } as u64;
    let mut paid = 0u64;
    for i in 0..n {
        paid = paid.saturating_add(if i == paying { fee } else { most });
    }
    match (fee_credit(&g, min), min.checked_mul(count)) {
        (Ok(c), Some(need)) => nd::check(paid >= need && c == paid - need, "the credit is what was paid beyond the requirement"),
        (Ok(_), None) => nd::check(false, "a requirement that overflows cannot be met"),
        (Err(()), need) => nd::check(need.map_or(true, |x| paid < x), "a group that paid enough is accepted"),
    }
}

/// Indices into an application call's accounts and applications, and back.
pub fn app_lookup() {
    let n = nd::choose(4, "accounts");
    let m = nd::choose(4, "apps");
    let sender = some_adr(6, "sender");
    let f = AppCallFields {
        application_id: AppIndex(nd::u64("app")),
        accounts: (0..n).map(|_| some_adr(6, "account")).collect(),
        foreign_apps: (0..m).map(|_| AppIndex(nd::u64("foreign"))).collect(),
        ..Default::default()
    };
    match nd::choose(4, "which") {
        0 => {
            let i = nd::u64("index");
            match f.verif_address_by_index(i, sender) {
                Ok(a) => {
                    nd::check(i <= n as u64, "only valid indices resolve");
                    let want = if i == 0 { sender } else { f.accounts[nd::concretize(i) as usize - 1] };
                    nd::check(a == want, "index 0 is the sender, the others the listed accounts");
                }
                Err(()) => nd::check(i > n as u64, "valid indices resolve"),
            }
        }
        1 => {
            let t = some_adr(6, "target");
            let all: Vec<Address> = std::iter::once(sender).chain(f.accounts.iter().copied()).collect();
            let want = all.iter().position(|a| *a == t).map(|i| i as u64);
            nd::cover("index of address");
            nd::check(f.index_by_address(t, sender).ok() == want, "the first match counts");
        }
        2 => {
            let i = nd::u64("index");
            match f.app_id_by_index(i) {
                Ok(a) => {
                    nd::check(i <= m as u64, "only valid indices resolve");
                    let want = if i == 0 { f.application_id } else { f.foreign_apps[nd::concretize(i) as usize - 1] };
                    nd::check(a == want, "index 0 is the called application, the others the listed ones");
                }
                Err(()) => nd::check(i > m as u64, "valid indices resolve"),
            }
        }
        _ => {
            let t = AppIndex(nd::u64("target"));
            let want = std::iter::once(f.application_id).chain(f.foreign_apps.iter().copied()).position(|a| a == t).map(|i| i as u64);
            nd::check(f.index_by_app_id(t).ok() == want, "the first match counts");
        }
    }
}

/// Which accounts a transaction touches, what it pays and to whom.
pub fn touched() {
    let kind = nd::choose(7, "type");
    let mut fields = fields_of(kind);
    let sender = adr("sender");
    let spec = spec2();
    let mut want = vec![sender, spec.fee_sink];
    let (mut amount, mut to) = (0, None);
    match &mut fields {
        TxFields::Payment(f) => {
            f.receiver = adr("receiver");
            f.amount = MicroAlgos(nd::u64("amount"));
            want.push(f.receiver);
            amount = f.amount.0;
            to = Some(f.receiver);
            if nd::flip("closes") {
                f.close_remainder_to = Some(adr("close"));
                want.push(f.close_remainder_to.unwrap());
            }
        }
        TxFields::AssetTransfer(f) => {
            f.asset_receiver = adr("receiver");
            f.asset_sender = adr("asset_sender");
            f.asset_close_to = adr("asset_close_to");
            to = Some(f.asset_receiver);
            want.push(f.asset_receiver);
            if !zero(&f.asset_sender) {
                want.push(f.asset_sender);
            }
            if !zero(&f.asset_close_to) {
                want.push(f.asset_close_to);
            }
        }
        _ => {}
    }
    let t = Transaction { header: Header { sender, ..plain_header() }, fields };
    nd::check(t.verif_tx_amount().0 == amount, "only payments pay");
    nd::check(t.verif_get_receiver_address() == to, "receiver");
    let probe = adr("probe");
    let is = want.iter().any(|a| *a == probe);
    nd::check(t.verif_match_address(&probe, &spec) == is, "exactly the accounts involved match");
    let got = t.verif_relevant_addrs(&spec);
    nd::check(got.iter().any(|a| *a == probe) == is, "exactly the accounts involved are listed");
    nd::cover(if is { "involved" } else { "not involved" });
}

/// The identifier binds every part of a transaction; signing names the signer and signs the identified bytes.
pub fn signing() {
    let seed = nd::bytes::<32>("seed");
    let secret = ed25519_dalek::SecretKey::from_bytes(&seed).unwrap();
    let public = (&secret).into();
    let kp = crypto::Keypair { secret, public };
    let own = Address(kp.public.to_bytes());
    let sender = if nd::flip("own account") { own } else { adr("sender") };
    let t = Transaction { header: Header { sender, fee: MicroAlgos(nd::below(100, "fee")), ..plain_header() }, fields: pay() };
    let s = t.sign(&kp);
    nd::check(s.tx == t && s.msig.is_none() && s.lsig.is_none(), "the transaction itself is left alone");
    if sender == own {
        nd::cover("signs for itself");
        nd::check(zero(&s.auth_addr), "signing with one's own key claims no other authority");
    } else {
        nd::cover("signs for another");
        nd::check(s.auth_addr == own, "signing for another account names the signer");
    }
    nd::check(s.authorizer() == own || (zero(&own) && s.authorizer() == sender), "the authorizer is the key that signed");
    use ed25519_dalek::Verifier;
    let rep = t.hash_rep();
    nd::check(kp.public.verify(&rep, &s.sig).is_ok(), "the signature verifies over the transaction");
    nd::check(rep[..2] == b"TX"[..], "what is signed is marked as a transaction");
    nd::check(s.id().0 == t.id().0 && t.id().0 == hash(&rep), "a signed transaction keeps the identifier of the transaction");
    let s2 = SignedTx { auth_addr: adr("other"), ..s.clone() };
    nd::check(s2.authorizer() == if zero(&s2.auth_addr) { sender } else { s2.auth_addr }, "authorizer");
    nd::check(s2.id().0 == t.id().0, "the identifier does not depend on the signature");
}

#[allow(dead_code)]
fn unused() {
    let _ = (small_hash("x"), protocol::TRANSACTION);
}
