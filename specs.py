import glob, os, re

BASE_ASSUMPTIONS = [
    "x86-64 behaviour is judged on the riscv64 LLVM IR rustc 1.99.1 emits for the same sources (opt-level 2, overflow checks on); both are 64-bit little-endian.",
    "Entropy (hash-map keys) is one fixed byte string; files and environment variables are absent; allocation never fails.",
]


def docs():
    """What a harness decides, from its doc comment."""
    d, last = {}, []
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/src/*.rs"))):
        for l in open(f):
            if l.startswith("/// "):
                last.append(l[4:].strip())
            else:
                m = re.match(r"pub fn (\w+)\(\)", l)
                if m:
                    d[m.group(1)] = " ".join(last)
                last = []
    return d


DOCS = docs()


def H(name, what="", covers=(), **k):
    what = what or DOCS.get(name, "")
    return dict(name=name, what=what, covers=list(covers), **k)


PROPS = {
    "C01": dict(harnesses=[
        H("rewards_next", "one rewards transition from an arbitrary state, all fields 64-bit symbolic, against the definition", ["refresh", "no refresh", "pool exhausted", "no units", "overflow", "level overflow", "distributed"]),
        H("rewards_conserved", "several consecutive transitions: nothing created, lost or overspent", ["refreshed on the way"]),
    ], bounds="rewards_next: none (all 64-bit values); rewards_conserved: 3 rounds (thorough 4), 1..5 reward units, rate and residue < 256, pool < 512, interval 2",
       outside="round + refresh interval beyond 2^64; a refresh interval of 0 (no protocol has one)"),
    "C02": dict(harnesses=[
        H("account_rewards", "crediting deferred rewards, full 64-bit", ["earns", "does not participate"]),
        H("account_stake", "voting stake and key dilution", ["online", "not online"]),
        H("normalized", "normalized balance, full 64-bit", ["online", "not online"]),
        H("normalized_small", "normalized balance: rounding and monotonicity, 6-bit balances"),
    ]),
    "C03": dict(harnesses=[
        H("min_balance", "minimum balance against one saturating formula, up to 2 assets/apps/opt-ins, full 64-bit parameters", ["computed"]),
        H("schema_cost", "minimum balance of a schema, full 64-bit"),
        H("schema", "schema sums, differences, entries", ["no saturation"]),
    ]),
    "C04": dict(harnesses=[
        H("rounds", "full 64-bit"),
        H("rounds_small", "10-bit rounds, 6-bit divisors"),
    ]),
    "C05": dict(harnesses=[
        H("wf_header", "", ["accepted", "rejected"]),
        H("wf_payment", "", ["payment accepted"]),
        H("wf_keyreg", "", ["accepted", "rejected"]),
        H("wf_asset", "", ["accepted", "rejected"]),
        H("wf_app_refs", "", ["accepted", "rejected"]),
        H("wf_app_programs", "", ["created", "updated", "called"]),
        H("wf_cert", "", ["accepted", "rejected"]),
    ]),
    "C06": dict(harnesses=[H("alive", "", ["alive"]),
        H("fee_pool", "", ["credit", "too little"]),
        H("fee_pool_large", ""),
        H("app_lookup", "", ["index of address"]),
        H("touched", "", ["involved", "not involved"]),
        H("signing", "", ["signs for itself", "signs for another"]),
    ]),
    "C07": dict(harnesses=[
        H("upgrade_step", "", ["switched", "proposed", "lost"]),
        H("upgrade_own_vote", "", ["proposes", "approves"]),
        H("version_info", "", ["scheduled"]),
        H("succession", "", ["accepted", "accepted with new protocol"]),
        H("unknown_protocol", ""),
        H("branch_binds", ""),
        H("next_block", ""),
        H("genesis_block", "", ["second block"]),
    ]),
    "C08": dict(harnesses=[
        H("stib_roundtrip", "", ["encoded", "refused"]),
        H("stib_canonical", "", ["decoded"]),
        H("payset_binds", "", ["same"]),
        H("payset_undecodable", ""),
        H("payset_proofs", ""),
        H("grouping", "", ["grouped"]),
        H("grouping_large", "", ["one group"]),
    ]),
    "C09": dict(harnesses=[
        H("array_complete", ""),
        H("array_out_of_range", "", ["in range"]),
        H("array_sound", "", ["verified"]),
        H("array_binding", ""),
        H("array_domains", ""),
    ]),
    "C10": dict(harnesses=[
        H("trie_history", "", ["several elements"]),
        H("trie_history_roots", "", ["several elements"]),
        H("trie_history_wide", "", ["several elements"]),
        H("trie_history_deep", "", ["several elements"]),
        H("trie_storages", ""),
        H("trie_step", "", ["many elements"], cost=9),
        H("trie_binding", "", ["same set"]),
        H("trie_binding_deep", "", ["same deep set"]),
        H("trie_lengths", "", ["other length"]),
        H("node_codec", "", ["inner"]),
        H("node_garbage", "", ["read", "refused"]),
        H("bitset", ""),
    ]),
    "C11": dict(harnesses=[
        H("msig_address", "", ["two addresses"]),
        H("msig_verify", "", ["valid", "valid with a proper subset", "invalid"]),
        H("msig_large", ""),
        H("msig_combine", "", ["merged"]),
        H("msig_three", "", ["added", "refused"]),
        H("msig_flow", "", ["enough", "not enough"]),
        H("batch", "", ["verified"]),
    ]),
    "C12": dict(harnesses=[
        H("ots_history", "", ["signed", "signed after deleting"]),
        H("ots_held", "", ["deleted"]),
        H("ots_sound", "", ["verified"]),
        H("ots_elsewhere", ""),
        H("ots_ids", ""),
    ]),
    "C13": dict(harnesses=[
        H("base11", ""),
        H("base8", ""),
        H("word_checksum", ""),
        H("mnemonic_roundtrip", ""),
        H("mnemonic_damaged", "", ["unchanged", "refused"]),
        H("mnemonic_refused", ""),
        H("address_text", ""),
        H("address_parse", "", ["accepted", "refused"]),
        H("address_length", ""),
        H("address_codec", ""),
    ]),
    "C14": dict(harnesses=[
        H("tx_codec", ""), H("tx_id_binds", "", ["same", "different"]), H("stx_codec", ""), H("stib_codec", ""), H("delta_order", ""),
        H("header_codec", ""), H("account_codec", ""), H("teal_values", ""), H("delta_limits", "", ["valid", "invalid"]),
        H("garbage", "", ["read", "refused"]), H("damaged", "", ["read", "refused"]), H("group_ids", ""),
    ]),
    "C15": dict(harnesses=[
        H("lowest_ticket", ""), H("tie_break", "", ["first", "not first"]), H("ticket_binds", ""),
        H("credential_verify", "", ["accepted", "not selected", "no stake"], model_only=True),
    ]),
    "C20": dict(harnesses=[
        H("vrf_complete", "", model_only=True), H("vrf_exact", "", ["valid", "invalid"], model_only=True),
    ]),
    "C16": dict(harnesses=[
        H("keys_crash", "", ["crashed", "completed", "keys", "no keys"], model_only=True), H("keys_errors", "", ["failed"], model_only=True), H("root_crash", "", model_only=True),
    ]),
    "C17": dict(harnesses=[
        H("keys_rounds", "", ["votes", "deleted"], model_only=True), H("keys_interval", "", model_only=True), H("keys_valid", ""), H("keys_fresh", "", model_only=True),
        H("manager_keys", "", ["duplicate"]), H("manager_deletes", "", ["kept", "deleted"], model_only=True), H("manager_errors", "", ["failed", "stored"], model_only=True),
    ]),
    "C18": dict(harnesses=[
        H("merge", "", ["nothing configured", "removed", "changed"]), H("protocol_table", ""),
    ]),
    "C19": dict(harnesses=[
        H("settings_flags", ""), H("bootstrap", ""), H("key_files", ""), H("key_files_differ", ""), H("other_files", "", ["participation keys", "root key"]),
    ]),
    "C21": dict(harnesses=[
        H("hash_kinds", ""), H("hash_contents", ""), H("hash_prefixes", ""), H("hash_text", "", ["read", "refused"]),
    ]),
}
