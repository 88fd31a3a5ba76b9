pub mod nd;
#[macro_use]
mod macros;

harnesses! {
    money: [rewards_next, rewards_conserved, account_rewards, account_stake, normalized, normalized_small, min_balance, schema, schema_cost, rounds, rounds_small],
    txs: [wf_header, wf_payment, wf_keyreg, wf_asset, wf_app_refs, wf_app_programs, wf_cert, alive, fee_pool, fee_pool_large, app_lookup, touched, signing],
    blocks: [upgrade_step, upgrade_own_vote, version_info, succession, unknown_protocol, branch_binds, next_block, genesis_block, stib_roundtrip, stib_canonical, payset_binds, payset_undecodable, payset_proofs, grouping, grouping_large],
    crypt: [msig_address, msig_verify, msig_large, msig_combine, msig_three, msig_flow, batch, ots_history, ots_held, ots_sound, ots_elsewhere, ots_ids],
    text: [base11, base8, word_checksum, mnemonic_roundtrip, mnemonic_damaged, mnemonic_refused, address_text, address_parse, address_length, address_codec],
    committee: [lowest_ticket, tie_break, ticket_binds, credential_verify, vrf_complete, vrf_exact],
    accounts: [keys_crash, keys_errors, root_crash, keys_rounds, keys_interval, keys_valid, manager_keys, manager_deletes, manager_errors, keys_fresh],
    conf: [merge, protocol_table, settings_flags, bootstrap, key_files, key_files_differ, other_files, hash_kinds, hash_contents, hash_prefixes, hash_text],
    codec: [tx_codec, tx_id_binds, stx_codec, stib_codec, delta_order, header_codec, account_codec, teal_values, delta_limits, garbage, damaged, group_ids],
    trees: [array_complete, array_out_of_range, array_sound, array_binding, array_domains, trie_history, trie_history_roots, trie_history_wide, trie_history_deep, trie_storages, trie_step, trie_binding, trie_binding_deep, trie_lengths, node_codec, node_garbage, bitset],
}
