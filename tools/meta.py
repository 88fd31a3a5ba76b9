#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=["src/" + f for f in files], mechanism=[dict(name=n, where="src/" + w) for n, w in mech],
                                observe_at=observe, hook_needed="cfg(verif)")), note))


prop("C01", "Rewards are distributed exactly and never overspend the pool",
     "Each round, the reward rate and its residue are handed out in whole microalgos per reward unit and what cannot be divided stays in the residue, so nothing is created or lost; the rate changes only on the scheduled refresh round, to what the pool holds above its floor (the minimum balance and, where enabled, the pending residue) spread over one refresh interval, or to zero if the pool is below the floor. Without reward units, or when a sum would overflow, level and residue stay as they are, and the special addresses never change.",
     ["inputs", "histories"], "Every rewards state, pool balance, number of reward units, round and set of reward parameters (all 64-bit values for one transition; chains of several rounds for small values).",
     "There is no test of the reward transition at all; rounding, overflow and refresh cases are corner points of a nine-dimensional 64-bit space.",
     ["data/bookkeeping/block.rs"], [("RewardsState::next_state", "data/bookkeeping/block.rs")], ["the rewards state of the next round"],
     "Bounded in the number of consecutive rounds only; single transitions are decided for all 64-bit values.")
prop("C02", "Account rewards and voting stake follow from balance, status and level",
     "An account that participates earns, for every whole reward unit it owns, the difference between the current and its recorded reward level, and accounts marked as non-participating earn nothing; crediting the rewards adds exactly that to balance and total earned, records the level and changes nothing else. Online accounts vote with their whole balance including pending rewards and their own key dilution (the protocol default if they have none), all others with nothing; the normalized balance used to rank online accounts is the balance scaled down by the rewards growth, rounded down, and zero when not online.",
     ["inputs"], "Every account (status, balance, reward base, earned rewards, key dilution), reward level and reward unit.",
     "The tests do not touch these functions; errors appear only for particular statuses, levels and magnitudes (overflow, rounding).",
     ["data/basics/user_balance.rs"], [("AccountData::with_updated_rewards, money, pending_rewards, voting_stake, normalized_online_balance, key_dilution", "data/basics/user_balance.rs")], ["the updated account", "the stake used for sortition"],
     "All 64-bit values; the rounding relation of the normalized balance additionally for small balances.")
prop("C03", "The minimum balance grows exactly with what an account stores",
     "The minimum balance is the base amount, plus the base amount for every asset holding, plus the flat fees for every created and opted-in application, plus the per-entry, per-integer and per-byte-slice fees of the total storage schema, plus the flat fee for every extra program page, and saturates at the largest amount instead of wrapping around. Storage schemas add, subtract and count entries with saturation.",
     ["inputs", "configurations"], "Every account with up to two assets, created applications and opt-ins, every schema and every fee parameter.",
     "No test computes a minimum balance; an error in one term shows only for accounts that combine it with the right parameters.",
     ["data/basics/user_balance.rs", "data/basics/teal.rs"], [("AccountData::min_balance", "data/basics/user_balance.rs"), ("StateSchema::min_balance, add_schema, sub_schema", "data/basics/teal.rs")], ["the minimum balance"],
     "All 64-bit parameters; collections up to two elements.")
prop("C04", "Rounds and amounts are computed without wrapping around",
     "Adding rounds or amounts either gives the exact sum or stops, and capped subtraction gives the difference or zero. Rounding a round up to a multiple gives the least multiple that is not below it; the one-time key of a round is its quotient and remainder by the key dilution, so every round has its own; reward units are whole units of the balance.",
     ["inputs"], "All 64-bit rounds, amounts and divisors (10-bit rounds and 6-bit divisors for the least-multiple relation).",
     "Single values are used in passing by other tests; the boundaries are not.",
     ["data/basics/units.rs", "data/basics/user_balance.rs"], [("Round, MicroAlgos, OneTimeSignatureIdentifier", "data/basics")], ["the results"],
     "64-bit where no division by a symbolic number has to be related back.")
prop("C05", "Only well-formed transactions are accepted",
     "A transaction is well-formed exactly when it satisfies every rule of the protocol in force: type enabled; fee at least the minimum unless fees are pooled or it is a compact certificate; validity window ordered and not too long; note, names, decimals, arguments, programs, schemas and references within their limits; group, lease and rekeying only where supported; a sender that is neither zero nor the incentive pool; the fee sink spending only to the incentive pool; no closing to oneself; key registrations coherent; application creation, update and call each with exactly what they need; and compact certificates with an otherwise empty header from the special sender. Checking never crashes.",
     ["inputs", "configurations"], "Every transaction of each type (header fields, addresses, amounts, rounds at full width; notes, names, programs, arguments and lists with symbolic lengths around the limits) under symbolic protocol parameters.",
     "The tests check a handful of transactions under one protocol version; whether each rule is enforced, at its exact boundary and under each parameter, is a statement about all of them.",
     ["data/transactions/transaction.rs", "data/transactions/application.rs", "data/transactions/payment.rs", "data/transactions/keyreg.rs", "data/transactions/asset.rs", "data/transactions/compactcert.rs"],
     [("Transaction::well_formed", "data/transactions/transaction.rs"), ("PaymentFields::check_spender", "data/transactions/payment.rs"), ("AppCallFields::well_formed", "data/transactions/application.rs")], ["acceptance or rejection"],
     "Collections are bounded (a few entries); numeric fields are full width.")
prop("C06", "Validity, fees, involved accounts and authorizers follow the transaction",
     "A transaction is alive in exactly the rounds of its validity window (bounds included) on the network whose genesis identifier and hash it names, and must name the hash where required. The fee credit of a group is what it pays beyond one minimum fee per transaction that owes one, and a group paying less, or whose requirement overflows, is refused; a transaction involves an address exactly if it names it as sender, receiver, close target, asset party, freeze target or application account; application account references count from the sender; and a signed transaction is authorized by its authorizing address if set, else by its sender, with a signature that verifies over exactly that transaction.",
     ["inputs"], "Every transaction of each type with symbolic addresses, rounds, fees and parameters; groups of up to three transactions.",
     "The tests use one payment transaction; the outcome depends on type, on equality between many fields and on boundaries.",
     ["data/transactions/transaction.rs", "data/transactions/signed_tx.rs", "data/transactions/application.rs"],
     [("Header::alive, Transaction::match_address, relevant_addrs, sign", "data/transactions/transaction.rs"), ("fee_credit, SignedTx::authorizer", "data/transactions/signed_tx.rs")], ["the results"],
     "Signatures are the ideal scheme of the stand-in (unforgeable by construction); groups up to three.")
prop("C07", "Blocks follow each other, and upgrades are decided, by the rules",
     "A header is accepted after another exactly when it has the next round, links to the digest of the whole previous header, carries the upgrade state its vote leads to, has a timestamp within the allowed increment, and stays on the same network; headers of unsupported protocols are refused. The protocol changes only to a proposal that reached the approval threshold by its deadline, on the announced round, proposals with illegal delays, competing proposals and late or unfounded approvals are refused, and a lost vote leaves no trace. The first block of a network and every new block a node builds, including its own upgrade vote, obey these rules whatever the clock shows.",
     ["histories", "inputs", "configurations"], "Every pair of headers (rounds, timestamps and approval counts at full width), every reachable upgrade state by induction over one block, and every vote, for representative protocol versions.",
     "No test covers the upgrade machine or header succession; a wrong transition needs votes over tens of thousands of rounds to show up in a run.",
     ["data/bookkeeping/block.rs", "data/bookkeeping/genesis.rs", "config/consensus.rs"],
     [("BlockHeader::pre_check, next_version_info, UpgradeState::apply_upgrade_vote, process_upgrade_params, Block::new", "data/bookkeeping/block.rs"), ("Genesis::create_block", "data/bookkeeping/genesis.rs")], ["acceptance of headers", "the upgrade state"],
     "Inductive over rounds below 2^61; hashes are ideal (collision-free).")
prop("C08", "A block's commitment fixes its transactions, which survive the block unchanged",
     "Putting a signed transaction into a block removes only what the header already says, is refused for transactions of another network, and is undone exactly by taking it out; every accepted form is the unique form of its transaction. The commitment in the header matches only the same transactions with the same effects and signatures in the same order, supports a proof for each of them at its position, and a block with transactions that cannot be decoded matches nothing and crashes nothing. Splitting transactions into groups keeps all of them in order and cuts exactly where the group identifier changes or is absent.",
     ["inputs"], "Every version of the encoding rules, transactions of every type with symbolic fields, blocks of up to three transactions, groupings of up to four.",
     "There are no tests of block encoding, commitment or grouping.",
     ["data/bookkeeping/block.rs", "data/bookkeeping/tx_merkle.rs", "data/transactions/payset.rs", "data/transactions/signed_tx.rs", "crypto/merklearray/merkle.rs"],
     [("BlockHeader::encode_signed_tx, decode_signed_tx, Block::payset_commit, contents_match_header, decode_payset_groups, signed_txs_to_group", "data/bookkeeping/block.rs")], ["the commitment", "the decoded transactions"],
     "Hashes are ideal; up to three transactions per block (thorough: four).")
prop("C09", "Merkle array proofs show exactly what is in the array and where",
     "For every array and every set of its positions, in any order and with repetitions, a proof can be produced and verifies against the root; positions outside of the array cannot be proven. No proof, honest or made up, of any length verifies for an element that is not at the claimed position, different arrays have different roots, and inner nodes cannot pass as elements.",
     ["inputs"], "Arrays of up to six elements with symbolic contents, every subset of positions, one or two symbolic claims against an arbitrary symbolic proof of up to three hashes.",
     "Tests verify honest proofs and two kinds of wrong leaves; soundness is a statement about all proofs an attacker could send.",
     ["crypto/merklearray/merkle.rs", "crypto/merklearray/partial.rs", "crypto/merklearray/layer.rs"],
     [("Tree::from_array, prove, verify", "crypto/merklearray/merkle.rs"), ("PartialLayer::up", "crypto/merklearray/partial.rs")], ["verification results", "roots"],
     "Hashes are ideal; sizes as stated.")
prop("C10", "The Merkle trie is a set whose root depends on its elements only",
     "Adding and deleting report truthfully whether the element was absent or present, elements of another length are refused without effect, and after any history the root equals that of a trie built from the same elements in any order, so equal roots mean equal sets and the empty set alone has the zero root. Asking for the root at any time changes nothing, removed nodes are freed, deleting everything frees all storage. Stored nodes are read back as written and damaged ones are refused.",
     ["histories", "inputs"], "Histories of up to four additions, deletions and root computations over elements placed anywhere in tries of depth two and three, with symbolic contents; all nodes with symbolic children and hashes; all byte strings of up to five bytes as stored nodes.",
     "Random histories with hashed keys practically never share prefixes beyond two bytes, so deep splitting and collapsing, and all interleavings with root computation, are not reached.",
     ["crypto/merkletrie/trie.rs", "crypto/merkletrie/node.rs", "crypto/merkletrie/cache.rs", "crypto/merkletrie/bitset.rs", "crypto/merkletrie/storage.rs"],
     [("Trie::add, delete, root_hash", "crypto/merkletrie/trie.rs"), ("Node::add, remove, calculate_hash, serialize, deserialize", "crypto/merkletrie/node.rs")], ["return values", "root hashes", "stored nodes"],
     "Hashes are ideal; the alphabet of distinguishing bytes is two or three values per position.")

prop("C11", "A multisignature is valid exactly with enough distinct valid signatures",
     "The address of a multisignature account is the hash of version, threshold and keys in order, so different preimages give different addresses, and impossible preimages (unknown version, zero threshold, no keys, threshold above the number of keys) have none. A multisignature verifies exactly if it belongs to the address, its version, size and threshold are legal, and at least the threshold of its slots carry signatures, every one of which verifies for its key and the message; individual and batch verification agree. Signatures collected separately can be assembled, or added and merged in any order, exactly if they are for the same version, threshold and keys, with every one in its place; adding and merging never lose or overwrite a different signature.",
     ["inputs"], "Every version and threshold byte, one to four keys with repetitions, every subset of signatures each valid or damaged (a signature over another message, or under another key); up to 256 keys for the size limit.",
     "The tests use one two-of-three account; acceptance depends on the combination of threshold, repeated keys, missing and damaged signatures.",
     ["crypto/multisig.rs", "crypto/batch_verifier.rs"], [("verify_multisig, batch_verify, assemble, merge, add_sigs", "crypto/multisig.rs"), ("BatchVerifier", "crypto/batch_verifier.rs")], ["acceptance", "the combined signature"],
     "Signatures are the ideal scheme of the stand-in; hashes are ideal.")
prop("C12", "One-time signatures bind their round and deleted keys never sign again",
     "A participation key signs every round of its range and no other; what it signs verifies for exactly that round, message and master key and for nothing else, whatever offsets, batches or certificates an attacker recombines. After deleting the keys before a round, no earlier round can be signed and none of the deleted secrets is still held, while every later round still signs, through any sequence of deletions and signatures.",
     ["histories", "inputs"], "Every identifier, up to two batches (three in the thorough tier) from several starts, dilutions one and four, every history of two deletions and a signature at symbolic rounds; forged signatures put together from any parts of real ones.",
     "The tests follow one schedule of deletions; batch boundaries, skipped batches and repeated deletions combine in many more ways.",
     ["crypto/ots.rs"], [("OTSSecrets::sign, delete_before_fine_grained; OTSVerifier::verify", "crypto/ots.rs")], ["signatures", "the secrets held"],
     "Signatures are the ideal scheme of the stand-in; key ranges are small.")
prop("C13", "Mnemonics and addresses round-trip and damage is detected",
     "The mnemonic of a key is 25 words of the list and gives back exactly the key; a text of another number of words, with an unknown word, a nonzero padding bit or a wrong checksum is refused, so no two mnemonics give the same key. An address is written as 58 characters that read back as the same address; every text that is accepted is the text its address is written as, wrong lengths, characters and checksums are refused, and no text or encoding of an address crashes the reader.",
     ["inputs"], "Every 32-byte key and every sequence of 24 eleven-bit numbers for the conversions; all words at every position one at a time; addresses with symbolic bytes anywhere and texts with symbolic characters.",
     "The tests sample random keys; padding bits, checksum collisions and malformed lengths are not among the samples.",
     ["crypto/mnemonic.rs", "data/basics/address.rs"], [("to_base11, to_base8, key_to_mnemonic, mnemonic_to_key", "crypto/mnemonic.rs"), ("Address::from_str, Display, Deserialize", "data/basics/address.rs")], ["the texts", "the keys and addresses read"],
     "Hashes are ideal; whole texts are symbolic in a few characters at a time.")

prop("C14", "Encodings round-trip, are canonical and identify what they encode",
     "A transaction, signed transaction, signed transaction in a block, block header and account record that is encoded and decoded comes back field for field; equal contents always have the same encoding, whatever order maps were filled in; a transaction's identifier is the same only for equal transactions, and the identifier of a list or group of transactions is the same only for the same list in the same order. A value put in a state delta is the value read from it, a deletion has none, and a delta is valid exactly within the limits on key, value and summed lengths. Reading arbitrary or damaged bytes refuses them or gives a value that itself encodes and decodes consistently; it never crashes.",
     ["inputs"], "One field at a time of every transaction type, header and account record symbolic over its encodings' size classes; all inputs up to 3 bytes (thorough 5) of twelve types; a payment (thorough: all types, signed or not) with any one byte replaced by any value.",
     "The tests have no round trip of a transaction, header, delta or account, and nothing reads malformed bytes; identifiers are never compared.",
     ["protocol/codec.rs", "data/transactions/mod.rs", "data/bookkeeping/mod.rs", "data/basics/mod.rs", "data/basics/teal.rs"], [("to_vec_named, encode, decode", "protocol"), ("Transaction::id, TxGroup, SignedTxVec", "data/transactions, data/signed_tx_group.rs"), ("EvalDelta, StateDelta, TealValue, ValueDelta, TealKeyValue", "data/basics"), ("Serialize/Deserialize implementations of the encoded types", "data, crypto")], ["the bytes", "the values read back", "identifiers"],
     "Hashes are ideal.")

prop("C15", "Credentials need a valid proof and stake and rank by their lowest ticket",
     "A sortition credential is accepted exactly if its proof verifies under the member's selection key for the selector and sortition gives the member's voting stake a positive weight; the weight is asked for with the member's stake, the total stake, the committee size and the hash of output and member. Proofs by other keys or for other selectors are refused before the stake matters. A credential of weight w stands for w tickets, each the hash of its own bytes (output, member and ticket number determine them and are determined by them), none of which is the hash the weight was decided with; its lowest ticket is the smallest of them as a number, asking for it again gives the same, and of two credentials the one with the lower lowest ticket comes first, never both, and they are equal exactly if their outputs are.",
     ["inputs"], "Weights up to three (thorough: four) with symbolic hashes compared as 256-bit numbers, with and without domain separation; all stakes, totals, statuses; every selector byte.",
     "The tests check a handful of fixed credentials; ties and leading zeros of hashes, the last ticket and weights near the ends decide the lowest ticket and never occur among them.",
     ["data/committee/credential.rs", "data/committee/sortition.rs", "crypto/vrf.rs"], [("UnauthenticatedCredential::verify, Credential::lowest_output, cmp", "data/committee/credential.rs")], ["acceptance", "weights", "the lowest output", "the order"],
     "The number sortition draws from the binomial distribution is an arbitrary number here (see not_applicable); hashes are ideal; proofs are over the stand-in group.")
prop("C16", "Account keys survive crashes and storage errors whole",
     "Restoring participation keys gives exactly the keys that were stored last, with every later stored change of parent and every stored deletion, or says that there are none. After a crash at any point of storing keys, a new parent or a deletion, and whichever unflushed writes the disk kept, the keys are those of before or those of after, never a mixture, what was reported as completed is never lost, and a storage error is reported exactly if there is one and leaves no mixture either. The root key restored is the one imported last, with its own public key and address, or there is none.",
     ["crash_points", "fault_sequences", "histories"], "Histories of up to three (thorough: four) stores, replacements, changes of parent and deletions; a crash after each number of storage operations with each prefix of the unflushed writes kept; an error at each storage operation.",
     "The tests have no crash and no failing store.",
     ["data/account.rs", "crypto/ots.rs"], [("Participation::persist, persist_new_parent, delete_old_keys, restore", "data/account.rs"), ("Root::import, restore", "data/account.rs")], ["the keys restored", "errors"],
     "sled is a stand-in: a map whose unflushed writes survive a crash up to an arbitrary point, batches being atomic; symbolic rounds, dilutions and parents.")
prop("C17", "Participation keys vote in their rounds and are kept as long as needed",
     "Keys made for an interval of rounds can vote in every round of it and are stored; an interval that ends before it begins is refused and stores nothing. Keys made anew are never those made before. After deleting keys before a round, in memory and in the store, exactly the rounds from this one on can be voted in, and nothing crashes even when all rounds are over; keys overlap an interval exactly if a round of it is theirs, and their registration is a key registration of their own account with exactly their keys and rounds. The account manager keeps every key once, finds exactly those valid for a round, says exactly then that there are live keys when some are valid for a round of the interval, and deletes of each account exactly the keys of rounds that neither agreement nor compact certificates need any more, losing no account.",
     ["inputs", "histories"], "Intervals of up to six (thorough: nine) rounds at several places, dilutions 1..3, every deletion and voting round; two (thorough: three) managed keys differing in any one thing, symbolic rounds; rounds, certificate rounds and signed rounds around each other.",
     "The tests of keys use one interval and no deletion beyond it; the manager has none.",
     ["data/account.rs"], [("Participation::fill_db_with_participation_keys, delete_old_keys, overlaps_interval, generate_registration_transaction", "data/account.rs"), ("AccountManager::add_participation, keys, has_live_keys, delete_old_keys", "data/account_manager.rs")], ["signatures", "the keys held", "the registration"],
     "Signatures are the ideal scheme of the stand-in; key intervals are short.")
prop("C20", "Proofs of the random function verify exactly as defined",
     "Every message can be proven with a key, always by the same proof, which verifies under its public key and gives the output that the definition (ECVRF-ED25519-SHA512-Elligator2) gives. For every public key, proof and message, verification accepts exactly if the definition does, gives the hash of the proof's point without its torsion as output, so that nothing but key and message determines it, and malformed keys, points and scalars are refused without a crash.",
     ["inputs"], "Symbolic keys, points, challenges, scalars and messages over a group of order 256 with cofactor 8.",
     "The tests check round trips of fixed keys; rejection of wrong challenges, non-canonical scalars, points outside of the curve and torsion components is a statement about what an attacker could send.",
     ["crypto/vrf.rs"], [("VrfKeypair::prove_bytes, VrfPublicKey::verify_bytes", "crypto/vrf.rs")], ["acceptance", "outputs"],
     "The curve is a stand-in group (a small cyclic group with torsion); the elliptic-curve arithmetic itself and the hash to the curve are in the dependency and outside.")

prop("C18", "Configured protocols change exactly what they name and the built-in table fits",
     "Merging configured protocol versions into a table adds or replaces each configured version as given, removes each version configured without approved upgrades together with every approved upgrade to it, changes nothing else, leaves the table merged into as it was, and gives the same result in whatever order the configured versions are taken. In the built-in table every version has parameters, every approved upgrade leads to another version of the table after a delay that may be voted for and under a name that fits into a header, no feature or limit is lost on upgrading, committee and upgrade thresholds are majorities, nothing can be divided by zero, and no two versions have the same name.",
     ["configurations"], "Tables of up to three versions (thorough: four) with symbolic parameters and upgrades, every combination of absent, empty and changed configured versions; every version of the built-in table with each of its upgrades.",
     "Nothing tests merging; its result depended on the iteration order of a hash map. The table is 25 hand-written deltas of ninety parameters.",
     ["config/consensus.rs", "protocol/consensus.rs"], [("ConsensusProtocols::merge, init_consensus_protocols", "config/consensus.rs")], ["the merged table", "the built-in table"],
     "Merging is decided for small tables, with the parameters symbolic; the built-in table is finite and checked as it is.")
prop("C19", "Settings are followed and key files are named after their keys",
     "Each name-resolution flag enforces exactly its check, and each catchup flag skips or adds exactly its check. The relays of a network are looked up under the configured names with every placeholder replaced by the network's name, entries separated by semicolons and empty ones left out, and the default is replaced for the development networks only. A key file's name is recognized as the kind of key it was made for and as no other, gives back its account, and is matched to this account only; keys of different accounts or rounds have different files, and no other names are taken for key files (rounds out of order, numbers not written canonically, other endings).",
     ["inputs", "configurations"], "All values of both flag words; network names and identifiers with symbolic characters between and inside placeholders and separators; accounts and rounds with symbolic characters and numbers, names with any character at each structural position.",
     "The tests use a few names; accounts that look like key files, rounds out of order, signs and leading zeros are not among them.",
     ["config/mod.rs", "config/keyfile.rs"], [("Local::dnssec_*, catchup_*, dns_bootstrap, dns_bootsrap_array", "config/mod.rs"), ("root_key_filename, part_key_filename, is_*, matches_*, account_name_*", "config/keyfile.rs")], ["the results"],
     "Strings are symbolic in up to three characters at a time, rounds below 120 (thorough: 256) and at the ends.")
prop("C21", "Different things are never hashed or signed from the same bytes",
     "What is hashed or signed begins with the identifier of its kind, no identifier of a kind is the beginning of another's, and so objects of different kinds never have the same hash and a signature for one is never one for another; messages, seeds and application indices have the same hash exactly if they are equal, and every application has its own address. A hash is written as 52 characters that read back as the same hash, and nothing else is read as a hash.",
     ["inputs"], "Every pair of ten kinds of objects with symbolic contents, and every pair of the 32 identifiers followed by any bytes; hashes with any symbolic byte and texts with symbolic characters and lengths around the right one.",
     "No test compares the identifiers or hashes across kinds.",
     ["protocol/hash.rs", "crypto/hashable.rs", "crypto/mod.rs", "data/basics/units.rs"], [("the identifiers", "protocol/hash.rs"), ("Hashable::hash_rep", "crypto/hashable.rs")], ["the bytes hashed", "the texts"],
     "Hashes are ideal (no two different byte strings have the same hash).")

NA = [
    (dict(id="N01", title="Sortition draws weights from the binomial distribution",
          statement="The number of times a member is selected for a committee follows the binomial distribution with the member's stake as trials and the ratio of committee size to total stake as probability, read off at the position of the hash in the unit interval, so it is at most the stake, grows with the hash and averages to the committee size over all members.",
          quantifier=dict(over=["inputs"], text="All stakes, totals, committee sizes and hashes."),
          why_tests_cant="One statistical test with fixed parameters exists; the distribution's tails and large stakes are not sampled.",
          anchors=dict(files=["src/data/committee/sortition.rs"], mechanism=[dict(name="sortition::select", where="src/data/committee/sortition.rs")], observe_at=["the weight"], hook_needed="none")),
     "select evaluates the cumulative distribution in floating point (statrs: regularized incomplete beta function by continued fractions with logarithms and exponentials, in a loop over up to the stake) and converts a 256-bit fraction to a float; SMT floating-point theories have no transcendental functions, and abstracting them leaves nothing of the property. Everything around it (C15) is decided for an arbitrary result."),
    (dict(id="N02", title="Configuration files are saved and loaded faithfully",
          statement="Settings, the phonebook and configurable consensus protocols written to the data directory are what is read from it later; settings not in the file keep their defaults, a missing file is reported as such and leaves the defaults, and a file being replaced is never seen half-written.",
          quantifier=dict(over=["crash_points", "inputs"], text="All settings, directories, and crashes while writing."),
          why_tests_cant="The tests for this are commented out.",
          anchors=dict(files=["src/config/mod.rs", "src/config/consensus.rs"], mechanism=[dict(name="Local::load_from_disk, save_to_file, load_phonebook, save_configurable_consensus", where="src/config")], observe_at=["the files"], hook_needed="none")),
     "The code is unfinished: saving settings does nothing, loading the phonebook always returns nothing, migration is not compiled in; what is there is file-system calls, which cannot be executed symbolically, and serde_json on 90 settings."),
    (dict(id="N03", title="The algokey tool signs, imports and exports keys faithfully",
          statement="The command-line tool writes keys only to the files named, never over existing ones, exports what it imported, and signs exactly the transactions of its input file.",
          quantifier=dict(over=["inputs", "crash_points"], text="All command lines and files."),
          why_tests_cant="There are no tests of the tool.",
          anchors=dict(files=["src/bin/algokey/main.rs"], mechanism=[dict(name="main", where="src/bin/algokey")], observe_at=["files", "standard output"], hook_needed="none")),
     "A binary made of argument parsing, terminal and file input and output around functions decided elsewhere (C13 mnemonics, C11 multisignatures, C06 signing); its own effects are operating-system calls outside symbolic execution."),
]
exec(open(V + "/tools/more.py").read()) if os.path.exists(V + "/tools/more.py") else None

with open(V + "/properties.jsonl", "w") as f:
    for p, _ in P:
        f.write(json.dumps(p) + "\n")
    for p, _ in NA:
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="verif", enable="RUSTFLAGS='--cfg verif' (set by check.py for every build)", source_commits=["3f335f2e10cde26dff9250c74992dc7a0cab466f", "619e17c5aabdefe581b5b9d72d535a9e7beb52f5"]),
         checks=[dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                      technique="symbolic execution of the compiler's LLVM IR of the real code with SMT solving (z3, cvc5)",
                      level="model_checking", level_note=note) for p, note in P],
         not_applicable=[dict(property=p["id"], reason=r) for p, r in NA])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import importlib.util
try:
    import jsonschema
    s = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(m, s)
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p, _ in P + NA: jsonschema.validate(p, s)
    print("valid", len(P), len(NA))
except ImportError:
    print("no jsonschema; use python3-vt")
