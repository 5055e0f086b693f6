import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Coin amounts: arithmetic is exact or refused",
"Every arithmetic and summation operation on coin amounts and on signed amounts returns exactly the mathematical result when that result fits the type, and reports failure (never a wrapped, truncated or saturated value) when it does not, including division and remainder by zero; bitwise operations and shifts are those of the 128-bit word, and shifts by 128 or more are refused. Converting between signed and unsigned amounts succeeds exactly when the value is representable and keeps the value; absolute difference and ordering agree with the integers. The binary encodings of amounts round-trip and differ for different values.",
["inputs"],"all pairs of amounts (0..2^128-1), signed amounts (-2^127..2^127-1), scalar operands and finite sequences of summands",
"The unit tests sample a handful of pairs; the quantifier ranges over all 128-bit values, where the interesting cases are overflow boundaries of every operation.",
["common/src/primitives/amount/mod.rs","common/src/primitives/amount/signed.rs"],
[("checked arithmetic","common/src/primitives/amount/mod.rs"),("signed conversions","common/src/primitives/amount/signed.rs")])

p("C02","Decimal amounts: text and atoms convert exactly, parsing never crashes",
"For every amount and every number of decimals, writing the amount as a decimal and reading it back gives the same amount, in fixed and in minimal form, and through the JSON representations used by the RPC interface. Reading decimal text succeeds exactly for digit strings with at most one point (up to 257 characters and 255 fractional digits, outer spaces and underscores ignored) whose digits form a number below 2^128, and converting a decimal to atoms succeeds exactly when its value is a whole number of atoms within range: it never rounds, extra zero digits are accepted, non-zero excess digits are refused. Adding or removing padding zeros never changes the value, subtraction is exact, signed text carries its leading minus sign, and arbitrary text is accepted or refused without a crash.",
["inputs"],"all 128-bit mantissas, all decimal counts 0..255, all input strings and JSON values",
"Tests use a few literals; precision loss, padding comparison and crash-freedom quantify over every mantissa/decimals pair and every string.",
["common/src/primitives/amount/decimal.rs","common/src/primitives/amount/rpc.rs","common/src/primitives/amount/mod.rs"],
[("decimal parser and printer","common/src/primitives/amount/decimal.rs"),("RPC amount (atoms and decimal)","common/src/primitives/amount/rpc.rs")])

p("C03","Wide integers: 128/256/512-bit arithmetic equals the integers",
"Addition, subtraction, multiplication (also widening), division and remainder on the fixed-width wide integers give exactly the mathematical result or report failure exactly when it does not fit, and shifts and bitwise operations are those of the fixed-width word. Comparison, bit length, trailing zeros, single-bit access, bit slices and masks agree with the binary representation. Conversions between widths, native integers, big- and little-endian bytes and hexadecimal output keep the value and refuse values or inputs that do not fit.",
["inputs"],"all pairs of wide integers, shift distances and byte strings",
"Unit tests check few constants; carries between 64-bit words and division corner cases occupy a tiny part of a 2^512 input space.",
["common/src/uint/internal_macros.rs","common/src/uint/mod.rs","common/src/uint/impls.rs","common/src/uint/endian.rs"],
[("wide integer implementation","common/src/uint/internal_macros.rs"),("checked operations and conversions","common/src/uint/impls.rs")])

p("C04","Compact difficulty encoding agrees with its reference definition",
"Expanding a 32-bit compact target yields exactly mantissa x 256^(exponent-3) and refuses negative and overflowing encodings; compressing a 256-bit target keeps its leading bytes, rounding down only by the dropped lower bytes, and never produces a negative encoding. Expanding a compressed target and compressing it again is stable, and a canonical compact value survives expand-then-compress unchanged. Compression preserves order.",
["inputs"],"all 2^32 compact values and all 256-bit targets",
"The tests list known vectors; consensus depends on the full mapping, including sign bit and exponent edge cases.",
["common/src/primitives/compact.rs"],[("compact conversion","common/src/primitives/compact.rs")])

p("C05","Ratios and fractions: exact parsing, printing and ordering",
"A per-thousand ratio can only be constructed between 0 and 1000, prints as a percentage that parses back to the same ratio, and parsing accepts exactly the decimal numbers with at most one fractional percent digit that are in range (with or without one percent sign). Fractions with positive denominators order exactly as the rational numbers they denote, without overflow, for all numerators and denominators up to 256 bits. JSON and binary forms round-trip and out-of-range values are refused.",
["inputs"],"all ratios, all fraction pairs, arbitrary strings and byte strings",
"Tests compare few literals; ordering by cross multiplication and string parsing have boundary behaviour over the full range.",
["common/src/primitives/per_thousand.rs","common/src/primitives/rational.rs"],
[("ratio parsing","common/src/primitives/per_thousand.rs"),("fraction ordering","common/src/primitives/rational.rs")])

p("C06","Bech32m text encoding round-trips and detects corruption",
"Encoding any byte payload under a valid prefix and decoding it gives back the same prefix and bytes, and equals an independent bech32m implementation. Decoding accepts exactly well-formed bech32m strings: replacing up to four data characters of a text of at most 90 characters, swapping neighbours, mixing case, using the older bech32 checksum or leaving excess or non-zero padding is refused, and no input crashes. Text that decodes re-encodes to the same (lower-case) text.",
["inputs"],"all prefixes and payloads, all corruptions of up to four characters, arbitrary strings",
"Corruption detection and canonical form quantify over all strings; tests sample few vectors.",
["common/src/primitives/bech32_encoding/mod.rs"],[("bech32m wrapper","common/src/primitives/bech32_encoding/mod.rs")])

p("C07","Accounting deltas: merging equals applying in sequence, undo restores",
"For every history of balance changes and record changes, merging the recorded changes and then applying them gives the same state as applying them one after another, and equals a plain map model; whatever the merge order grouping. Applying the undo information produced by a merge gives changes with exactly the effect they had before it. A change that is inconsistent (wrong previous value, overflow, negative balance) is refused with an error and leaves the record or balance it was for as it was.",
["histories"],"all sequences of merges, undos and applications of balance and record deltas over small key sets",
"The unit tests enumerate single transitions between modification states; the property ranges over arbitrarily long histories and groupings.",
["accounting/src/delta/delta_data_collection/mod.rs","accounting/src/delta/delta_amount_collection.rs","accounting/src/delta/combine.rs","accounting/src/delta/delta_data_collection/undo.rs"],
[("record delta algebra","accounting/src/delta/delta_data_collection/mod.rs"),("balance delta algebra","accounting/src/delta/delta_amount_collection.rs"),("applying a delta","accounting/src/delta/combine.rs")])

p("C08","Signatures verify for the signer and message only; keys round-trip",
"A signature made with a private key verifies with the matching public key and message, and does not verify with any other key (up to the sign of its curve point), any other message or any altered signature; signing is possible with deterministic or random auxiliary data and always yields a valid standard Schnorr signature. Private keys, public keys and signatures round-trip through their binary encodings, and byte strings that are not a valid encoding are refused without a crash. Public keys derive consistently from private keys and identical secrets give identical keys.",
["inputs"],"all keys, messages and single- or multi-byte corruptions of keys, messages and signatures",
"Tests use one random key and message; unforgeability-by-corruption and encoding strictness quantify over all of them.",
["crypto/src/key/mod.rs","crypto/src/key/secp256k1/mod.rs","crypto/src/key/signature/mod.rs"],
[("key and signature wrappers","crypto/src/key/mod.rs"),("Schnorr over secp256k1","crypto/src/key/secp256k1/mod.rs")])

p("C09","HD keys: derivation is deterministic, BIP32-conformant and commutes",
"Deriving a child key from a seed along any path equals the BIP32 definition, gives the same result step by step or along the whole path, and for non-hardened steps deriving publicly equals deriving privately and then taking the public key; hardened derivation from a public key is refused. Different paths give different keys, and chain codes, child numbers and keys round-trip through their encodings. Derivation paths and child numbers parse and print as inverses, and out-of-range or malformed paths are refused.",
["inputs"],"all seeds, derivation paths (hardened and normal) and path strings",
"Tests check published vectors; commutation and parsing quantify over all seeds and paths.",
["crypto/src/key/extended.rs","crypto/src/key/secp256k1/extended_keys.rs","crypto/src/key/hdkd/derivation_path.rs","crypto/src/key/hdkd/child_number.rs","crypto/src/key/hdkd/u31.rs"],
[("extended keys","crypto/src/key/secp256k1/extended_keys.rs"),("derivation paths","crypto/src/key/hdkd/derivation_path.rs")])

p("C10","VRF: outputs are unique, verifiable and bound to key and input",
"For a key and a transcript the verifiable random output is deterministic; its proof verifies with the matching public key and transcript and yields the same output for prover and verifier, and proofs may differ only in their randomness. Verification fails for another key, another transcript (any label, order, value or boundary change), or an altered output or proof. Keys and proof data round-trip through their encodings and invalid encodings are refused without a crash.",
["inputs"],"all keys, transcripts and corruptions",
"Tests use a few fixed transcripts; uniqueness and binding quantify over keys, transcripts and corruptions.",
["crypto/src/vrf/mod.rs","crypto/src/vrf/schnorrkel/mod.rs","crypto/src/vrf/schnorrkel/data.rs","crypto/src/vrf/transcript/no_rng.rs","crypto/src/vrf/transcript/with_rng.rs"],
[("VRF wrappers","crypto/src/vrf/schnorrkel/mod.rs"),("transcripts","crypto/src/vrf/transcript/no_rng.rs")])

p("C11","Encryption: decrypts only what was encrypted, with the right key and context",
"Symmetric and end-to-end encryption return exactly the plaintext when decrypted with the right key and associated data, and refuse any altered, truncated or extended ciphertext, any other key and any other associated data; encrypting twice never yields the same ciphertext. The two ends of a key exchange agree on the shared secret and no third party's key gives it. A key derived from a password is reproduced only by the same password and stored parameters, and all keys and parameters round-trip through their encodings.",
["inputs"],"all keys, plaintexts, associated data and corruptions of ciphertexts",
"Tests corrupt a byte or two of one message; the property covers every position, length and key.",
["crypto/src/symkey/mod.rs","crypto/src/symkey/chacha20poly1305/mod.rs","crypto/src/ephemeral_e2e/mod.rs","crypto/src/kdf/mod.rs","crypto/src/kdf/argon2.rs"],
[("AEAD wrapper","crypto/src/symkey/chacha20poly1305/mod.rs"),("key exchange","crypto/src/ephemeral_e2e/mod.rs"),("password hashing","crypto/src/kdf/argon2.rs")])

p("C12","Hashing: streaming equals one-shot and the standard algorithms",
"For every message, each offered hash function returns the digest of its standard algorithm, and feeding the message in any number of pieces gives the same digest as hashing it at once. Resetting a stream makes it equal to a fresh one and finalising does not depend on earlier use. Hash values convert between bytes, hexadecimal text (in both byte orders) and JSON without change, order consistently with their bytes, and malformed text is refused; constant-time comparison equals plain comparison.",
["inputs"],"all messages and all ways of splitting them, all digests and strings",
"Tests hash few strings; the property covers all splits, block-boundary lengths and digests.",
["crypto/src/hash/mod.rs","crypto/src/hash/internal.rs","crypto/src/util/eq.rs","utils/src/fixed_hash.rs"],
[("hash streams","crypto/src/hash/mod.rs"),("constant-time equality","crypto/src/util/eq.rs"),("fixed-size hashes","utils/src/fixed_hash.rs")])

p("C13","Script: construction, parsing and execution follow the stack semantics",
"A script assembled from opcodes, integers and data parses back into the same instructions, with minimal encodings recognised as such, script integers round-trip, and any byte string parses or is refused without a crash. Executing a script from the supported opcodes gives the same success, failure and final stack as a straightforward model: conditional branches, stack manipulation, equality, hashing, time locks and signature and multi-signature checks (threshold and key order included). Size, push, operation and stack limits are enforced at their exact thresholds.",
["programs","inputs"],"all byte strings as scripts and all instruction sequences up to the size limits",
"Tests run fixed vectors; nested conditionals, limits and encodings combine in ways only generated programs reach.",
["script/src/script.rs","script/src/interpreter.rs","script/src/opcodes.rs","script/src/context.rs","script/src/util.rs"],
[("builder and parser","script/src/script.rs"),("interpreter","script/src/interpreter.rs"),("opcode classification","script/src/opcodes.rs")])

p("C14","Bloom filters never forget: no false negatives within the guarantee",
"An item that was inserted is always reported as present by the plain filter until it is cleared, and by the rolling filter at least until the configured number of newer items has been inserted. Older items are eventually forgotten, and false positives stay near the configured rate and differ between filters and generations. Clearing empties the filter, and an empty filter reports nothing.",
["histories","inputs"],"all insert/query/clear histories and filter sizes",
"Tests use one size and sequential numbers; the guarantee holds across generation roll-over for every history.",
["utils/src/bloom_filters/bloom_filter.rs","utils/src/bloom_filters/rolling_bloom_filter/mod.rs","utils/src/bloom_filters/rolling_bloom_filter/cyclic_array.rs"],
[("rolling filter","utils/src/bloom_filters/rolling_bloom_filter/mod.rs")])

p("C15","Key-value store: transactions are atomic, isolated, ordered, durable",
"Every store backend behaves as a set of ordered maps: reads inside a transaction see its own writes, a committed transaction is visible to all later ones, and an aborted or dropped one leaves no trace. Iteration by prefix or from a key yields exactly the matching entries in ascending key order in every map, and maps never leak into each other. Committed data of the on-disk backend survives closing and reopening, and a read transaction never sees a half-applied write transaction, whatever the thread interleaving.",
["histories","schedules"],"all histories of begin/put/get/delete/iterate/commit/abort/reopen over several maps, and concurrent readers and writers",
"Tests replay a few scripted transactions; isolation, ordering and durability are claims over all histories.",
["storage/core/src/adaptor/locking.rs","storage/core/src/util.rs","storage/core/src/types.rs","storage/inmemory/src/lib.rs","storage/sqlite/src/lib.rs","storage/sqlite/src/queries.rs"],
[("locking adaptor with transaction deltas","storage/core/src/adaptor/locking.rs"),("prefix iteration","storage/core/src/util.rs"),("sqlite backend","storage/sqlite/src/lib.rs")])

p("C16","Subsystems: calls run once, in order, are always answered; orderly shutdown",
"Every call accepted by a subsystem before its shutdown begins is executed exactly once, and its caller receives the result of its own call. Mutable calls run one at a time in the order of their submission and never overlap any other call; a shared call sees the effects of all mutable calls submitted before it. Background work is done one unit at a time, only while no call is running, after the calls that are waiting, and until none is left. Calls to a subsystem that has stopped, and calls still in its queue when it stops, give their callers an error; no caller ever waits forever. Shutdown, whether by a trigger, a signal, a failed start or the end of a subsystem, sets the shutdown flag, stops the subsystems one after the other in reverse order of their registration, lets each finish its running calls and run its shutdown action exactly once while the lower ones still serve calls, waits no longer than the configured limit for each, and then ends the manager.",
["histories","schedules"],"all call sequences from several concurrent callers, several subsystems, kinds of calls, failures and shutdown points",
"Tests use fixed two-call scenarios; ordering and shutdown must hold for all interleavings of callers and subsystems.",
["subsystem/src/manager/manager_impl.rs","subsystem/src/calls/mod.rs","subsystem/src/calls/handle.rs","subsystem/src/calls/blocking.rs","subsystem/src/task.rs","subsystem/src/manager/shutdown_signal.rs"],
[("subsystem task","subsystem/src/task.rs"),("manager","subsystem/src/manager/manager_impl.rs"),("handles","subsystem/src/calls/handle.rs")])

p("C17","Event delivery: every live subscriber gets every event once, in order",
"Every subscriber registered before an event is broadcast receives it exactly once and in broadcast order, both for callback handlers and for channel subscribers; later subscribers do not see earlier events. A subscriber that is gone is dropped without affecting the others. Delivery to a callback list happens asynchronously but never reorders or loses events before shutdown of its executor.",
["histories"],"all histories of subscribe, unsubscribe and broadcast",
"Tests cover single events; ordering and pruning are claims over histories.",
["utils/src/eventhandler.rs","utils/networking/src/broadcaster.rs","rpc/src/subscription.rs"],
[("event controller","utils/src/eventhandler.rs"),("broadcaster","utils/networking/src/broadcaster.rs")])

p("C18","Concurrency helpers keep their contracts under any interleaving",
"The wait-until-zero counter releases its waiter only when every counted guard is gone, the tracked counter equals the number of live trackers, one-shot flags start unset and stay set once set, and one-shot destructors run exactly once. Atomic wrappers read back the last written value and their compare-and-swap, add and bit operations agree with a sequential cell of the same type. None of these loses an update when used from several threads.",
["schedules","histories"],"all sequences of operations and all interleavings of several threads",
"Tests use one or two threads in one order.",
["utils/src/blockuntilzero.rs","utils/src/counttracker.rs","utils/src/set_flag.rs","utils/src/atomics/simple_atomic.rs","utils/src/atomics/atomic_traits.rs","utils/src/const_value.rs","utils/src/config_setting.rs"],
[("guards and counters","utils/src/blockuntilzero.rs"),("atomics","utils/src/atomics/simple_atomic.rs")])

p("C19","Network addresses: parse, print and encode consistently",
"Every address (IPv4, IPv6, with or without port, resolvable names) prints to text that parses back to the same address, and converting to and from socket addresses keeps IP and port. Malformed text is refused without a crash, and a missing port is filled with the default exactly when absent. The binary form of a peer address round-trips and tells IPv4, IPv6 and mapped addresses apart; an address is discoverable exactly when its port is not zero and its IP is outside the private, shared, loopback, link-local, multicast, documentation and reserved ranges (or private addresses are allowed).",
["inputs"],"all IPv4/IPv6 addresses, ports, host names and strings",
"Tests list well-known ranges; the classification and text forms cover the whole address space.",
["utils/networking/src/network_address.rs","utils/networking/src/ip_or_socket_address.rs","utils/networking/src/resolvable_name.rs"],
[("address type and routability","utils/networking/src/network_address.rs"),("IP or socket address","utils/networking/src/ip_or_socket_address.rs")])

p("C20","RPC boundary: exact authentication, lossless values, ordered events",
"A request, over HTTP or as a WebSocket upgrade, reaches a method exactly when no credentials are configured or its header is the Basic form of exactly the configured user and password; missing or wrong credentials are answered 401, malformed headers 400. A cookie file holds exactly the fresh random credentials, is private, replaces whatever an earlier run left, and disappears with them. The method list names exactly the callable methods; each call returns its method's value or outermost error text; each subscriber gets every event since it subscribed, once and in order. Byte strings, text and hex survive JSON and malformed or contradictory forms are refused. Documented shapes of parameters and results are those actually accepted and produced.",
["inputs","histories","configurations"],"all byte/text values, user/password pairs, authorization headers, sets of methods and event histories",
"Tests check one random credential pair, one subscription and fixed values.",
["rpc/types/src/string.rs","rpc/src/rpc_auth/mod.rs","rpc/src/rpc_creds.rs","rpc/src/lib.rs","rpc/src/error.rs","rpc/src/subscription.rs","rpc/description/src/value_hint.rs","rpc/description/src/display.rs","rpc/description-macro/src/describe_impl.rs","utils/src/cookie.rs"],
[("basic authentication","rpc/src/rpc_auth/mod.rs"),("credentials","rpc/src/rpc_creds.rs"),("string types","rpc/types/src/string.rs"),("server and clients","rpc/src/lib.rs"),("events","rpc/src/subscription.rs"),("documented shapes","rpc/description/src/value_hint.rs")])

p("C21","Heights, times and versions: exact arithmetic and canonical text",
"Block heights and distances add, subtract and iterate exactly or report failure, and binary encodings round-trip. Times and intervals are non-negative, add and subtract exactly or report failure, order as numbers, and print as the correct UTC date; a mocked clock is read back exactly. Semantic versions print and parse as inverses, order by major, minor and patch, and malformed or out-of-range text is refused.",
["inputs"],"all heights, distances, timestamps, durations and version strings",
"Tests cover few boundary constants.",
["common/src/primitives/height.rs","common/src/primitives/time.rs","common/src/primitives/semver.rs","common/src/time_getter.rs"],
[("heights","common/src/primitives/height.rs"),("time","common/src/primitives/time.rs"),("versions","common/src/primitives/semver.rs")])

p("C22","Utility algorithms agree with their plain definitions",
"The depth-first post-order traversal visits exactly the nodes reachable from its roots, each once, after all nodes reachable from it, in the order of roots and children; sorting is stable and sorting and shuffling return permutations of their input. Two-dimensional arrays index and iterate as their rows and refuse indices outside; a QR code's modules and its console and picture renderings show exactly the module matrix of the encoded text. Exponential randomness and sampling stay within their bounds and follow their distribution, and the same seed gives the same sequence through every adapter.",
["inputs"],"all graphs, sequences, dimensions and payloads",
"Tests use one example of each.",
["utils/src/graph_traversals.rs","utils/src/sorted.rs","utils/src/array_2d.rs","utils/src/qrcode.rs","utils/src/exp_rand/mod.rs","randomness/src/lib.rs","randomness/src/adapters.rs"],
[("graph traversal","utils/src/graph_traversals.rs"),("2-D arrays","utils/src/array_2d.rs")])

p("C23","Consensus encoding: round-trips, is canonical and rejects garbage",
"Every transaction, block, header, output, input and signature encodes to bytes that decode back to the same object, and the reported encoded size equals the real one. Any byte string either fails to decode or decodes to an object that re-encodes to exactly the same bytes (no two encodings of one object), and decoding never crashes or over-allocates. Types stored and compared by their discriminant keep the published tag values.",
["inputs"],"all well-formed consensus objects and all byte strings",
"Tests encode few samples; malleability requires all byte strings.",
["common/src/chain/transaction/mod.rs","common/src/chain/block/mod.rs","common/src/chain/transaction/output/mod.rs","serialization/core/src/lib.rs","serialization/tagged/src/lib.rs"],
[("codec derives","serialization/core/src/lib.rs"),("transaction types","common/src/chain/transaction/mod.rs")])

p("C24","Identifiers commit to content",
"The identifier of a transaction changes whenever any field other than its signatures changes, and does not change when only signatures change; a block's identifier changes with every header field. The transaction and witness commitments in a header are the Merkle roots of the block body, so adding, removing, reordering or altering a transaction or signature is detected, and a Merkle inclusion proof verifies exactly for included transactions. Two different objects of the same kind never share an identifier.",
["inputs"],"all transactions and blocks and all single-field mutations",
"Tests mutate a few fields of one example.",
["common/src/chain/transaction/mod.rs","common/src/chain/transaction/transaction_v1.rs","common/src/chain/block/block_body/merkle_tools.rs","common/src/chain/block/block_header.rs","common/src/primitives/id/mod.rs"],
[("id hashing","common/src/primitives/id/mod.rs"),("block Merkle roots","common/src/chain/block/block_body/merkle_tools.rs")])

p("C25","Addresses: one text per destination, valid on one network only",
"Every destination, pool, delegation, token and order identifier prints as an address that parses back to the same value on its own network. The same text is refused on every other network and as any other kind of identifier. Altered addresses are refused.",
["inputs","configurations"],"all destinations and identifiers on all four network types",
"Tests check some random ids on one chain type.",
["common/src/address/mod.rs","common/src/address/traits.rs","common/src/chain/config/mod.rs"],
[("address type","common/src/address/mod.rs")])

p("C26","Spending needs the owner's signature over what is being signed",
"An input is authorised only by a signature of the key (or, for multi-signature and hash-time-locked outputs, the required keys, preimage or refund path) its output demands. A valid signature stays valid exactly while the parts of the transaction and of the spent outputs selected by its signature-hash type are unchanged; changing any covered part, moving the signature to another input, or replacing the key invalidates it, and changing uncovered parts does not. A multi-signature is accepted exactly with the required number of valid signatures for distinct places in its list of keys.",
["inputs"],"all transactions, inputs, signature-hash types and single-part mutations",
"Tests enumerate fixed mutations of one transaction shape.",
["common/src/chain/transaction/signature/mod.rs","common/src/chain/transaction/signature/sighash/mod.rs","common/src/chain/transaction/signature/inputsig/standard_signature.rs","common/src/chain/transaction/signature/inputsig/classical_multisig/authorize_classical_multisig.rs","mintscript/src/script/verify.rs"],
[("signature hash","common/src/chain/transaction/signature/sighash/mod.rs"),("input verification","common/src/chain/transaction/signature/inputsig/standard_signature.rs")])

p("C27","Scripts of conditions: verdict equals the logical formula",
"Evaluating a tree of signature, time-lock, hash-lock and threshold conditions accepts exactly when the corresponding logical formula over its satisfied leaves holds. Time locks open exactly at their height, time or number of confirmations and never close again. Errors are attributed to a condition that really fails.",
["inputs","programs"],"all condition trees and all leaf truth assignments, all heights and times around the lock",
"Tests use small fixed trees.",
["mintscript/src/script/mod.rs","mintscript/src/script/verify.rs","mintscript/src/checker/timelock.rs","mintscript/src/translate.rs"],
[("threshold evaluation","mintscript/src/script/verify.rs"),("time locks","mintscript/src/checker/timelock.rs")])

p("C28","Unspent outputs: the layered cache equals a plain set, undo restores it",
"A stack of output caches over any base shows exactly the outputs that a plain map would, for every history of adding, spending and flushing. Connecting a transaction spends each of its inputs once and creates all spendable outputs, spending a missing or spent output is refused and a refused spend changes nothing, and disconnecting with the recorded undo data restores the previous set exactly. Transactions can be undone in any order that respects their dependencies.",
["histories"],"all histories of add/spend/flush/connect/disconnect over layered caches",
"Tests enumerate one-step transitions of cache-entry states.",
["utxo/src/cache.rs","utxo/src/utxo_entry.rs","utxo/src/undo.rs","utxo/src/storage/mod.rs"],
[("cache","utxo/src/cache.rs"),("undo","utxo/src/undo.rs")])

p("C29","Staking pools and delegations: balances match a model and undo exactly",
"After every history of creating and decommissioning pools, creating, funding, spending and deleting delegations and receiving block rewards, each existing pool's balance is its pledge plus its delegations plus rewards, and every read agrees with a plain model. The same holds through any stack of caches and flushes. Undoing operations in reverse order restores the earlier state exactly, and operations on unknown, duplicate or insufficiently funded entities are refused without effect.",
["histories"],"all histories of staking operations, cache layerings and undos",
"Tests replay fixed scenarios.",
["pos-accounting/src/pool/delta/operator_impls.rs","pos-accounting/src/pool/delta/mod.rs","pos-accounting/src/pool/storage/mod.rs"],
[("staking operations","pos-accounting/src/pool/delta/operator_impls.rs")])

p("C30","Tokens: supply, locks, freezes and authority follow the rules",
"Circulating supply equals minted minus redeemed in every reachable state, never exceeds a fixed limit, and locked supply can never change again. Minting, redeeming, freezing, unfreezing and authority changes are refused exactly when the token's state forbids them. Undoing restores the earlier state exactly and layered caches show what a plain model shows.",
["histories"],"all histories of token operations, cache layerings and undos",
"Tests replay fixed scenarios.",
["tokens-accounting/src/operations.rs","tokens-accounting/src/cache.rs","tokens-accounting/src/data.rs"],
[("token operations","tokens-accounting/src/cache.rs")])

p("C31","Orders: fills never create value and balances never go negative",
"In every history of creating, filling, freezing and concluding orders, what fillers pay and receive is bounded by the order's price and remaining balances, rounding never favours the filler, and the remaining balances equal a plain model. Concluded and frozen orders cannot be filled. Undo restores exactly, in layered caches too.",
["histories"],"all order histories with arbitrary amounts",
"Tests use small amounts; rounding and overflow need the full range.",
["orders-accounting/src/cache.rs","orders-accounting/src/price_calculation.rs"],
[("order operations","orders-accounting/src/cache.rs"),("fill calculation","orders-accounting/src/price_calculation.rs")])

p("C32","Value conservation: no transaction or block creates coins or tokens",
"A transaction is accepted only if, for coins and each token, what its outputs, burns and fees consume does not exceed what its inputs provide (minting, staking and order rules included), and the fee is exactly the difference. A block reward is accepted only up to subsidy plus fees. Arithmetic overflow is an error, never a wrap-around.",
["inputs","histories"],"all combinations of input and output kinds and amounts",
"Tests check chosen combinations.",
["chainstate/constraints-value-accumulator/src/constraints_accumulator.rs","chainstate/constraints-value-accumulator/src/accumulated_fee.rs"],
[("constraints accumulator","chainstate/constraints-value-accumulator/src/constraints_accumulator.rs")])

p("C33","Chain state depends only on the best chain, not on how it was reached",
"After delivering any set of valid blocks in any parent-first order, with forks and reorganisations, the best block is one with the most accumulated work (ties to the first seen), and the set of unspent outputs and all ledgers equal those of a node that received only the best chain. Reorganising away and back restores the state exactly. Invalid blocks never change the state.",
["histories"],"all small block trees with transactions and all delivery orders",
"The suite replays fixed trees; equivalence quantifies over trees and orders.",
["chainstate/src/detail/mod.rs","chainstate/src/detail/chainstateref/mod.rs","chainstate/tx-verifier/src/transaction_verifier/mod.rs"],
[("block activation","chainstate/src/detail/chainstateref/mod.rs")])

p("C34","Double spends are impossible on any chain",
"No block sequence in which an output is spent twice, an account nonce is reused or skipped, or an unknown output is spent is ever accepted; conversely a sequence obeying the rules is accepted. The verdict on each block equals that of a simple ledger model. A refused block leaves the best chain unchanged.",
["histories"],"all short chains of generated transactions, valid and invalid",
"Tests build particular double spends.",
["chainstate/tx-verifier/src/transaction_verifier/mod.rs","chainstate/src/detail/chainstateref/mod.rs"],
[("transaction verifier","chainstate/tx-verifier/src/transaction_verifier/mod.rs")])

p("C35","A failing store never leaves a half-applied block",
"If the underlying store fails at any point while a block is processed, the stored state afterwards is that before or after the block, never in between, and processing continues correctly once the store works again. A node stopped by a failure can be opened again. Reopening from the stored state gives the same best block and unspent outputs as before the failure. Self-consistency checks of the stored chain hold.",
["fault_sequences","crash_points"],"every store operation of block processing as failure point, over generated chains",
"Tests inject failures at random in one scenario only.",
["chainstate/storage/src/internal/store_tx/write_impls.rs","chainstate/src/detail/mod.rs","storage/failing/src/lib.rs"],
[("storage transactions per block","chainstate/src/detail/mod.rs")])

p("C36","Emission: block subsidies follow the schedule and never exceed the cap",
"The subsidy at every height equals the published schedule, never increases, and the cumulative subsidy plus premine never exceeds the maximum supply. Splitting a block's reward between a pool's operator and its delegators gives away exactly the reward or less, never more, in proportion to the delegations. All arithmetic is exact or refused.",
["inputs","configurations"],"all heights, reward amounts, delegation distributions and schedules",
"Tests check chosen heights.",
["common/src/chain/config/emission_schedule.rs","chainstate/tx-verifier/src/transaction_verifier/reward_distribution.rs"],
[("emission schedule","common/src/chain/config/emission_schedule.rs"),("reward distribution","chainstate/tx-verifier/src/transaction_verifier/reward_distribution.rs")])

p("C37","Proof of work and stake: targets and weights behave as specified",
"A proof is accepted exactly when its hash value does not exceed the target scaled by the stake, larger stakes never make acceptance less likely, and the effective stake never exceeds its saturation bounds. The target adjustment stays within the allowed factor and limit and moves in the direction that corrects the block rate. Accumulated work is strictly increasing along a chain.",
["inputs"],"all hashes, targets, stake amounts and timestamp windows",
"Tests check chosen values.",
["consensus/src/pos/hash_check.rs","consensus/src/pos/effective_pool_balance.rs","consensus/src/pos/target.rs","consensus/src/pow/work.rs"],
[("stake kernel check","consensus/src/pos/hash_check.rs"),("target adjustment","consensus/src/pos/target.rs")])

p("C38","Mempool: always a valid, conflict-free set consistent with the tip",
"After every history of transaction submissions (by the user and by peers, singly or in bursts), new blocks and reorganisations, time passing and peers leaving, the transactions in the pool are pairwise conflict-free and valid in their order on the current tip; one that is valid and pays enough is taken in, and one that is not is refused or kept for later; one kept for later is taken in once what it waits for has come into the pool. Mined transactions and those in conflict with them leave, transactions of blocks that were undone come back, old ones expire with their dependants, and the limits on size hold. After a full pool the minimum fee rate asked for stays above that of what had to go until a block comes, and fades from then on with its half-life; fees and rates are computed exactly. A block template built from the pool is within the limits asked for, follows the dependencies, promises exactly the fees it brings, and a block made of it is accepted. What the pool announces agrees with what it holds, and it goes on answering whatever it was sent.",
["histories"],"all histories of submissions, new tips, expiry, leaving peers and changing limits",
"Tests run fixed scenarios.",
["mempool/src/pool/mod.rs","mempool/src/pool/tx_pool/mod.rs","mempool/src/pool/tx_pool/store/mod.rs","mempool/src/pool/orphans/mod.rs","mempool/src/pool/work_queue/mod.rs","mempool/src/pool/tx_pool/collect_txs.rs"],
[("pool store","mempool/src/pool/tx_pool/store/mod.rs")])

p("C39","Wallet: balance and spendability equal a scan of the chain",
"After scanning any chain, in any pieces and with any reorganisations, the wallet's unspent outputs (locked and unlocked), balances, delegations, orders, pools, tokens with their next nonces, and transactions equal those computed from the chain by ownership, also after reloading from disk or scanning anew. With unconfirmed transactions of its own or from the mempool the same holds for the chain plus those; confirming, outdoing or abandoning them, and reloading, leaves exactly what is still pending.",
["histories"],"all short chains, wallet operations and reorganisations",
"Tests run fixed scenarios.",
["wallet/src/account/mod.rs","wallet/src/account/output_cache/mod.rs","wallet/src/wallet/mod.rs"],
[("output cache","wallet/src/account/output_cache/mod.rs")])

p("C47","Wallet: transactions it makes are valid, do what was asked and pay fairly",
"Every transaction the wallet makes (payments, sweeps, delegation withdrawals, token commands, issues, pools, orders, contracts) is valid and fully signed for the next block, spends only own outputs that are unlocked and, if some were chosen, among those, has exactly the outputs and effects asked for, and sends what is left to own change or the destination given. Its fee covers its real size at the given rate with little more, at the next block's prices, and is the fee reported. It is refused only if the funds or the chain's rules do not allow it.",
["histories"],"all wallets, chains, requests and fee rates",
"Tests ask for few transactions in fixed situations.",
["wallet/src/account/mod.rs","wallet/src/wallet/mod.rs","wallet/src/send_request/mod.rs","wallet/src/signer/software_signer/mod.rs"],
[("input selection and fees","wallet/src/account/mod.rs"),("requests","wallet/src/send_request/mod.rs")])

p("C40","Coin selection pays the target and never double counts",
"Whatever the available outputs, a successful selection uses distinct available outputs whose sum covers the target plus the fee, and reports the sum, change and waste correctly; it fails only when the outputs cannot cover it or, if not all of them fit the size limit, no selection within it was found. Preselected inputs are all used; otherwise the size limit is respected.",
["inputs"],"all sets of output groups, targets and fee rates",
"Tests use few fixed sets.",
["wallet/src/account/utxo_selector/mod.rs"],
[("coin selection","wallet/src/account/utxo_selector/mod.rs")])

p("C41","Block tree index: ancestors, common ancestors and locators are right",
"For any block tree, the ancestor of a block at each height, the last common ancestor of two blocks, the fork point and the main-chain membership equal those found by walking parents. Locators list main-chain blocks in decreasing height and any locator finds the right continuation headers. Heights and chain work accumulate along parents.",
["inputs","histories"],"all block trees and block pairs",
"Tests use fixed trees.",
["chainstate/types/src/block_index.rs","chainstate/src/detail/query.rs","chainstate/types/src/locator.rs"],
[("skip-list ancestors","chainstate/types/src/block_index.rs"),("locators","chainstate/src/detail/query.rs")])

p("C42","Encrypted-at-rest values and wallet storage lock correctly",
"Wallet secrets stored under a password are recoverable exactly with that password, before and after locking, changing and removing the password; a wrong password unlocks nothing. While locked nothing secret is readable. Every stored object round-trips through the wallet database.",
["histories"],"all sequences of set-password, lock, unlock and store operations",
"Tests run one sequence.",
["wallet/storage/src/internal/mod.rs","utils/src/maybe_encrypted.rs","wallet/storage/src/internal/password.rs"],
[("encryption at rest","utils/src/maybe_encrypted.rs")])

p("C43","Serialization framework: tags, direct encoding, lookahead and wrappers are exact",
"A type's tag is the first byte of its encoding. Enums with direct encoding add no discriminant: the encoding is that of the selected variant, decoding selects the variant by its tag and refuses unknown tags without crashing. A reader with lookahead delivers every byte exactly once and in order. Hexadecimal and JSON wrappers, encoded values, and the data-or-nothing container round-trip, refuse trailing bytes and malformed text, and the empty-data form equals absence.",
["inputs"],"all values, all byte strings, all read patterns",
"Tests use one or two values per wrapper.",
["serialization/tagged/src/lib.rs","serialization/tagged/src/derive_support.rs","serialization/tagged/derive/src/direct.rs","serialization/src/hex.rs","serialization/src/hex_encoded.rs","serialization/src/json_encoded.rs","serialization/src/encoded.rs","serialization/src/extras/non_empty_vec.rs"],
[("lookahead reader","serialization/tagged/src/derive_support.rs"),("direct encoding derive","serialization/tagged/derive/src/direct.rs")])

p("C44","Settings resolve as documented: environment, log style, defaults, data directory",
"Boolean environment variables are read as documented (1/yes/true, 0/no/false, any letter case) and anything else is an error naming the variable. Log style and filter come from the environment with the documented defaults, and log lines have the requested form and pass exactly the requested filter. Unset configuration values yield the default and set ones are kept. A data directory is created only where permitted: default ones are created, user-given ones must exist. Arguments get the documented environment variable names.",
["inputs","configurations"],"all variable contents, filters, directory states and argument names",
"Tests check a few values.",
["utils/src/env_utils.rs","utils/src/config_setting.rs","utils/src/default_data_dir.rs","utils/src/clap_utils.rs","logging/src/lib.rs","logging/src/log_style.rs","logging/src/utils.rs"],
[("boolean variables","utils/src/env_utils.rs"),("data directory","utils/src/default_data_dir.rs"),("log set-up","logging/src/lib.rs")])

p("C45","Errors pass through logging helpers unchanged and are logged once",
"A function or future marked for error logging returns exactly what it would return without the mark, runs its body once, and logs each error once, at the requested level, with the place of the caller (of the call that made the future), whether the error came from a return, a question mark or the final expression; successes and unfinished futures log nothing. The result-tapping helpers do the same with an optional prefix. Logged source paths are relative to the workspace.",
["inputs","histories"],"all results, levels, kinds of function, nesting and polling patterns",
"Tests check one function of each kind.",
["utils/log_error/src/lib.rs","utils/src/tap_log.rs","utils/src/log_utils.rs","utils/src/workspace_path.rs"],
[("attribute","utils/log_error/src/lib.rs"),("tapping helpers","utils/src/tap_log.rs")])

p("C46","Wrapper, naming and guard types add nothing to what they wrap",
"Constant, new-type and option-display wrappers compare, hash, display and convert exactly as their contents. Derived type names are those of the type with its parameters. Fixed-size hashes compare, encode, print and draw random values byte by byte. Senders with an identity deliver every message once, in order, with that identity. Cheap clones share their contents, a set-once flag reports its history, guards evaluate the failure value only on failure, and version strings have the documented form.",
["inputs","histories"],"all contents, names and operation sequences",
"Tests check a few instances.",
["utils/src/const_value.rs","utils/src/newtype.rs","utils/src/displayable_option.rs","utils/src/fixed_hash.rs","utils/src/cow_utils.rs","utils/src/shallow_clone.rs","utils/src/sender_with_id.rs","utils/src/set_flag.rs","utils/src/ensure.rs","utils/src/app_version.rs","utils/typename/src/lib.rs","utils/typename-derive/src/lib.rs"],
[("type names","utils/typename-derive/src/lib.rs"),("fixed-size hashes","utils/src/fixed_hash.rs")])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import os
for x in P:
    for f in x["anchors"]["files"]:
        if not os.path.exists("/repo/"+f): print(x["id"],"missing",f)
    for m in x["anchors"]["mechanism"]:
        if not os.path.exists("/repo/"+m["where"]): print(x["id"],"missing",m["where"])
