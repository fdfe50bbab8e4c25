"""The properties, and what decides them. gen.py turns this table into properties.jsonl and MANIFEST.json."""

NOT_CLAIMED = {}
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe, pkg, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech, observe=observe, pkg=pkg, note=note, **{"for": text}, **kw))


prop("P01", "Transactions are encoded and hashed exactly as Ethereum specifies",
     "A legacy, EIP-2930 or EIP-1559 transaction is encoded (unsigned for signing, and signed) as exactly the bytes the Ethereum specification (with EIP-155 replay protection) prescribes, its hash and its signing hash are the Keccak-256 of those bytes, and decoding the bytes gives back an equal transaction with that hash. "
     "Two transactions that differ in any field never share a hash, and differ in their signing hash unless they differ only in the signature. "
     "A batch of signed transactions decodes to the same transactions in the same order, and the most a transaction can cost is gas price times gas limit plus value, saturating.",
     ["inputs"], "every transaction of the three types, any field values, any access list, with and without chain id, Ethereum and interoperation signatures; every batch",
     "the tests decode a few fixed transactions; they never compare an encoding with an independent encoder, and sample no boundary lengths or signatures",
     ["protocol/src/codec/transaction.rs", "protocol/src/types/transaction.rs", "protocol/src/types/batch.rs"],
     [("RLP encoders and decoders of the three transaction types", "protocol/src/codec/transaction.rs"), ("hash and signing hash", "protocol/src/types/transaction.rs: calc_hash, signature_hash")],
     ["encoding and decoding of transactions", "transaction hash and signing hash"], "h-base",
     "Search over generated transactions against an independent RLP and Keccak implementation; assumes those references.")

prop("P02", "A transaction's sender is the one who signed it",
     "For every transaction signed with a secp256k1 key, the recovered public key and sender are those of that key, in memory and after the transaction is stored and read back; a transaction changed after signing never keeps its sender, and a signature no key could have produced is rejected. "
     "For an interoperation transaction the sender is derived from the Keccak-256 digest of the public key its signature names; a signature that is empty, truncated or of an unknown kind is rejected with an error, never a panic.",
     ["inputs"], "every transaction, key, tampering of signed content, and every 65-byte or interoperation signature, valid or not",
     "the tests sign one transaction and check it; tampering, arbitrary signatures, and malformed interoperation signatures are not sampled",
     ["protocol/src/types/transaction.rs", "protocol/src/codec/transaction.rs", "common/crypto/src/lib.rs"],
     [("public key recovery", "common/crypto: secp256k1_recover"), ("sender derivation", "protocol/src/types/transaction.rs: SignedTransaction::from_unverified"), ("decoding of stored transactions", "protocol/src/codec/transaction.rs")],
     ["sender and public key of a signed transaction"], "h-base",
     "Search; signing and recovery are compared with RustCrypto's k256, which is trusted.")

prop("P03", "Decoding untrusted bytes never panics and gives one canonical value",
     "Whatever bytes a peer, a client or the database hands to a decoder of a transaction, block, proposal, proof, receipt, metadata, batch or other protocol object, the decoder returns a value or an error and never panics. A value that was accepted can be encoded again, and that encoding decodes to the same value. "
     "The hash of a transaction decoded from raw bytes is the Keccak-256 of those bytes, so the integrity check accepts exactly the canonical encoding.",
     ["inputs"], "every byte string, in particular encodings of valid objects with bytes, lengths, list structure or items changed, for every object with a decoder",
     "the tests decode only what they encoded themselves; malformed input is not sampled at all",
     ["protocol/src/codec", "protocol/src/types", "protocol/src/traits/consensus.rs"],
     [("RLP decoders", "protocol/src/codec"), ("network message codec", "protocol/src/traits: MessageCodec"), ("integrity of a decoded transaction", "protocol/src/types/transaction.rs: check_hash")],
     ["decode and decode_msg of every protocol type"], "h-base",
     "Search over mutated encodings and random bytes (coverage-guided in the thorough tier); running out of memory and non-termination are not searched for.")

prop("P04", "Every protocol object survives encoding and decoding unchanged",
     "For every protocol object - header, block, proposal, proof, vote, receipt, transaction response, metadata and its parts, validators, cells, light-client and interoperation messages, batches - decoding its encoding gives back an equal object, with every field kept. Objects with a specified layout (RLP lists of their fields in order) have exactly that layout, and an object inside a list can be read next to other items. Optional or version-dependent fields (a contract size limit, a state root) are widened and narrowed without losing what both versions have.",
     ["inputs"], "every value of every encodable protocol type, in particular empty and long lists, absent optional fields and extreme integers",
     "the tests round-trip a value of some types with random but similar shapes; field order and optional fields are not compared with anything",
     ["protocol/src/codec", "protocol/src/types"],
     [("RLP codec of blocks, headers, proposals", "protocol/src/codec/block.rs"), ("receipts and responses", "protocol/src/codec/receipt.rs, protocol/src/codec/executor.rs"), ("metadata, forks and validators", "protocol/src/types/block.rs")],
     ["ProtocolCodec, overlord::Codec and MessageCodec of each type"], "h-base",
     "Search; layouts are compared with an independent RLP encoder.")

prop("P05", "A block or proposal hash commits to every field",
     "The hash of a header, block or proposal is the Keccak-256 of the RLP list of its fields, and two headers or two proposals that differ in any single field have different hashes. A block made from a proposal and its execution result carries every field of the proposal and the state, receipts and gas of the execution; a proposal rebuilt from a block equals the one that was voted for and has its hash; and the execution context derived from a proposal equals the one derived from its block.",
     ["inputs"], "every header and proposal and every change of one field; every proposal with every execution result",
     "the tests hash one block; no test changes a field or rebuilds a proposal",
     ["protocol/src/types/block.rs", "protocol/src/codec/block.rs", "protocol/src/types/executor.rs"],
     [("hash of a header and proposal", "protocol/src/types/block.rs: Header::hash, Proposal::hash"), ("block from proposal", "protocol/src/types/block.rs: Block::new"), ("proposal from block", "protocol/src/types/block.rs: Proposal::new_with_state_root"), ("execution context", "protocol/src/types/executor.rs: ExecutorContext::from")],
     ["block hash", "proposal hash", "header fields"], "h-base",
     "Search over single-field edits and assembled blocks; collisions of Keccak-256 itself are assumed not to occur.")

prop("P06", "Receipts and bloom filters describe exactly what was executed",
     "Executing a block gives one receipt per transaction, in order, naming its transaction, block, sender, target or created contract, its own gas and the gas used up to and including it, its status and its logs, with log indices that count through the block. The bloom of a receipt is exactly the Ethereum bloom of its logs, the block's bloom contains every address and topic of the block, and the consensus encoding of a receipt is the one Ethereum specifies for its transaction type.",
     ["inputs", "histories"], "every list of transactions with every execution result and set of logs",
     "no test builds a receipt from an execution result or computes a bloom",
     ["protocol/src/types/block.rs", "protocol/src/types/receipt.rs", "protocol/src/types/transaction.rs"],
     [("receipts of a block", "protocol/src/types/block.rs: Block::generate_receipts_and_logs"), ("bloom", "protocol/src/types/receipt.rs: logs_bloom"), ("consensus encoding", "protocol/src/types/transaction.rs: encode_receipt")],
     ["receipts, logs and blooms of a block"], "h-base",
     "Search against an independent bloom and receipt model; one known finding on the header bloom.")

prop("P07", "Text and JSON forms of bytes, addresses and numbers are exact",
     "Hex text is accepted exactly when it is an optional single 0x prefix (where the prefix is required, required) followed by an even number of hex digits, and gives those bytes; other text is an error, never a panic or a different value. Addresses print in EIP-55 form, are read back, and are rejected when their length or checksum is wrong. Numbers, hashes, headers, blocks, proposals and metadata print in JSON as Ethereum's quantity and data forms, and every value read from JSON is the one that was written.",
     ["inputs"], "every string offered as hex, address, key or number; every value printed",
     "the tests print and parse a handful of constants; malformed text is not sampled",
     ["protocol/src/types/primitive.rs", "protocol/src/codec/mod.rs", "protocol/src/types/block.rs"],
     [("hex parsing", "protocol/src/types/primitive.rs: Hex, protocol/src/codec/mod.rs: hex_decode"), ("addresses", "protocol/src/types/primitive.rs: Address"), ("quantities", "protocol/src/codec/mod.rs: serialize_uint")],
     ["FromStr, Display and serde of Hex, Address, Header, Block, Metadata and the like"], "h-base",
     "Search against independent hex, EIP-55 and quantity implementations.")

prop("P08", "Signatures verify only for the key, message and signers that made them",
     "A secp256k1 signature made by the node verifies elsewhere and recovers exactly its key from exactly its message; a public key in any accepted form has the Ethereum address of its point, and bytes that are not a public key are rejected. The aggregate of BLS signatures verifies for exactly the message and exactly the set of keys that signed, through a round trip of its bytes, and never for another message, a smaller or changed set of keys, or changed bytes. Signing a CKB transaction fills exactly the lock fields of the witnesses the signature group demands, leaves everything else alone, and the signature recovers the signing key from the CKB signing message.",
     ["inputs"], "every key, message and set of signers; every wrong message, key, subset or byte change; every CKB transaction with any witnesses and signature entries",
     "the tests sign and verify one fixed message; wrong subsets, mutated signatures and CKB witness groups are not sampled",
     ["common/crypto/src/lib.rs", "protocol/src/types/primitive.rs", "protocol/src/types/ckb_client.rs"],
     [("secp256k1 and BLS", "common/crypto"), ("addresses of keys", "protocol/src/types/primitive.rs: Address::from_pubkey_bytes"), ("CKB transaction signing", "protocol/src/types/ckb_client.rs: TransactionCompletionResponse::sign")],
     ["sign, verify, recover, aggregate; signed CKB witnesses"], "h-base",
     "Search; secp256k1 results are compared with RustCrypto's k256, BLS by forging attempts.")

prop("P09", "Transaction and receipt roots and their proofs are Ethereum's",
     "The root of an ordered list of transactions or receipts is exactly the root of Ethereum's index-keyed Merkle-Patricia trie, independent of the order in which the trie is filled. The proof of each index is exactly the node list on its path, verifies to its value under the root, and no changed proof ever proves another value for an index or a value for an index that is not in the list. Two different lists never share a root; digests are Keccak-256.",
     ["inputs"], "every list of byte strings, with duplicates, empty and long values, and lengths around trie branching points; every index; every change of a proof",
     "the tests compute one root and one proof",
     ["common/merkle/src/lib.rs", "common/hasher/src/lib.rs"],
     [("TrieMerkle", "common/merkle/src/lib.rs"), ("digest", "common/hasher/src/lib.rs, protocol/src/types/primitive.rs: Hasher")],
     ["root_hash and get_proof_by_index of TrieMerkle"], "h-base",
     "Search against an independent trie written from the Yellow Paper.")

prop("P10", "Static Merkle proofs lead from each leaf to the root",
     "For every list of hashes the static Merkle tree's root is the one defined by its pairing rule, the proof of each leaf leads from that leaf to the root, has the depth of the tree, and there is no proof for a position outside the list; the tree of no hashes has no root. Nothing panics.",
     ["inputs"], "every number of leaves, balanced or not, and every index inside and outside",
     "the tests check two fixed sizes",
     ["common/merkle/src/lib.rs"],
     [("Merkle", "common/merkle/src/lib.rs: Merkle::from_hashes, get_proof_by_input_index")],
     ["root hash and proofs of Merkle"], "h-base",
     "Search against an independent recomputation.")

prop("P11", "A configuration file is loaded exactly as written, or refused",
     "Loading a node's configuration gives exactly the values written in the file, in any order and notation, with the documented default for every optional setting and section that is absent, and with the network and consensus keys read from the files it names. A file with a missing or mistyped setting, a broken key file, or text that is no configuration is refused with an error; nothing is silently replaced, and loading never panics. The folders of the database and logs derive from the configured data path.",
     ["inputs"], "every configuration file, complete, partial, reordered, faulty in one place or mutated, and every key file",
     "the tests parse two shipped files; missing, mistyped and reordered settings and broken key files are not sampled",
     ["common/config-parser/src/types/config.rs", "common/config-parser/src/lib.rs", "devtools/chain/config.toml"],
     [("configuration and its defaults", "common/config-parser/src/types/config.rs"), ("reading of files", "common/config-parser/src/lib.rs: parse_file, parse_reader")],
     ["Config value parser", "parse_file", "data path accessors"], "h-base",
     "Search over generated files against a table of settings and defaults.")

prop("P12", "A chain specification gives exactly the genesis it describes",
     "A chain specification file gives the genesis header, accounts with balances, consensus parameters and validators written in it, and is refused when something is missing, mistyped or inconsistent. The hard forks a specification or a hard fork input names give exactly their bits, from the block number named; none means all. A private key argument gives exactly the key given as hex or in the file, exactly one of the two being accepted, and its printed form never contains the key.",
     ["inputs"], "every chain specification, hard fork input and key argument, valid or faulty in one place",
     "the tests parse the shipped specification; faulty ones, other hard fork sets and key arguments are not sampled",
     ["common/config-parser/src/types/spec.rs", "common/config-parser/src/lib.rs"],
     [("chain specification", "common/config-parser/src/types/spec.rs: ChainSpec"), ("genesis header", "common/config-parser/src/types/spec.rs: Genesis::build_header"), ("hard forks", "common/config-parser/src/types/spec.rs: HardforkInput"), ("private key arguments", "common/config-parser/src/types/spec.rs: PrivateKey")],
     ["ChainSpec value parser", "genesis header", "hardfork flags", "private key argument"], "h-base",
     "Search over generated specifications against what was written in them.")

prop("P13", "Versions are parsed, printed and ordered as Semantic Versioning says",
     "A version string is accepted exactly when Semantic Versioning accepts it, prints as it was written, and is ordered by semantic precedence: by number, then pre-release identifiers. The commit a version carries never changes how it compares with a version of other numbers or pre-release, is normalised to lower case, survives printing and reading back, and is unknown when absent.",
     ["inputs"], "every pair of version strings, with pre-release identifiers and build data, valid or mutated",
     "the tests compare three fixed versions",
     ["common/version/src/lib.rs"],
     [("parsing and order", "common/version/src/lib.rs: Version")],
     ["Version::from_str, Display, Ord, commit_id"], "h-base",
     "Search against an independent implementation of Semantic Versioning precedence.")

prop("P14", "No log record is lost or duplicated, whatever the files' sizes",
     "Every record logged at or above the configured level - of its module where one is configured - appears exactly once, in order, as one JSON line of the log file or its archives, with its target, level, event, text and trace identifiers; records below the level appear nowhere. Metrics records go to the metrics log only, when it is enabled; records of the command line go to its own log and the console, whatever the level. Rolling a file that reached its size never overwrites an archive.",
     ["histories", "inputs"], "every sequence of records of any text, level, module and trace, with any filters and file sizes",
     "the tests log a line or two and read nothing back; rolling within a second, filters and odd texts are not sampled",
     ["common/logger/src/lib.rs", "common/logger/src/date_fixed_roller.rs"],
     [("log set-up and records", "common/logger/src/lib.rs"), ("archives", "common/logger/src/date_fixed_roller.rs")],
     ["files in the log folder", "console output"], "h-base",
     "Search; a child process logs into a scratch folder and its files are read back.")

prop("P15", "A block proof is accepted only from over two thirds of the vote weight",
     "axon-tools accepts the proof of a block exactly when validators with more than two thirds of the vote weight of all the given ones, in whatever order they are given, signed the commit vote for precisely this block: every field of the proposal, the previous state root, the height and round of the vote are covered. Changing any of them, the signature, the set of signers named or a signer's key, a vote of another kind, or signers with too little weight makes verification fail with an error, never a panic. The vote that is checked is byte for byte the vote the consensus engine signs.",
     ["inputs"], "every block, set of validators, set of signers, and change of one part of the block, vote, signature, bitmap or validator set",
     "the tests verify one recorded proof; nothing is changed and no quorum boundary is tried",
     ["devtools/axon-tools/src/proof.rs", "devtools/axon-tools/src/types.rs", "devtools/axon-tools/src/rlp_codec.rs"],
     [("verify_proof", "devtools/axon-tools/src/proof.rs: verify_proof, extract_pks"), ("encoding of proposals and votes", "devtools/axon-tools/src/rlp_codec.rs")],
     ["axon_tools::verify_proof"], "h-tools",
     "Search; blocks are encoded by the reference and signed with the node's BLS code. Weights are all one, small, zero or any; the signers are just enough, more, or just too few.")

prop("P16", "axon-tools reads the node's blocks and metadata exactly",
     "Every block, proposal, proof, validator and metadata the node writes as JSON is read by axon-tools with every field kept, encodes to the same RLP and hash as in the node, and validators sort in the order in which consensus numbers them. The system contracts' addresses it names are the node's. Numbers and byte strings given as text are read exactly or refused: malformed or out-of-range text gives an error, never a panic or another value.",
     ["inputs"], "every block, proposal and metadata, with extreme numbers and empty or long parts; every text offered as a number or bytes",
     "the tests read three recorded files; malformed and extreme values are not sampled",
     ["devtools/axon-tools/src/types.rs", "devtools/axon-tools/src/rlp_codec.rs", "devtools/axon-tools/src/hex.rs", "protocol/src/types/block.rs"],
     [("types and their JSON", "devtools/axon-tools/src/types.rs"), ("RLP", "devtools/axon-tools/src/rlp_codec.rs"), ("the node's types", "protocol/src/types/block.rs")],
     ["serde and RLP of axon_tools::types", "Hex"], "h-tools",
     "Search, differential against the node's types, a hand-written JSON form and the reference RLP.")

prop("P17", "Trie and CKB Merkle proofs prove exactly what is there",
     "verify_trie_proof returns the value of a key under an Ethereum trie root for the proof of that key, and nothing for a key that is absent; no changed, truncated or foreign proof, and no other root, ever yields a value the trie does not hold. The CKB proof check accepts the proof of any set of leaves of the transaction or witness tree under a transactions root made of both, and rejects every proof with a changed root, leaf, lemma or tree, or with a leaf that does not lead to the root. Its payload survives ABI encoding and has a fixed RLP form. Nothing panics.",
     ["inputs"], "every trie and key, present or absent, and every change of a proof; every tree, set of leaves and change of a CKB proof, including positions that are no leaf",
     "the tests check five lookups in one trie, and no CKB proof",
     ["devtools/axon-tools/src/proof.rs", "devtools/axon-tools/src/precompile.rs", "devtools/axon-tools/src/hash.rs"],
     [("verify_trie_proof", "devtools/axon-tools/src/proof.rs"), ("CKB Merkle proofs", "devtools/axon-tools/src/precompile.rs: verify_proof")],
     ["axon_tools::verify_trie_proof", "axon_tools::precompile::verify_proof"], "h-tools",
     "Search against an independent trie and an independent complete binary Merkle tree.")

prop("P18", "A CKB-VM call returns its program's result within its cycle limit",
     "Running a program of a CKB cell returns exactly the exit code that the RISC-V semantics of the program and its arguments determine, and the number of cycles it took, which grows with the instructions executed; the run succeeds with exactly that many cycles as its limit and fails with one fewer. A program that is absent, truncated or no program fails with an error. Gas converts to cycles and back without loss. Cell dependencies, out points and scripts convert to CKB's binary form and back unchanged.",
     ["inputs", "faults"], "every program of arithmetic, memory and branches with every argument list and cycle limit; every cell dependency, out point and script",
     "the tests run one program with one argument list and an unlimited number of cycles",
     ["core/interoperation/src/lib.rs", "protocol/src/types/interoperation.rs", "protocol/src/traits/interoperation.rs"],
     [("call_ckb_vm", "core/interoperation/src/lib.rs"), ("gas and cycles", "core/interoperation/src/lib.rs: gas_to_cycle, cycle_to_gas"), ("cell dependencies", "protocol/src/types/interoperation.rs")],
     ["exit code and cycles of call_ckb_vm", "gas_to_cycle, cycle_to_gas"], "h-base",
     "Search over generated programs against an interpreter in the harness; cycle counts are bounded below, not predicted.")

prop("P19", "Each CKB call sends exactly its request and returns exactly the answer",
     "Each call of the CKB client sends one JSON-RPC 2.0 request per item asked, to the node it belongs to (CKB, Mercury or indexer), with the method's name, its parameters unchanged and in order, and an identifier not used by an earlier call of this client. It returns exactly what the node answered; transactions asked together come back in the order asked, absent ones as absent. An error answer, a malformed, truncated or mistyped one, or a failed HTTP exchange gives an error, never a panic or a made-up value.",
     ["inputs", "histories", "faults"], "every sequence of calls with any parameters, answers and faults, and any order in which answers to concurrent requests arrive",
     "the crate's tests need a live CKB node and are not run at all",
     ["core/rpc-client/src/client.rs"],
     [("requests and answers", "core/rpc-client/src/client.rs: jsonrpc!"), ("transactions by hashes", "core/rpc-client/src/client.rs: get_txs_by_hashes")],
     ["HTTP requests", "results of CkbClient methods"], "h-base",
     "Search against a recording server on the loopback network; needs that network.")

prop("P20", "Hard fork and metadata version bookkeeping is exact",
     "Activating hard forks keeps a list ordered by block number in which flags only accumulate: activating something new at a later block appends the union, and anything else changes nothing. A metadata version contains exactly the block numbers from its start to its end, and consecutive versions partition the chain: every block is in exactly one. Splitting metadata into its inner part and consensus configuration keeps every field.",
     ["histories", "inputs"], "every sequence of activations at any block numbers; every version and block number, up to the extremes",
     "no test activates a hard fork twice or asks for a version's boundary",
     ["protocol/src/types/block.rs"],
     [("hard fork list", "protocol/src/types/block.rs: HardforkInfo::push"), ("metadata versions", "protocol/src/types/block.rs: MetadataVersion"), ("metadata parts", "protocol/src/types/block.rs: Metadata::into_part")],
     ["HardforkInfo", "MetadataVersion", "MetadataInner"], "h-base",
     "Search against a model list.")

prop("P22", "Tracing and metrics attributes observe a function without changing it",
     "A function annotated with trace_span or metrics_rpc, synchronous, asynchronous or returning a boxed future, runs exactly once and returns exactly what it returned without the annotation, errors included. While tracing is on it opens exactly one span, named and tagged as declared, child of the span in its context, which its body sees as parent; the span records the error of a failed call. Metrics count exactly one success or failure per call, and time the successes.",
     ["inputs", "histories"], "every argument, result and error of annotated functions of each kind, with and without a parent span and with tracing on and off",
     "the crate's tests expand the attributes without running what they produce",
     ["common/apm-derive/src/lib.rs", "common/apm-derive/src/trace_expand.rs", "common/apm-derive/src/rpc_expand.rs"],
     [("trace_span", "common/apm-derive/src/trace_expand.rs"), ("metrics_rpc", "common/apm-derive/src/rpc_expand.rs"), ("tags and logs of a span", "common/apm-derive/src/kv_parser.rs")],
     ["results of annotated functions", "spans, tags and counters"], "h-base",
     "Search over the inputs of a fixed set of annotated functions with a recording tracer; the functions themselves are not generated.")

prop("P23", "The block store returns exactly what was last stored, and survives a crash",
     "Whatever blocks, transactions, receipts, contract codes, proofs and hard fork proposals are stored, replaced and removed, in whatever order, a read - one at a time or many at once, by number, hash or address, from a cache of any size or from disk, before or after the store is opened again - returns exactly what was last stored there, and nothing of another block. "
     "When writes stop reaching the disk at any point, the store opens again with a latest block that is no older than the last one reported stored, and every block up to it can be read whole, with its header, hash, transactions and receipts.",
     ["histories", "crashes"], "every history of writes and reads over neighbouring block numbers with any cache size, and every point at which writing stops",
     "the tests store one thing and read it back from an in-memory adapter; replacing, removing, evicting, reopening and crashing are not sampled",
     ["core/storage/src/lib.rs", "core/storage/src/hash_key.rs", "core/storage/src/cache.rs", "core/storage/src/schema.rs"],
     [("reads and their caches", "core/storage/src/lib.rs: ReadOnlyStorage for ImplStorage"), ("writes", "core/storage/src/lib.rs: Storage for ImplStorage"), ("keys", "core/storage/src/hash_key.rs")],
     ["Storage and ReadOnlyStorage"], "h-core",
     "Search over histories against a model, on both adapters; RocksDB itself is replaced by an ordered map in memory with atomic batches.")

prop("P24", "The data base adapters are one ordered map per category, with atomic batches",
     "Each storage category is a map of its own: get, contains and get_batch return what was last inserted under exactly that key, and changing one category never shows in another. A batch is applied in order and whole, or not at all; one with unequal numbers of keys and values is refused and changes nothing. Iterating from a prefix yields first, in key order, every entry whose key has the prefix. A data base opened again holds everything that was written, and opening one that is not there fails when it must exist.",
     ["histories", "crashes"], "every history of inserts, removals, batches and iterations on every category, on the memory and the RocksDB adapter, and every point at which writing stops",
     "the tests run one insert, get, batch and iteration per adapter",
     ["core/db/src/rocks.rs", "core/db/src/memory.rs"],
     [("RocksDB adapter", "core/db/src/rocks.rs: RocksAdapter"), ("memory adapter", "core/db/src/memory.rs: MemoryAdapter"), ("categories", "core/db/src/rocks.rs: map_category")],
     ["StorageAdapter"], "h-core",
     "Search over histories against a model; RocksDB itself is replaced by an ordered map in memory with atomic batches.")

EVM_NOTE = "Search against a model of accounts; contract code itself runs on the evm crate on both sides, so the interpreter is assumed; RocksDB is replaced by an ordered map in memory, and the arithmetic crates behind two precompiles by stand-ins."

prop("P30", "Executing a block gives exactly the state and receipts Ethereum's rules give",
     "Executing a block's transactions in order on a state gives, for every transaction, the exit reason, output, gas used and left over, fee, logs and contract address that Ethereum's rules give in that state and block environment (number, time, coinbase, chain id, gas price, origin, hashes of earlier blocks); afterwards every account has exactly the nonce, balance, code and storage that follow, the fees are shared among the validators by weight, and the state root and receipt root are the roots of the ordered tries of exactly those accounts and receipts. "
     "A transaction that fails or reverts changes nothing but its sender's nonce and fee. A transaction costs its sender the fee its receipt shows.",
     ["histories", "inputs"], "every sequence of blocks of transactions (transfers, calls, creations, with any contract code, access lists, gas limits and prices), with any size of caches and after a restart, before and after the Andromeda fork",
     "the tests run a handful of fixed contracts in fresh states",
     ["core/executor/src/lib.rs", "core/executor/src/adapter/backend/apply.rs", "core/executor/src/adapter/backend/read_only.rs", "core/executor/src/adapter/trie/wrapped.rs"],
     [("execution of blocks", "core/executor/src/lib.rs: AxonExecutor::exec, evm_exec"), ("fees of validators", "core/executor/src/lib.rs: FeeAllocate"), ("account trie", "core/executor/src/adapter/backend/apply.rs: AxonExecutorApplyAdapter")],
     ["Executor::exec", "state root and receipts"], "h-core", EVM_NOTE)

prop("P31", "A query answers from exactly the state asked for and changes nothing",
     "Every state a block led to stays readable by its root, whatever is executed later and whether or not the node restarts in between. A call or gas estimate on it gives exactly the exit reason, output and gas of executing that message in that state, and leaves every state as it was. The same block executed again on the same state gives the same response to the last byte, whatever is cached.",
     ["histories", "inputs"], "every history of blocks and queries at any of its states, with any caller, target, value, data and gas limit, and any size of caches",
     "the tests make single calls on fresh states",
     ["core/executor/src/lib.rs", "core/executor/src/adapter/backend/read_only.rs", "core/executor/src/adapter/trie/db.rs"],
     [("queries", "core/executor/src/lib.rs: AxonExecutor::call"), ("read-only state", "core/executor/src/adapter/backend/read_only.rs"), ("cache of the trie data base", "core/executor/src/adapter/trie/db.rs: RocksTrieDB")],
     ["Executor::call", "reads of earlier states"], "h-core", EVM_NOTE)

prop("P32", "Epochs' metadata is appended by validators only, in order, and read back exactly",
     "A metadata call is carried out only if its sender is a validator of the block's epoch; an epoch is appended only if its number is the next one, it starts right after the last block of the one before and does not end before it starts; anything else is refused and changes nothing. Reading gives, for every block number and epoch, exactly the metadata appended for it (with the number of blocks each validator proposed since), the last consensus configuration and CKB information set, who is a validator, which block is the last of its epoch, and the hard forks proposed by the blocks, which come into force at exactly their block number. Every earlier state keeps its own.",
     ["histories"], "every history of blocks with calls by validators and others, valid or with a wrong epoch number, start or end, or malformed; of fork proposals; of restarts and cache sizes",
     "the tests append two epochs in order and read them back",
     ["core/executor/src/system_contract/metadata/mod.rs", "core/executor/src/system_contract/metadata/store.rs", "core/executor/src/system_contract/metadata/handle.rs", "core/executor/src/system_contract/metadata/segment.rs"],
     [("calls", "core/executor/src/system_contract/metadata/mod.rs: MetadataContract"), ("epochs", "core/executor/src/system_contract/metadata/segment.rs: EpochSegment"), ("reads", "core/executor/src/system_contract/metadata/handle.rs: MetadataHandle")],
     ["MetadataHandle", "transaction responses"], "h-core", EVM_NOTE)

prop("P33", "Native tokens are issued and burned exactly as called, or not at all",
     "A call of the native token contract with a direction and an address adds or takes exactly the transaction's value to or from that address's balance; one that would take more than there is, or is malformed, is refused and changes no balance. Fees aside nothing else changes. Every such transaction counts once in its sender's nonce.",
     ["histories", "inputs"], "every sequence of such calls, well-formed or not, in blocks with any validators",
     "the tests issue and burn once each",
     ["core/executor/src/system_contract/native_token.rs", "core/executor/src/system_contract/mod.rs"],
     [("issue and burn", "core/executor/src/system_contract/native_token.rs: NativeTokenContract")],
     ["balances and nonces", "transaction responses"], "h-core", EVM_NOTE)

prop("P34", "The image of CKB's cells and headers holds exactly what was relayed",
     "After any sequence of updates and rollbacks of cells and headers, contracts and CKB-VM programs see exactly the cells and headers added and not taken back, each with exactly the output, data, data hash, header fields and extension relayed, and no other. Taking back what is not there is refused and changes nothing. Both contracts always have the same root, and every earlier state keeps its own image.",
     ["histories"], "every history of updates and rollbacks, with restarts, any cache size and any field values CKB can have",
     "the tests add and take back one or two fixed cells and headers",
     ["core/executor/src/system_contract/image_cell/store.rs", "core/executor/src/system_contract/ckb_light_client/store.rs", "core/executor/src/system_contract/mod.rs", "core/executor/src/precompiles/get_header.rs"],
     [("cells", "core/executor/src/system_contract/image_cell/store.rs: ImageCellStore"), ("headers", "core/executor/src/system_contract/ckb_light_client/store.rs: CkbLightClientStore"), ("what programs see", "core/executor/src/system_contract/mod.rs: DataProvider")],
     ["DataProvider", "GetHeader precompile"], "h-core", EVM_NOTE)

prop("P35", "The built-in contracts compute what Ethereum and CKB specify, at their gas price",
     "The built-in contracts at their fixed addresses return exactly what the specifications say: key recovery, SHA-256, RIPEMD-160, copying, modular powers, the alt_bn128 curve and BLAKE2 as in Ethereum; CKB's hash, CKB Merkle proofs and CKB programs as in CKB. They take exactly the gas specified, fail with less, and refuse any input that is invalid, without disturbing the node.",
     ["all inputs"], "every input, valid or not, of any length, with any gas",
     "the tests run a few fixed vectors",
     ["core/executor/src/precompiles/mod.rs", "core/executor/src/precompiles/*.rs"],
     [("Ethereum's", "core/executor/src/precompiles/mod.rs: build_precompile_set"), ("programs", "core/executor/src/precompiles/call_ckb_vm.rs: CallCkbVM"), ("CKB proofs", "core/executor/src/precompiles/ckb_mbt_verify.rs: CMBTVerify")],
     ["output and gas of calls to the built-in contracts"], "h-core", EVM_NOTE)

prop("P25", "The pool packages exactly what it accepted, each sender's in the order of nonces",
     "After any history of insertions, packagings, block commits and passing time, the pool packages only accepted transactions that are neither committed nor timed out, each at most once and each sender's in the order of nonces without gaps; it packages no more than the number and gas asked for, and no transaction that could be packaged is left out while there is room. Every transaction asked for by hash comes back as itself in the order asked, from the pool, from storage or pulled from the network, where an answer that is not what was asked for is refused. A transaction inserted twice, or into a full pool, is refused; a removed one can come again.",
     ["histories", "schedules"], "every history of those operations by any number of senders, with any gas limits and prices, pool sizes and timeouts, and any answers of other nodes",
     "the tests insert and package independent transactions in a fresh pool",
     ["core/mempool/src/lib.rs", "core/mempool/src/pool.rs", "core/mempool/src/tx_wrapper.rs", "core/mempool/src/adapter/message.rs"],
     [("pool", "core/mempool/src/pool.rs: PriorityPool"), ("pending queues", "core/mempool/src/tx_wrapper.rs: PendingQueue"), ("asked for by hash", "core/mempool/src/lib.rs: MemPoolImpl::get_full_txs")],
     ["MemPool::package", "MemPool::get_full_txs", "MemPool::flush"], "h-core",
     "Search over histories against a model of the pool with virtual time; the network and the storage are stand-ins in memory.")

prop("P26", "A transaction is pooled exactly if its signature, chain and account allow it",
     "A transaction that comes by RPC, by gossip or pulled from a peer enters the pool exactly if its signature is its sender's for its hash (an interoperation signature: if its verification programs on CKB-VM accept), its chain id is the node's, its gas limit and price are within bounds, it covers its intrinsic gas, and its sender's nonce and balance in the latest state allow it; otherwise it is refused and nothing of it stays. A transaction accepted by RPC is sent to the peers, exactly once and as it was; peers that gave wrong ones are reported.",
     ["histories", "inputs"], "every transaction of every type and signature kind, valid or with anything wrong, in any order and batch, on any state, before and after blocks",
     "the tests check one valid and a few invalid signatures on a stand-in adapter",
     ["core/mempool/src/adapter/mod.rs", "core/mempool/src/adapter/message.rs", "core/mempool/src/lib.rs"],
     [("checks", "core/mempool/src/adapter/mod.rs: DefaultMemPoolAdapter"), ("gossip", "core/mempool/src/adapter/message.rs: NewTxsHandler")],
     ["MemPool::insert", "messages sent"], "h-core",
     "Search against a model of the rules on the real executor's states; the network is a stand-in that records messages.")

prop("P27", "The consensus WAL gives back the last state written, wherever the process died",
     "After any sequence of writes and at whatever step of one the process dies, the next start reads the last state written completely (or the one being written), and the node can go on writing; however many restarts follow, it neither hangs nor returns anything that was not written. Files that are damaged are passed over for the newest one that is whole.",
     ["histories", "crashes"], "every history of writes, restarts and deaths at any file operation, with contents of any size, and files cut short or damaged",
     "the tests write a few states and read them back without a crash",
     ["core/consensus/src/wal.rs"],
     [("consensus WAL", "core/consensus/src/wal.rs: ConsensusWal")],
     ["ConsensusWal::load_last_wal", "ConsensusWal::update_overlord_wal"], "h-core",
     "Search over histories with a fault at each file operation; a crash is the death of the process (what it wrote stays), not a loss of power.")

prop("P28", "The transactions WAL gives back each block's transactions whole, or nothing",
     "After any sequence of saves and removals and at whatever step of one the process dies, loading a block by number and transactions root gives exactly the transactions saved under them, in order, or an error, never fewer, more or another's; what was saved completely and not removed is there; removing blocks up to a number keeps all later ones.",
     ["histories", "crashes"], "every history of saves, loads, removals and restarts of several proposals per number with any roots, and death at any file operation",
     "the tests save, load and remove fixed blocks without a crash",
     ["core/consensus/src/wal.rs"],
     [("transactions WAL", "core/consensus/src/wal.rs: SignedTxsWAL")],
     ["SignedTxsWAL::save", "SignedTxsWAL::load", "SignedTxsWAL::remove"], "h-core",
     "Search over histories with a fault at each file operation; a crash is the death of the process (what it wrote stays), not a loss of power.")

prop("P29", "A validator proposes correctly on its chain and refuses every wrong proposal",
     "The proposal a validator makes names the block, state root and proof it has last, exactly the transactions the pool gave it under the limits in force, their roots, its own address, the present time and the hard fork it wants until the chain has it. A validator that has the block before takes such a proposal of another exactly if its number, previous hash and state root, time, gas limit, roots, hard fork and transactions are right and its proof bears the signatures of more than two thirds of that block's voting weight; it refuses every other, and what it takes it can commit after a restart.",
     ["histories", "inputs"], "every chain of blocks with any transactions, validators, weights and epochs, and every field of a proposal changed",
     "the tests check only the comparison of timestamps",
     ["core/consensus/src/engine.rs", "core/consensus/src/adapter.rs"],
     [("proposing", "core/consensus/src/engine.rs: ConsensusEngine::get_block"), ("checking", "core/consensus/src/engine.rs: ConsensusEngine::check_block"), ("proofs", "core/consensus/src/adapter.rs: verify_proof")],
     ["ConsensusEngine::get_block", "ConsensusEngine::check_block"], "h-core",
     "Search over chains and changed proposals on the real engine, adapter, executor and storage; pool and network are stand-ins, overlord's own protocol is not run.")

prop("P40", "Every node that commits the same blocks has the same chain, whatever crashes",
     "Committing an agreed proposal stores its block, transactions, receipts and proof as executing it alone on the block before gives, tells pool, network and consensus the limits, validators and intervals in force for the next block, and only then is the block the latest. A node that dies at any write of a commit comes up with the block before or after and, committing again, has the same chain as all others; blocks committed twice change nothing, and blocks out of order or whose transactions are not to be had are refused and change nothing.",
     ["histories", "crashes"], "every history of commits, restarts and deaths at any write of the data base, over epochs, config updates and hard forks",
     "the tests of the engine are switched off; nothing tests a commit",
     ["core/consensus/src/engine.rs", "core/consensus/src/adapter.rs", "core/storage/src/lib.rs"],
     [("commit", "core/consensus/src/engine.rs: ConsensusEngine::commit, update_status")],
     ["ConsensusEngine::commit", "what storage and status say afterwards"], "h-core",
     "Search over histories with a fault at each write of the data base, against a replica that only executes; pool and network are stand-ins. A crash is the death of the process.")

prop("P41", "Synchronization gives a node exactly its peers' chain, whatever some answer",
     "A node that asks peers for blocks it lacks ends, if they answer rightly, with exactly their chain (blocks, transactions, receipts, proofs) and with the limits, validators and intervals of the next block, also across epochs, and can go on proposing and committing. If an answer is wrong in anything, it refuses that block and keeps those before. What it answers itself to requests for blocks, proofs and transactions is what it has.",
     ["histories", "inputs"], "every chain, every point to start from, every wrong answer to every request, over epochs, config updates and restarts",
     "the tests synchronize an empty block from a stand-in that verifies nothing",
     ["core/consensus/src/synchronization.rs", "core/consensus/src/adapter.rs", "core/consensus/src/message.rs"],
     [("synchronization", "core/consensus/src/synchronization.rs: OverlordSynchronization"), ("answers", "core/consensus/src/message.rs: PullBlockRpcHandler, PullProofRpcHandler, PullTxsRpcHandler")],
     ["OverlordSynchronization::receive_remote_block", "what storage and status say afterwards"], "h-core",
     "Search over chains and tampered answers against a replica that only executes; the network is a stand-in that hands requests to the real handlers of another node.")

prop("P39", "The JSON-RPC service shows blocks and transactions exactly as committed",
     "Every block, transaction and receipt asked for by number, hash, index or name (latest, earliest, pending) is answered with exactly what was committed: every field, the logs with their positions, gas used up to it, the price paid; the transaction that the answer describes has the hash it names. Transactions waiting in the pool are shown without a block. Blocks, proofs, proposals, validators and hard forks in the node's own form are those in force at the height asked for. What does not exist is null or an error, never something else.",
     ["histories", "inputs"], "every chain of executed blocks and every way to name a block or transaction on it",
     "the repository's tests of the service need a running node and sample a few calls",
     ["core/api/src/jsonrpc/impl/web3.rs", "core/api/src/jsonrpc/impl/axon.rs", "core/api/src/jsonrpc/web3_types.rs", "core/api/src/adapter.rs"],
     [("eth_ blocks, transactions, receipts", "core/api/src/jsonrpc/impl/web3.rs"), ("axon_", "core/api/src/jsonrpc/impl/axon.rs"), ("JSON forms", "core/api/src/jsonrpc/web3_types.rs")],
     ["answers of the JSON-RPC methods"], "h-core",
     "Search over chains executed and stored by the real executor and storage; the service runs over the real adapter, the answers are compared with the model's JSON. The HTTP transport is a stand-in.")

prop("P42", "State queries and calls answer from exactly the block asked for",
     "Balance, nonce, code, storage slots and proofs asked for at a block are those of the state after that block, proofs verify under its state root, and the pending nonce counts the pool's transactions. eth_call gives the output (or revert data and message) of executing the call on that state, eth_estimateGas a limit that follows from the gas used, and neither changes anything. A query for a block that is not there is an error, and limits on gas and price are kept. Nothing panics.",
     ["histories", "inputs"], "every chain, every account and slot, every block named in any way, every call",
     "the repository's tests call a running node with a few accounts at the latest block",
     ["core/api/src/jsonrpc/impl/web3.rs", "core/api/src/adapter.rs", "core/executor/src/lib.rs"],
     [("queries and calls", "core/api/src/jsonrpc/impl/web3.rs"), ("state at a block", "core/api/src/adapter.rs")],
     ["eth_getBalance", "eth_getTransactionCount", "eth_getCode", "eth_getStorageAt", "eth_getProof", "eth_call", "eth_estimateGas"], "h-core",
     "Search; states, proofs and calls come from the reference model of the executor and a reference trie.")

prop("P43", "Log queries, filters and subscriptions tell each event exactly once",
     "eth_getLogs gives exactly the logs of the blocks asked for that match address and topics, in order and with their positions; a range beyond the configured one is refused. A filter's successive polls give every new block or matching log exactly once, in order; an unknown or removed filter is an error and leaves the others alone. Each subscriber is sent every new head or matching log exactly once, in order, until it unsubscribes.",
     ["histories", "schedules"], "every history of blocks, filters, polls, subscriptions and their ends, with any addresses and topics",
     "nothing tests filters or subscriptions; the logs of a running node are sampled once",
     ["core/api/src/jsonrpc/impl/filter.rs", "core/api/src/jsonrpc/ws_subscription.rs", "core/api/src/jsonrpc/impl/web3.rs"],
     [("filters", "core/api/src/jsonrpc/impl/filter.rs"), ("subscriptions", "core/api/src/jsonrpc/ws_subscription.rs"), ("logs", "core/api/src/jsonrpc/impl/web3.rs: get_logs")],
     ["eth_getLogs", "eth_newFilter", "eth_getFilterChanges", "eth_subscribe"], "h-core",
     "Search over histories in paused time, against a list of all logs.")

prop("P44", "Any request is answered: wrong ones refused, right ones taken as sent",
     "A raw transaction is handed to the pool exactly as signed, with its sender, when it decodes, its signature is valid and its gas limit and price are within bounds, and is refused otherwise; its hash is answered. The fee history covers exactly the blocks asked for. Whatever the parameters of a request, the service answers, never panics, and goes on answering. Chain, version, peers, synchronization are those of the node.",
     ["inputs"], "every transaction, every fee history asked for, every request with parameters of any JSON shape",
     "nothing sends malformed parameters or transactions at the limits",
     ["core/api/src/jsonrpc/impl/web3.rs", "core/api/src/jsonrpc/impl/node.rs", "core/api/src/jsonrpc/mod.rs"],
     [("admission", "core/api/src/jsonrpc/impl/web3.rs: send_raw_transaction"), ("fee history", "core/api/src/jsonrpc/impl/web3.rs: fee_history"), ("about the node", "core/api/src/jsonrpc/impl/node.rs")],
     ["answers of the JSON-RPC methods", "what the pool is given"], "h-core",
     "Search; pool and network are stand-ins.")

prop("P45", "Whole nodes agree on one chain and lose nothing, whatever crashes or delays",
     "Nodes started from one chain specification build one chain: at no height do two nodes ever have different blocks, and a block that a node has told of is never lost, whichever nodes are killed and started again, and whatever messages are lost, repeated, delayed or kept apart. Once all nodes run and reach each other, they catch up and go on; every valid transaction sent to any of them is in exactly one block, with the same successful receipt everywhere, a sender's in the order of its nonces, within the limit then in force. Validators and limits change exactly at the ends of epochs, also when nodes restart right there; each block's proposer is a validator of its epoch and its proof verifies. No node ends by itself, but one told to stop at a height stops there.",
     ["inputs", "schedules", "crash points", "histories"], "every set of one to five nodes, sequence of epochs with their validators, weights and limits, history of transactions, kills, restarts, partitions, losses, repeats and delays, and height to stop at",
     "the tests start no node",
     ["core/run/src/lib.rs", "core/consensus/src/engine.rs", "core/consensus/src/synchronization.rs", "core/consensus/src/consensus.rs", "core/consensus/src/wal.rs", "core/mempool/src/lib.rs", "core/storage/src/lib.rs"],
     [("starting a node", "core/run/src/lib.rs: start"), ("consensus", "core/consensus/src/engine.rs"), ("catching up", "core/consensus/src/synchronization.rs"), ("stopping at a height", "core/consensus/src/stop_signal.rs")],
     ["the JSON-RPC answers of every node", "that its process runs"], "h-node",
     "Search over histories of real processes that run core/run with the real consensus library (overlord), pool, executor, storage and API. The network and the database are stand-ins (messages pass through the check; the database is a file that survives a killed process, not a power cut), and so is the JSON-RPC server. Time is real, so a replay repeats the history but not each message's exact moment. All nodes follow the protocol: none lies.")

prop("P46", "The command line makes, keeps and refuses what it says",
     "generate-keypair writes as many pairs of fresh keys as asked for, to the files it names, and prints what follows from them (public keys, address); recover-keypair prints the same from the files, and refuses files that hold no keys. A data directory records the version that last used it: init and run refuse data of a version before 0.1.0-beta.1 (in the order of versions, whatever the build) and leave it as it is, and otherwise record their own. Nothing runs without init, and init is done once. `run --mine-blocks n` ends after exactly n more blocks and --mine-to-height at exactly that height, and what a node had written is there when it starts again, also after being killed. `hardfork` takes a start above the chain's height and no other; a fork that is taken is kept over restarts, is accepted by the chain's next blocks, and is on exactly from its start; asking again changes nothing.",
     ["inputs", "histories", "crash points"], "every content of key files and of the version file, every version, and every sequence of runs, kills and hard forks asked for",
     "the tests generate one pair of keys and compare a few versions",
     ["core/cli/src/args/*.rs", "core/cli/src/utils.rs", "core/run/src/lib.rs", "common/version/src/lib.rs", "core/consensus/src/stop_signal.rs", "core/api/src/jsonrpc/impl/axon.rs"],
     [("key files", "core/cli/src/args/generate_keypair.rs, recover_keypair.rs"), ("version of the data", "core/cli/src/utils.rs: check_version"), ("hard forks", "core/run/src/lib.rs: set_hardfork_info"), ("when to stop", "core/consensus/src/stop_signal.rs")],
     ["what a command prints and its exit status", "the files it writes", "axon_getHardforkInfo, eth_blockNumber, eth_getBlockByNumber of a running node"], "h-node",
     "Search over commands, each a real process of the real command line; the network, the database, the JSON-RPC server and secio's key type are stand-ins as in P45. One validator per chain here; the peer id printed is not checked.")

NET_NOTE = "Search over histories on the real core/network; the transport below it (tentacle), its message framing (prost, snap) and the clock are stand-ins."

prop("P36", "Messages between nodes arrive as they were sent, where they were sent, and once",
     "A message gossiped, multicast or sent in answer to a call reaches exactly the peers it is for, each at most once, at the handler registered for its endpoint, with the content as sent, however long or compressible; one for a peer that is not connected is kept from others. A call returns the answer of the peer called (or its error), never that of another call, and ends in an error when none comes. Whatever bytes a peer sends, the node goes on; what does not decode is dropped or ends that peer's session only.",
     ["histories", "schedules"], "every history of messages, calls, answers in any order or twice, connections and their ends between nodes, and any bytes from a peer",
     "the tests decode a fixed header and endpoint names; nothing tests delivery",
     ["core/network/src/outbound/*.rs", "core/network/src/reactor.rs", "core/network/src/rpc.rs", "core/network/src/message/*.rs", "core/network/src/protocols/transmitter/*.rs", "core/network/src/compress.rs", "core/network/src/endpoint.rs"],
     [("gossip and multicast", "core/network/src/outbound/gossip.rs: NetworkGossip"), ("calls", "core/network/src/outbound/rpc.rs: NetworkRpc"), ("delivery", "core/network/src/reactor.rs"), ("compression", "core/network/src/compress.rs")],
     ["Gossip::broadcast, multicast", "Rpc::call, response", "MessageHandler::process"], "h-net", NET_NOTE)

prop("P37", "A node is connected to whom its limits, bans and lists allow, and to nobody else",
     "Whatever connects, leaves and misbehaves, a session is let in exactly if there is room for its direction and its address is not banned, or its peer is a bootstrap or consensus peer. Peers of another chain, peers that identify themselves twice or wrongly, break a protocol, answer pings that were not sent or flood addresses are disconnected; a banned peer is disconnected and stays out until the ban ends; others stay. The node dials as many known peers as it has room for and none it is connected to, and looks for consensus peers it misses. It tells peers reachable addresses only, not more than asked for.",
     ["histories", "inputs"], "every history of sessions, identifications, bans, tags, pings, discovery messages and dials that fail or succeed, at any time",
     "the tests cover parts of discovery's address manager; nothing tests limits, bans or dialing",
     ["core/network/src/service.rs", "core/network/src/peer_manager/mod.rs", "core/network/src/protocols/*.rs", "core/network/src/protocols/*/*.rs"],
     [("limits and bans", "core/network/src/service.rs: ServiceHandler::handle_event"), ("dialing", "core/network/src/service.rs: NetworkService::run"), ("identification", "core/network/src/protocols/identify/mod.rs"), ("discovery", "core/network/src/protocols/discovery/mod.rs"), ("pings", "core/network/src/protocols/ping/mod.rs")],
     ["sessions ended and dialed", "PeerManager", "Network::tag, untag, peer_count"], "h-net", NET_NOTE)

prop("P38", "A node remembers its peers' addresses and bans, whatever it hears",
     "After any history of addresses heard of, reached, tried, banned and replaced, the node knows one entry per address with the newest peer, when it was reached and how often tried; bans hold until they end. Addresses given to dial, to probe or to hand on are known, fit the rule for each (not connected, reached within days, not hopeless), have distinct IPs, and are as many as asked for if so many fit. Stored and loaded again everything is the same; failed stores and damaged files do no harm; a full store makes room by dropping hopeless addresses before others and never grows over its limit.",
     ["histories", "inputs"], "every history of those operations with time passing, addresses shared and changing peers, and files damaged",
     "the tests check single operations on stores of a few addresses",
     ["core/network/src/peer_manager/peer_store/*.rs", "core/network/src/peer_manager/mod.rs"],
     [("addresses", "core/network/src/peer_manager/peer_store/addr_manager.rs: Manager"), ("rules", "core/network/src/peer_manager/peer_store/peer_store_impl.rs: PeerStore"), ("bans", "core/network/src/peer_manager/peer_store/ban_list.rs: BanList"), ("files", "core/network/src/peer_manager/peer_store/peer_store_db.rs")],
     ["PeerStore", "PeerManager"], "h-net", "Search over histories against a model, with the clock set by the check.")
