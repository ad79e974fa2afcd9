#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Wire encoding of transactions and containers is exact and reversible",
 "Serialising any transaction (or any of its parts, integers, byte strings, vectors, hashes, booleans, scripts, signature preimages) produces exactly the Bitcoin Cash wire layout: fixed-width little-endian integers, shortest-form compact-size lengths, raw hashes, fields in protocol order. Deserialising those bytes gives back an equal value and leaves every following byte untouched, and strict deserialisation rejects trailing bytes. The transaction hash is double-SHA256 of exactly that encoding.",
 ["inputs"],"every value of every wire type, every trailing byte string, all compact-size length classes",
 "Unit tests hold one real transaction and a few length boundaries; the claim is over all values, field widths and length classes and their combinations.",
 ["bitcoin-cash/src/bitcoin_code.rs","bitcoin-cash/src/tx.rs","bitcoin-cash/src/serializer.rs","bitcoin-cash-base/src/encoding_utils.rs","bitcoin-cash/src/script.rs","bitcoin-cash/src/hash.rs"],
 [("BitcoinCode impls and Vec/ByteArray length prefixes","bitcoin-cash/src/bitcoin_code.rs"),("compact-size read/write","bitcoin-cash-base/src/encoding_utils.rs"),("derived field order","bitcoin-cash/src/tx.rs")],
 ["BitcoinCode::ser","BitcoinCode::deser","BitcoinCode::deser_rest","UnhashedTx::hashed","encode_bitcoin_code_all / decode_bitcoin_code_all"])
p("C02","Malformed wire bytes are rejected with an error, never a crash",
 "Decoding arbitrary bytes as any wire type (transaction, input, output, outpoint, vectors, byte strings, integers, scripts, user structs) always terminates with either a value or an error: no panic, abort, hang or allocation proportional to an unbacked length. It returns a value exactly when the bytes begin with a complete encoding of that type, where length prefixes may be in any of the four compact-size forms, and reports truncation as an error.",
 ["inputs"],"every byte string offered to every decoder, including truncated encodings and huge declared lengths",
 "Tests feed only well-formed input; the hostile space (truncation at each offset, 2^64 lengths, nested containers) is never sampled.",
 ["bitcoin-cash/src/bitcoin_code.rs","bitcoin-cash-base/src/encoding_utils.rs","bitcoin-cash-base/src/byte_array.rs","bitcoin-cash/src/script.rs"],
 [("checked split before every read","bitcoin-cash-base/src/byte_array.rs split"),("read_size / read_var_int","bitcoin-cash/src/bitcoin_code.rs")],
 ["BitcoinCode::deser_rest result kind for every type"])
p("C03","Parsing a script and re-serialising it reproduces the bytes; parsers agree",
 "Parsing any script byte string yields the operation list dictated by Bitcoin script push rules (direct, PUSHDATA1/2/4 pushes, every other byte an opcode or an invalid byte) and fails exactly on a truncated push. The two parsers give the same answer for the same bytes, and re-serialising the parsed script reproduces the original bytes, so that a decoded transaction keeps its hash. Parsing also keeps whether each push was written in its minimal form.",
 ["inputs"],"every byte string as a script, including non-minimal pushes, unassigned opcodes and truncated pushes",
 "Existing tests parse a handful of standard scripts; none covers non-minimal or truncated pushes systematically.",
 ["bitcoin-cash/src/script.rs","bitcoin-cash-base/src/op.rs","bitcoin-cash-base/src/opcode.rs"],
 [("deserialize_ops / deserialize_ops_byte_array","bitcoin-cash/src/script.rs"),("is_minimal flag","bitcoin-cash/src/script.rs")],
 ["deserialize_ops","deserialize_ops_byte_array","Script::deser_ops","Script::ser_ops","serialize_ops"])
p("C04","Pushes of numbers, booleans and byte strings use the exact push encoding",
 "A script number pushes as the one-byte opcode for -1..16 and otherwise as a length-prefixed shortest sign-magnitude little-endian string; booleans push as the 0/1 opcodes; a byte string marked minimal uses the shortest push possible and one not marked minimal keeps an explicit length prefix. Reading a number back from any such push gives the original number. A pushed byte string is never read as a number different from the one it denotes.",
 ["inputs"],"every script integer in -(2^31-1)..2^31-1, every byte string and both minimality flags",
 "Tests check a few dozen boundary numbers; the claim is over the full 32-bit range and every data length class.",
 ["bitcoin-cash/src/script.rs","bitcoin-cash-base/src/encoding_utils.rs","bitcoin-cash-base/src/op.rs","bitcoin-cash-base/src/data_type.rs"],
 [("serialize_op / serialize_push_prefix","bitcoin-cash/src/script.rs"),("encode_int / vec_to_int / encode_minimally","bitcoin-cash-base/src/encoding_utils.rs"),("Op::to_integer","bitcoin-cash-base/src/op.rs")],
 ["serialize_op","Op::to_integer","encode_int","vec_to_int","encode_minimally","encode_bool"])
p("C05","Script integer arithmetic never leaves its range and errors are sticky",
 "Every arithmetic, bitwise and negation operation on script integers yields the mathematically exact result when it lies within plus or minus 2^31-1 and otherwise an error; division and modulo truncate towards zero and fail on a zero divisor; shifts act on the 32-bit two's complement pattern (right shifts copy the sign) and fail for counts above 31 or when the result is -2^31; no operation panics. Once a computation has failed, every later operation on it stays failed. Conversions from and to native integer types and comparison follow the numeric value and fail exactly when the value does not fit; a failed result compares equal to nothing.",
 ["inputs","histories"],"all operand pairs and all chains of operations, including chains through an error",
 "Tests enumerate a few boundary sums per operator; chains and the mixed-type conversions are barely sampled.",
 ["bitcoin-cash-base/src/integer.rs"],
 [("Integer::new range check","bitcoin-cash-base/src/integer.rs"),("IntegerResult::op/unop","bitcoin-cash-base/src/integer.rs")],
 ["operators on Integer / IntegerResult","Integer::new","UInteger::new","TryFrom/From conversions"])
p("C06","Byte array data and its recorded derivation always stay consistent",
 "Concatenating, splitting, naming, hashing and number-padding annotated byte arrays always produce exactly the bytes the plain operation would, whatever annotations they carry. The recorded derivation follows: a concatenation records its parts (plain parts flattened), a hash or signature records the array it was computed from, and a plain array with recorded parts has data equal to the concatenation of those parts through any sequence of splits and concatenations. Splitting past the end and number padding that does not fit fail cleanly.",
 ["histories","inputs"],"every sequence of concat, split, name, hash, apply and pad operations",
 "Tests exercise single concat/split calls; the derivation invariant must survive arbitrary compositions.",
 ["bitcoin-cash-base/src/byte_array.rs","bitcoin-cash/src/hash.rs"],
 [("concat_named_option / split / apply_function / from_int","bitcoin-cash-base/src/byte_array.rs")],
 ["ByteArray::{data,name,function,preimage}"],
 [("ByteArray","bytes + name + function + preimage tree","bitcoin-cash-base/src/byte_array.rs")])
p("C07","The transaction builder conserves value and honours leftover bounds",
 "Building fails with the missing amount exactly when the fixed outputs exceed the inputs; otherwise the outputs keep declaration order, fixed outputs are unchanged, and outputs never total more than the inputs. Each leftover output, served in precedence order (ties by declaration), receives what remains after the size-proportional fee capped at its upper bound, and is dropped when that is not above its lower bound. A transaction carrying a leftover pays at least the configured fee rate for its estimated size, rounded down.",
 ["inputs","histories"],"every set of inputs, outputs, leftover bounds, precedences and fee rates (64-bit amounts)",
 "Only a few fixed builder scenarios are tested; the interplay of several bounded leftovers with fees and precedence is not.",
 ["bitcoin-cash/src/tx_builder.rs"],
 [("TxBuilder::build","bitcoin-cash/src/tx_builder.rs"),("make_outputs / estimate_size","bitcoin-cash/src/tx_builder.rs")],
 ["TxBuilder::build","TxBuilder::build_without_estimation","known_output_sum / input_sum","UnsignedTx::partial_tx outputs"],
 [("outputs","fixed or leftover outputs in order","TxBuilder")])
p("C08","Inputs are signed exactly once and partial signing equals one-shot signing",
 "Each input of an unsigned transaction can be signed exactly once by any of the signing entry points; a second attempt fails with the already-signed error for that input and changes nothing, and completion requires every input to be signed. The unlocking script is what the signatory builds from that input's own preimages, lock script, size estimate and the final outputs, followed by a push of the locking script for P2SH inputs only. Signing in any order, or handing the partial transaction over (directly or through JSON) to another party who continues, gives the same transaction as signing everything at once, and a builder made from any transaction keeps what its inputs say (script, value, lock script, flags) (for signatories whose script does not depend on the size estimate).",
 ["histories","schedules"],"every order of signing operations, entry points and partial hand-overs over several inputs",
 "Tests sign one or two inputs in a fixed order; the claim is over all interleavings and repetitions.",
 ["bitcoin-cash/src/tx_builder.rs","bitcoin-cash/src/scripts.rs"],
 [("sign_input / sign_input_dyn / sign_input_signatory","bitcoin-cash/src/tx_builder.rs"),("partial_tx / from_tx / complete_tx","bitcoin-cash/src/tx_builder.rs")],
 ["UnsignedTx signing methods","UnsignedTx::partial_tx","UnsignedTx::complete_tx","TxBuilder::from_tx"],
 [("inputs","signed input or none, per index","UnsignedTx")])
p("C09","Signature preimages commit to exactly what the sighash flags say",
 "For every input and flag combination the preimage is the replay-protected BIP143-style structure: version, outpoints hash (zero with ANYONECANPAY), sequences hash (zero with ANYONECANPAY, SINGLE or NONE), this outpoint, the script code after the first code separator, this value and sequence, outputs hash (all; only the same-index output for SINGLE; zero for NONE or a missing index), lock time and the 32-bit flag value. Preimages computed by the builder, by the built unsigned transaction and by a completed transaction are equal. Each flag requested for an input gets its own preimage, in order. The script code of the n-th code separator is what follows that separator, and the named flags have their consensus values.",
 ["inputs"],"every transaction shape, input index and sighash flag combination",
 "No vector test covers flag combinations other than the default; errors there only show as unspendable or replayable coins.",
 ["bitcoin-cash/src/tx_preimage.rs","bitcoin-cash/src/tx.rs","bitcoin-cash/src/tx_builder.rs","bitcoin-cash/src/script.rs"],
 [("TxPreimage::build_preimages","bitcoin-cash/src/tx_preimage.rs"),("to_script_code_first / to_script_code","bitcoin-cash/src/script.rs"),("SigHashFlags","bitcoin-cash/src/tx_preimage.rs")],
 ["UnhashedTx::preimages","UnsignedTx::preimages","UnsignedTx::input_preimages"])
p("C10","Transactions survive the JSON format with every annotation intact",
 "Converting any transaction to the JSON exchange format and back yields an identical transaction: the same wire bytes, the same operations including push-minimality, debugging source locations and stack names, optional spending data (lock script, value, P2SH flag, sighash flags), and for every pushed byte string and outpoint hash the same data, name, function and derivation tree (of up to 512 levels). The JSON text is deterministic and re-encoding a decoded text gives an equal text. The serde forms of the individual data types (human readable and binary) also round trip: they keep the data of the value; byte array annotations (name, derivation) are not part of those, and a script comes back as the operations its wire bytes stand for.",
 ["inputs"],"every transaction with every combination of optional fields, operation kinds and annotation trees",
 "A single round trip of one sample is tested; sharing of strings/byte arrays and option combinations is not.",
 ["bitcoin-cash/src/serialize_json.rs","bitcoin-cash-base/src/byte_array.rs","bitcoin-cash/src/script.rs","bitcoin-cash/src/pubkey.rs","bitcoin-cash-base/src/integer.rs"],
 [("JsonTx / JsonData interning tables","bitcoin-cash/src/serialize_json.rs"),("serde impls","several")],
 ["tx_to_json","json_to_tx","serde_json of each type"])
p("C11","Hostile JSON or serde input is rejected with an error, never a crash",
 "Decoding any text as the JSON transaction format, or any JSON value as one of the library's data types (script, byte array, hash, public key, address, integer), terminates with a value or an error, never a panic, stack overflow or hang. Out-of-range or cyclic references, wrong-length hashes, invalid hex or base64, and out-of-range integers are errors. References that are valid decode to exactly the referenced data.",
 ["inputs"],"every JSON document, in particular every mutation of a valid one",
 "Tests never decode an invalid document.",
 ["bitcoin-cash/src/serialize_json.rs","bitcoin-cash-base/src/byte_array.rs","bitcoin-cash/src/address.rs","bitcoin-cash/src/pubkey.rs"],
 [("index checks in get_byte_array/get_string","bitcoin-cash/src/serialize_json.rs"),("Deserialize impls","bitcoin-cash-base/src/byte_array.rs")],
 ["json_to_tx result kind","serde_json::from_str result kind"])
p("C12","CashAddr text and (prefix, type, hash) are in exact correspondence",
 "Encoding a lower-case prefix (without a colon), address type and 20-byte hash gives the CashAddr text with the standard version byte, base32 alphabet and 40-bit checksum; decoding it, with the prefix or without it when it is the default one, and in upper case, returns the same parts; mixed letter case is refused. Decoding accepts a text only if its checksum verifies for its prefix, its type is known and its payload is exactly one 20-byte hash; in particular any change of one to five of the characters after the colon (letter case aside) is rejected. Any other text gives an error, never a panic. Owned copies, the same hash under another prefix and both serde forms keep or replace exactly these parts.",
 ["inputs"],"every prefix, type and hash; every text, in particular every small corruption of a valid address",
 "Four zero-hash vectors are tested; no corruption, length or malformed-payload case is.",
 ["bitcoin-cash/src/address.rs"],
 [("_to_cash_addr / _from_cash_addr / _poly_mod / _convert_bits","bitcoin-cash/src/address.rs")],
 ["Address::from_hash","Address::from_cash_addr","Address::with_prefix","Address accessors"])
p("C13","Addresses, locking scripts and destinations agree with each other",
 "The locking script of an address is the standard P2PKH or P2SH script of its hash, and classifying that script gives back the same address; an address made from a public key or redeem script uses the hash of exactly those bytes. Classifying any script is total: exact P2PKH, P2SH, pay-to-pubkey and OP_RETURN templates are recognised with their contents and everything else is unknown. A P2PKH unlocking script is recognised exactly when it is two pushes, a non-empty signature ending in a sighash byte made of defined flag bits only and a 33-byte key.",
 ["inputs"],"every address and every script, including near-miss templates",
 "No test covers classification at all, so near misses (wrong hash length, extra opcode) are never sampled.",
 ["bitcoin-cash/src/destination.rs","bitcoin-cash/src/scripts.rs","bitcoin-cash/src/address.rs","bitcoin-cash/src/pubkey.rs"],
 [("script_destination / script_p2pkh_spend","bitcoin-cash/src/destination.rs"),("Into<Script> for Address","bitcoin-cash/src/scripts.rs")],
 ["script_destination","script_p2pkh_spend","Address::into Script","Address::from_pk","Address::from_redeem_script"])
p("C14","The script macro emits exactly the source order and checks the stack",
 "A script function accepted by the script macro produces exactly the opcodes and pushes its statements list, in source order, inside and outside nested conditional branches, with the values of its parameters. With variants, each variant's stack is tracked through exactly the branches whose conditions it satisfies, and the input value of a variant pushes exactly the inputs declared for it, in order, with their values. The macro tracks the stack and alternative stack at compile time and rejects a function whose named operands, operand types, output counts, alternative-stack use or branch structure do not match what the opcodes do; a function that matches is accepted. The names recorded after each operation equal the tracked stack, and each operation records the source text of its own statement; with debug information switched off nothing is recorded and the operations are the same.",
 ["programs"],"every script function built from pushes, opcodes, stack manipulation, conditionals and variants",
 "About a dozen accepted sample functions are compiled in tests; no rejected program and no nested conditional is checked.",
 ["bitcoin-cash-script-macro/src/generate.rs","bitcoin-cash-script-macro/src/parse.rs","bitcoin-cash-script-macro/src/state.rs","bitcoin-cash-script-macro/src/ir.rs","bitcoin-cash-base/src/opcode.rs"],
 [("parse_stmts / parse_op_if","bitcoin-cash-script-macro/src/parse.rs"),("GenerateScript forward pass","bitcoin-cash-script-macro/src/generate.rs"),("VariantStates","bitcoin-cash-script-macro/src/state.rs")],
 ["compile result of a generated crate","ops() of the generated script and inputs"],
 [("states","abstract stack / alt stack per variant","bitcoin-cash-script-macro/src/state.rs")])
p("C15","The opcode table matches the consensus opcode numbers and stack effects",
 "Every opcode has its consensus byte value and converts to and from it without loss, bytes without an opcode are reported invalid, and its name is its standard name. The static description of each opcode used for script checking (inputs consumed, outputs produced, their types, how items are moved between positions, and alternative stack effects) equals the effect of executing that opcode on a stack machine.",
 ["inputs","configurations"],"all 256 byte values and every opcode with a static stack effect, on every stack of sufficient depth",
 "The table has ~190 hand-written entries and no test over it.",
 ["bitcoin-cash-base/src/opcode.rs"],
 [("enum Opcode discriminants","bitcoin-cash-base/src/opcode.rs"),("Opcode::behavior","bitcoin-cash-base/src/opcode.rs")],
 ["Opcode as u8","Opcode::from_u8","Opcode::behavior","opcode name"])
p("C16","SLP outputs encode exactly the token operation they were given",
 "The SLP send and genesis outputs carry zero value and a script of OP_RETURN followed by explicit length-prefixed pushes (never opcode pushes, even for empty or one-byte fields): protocol id, token type byte, transaction type, then token id in displayed byte order and the amounts as 8-byte big-endian values in order, or the genesis fields in order. Decoding the script recovers every field, and token identifiers convert to and from hashes and bytes consistently. Converting an SLP transaction to a plain one keeps its version, inputs, outputs, and lock time.",
 ["inputs"],"every token type, id, amount list and genesis parameter set",
 "The SLP crate has no tests.",
 ["bitcoin-cash-slp/src/lib.rs"],
 [("slp_send_output / slp_genesis_output / slp_amount_ops","bitcoin-cash-slp/src/lib.rs")],
 ["slp_send_output","slp_genesis_output","slp_amount_ops","TokenId","SlpTx::into_unhashed_tx"])
p("C17","Hash types compute the right digest and convert without byte-order mixups",
 "Each hash type's digest is the named function (SHA-1, RIPEMD-160, SHA-256, double SHA-256, RIPEMD-160 of SHA-256) of the message bytes and records the message as its derivation. Big-endian and little-endian hex and byte conversions are mutually inverse mirror images, display and human-readable serialisation use the little-endian hex form, and the wire form is the raw bytes. A value of the wrong length or invalid hex is an error, never a panic.",
 ["inputs"],"every message, every hash value, every hex text, for each hash type",
 "Tests check a few vectors for some types and not the full cross product of conversions and lengths.",
 ["bitcoin-cash/src/hash.rs","bitcoin-cash-base/src/byte_array.rs"],
 [("Hashed trait and impls","bitcoin-cash/src/hash.rs"),("FixedByteArray","bitcoin-cash-base/src/byte_array.rs")],
 ["Hashed methods","Display","serde forms"])
p("C18","Signing, verifying and key derivation are consistent secp256k1 ECDSA",
 "A signature made with a secret key verifies against the public key derived from it for the signed 32-byte message, and any key, message and signature verify only if the ECDSA equation holds for them (the default back end also wants a low S); so another message or key does not verify. A made signature is strict DER with a low S value, deterministic (RFC 6979), and records the message as its derivation. Derivation gives the 33-byte compressed point, normalisation keeps a signature's meaning while giving the low-S strict-DER form and is idempotent. Invalid keys, messages of another length and malformed signatures give errors, never panics or acceptance, and both back ends give the same signatures and public keys.",
 ["inputs"],"every secret key, message, public key and signature byte string",
 "The crate has no tests of its own; only the default back end is even built by the test command.",
 ["bitcoin-cash-ecc/src/c_ecc.rs","bitcoin-cash-ecc/src/rust_ecc.rs","bitcoin-cash/src/ecc.rs"],
 [("ECC trait implementations","bitcoin-cash-ecc/src")],
 ["ECC::sign","ECC::verify","ECC::derive_pubkey","ECC::normalize_sig"])
p("C19","Derived wire codecs follow the struct declaration, field by field",
 "For any struct deriving the wire codec, encoding is the concatenation of its non-skipped fields' encodings in declaration order and decoding reads them back in that order, gives skipped fields their default, and returns the unread rest. Every field that encodes as a single part is annotated with its field name. Nested, vector and differently sized integer fields compose without interference. A declaration there is no codec for (no named fields, a field type without codec, an unknown or malformed bitcoin_code attribute) does not compile.",
 ["programs","inputs"],"every struct declaration with skipped, nested, vector, integer and script fields, and every value of it",
 "Two small structs are tested.",
 ["bitcoin-cash-code/src/lib.rs","bitcoin-cash/src/bitcoin_code.rs"],
 [("serialize_macro / generate","bitcoin-cash-code/src/lib.rs")],
 ["ser / deser_rest of derived structs","preimage names of the encoding"])
p("C20","The size estimate bounds the real transaction and drives the fee",
 "The estimated size equals the exact serialised size of the transaction built with each signatory's placeholder signatures (and the real script for already signed inputs) and the chosen outputs, so when every input is signed by the signatory it was added with and with signatures no larger than the placeholders, the completed transaction is never larger than estimated; inputs taken over without a signatory count with the script they have. Consequently a built and signed transaction with a leftover output pays at least the configured rate on its actual size. The signatory is told this same estimate when it builds its final script.",
 ["inputs","histories"],"every mix of P2PKH, P2SH and presigned inputs, outputs and signature lengths",
 "Tests check the estimate for one input kind at one size; compact-size boundaries (253 inputs, long scripts) are not reached.",
 ["bitcoin-cash/src/tx_builder.rs","bitcoin-cash/src/scripts.rs"],
 [("estimate_size","bitcoin-cash/src/tx_builder.rs"),("placeholder_signatures","bitcoin-cash/src/scripts.rs")],
 ["UnsignedTx::estimated_size","serialised length of complete_tx"])
p("C21","Typed values enter scripts as exactly the data their type declares",
 "Pushing a typed value (number, boolean, byte string, hash, public key, preimage) puts exactly that value on the stack with the shortest push, and a byte string keeps its name and derivation; its data view is the same value and its declared type is true of it, with the length where the type has one. A relative lock time gives the BIP 68 sequence: disable bit off, bit 22 set for units of 512 seconds, the amount in the low 16 bits. Equality of values is equality of their data and hashing agrees with it. Script containers keep their operations in order. The text of an operation is its opcode name, 0x-prefixed data, decimal number, OP_TRUE or OP_FALSE, or two hex digits for an unassigned byte, and a script lists them in order. Defaults are the empty or zero value; a default transaction has version 1.",
 ["inputs"],"every value of every typed data type, every relative lock time, every script",
 "No test covers typed pushes, relative lock times or text forms at all.",
 ["bitcoin-cash-base/src/data_type.rs","bitcoin-cash-base/src/op.rs","bitcoin-cash-base/src/byte_array.rs","bitcoin-cash/src/sequence.rs","bitcoin-cash/src/hash.rs","bitcoin-cash/src/pubkey.rs","bitcoin-cash/src/ops.rs","bitcoin-cash/src/script.rs"],
 [("BitcoinDataType impls","several"),("CsvTimedelta::sequence","bitcoin-cash/src/sequence.rs"),("Display for Op / Script","bitcoin-cash-base/src/op.rs")],
 ["to_pushop / to_data / to_data_type","CsvTimedelta::sequence","Display","PartialEq / Hash","Default"])
p("C23","Equality, hashing and ordering of values agree with what the values are",
 "Byte arrays, hashes, operations, scripts, transactions and their parts, addresses, public keys, token ids and amounts, sighash flags, script numbers and lock times compare equal exactly if they stand for the same thing: same data, same kind of operation with the same payload, same fields, same prefix, type and hash. What is recorded about a value (names, derivations, source positions) never counts; left open are only pushes of the same data in different forms and addresses read from different spellings of one text. Equality is reflexive, symmetric and transitive, != is its opposite, clones are equal, equal values hash alike so that maps find them, and types with an order are ordered totally, consistently with equality, by value: numbers numerically, public keys byte by byte, token amounts before batons before actions, block counts before seconds.",
 ["inputs"],"every pair and triple of values of each comparable type",
 "Tests compare values they expect to be equal; nothing tests that different ones differ, that annotations do not count, or that hashes and orders follow.",
 ["bitcoin-cash-base/src/byte_array.rs","bitcoin-cash-base/src/op.rs","bitcoin-cash-base/src/integer.rs","bitcoin-cash/src/tagged_op.rs","bitcoin-cash/src/tx.rs","bitcoin-cash/src/address.rs","bitcoin-cash/src/pubkey.rs","bitcoin-cash/src/hash.rs","bitcoin-cash-slp/src/lib.rs"],
 [("PartialEq / Hash for ByteArray and FixedByteArray","bitcoin-cash-base/src/byte_array.rs"),("PartialEq for Op","bitcoin-cash-base/src/op.rs"),("PartialEq for TaggedOp","bitcoin-cash/src/tagged_op.rs"),("PartialOrd / Ord for Integer","bitcoin-cash-base/src/integer.rs")],
 ["==","Hash","Ord","HashMap lookup"])
p("C22","What is written, built and signed with the library is spendable on the network",
 "A contract written with the script macro (keys, hash and time locks, branches, covenants over the signed preimage and outputs, code separators, multisignature) or a P2PKH address locks a coin to exactly that contract, and a transaction that is built with the transaction builder, signed with real keys for the preimages the library gives out, in any order and with any valid signature hash types, possibly handed over between signers as a partially signed transaction or its JSON, and completed, spends every one of its inputs under the network's rules: the unlocking script pushes only, with the shortest pushes, signatures are low-S strict DER over the replay-protected digest of the executed script code, lock times are respected, and the scripts leave exactly one true item. The completed transaction has the requested version, lock time, outpoints, sequences and outputs.",
 ["inputs","histories"],"every contract, key, transaction shape, signature hash type, signing order and hand-over",
 "No test runs a script at all or checks a signature in a transaction: examples compare against recorded bytes for a few fixed transactions.",
 ["bitcoin-cash/src/tx_builder.rs","bitcoin-cash/src/scripts.rs","bitcoin-cash/src/tx_preimage.rs","bitcoin-cash-script-macro/src","bitcoin-cash-ecc/src","bitcoin-cash/src/serialize_json.rs"],
 [("TxBuilder / UnsignedTx / complete_tx","bitcoin-cash/src/tx_builder.rs"),("P2PKHSignatory","bitcoin-cash/src/scripts.rs"),("#[script]","bitcoin-cash-script-macro/src/lib.rs"),("CsvTimedelta","bitcoin-cash/src/sequence.rs")],
 ["bytes of the completed transaction","locking scripts","partially signed hand-over"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
