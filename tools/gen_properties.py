#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or [], "hook_needed": hook}})

S="bitcoin-cash/src/"; B="bitcoin-cash-base/src/"; M="bitcoin-cash-script-macro/src/"

p("C01","Scripts survive the bytes<->ops conversion unchanged",
 "Decoding any well-formed script byte string into operations and encoding those operations again yields exactly the original bytes, and encoding any list of operations yields the reference script encoding (minimal pushes where the push is marked minimal, explicit data pushes where it is not, integers and booleans as their minimal pushes), which decodes back to operations that mean the same. The two script decoders (from a plain slice and from a byte array) accept and reject the same inputs and produce equal operations; a push running past the end is an error.",
 ["inputs"],"all script byte strings (every opcode byte 0..255, every push form and length class, truncations) and all operation lists",
 "Tests decode a few fixed scripts; push forms at the 1/75/76/255/256/65535/65536 boundaries, unknown opcodes, non-minimal pushes and truncation at each offset are never combined.",
 [S+"script.rs",B+"op.rs",B+"opcode.rs"],
 [("serialize_op / serialize_push_prefix",S+"script.rs"),("deserialize_ops, deserialize_ops_byte_array",S+"script.rs")],
 ["Script::ser_ops","Script::deser_ops","serialize_ops","deserialize_ops","deserialize_ops_byte_array"])

p("C02","Wire encoding of protocol values follows the Bitcoin format and round-trips",
 "Every integer, boolean, length prefix, byte string, hash, list, outpoint, input, output, transaction and signature preimage encodes to exactly the Bitcoin wire format (little-endian fixed-width integers, shortest CompactSize prefixes, fields in protocol order), and decoding that encoding gives an equal value. Decoding a prefix of a longer buffer consumes exactly the value's own bytes and hands back the untouched rest; whole-buffer decoding rejects any leftover; the encode-all/decode-all helpers are inverse on every list.",
 ["inputs"],"all values of every encodable type, all trailing byte strings, list lengths across CompactSize boundaries",
 "Tests use a handful of constant structs; no test relates arbitrary values to an independent encoder, nor checks the remainder or multi-byte length prefixes of lists.",
 [S+"bitcoin_code.rs",S+"serializer.rs",S+"deserializer.rs",S+"tx.rs",S+"tx_preimage.rs",B+"encoding_utils.rs"],
 [("BitcoinCode impls",S+"bitcoin_code.rs"),("read_var_int/write_var_int",B+"encoding_utils.rs")],
 ["BitcoinCode::ser/deser/deser_rest","encode_bitcoin_code_all","decode_bitcoin_code_all"])

p("C03","Decoding hostile bytes never crashes and never over-allocates",
 "For every byte string, decoding it as a transaction, input, output, outpoint, preimage, script, list, byte string or hash either returns a value or an error: it never panics, aborts, overflows or hangs, and memory use stays proportional to the input, not to lengths claimed inside it. A successful whole-buffer decode of a transaction is canonical: re-encoding gives back the same bytes, so no two byte strings decode to the same transaction.",
 ["inputs"],"all byte strings: random, mutated valid encodings, truncations, forged length prefixes, non-shortest length prefixes",
 "Tests only decode well-formed data; an attacker controls every byte of a peer-supplied transaction.",
 [S+"bitcoin_code.rs",S+"script.rs",B+"byte_array.rs",B+"encoding_utils.rs",S+"tx.rs"],
 [("read_size / split bounds checks",S+"bitcoin_code.rs"),("ByteArray::split",B+"byte_array.rs")],
 ["BitcoinCode::deser"])

p("C04","A hashed transaction's id, raw bytes and fields always agree",
 "For every transaction, the hashed form's raw bytes are its wire encoding, its hash is the double SHA-256 of those bytes, and its version, inputs, outputs and lock time are those of the transaction it was made from; unwrapping it gives the same transaction back. The id depends only on wire fields: attached metadata (locking script, value, flags, source tags, names) never changes raw bytes or id, and changing any wire field does. Decoding the raw bytes and hashing again reproduces the id, and a hashed transaction's own encoding decodes to an equal hashed transaction.",
 ["inputs"],"all transactions with any scripts, values and metadata",
 "Tests check ids of a few real transactions; independence from metadata and sensitivity to each field are universally quantified.",
 [S+"tx.rs",S+"bitcoin_code.rs"],
 [("UnhashedTx::hashed",S+"tx.rs"),("#[bitcoin_code(skip)] on metadata fields",S+"tx.rs")],
 ["Tx::hash","Tx::raw","UnhashedTx::hashed"])

p("C05","Signature preimages commit to exactly what the sighash flags say",
 "For every transaction, input and signature-hash flag combination, the preimage built for that input is byte for byte the BIP143/FORKID preimage: previous outputs, sequences and outputs hashed or zeroed according to ANYONECANPAY, NONE and SINGLE (SINGLE with no matching output commits to zero), the input's own outpoint, value and sequence, the locking script from after its first code separator, lock time and the 32-bit flags. This is the same whether preimages come from a transaction or from the transaction builder, and one preimage is produced per requested flag, in order. The script code of a locking script for its first or any chosen code separator is what follows that separator.",
 ["inputs"],"all transactions x input index x all 256 flag bytes (incl. several flags per input), scripts with 0..n code separators",
 "Tests check a few ALL|FORKID signatures; the flag x index x output-count space, especially SINGLE out of range and combined flags, is not reached.",
 [S+"tx_preimage.rs",S+"tx.rs",S+"tx_builder.rs",S+"script.rs"],
 [("TxPreimage::build_preimages",S+"tx_preimage.rs"),("Script::to_script_code_first/to_script_code",S+"script.rs")],
 ["UnhashedTx::preimages","UnsignedTx::preimages","UnsignedTx::input_preimages"])

p("C06","Built transactions conserve value, honour bounds and pay the fee",
 "Whenever building succeeds, the outputs never exceed the inputs, fixed outputs appear unchanged and in insertion order, and every leftover output that appears has a value strictly above its lower bound and at most its upper bound, sits at its insertion position, and leaves at least estimated_size*fee_rate/1000 (rounded down) as fee; one not capped by its upper bound leaves exactly that fee. Leftover outputs are filled in ascending precedence (ties in insertion order), each one taking all it can, and one is omitted only if it cannot hold more than its lower bound after paying the fee. If fixed outputs exceed the inputs, building fails and reports exactly the missing amount.",
 ["inputs","histories"],"all sequences of builder calls: inputs, fixed outputs, several leftover outputs with bounds and precedences, any fee rate, amounts around dust/fee/bounds",
 "Tests build a few transactions with one leftover output; the interaction of several bounded leftovers, precedence and size-dependent fees is only exercised by searching.",
 [S+"tx_builder.rs"],
 [("TxBuilder::build",S+"tx_builder.rs"),("estimate_size, make_outputs",S+"tx_builder.rs")],
 ["TxBuilder::build","UnsignedTx::complete_tx","UnsignedTx::estimated_size"])

p("C07","Signing, partial signing and resuming never alter or reorder a transaction",
 "Whatever the order in which inputs are signed, and whether signing is finished at once or in several partial-save/resume rounds, the completed transaction has the builder's version, lock time, inputs in insertion order with their outpoints, sequences, values and locking scripts, and the built outputs; each input's script is the one its signatory builds from its own signatures and preimages, followed by the redeem script push exactly when it is P2SH. Signing an already signed input is an error that changes nothing, a partially signed transaction shows unsigned inputs with empty scripts and keeps all signing metadata, and the estimated size is never below the final size when signatures are no longer than their placeholders.",
 ["histories"],"all sign orders, interleavings of sign / double-sign / partial save / resume, mixes of P2PKH, P2SH and multi-signature signatories",
 "Tests sign inputs once in order; permutations, double signing and resumed partial transactions are histories no example test covers.",
 [S+"tx_builder.rs",S+"scripts.rs"],
 [("UnsignedTx::sign_input*",S+"tx_builder.rs"),("partial_tx / TxBuilder::from_tx",S+"tx_builder.rs")],
 ["UnsignedTx::complete_tx","UnsignedTx::partial_tx","TxBuilder::from_tx"],
 [{"name":"inputs: Vec<Option<TxInput>>","meaning":"which inputs are already signed","where":S+"tx_builder.rs"}])

p("C08","CashAddr encoding is correct and reversible",
 "For every prefix, address type and 20-byte hash, the address string is exactly the CashAddr encoding (lower case, prefix, colon, base32 payload with 40-bit checksum), parsing it (in all-lower or all-upper case, and without the prefix when it is the default one) gives back the same prefix, type and hash, and changing the prefix keeps hash and type while producing the encoding under the new prefix. Addresses from a public key or redeem script carry the HASH160 of the key or of the script's bytes, and owned copies are equal to the original.",
 ["inputs"],"all prefixes (known ones and arbitrary ones of lower-case letters, digits and punctuation), both types, all hashes, keys and scripts",
 "Tests use the all-zero hash with four prefixes; wrong bit packing or checksum terms show only for other payload bits.",
 [S+"address.rs"],[("_to_cash_addr/_from_cash_addr/_convert_bits/_poly_mod",S+"address.rs")],
 ["Address::from_hash","Address::from_cash_addr","Address::with_prefix"])

p("C09","Address parsing accepts only valid addresses and never crashes",
 "Parsing any string as an address either succeeds or returns an error, never panics. It succeeds only for a string that is a valid CashAddr of a 20-byte P2PKH or P2SH hash under its prefix (default prefix if none): a wrong checksum, a character outside the alphabet, mixed case, a wrong payload length, non-zero padding or another version byte is always rejected, so in particular up to five wrong characters are always detected.",
 ["inputs"],"all strings: arbitrary text, mutated valid addresses, valid checksums over payloads of any length, version and padding",
 "There is no rejection test at all; the space of near-valid strings with correct checksums must be constructed.",
 [S+"address.rs"],[("_from_cash_addr, _verify_checksum",S+"address.rs")],["Address::from_cash_addr"])

p("C10","Addresses, locking scripts and destinations agree",
 "The locking script of an address is exactly the standard P2PKH or P2SH script for its type and hash, and classifying that script (directly or after a wire round trip) gives the same address under the requested prefix. Any script is classified without crashing, and as an address only if its bytes are exactly such a standard script with a 20-byte hash, as pay-to-pubkey only for a single data push followed by a signature check, as null data only if it begins with OP_RETURN, and as unknown otherwise; P2PKH spending scripts are recognised exactly when they consist of a non-empty signature push with defined sighash flags and a 33-byte key push, and yield that key and those flags.",
 ["inputs"],"all addresses and all scripts, in particular near-misses of the standard templates",
 "Tests classify no scripts; near-miss templates (wrong hash length, extra op, other opcode) are needed.",
 [S+"destination.rs",S+"scripts.rs",S+"address.rs"],
 [("script_destination, script_p2pkh_spend",S+"destination.rs"),("Into<Script> for Address",S+"scripts.rs")],
 ["script_destination","script_p2pkh_spend","Into<Script>"])

p("C11","Script integer arithmetic is exact or an error, never silently wrong",
 "For all operands, addition, subtraction, multiplication, division, remainder, negation, bitwise operations and comparisons of script integers equal the mathematical result when that lies in [-(2^31-1), 2^31-1] and otherwise give an error; division and remainder by zero are errors, and division and remainder truncate toward zero. Shifts are those of 32-bit words (arithmetic to the right), or an error when the amount is 32 or more or the outcome is no script integer. Conversions from every primitive integer type keep the value or fail when out of range. Once an expression contains an error the whole expression stays an error and never compares equal to, or ordered with, anything.",
 ["inputs","programs"],"all operand pairs of all supported primitive types, all expression trees",
 "Tests check a few boundary constants; wrap-around depends on specific operand pairs and mixed operand types.",
 [B+"integer.rs"],[("IntegerResult::op / Integer::new",B+"integer.rs")],["Integer","UInteger","IntegerResult operators"])

p("C12","Script numbers encode minimally and decode to the same number",
 "Every script integer encodes to its unique minimal little-endian sign-magnitude form and decodes back to itself; decoding any byte string gives the number it denotes in that format (non-minimal forms and negative zero included) or an error if it is outside the 32-bit signed range, never another number. Fixed-width conversion succeeds exactly when the number fits the width (at most 31 magnitude bits) and then gives the zero-padded sign-magnitude form, minimal re-encoding of any byte string keeps its value and is the shortest form, and an integer read back from any push operation is the number that push puts on the stack.",
 ["inputs"],"all script integers, all byte strings, all widths",
 "Tests cover a list of constants; sign-bit and byte-boundary interactions and non-minimal encodings are a large space.",
 [B+"encoding_utils.rs",B+"byte_array.rs",B+"op.rs"],
 [("encode_int, vec_to_int, encode_minimally",B+"encoding_utils.rs"),("ByteArray::from_int",B+"byte_array.rs"),("Op::to_integer",B+"op.rs")],
 ["encode_int","vec_to_int","encode_minimally","ByteArray::from_int","Op::to_integer"])

p("C13","Byte-array provenance always reproduces the bytes",
 "Through any history of naming, concatenating, splitting, joining parts, hashing, signing and number conversion, a byte array's data equals the same history performed on plain bytes, and its recorded provenance is truthful: a plain value with recorded parts equals the concatenation of those parts, a hash value with a recorded source is that hash of the source, and a value whose recorded origin no longer holds after a split is never presented as that function's result, while cuts through data that is no function's result are not marked as unexpected. Naming changes only the name, equality and hashing look only at the data, and splitting succeeds exactly when the position is within the data, the two halves concatenating to the original.",
 ["histories"],"all sequences of byte-array operations over shared values, all split positions (inside parts, inside hashes, at boundaries, zero-length parts)",
 "Tests fix three-part examples; nested histories with splits inside hashed or signed parts are unbounded.",
 [B+"byte_array.rs",S+"hash.rs"],
 [("concat_named_option, split, apply_function",B+"byte_array.rs"),("Hashed::digest",S+"hash.rs")],
 ["ByteArray::{data,preimage,function,name}"],
 [{"name":"preimage / function","meaning":"recorded provenance of a byte array","where":B+"byte_array.rs"}])

p("C14","Exporting a transaction to JSON and importing it loses nothing",
 "For every transaction, importing its exported JSON document gives back (provenance nested up to 1000 levels) an equal transaction including everything the document format is for: wire fields, locking scripts, values, P2SH markers and sighash flags of inputs, push minimality, and for every operation its source file, line, column, code lines and stack item names, and for every byte array its name, function and full provenance tree. Repeated data and strings are shared in the document without ever mixing up two values.",
 ["inputs"],"all transactions with arbitrary scripts, tags, names and nested provenance",
 "Tests round-trip one small transaction and compare only equality, which ignores tags, names and provenance.",
 [S+"serialize_json.rs",S+"tagged_op.rs",B+"byte_array.rs"],
 [("JsonData interning",S+"serialize_json.rs"),("JsonByteArray compact tuples",S+"serialize_json.rs")],
 ["tx_to_json","json_to_tx"])

p("C15","Serialised values load back equal, and malformed documents are rejected cleanly",
 "Every public serialisable value (transactions and their parts, scripts, addresses, keys, hashes, byte arrays, integers, sighash flags, builder inputs and references, SLP types) serialised to JSON or to a compact binary format loads back equal (scripts as the operations their bytes denote), with hashes shown as reversed hex. Loading any malformed document, including transaction documents with dangling or cyclic references, returns an error rather than panicking, aborting or hanging, and never yields a value that breaks the type's own rules (wrong-length hashes or keys, out-of-range integers).",
 ["inputs"],"all values of serialisable types in both formats; arbitrary and mutated documents",
 "Tests load no malformed documents and cover few types in one format each.",
 [B+"byte_array.rs",B+"integer.rs",S+"serialize_json.rs",S+"script.rs",S+"pubkey.rs",S+"address.rs",S+"hash.rs","bitcoin-cash-slp/src/lib.rs"],
 [("Serialize/Deserialize impls",B+"byte_array.rs"),("json_to_tx index validation",S+"serialize_json.rs")],
 ["serde_json / bincode of public types","json_to_tx"])

p("C16","Digests are the standard hash functions and hex forms are consistent",
 "For every message, the SHA-1, RIPEMD-160, SHA-256, double-SHA-256 and HASH160 types equal the standard functions of those names, and record the message and function they came from. Little-endian and big-endian hex/byte constructors and accessors are mutually inverse and byte-reversed versions of each other, and every constructor accepts exactly inputs of the digest's length (and valid hex).",
 ["inputs"],"all messages (every length modulo block size), all digests, all strings as hex input",
 "Tests use one or two vectors per function.",
 [S+"hash.rs",B+"byte_array.rs"],[("Hashed trait and impls",S+"hash.rs")],["Hashed::digest","from_hex_le/be","from_slice","from_byte_array"])

p("C17","Signatures verify, forgeries do not, and both ECC back ends agree",
 "For every valid secret key and 32-byte message, signing gives a low-S DER signature that verifies under the derived compressed public key, verification is false (or an error) for any other message, key or altered signature, derived keys are the secp256k1 public keys, and malformed keys, messages or signatures give errors, never panics. Normalising a signature whose numbers are in range keeps its meaning, is idempotent and yields a low-S signature. The C and Rust back ends give the same keys, the same signatures and the same verification verdicts for compressed keys and normalised signatures.",
 ["inputs","configurations"],"all keys, messages and signature byte strings; both back ends",
 "Tests only sign with fixed keys on one back end; agreement and rejection quantify over all inputs.",
 ["bitcoin-cash-ecc/src/c_ecc.rs","bitcoin-cash-ecc/src/rust_ecc.rs",S+"ecc.rs"],
 [("ECC impls","bitcoin-cash-ecc/src/")],["ECC::{sign,verify,derive_pubkey,normalize_sig}"])

p("C18","Signed transactions are valid spends under consensus rules",
 "For every transaction assembled with the builder from P2PKH and P2SH inputs and signed with any defined sighash flags over the preimages it hands out, an independent script interpreter with FORKID signature hashing accepts every input, standard-sized scripts and the resulting wire bytes included; altering an output, sequence or outpoint that the flags commit to makes it reject, and altering what they leave open does not.",
 ["inputs","histories"],"all mixes of P2PKH and P2SH inputs, amounts, flags and outputs; all single-field alterations",
 "Tests compare against recorded transactions; validity under every flag and shape needs an independent validator.",
 [S+"tx_builder.rs",S+"scripts.rs",S+"tx_preimage.rs",S+"script.rs","bitcoin-cash-ecc/src/c_ecc.rs"],
 [("TxBuilder::add_input",S+"tx_builder.rs"),("P2PKHSignatory",S+"scripts.rs"),("p2sh redeem script push",S+"tx_builder.rs")],
 ["UnsignedTx::complete_tx"])

p("C19","SLP outputs parse back to the same token operation under the SLP rules",
 "For every genesis description and every send with 1 to 19 amounts, the generated output has zero value and a script that an independent SLP parser accepts (only data pushes allowed by SLP, no small-number opcodes, after OP_RETURN) and reads back as the same token type, ticker, name, URL, document hash, decimals, mint baton, quantity, or token id and amounts, in order and at full 64-bit precision; this also holds after the script travels over the wire. Token ids appear in display byte order in scripts, and converting an SLP transaction to a plain one keeps version, inputs, outputs and lock time.",
 ["inputs"],"all token types, strings up to the protocol's lengths, all amounts, decimals, vouts, token ids",
 "There is no SLP test with varied parameters; zero-length fields, one-byte values 1..16/0x81 and 76+ byte fields are the risky encodings.",
 ["bitcoin-cash-slp/src/lib.rs",S+"script.rs"],
 [("slp_genesis_output, slp_send_output, slp_amount_ops","bitcoin-cash-slp/src/lib.rs")],
 ["slp_genesis_output","slp_send_output","SlpTx::into_unhashed_tx"])

p("C20","The script macro emits exactly the script that was written",
 "For every accepted script function, the produced script contains exactly the written operations and pushed values, in source order, including nested IF/ELSE/ENDIF branches, stack shuffles, ALT-stack moves and computed constants; depth_of yields the actual stack depth of the named item at that point. Every operation is tagged with the source line it was written on and with the names of the items it leaves on the stack, matching an independent simulation of the stack.",
 ["programs"],"all script functions over the opcode set: nested conditionals, shuffles, pushes of all types, placeholders, depth_of at any depth",
 "Tests cover about fifty hand-written functions; miscompilation depends on nesting and stack shape combinations.",
 [M+"parse.rs",M+"generate.rs",M+"state.rs",M+"gen_source.rs",M+"ir.rs",B+"opcode.rs"],
 [("parse_stmts/parse_op_if",M+"parse.rs"),("GenerateScript",M+"generate.rs"),("StackState",M+"state.rs")],
 ["TaggedScript::script_ops","TaggedOp::{pushed_names,src_line,src_code}"])

p("C21","The script macro rejects scripts that misuse the stack",
 "A script function whose stack use is inconsistent does not compile: taking more items than are on the stack, naming an item that is not where the operation takes it from, naming a wrong number of inputs or outputs, mixing up item types, using an unknown name in depth_of, ELSE/ENDIF without IF, a second ELSE or IF without ENDIF, and (with variants) using an item after a branch that the variants reaching that point hold under different names or at different depths. A function without such misuse compiles.",
 ["programs"],"all single-fault mutations of accepted script functions",
 "The only compile-fail coverage is manual; the guarantee is about all programs.",
 [M+"generate.rs",M+"parse.rs",M+"state.rs"],
 [("verify_item_name / type checks",M+"generate.rs")],["compiler diagnostics"])

p("C22","The opcode table matches the Bitcoin Cash opcode semantics",
 "Every opcode has its protocol byte value and canonical name and the two map to each other one to one; bytes without an opcode map to none. For every opcode with a described stack behaviour, applying that description to a stack (items taken, retained, moved and produced, on main and alt stack, with item types, and for each item left whether it was untouched, copied, moved, changed or added) matches what the Bitcoin Cash script interpreter does to the stack.",
 ["inputs"],"all 256 byte values, all opcodes, all stack contents",
 "Tests touch a fraction of the opcodes; a wrong table entry silently miscompiles scripts.",
 [B+"opcode.rs"],[("Opcode enum, behavior(), retains_input()",B+"opcode.rs")],["Opcode","Opcode::behavior"])

p("C23","Derived struct encodings are the concatenation of their fields",
 "For every struct that derives the wire encoding, the encoding is the concatenation of its non-skipped fields' encodings in declaration order, decoding reads them in that order, gives skipped fields their default value and returns the unread rest, and in the encoded byte array the parts of fields of a fixed size (numbers, booleans, hashes, fixed-size byte arrays) carry the fields' names. Types other than structs with named fields, and structs or fields with an unknown `bitcoin_code(..)` parameter, are rejected at compile time.",
 ["programs","inputs"],"all structs over supported field types (nested, lists, hashes, skipped fields at any position) and all values",
 "Tests derive for four fixed structs, all without skipped fields in the middle.",
 ["bitcoin-cash-code/src/lib.rs"],[("generate","bitcoin-cash-code/src/lib.rs")],["#[derive(BitcoinCode)]"])

p("C24","Script input structs push their arguments in order, per variant",
 "For every script function with declared inputs, the generated input type's operations are exactly the pushes of its fields in parameter order, each tagged with its parameter's name and with the line and text of the parameter's declaration; with variants, each variant has exactly the parameters declared for it. A value of any data type a parameter can have pushes exactly its bytes, number or truth value in the shortest form. Running the unlocking operations of an input value followed by the locking script leaves each parameter bound to the value given for it.",
 ["programs","inputs"],"all parameter lists, types, variant predicates and argument values",
 "Tests check a few two- or three-parameter functions with one variant layout.",
 [M+"generate.rs",M+"parse.rs",S+"ops.rs"],[("generate_input_structs",M+"generate.rs")],["Ops::ops of generated inputs"])

p("C25","Relative time-locks encode as BIP68 sequence numbers",
 "For every relative lock in blocks or 512-second units, the sequence number has the disable bit clear, the type flag set exactly for time, and the amount in the low 16 bits, and different locks give different sequence numbers.",
 ["inputs"],"all 2 x 65536 relative locks",
 "There is no test for it.",
 [S+"sequence.rs"],[("CsvTimedelta::sequence",S+"sequence.rs")],["CsvTimedelta::sequence"])

p("C26","Printed forms identify what they print",
 "For every script, operation, byte array, script integer, digest and public key, the displayed text lets exactly that value be read back: a script lists its operations in order, separated by white space; an operation shows as its opcode's canonical name, a pushed byte string as 0x and its lower-case hex, a number in decimal, a boolean as OP_TRUE or OP_FALSE and a byte that is no opcode as its two hex digits; byte arrays and keys show as their hex and digests as the hex of their reversed bytes, whatever names, parts or tags they carry; a failed computation never shows as a number. The debug form of an operation, digest or key identifies its kind and value as well, including whether a push is marked minimal.",
 ["inputs"],"all operations, scripts, byte strings, digests, keys and script integers",
 "No test prints a script; what people read in logs and explorers, and copy from there, has to be the value.",
 [B+"op.rs",B+"opcode.rs",B+"byte_array.rs",B+"integer.rs",S+"script.rs",S+"hash.rs",S+"pubkey.rs"],
 [("Display and Debug for Op",B+"op.rs"),("Display for Script",S+"script.rs"),("Display and Debug of the digests",S+"hash.rs")],["to_string","format!(\"{:?}\")"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
