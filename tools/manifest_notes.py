LEVEL_NOTE.update({
    "C02": "Generated values of every protocol type against reference encoders, with trailing bytes and leftover probes; sizes up to a few hundred list items.",
    "C03": "Mutated valid encodings, forged size prefixes and random bytes against 24 decoding targets, metered for memory, panics and canonicity; inputs up to a few hundred kilobytes.",
    "C04": "Generated transactions: id = reference double SHA-256 of the reference encoding, metadata-insensitive, decode/encode agreement; distinct transactions compared pairwise.",
    "C05": "Generated transactions and flag combinations against a reference BIP143-with-FORKID preimage, plus metamorphic field edits.",
})
TECH.update({
    "C02": "property-based testing: differential against reference wire encoders, round-trip",
    "C03": "mutation fuzzing of decoders with allocation metering and a canonical re-encode oracle",
    "C04": "property-based testing: reference hash, metamorphic metadata changes",
    "C05": "property-based testing: differential against a reference preimage, metamorphic edits",
})
LEVEL_NOTE.update({
    "C06": "Generated builders (inputs, fixed and leftover outputs, bounds, precedences, fee rates) against a reference of the leftover and fee arithmetic in exact integers; amounts whose sums overflow 64 bits are outside.",
    "C07": "Generated histories of sign, double-sign, partial save and resume over mixed signatories, also with builders extended after resuming, hundreds of inputs, and foreign transactions of which only part is known, checked step by step against a model of the transaction and the preimages each signatory must be given.",
    "C08": "Generated addresses, scripts and keys against a reference CashAddr encoder.",
    "C09": "Generated hashes, prefixes and malformed address strings against a reference CashAddr implementation.",
    "C10": "Generated near misses of the standard templates, built and decoded, against a byte-level reference classifier.",
})
TECH.update({
    "C06": "property-based testing: differential against an exact-integer fee model",
    "C07": "stateful property-based testing: signing histories against a model",
    "C08": "property-based testing: differential against a reference CashAddr encoder, round-trip",
    "C09": "property-based testing: differential against a reference address codec",
    "C10": "property-based testing: differential against a byte-level classifier",
})
LEVEL_NOTE.update({
    "C11": "All pairs of power-of-two neighbours exhaustively, generated pairs of every operand type and generated expression trees against unbounded integer arithmetic; the neighbours shifted both ways by every amount.",
    "C12": "All integers near every byte boundary and generated others, all byte strings of up to two bytes exhaustively and longer ones generated, all widths, against a reference script-number codec.",
    "C13": "Generated histories of byte-array operations over a shared pool against plain bytes, with the truthfulness of every value's whole recorded provenance checked after every step.",
    "C14": "Generated transactions with tags, names and nested, shared provenance through export and import, compared field by field; nesting up to 990 levels.",
    "C15": "27 types saved and loaded in JSON and bincode; edited and random documents, and documents with arbitrary source references, must be rejected or give valid values that load again; every case watched for panics, aborts and hangs.",
    "C16": "Generated messages (every length around block boundaries), digests and strings against own implementations of the four hash functions.",
})
TECH.update({
    "C11": "property-based testing and exhaustive edge pairs: differential against unbounded integer arithmetic",
    "C12": "property-based testing and exhaustive small inputs: differential against a reference codec, round-trip",
    "C13": "stateful property-based testing: operation histories against a plain-bytes model with a provenance invariant",
    "C14": "property-based testing: round-trip",
    "C15": "property-based testing and structured mutation fuzzing of documents",
    "C16": "property-based testing: differential against reference hash functions",
})
LEVEL_NOTE.update({
    "C19": "Generated genesis and send descriptions (fields of 0 to 65539 bytes, 1 to 19 amounts) read back by an independent SLP parser, as built and after the wire; generated SLP transactions converted to plain ones.",
    "C22": "All 256 bytes exhaustively; every described opcode on generated stacks, by an independent interpreter and by its description.",
    "C25": "All 131072 relative locks exhaustively.",
})
TECH.update({
    "C19": "property-based testing: round-trip through an independent SLP parser",
    "C22": "property-based testing: differential between an independent interpreter and the described stack behaviour",
    "C25": "exhaustive generation of all inputs against BIP68's reading of the number",
})
LEVEL_NOTE.update({
    "C17": "Generated keys, messages, altered, crafted and malformed signatures on both back ends (the Rust one in a helper process) against an own secp256k1 and DER reader; malleated high-S twins, which the Rust back end accepts, are left open.",
    "C18": "Generated transactions of one to five P2PKH and P2SH inputs of nine kinds with every defined flag, judged on their wire bytes by an own interpreter, signature hash and secp256k1; generated alterations of committed and open fields.",
})
TECH.update({
    "C17": "property-based testing: differential between two back ends and an independent ECDSA, structured mutation of signatures",
    "C18": "property-based testing: independent script interpreter as oracle, metamorphic alterations",
})
LEVEL_NOTE.update({
    "C20": "Generated script functions (nested conditionals, variants, moves between stacks, picks and rolls, computed pushes, blocks, layouts) expanded and compiled by the real macro, every tagged operation compared with an independent stack simulation.",
    "C21": "Single changes that misuse the stack, enumerated per operation and generated on whole functions, must be rejected by the compiler with the real macro; functions without misuse, changed ones among them, must compile.",
    "C23": "Generated structs (nested, lists, hashes, skipped fields of any type, alias of the crate) compiled with the real derive; encodings, part names, decoding with rest, truncations and leftovers against an own encoder; malformed uses must be rejected.",
    "C24": "Generated script functions with inputs and variants, compiled with input values; the input operations are compared with the values and then executed with the script by an own interpreter, comparing what every named parameter holds after each operation; generated values of every data type against reference pushes.",
})
TECH.update({
    "C20": "property-based testing: generated programs compiled with the real macro, differential against an independent simulator",
    "C21": "mutation testing of generated programs against the compiler's verdict, independent simulator as oracle",
    "C23": "property-based testing: generated struct definitions, differential against a reference encoder, compiler verdicts",
    "C24": "property-based testing: generated programs and arguments, executed by an independent interpreter",
})
LEVEL_NOTE.update({
    "C26": "Every opcode, one-byte push and small number exhaustively, generated scripts of up to 40 operations, byte strings, integers, digests and keys, printed and read back by an independent reader.",
})
TECH.update({
    "C26": "property-based testing: round-trip through an independent reader of printed forms",
})
