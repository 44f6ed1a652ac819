# The properties of the libraries (run by props.py in its own namespace).
CODEC = ["common/codec/codec.go", "common/codec/rlp.go", "common/codec/msgpack.go", "common/codec/bytes.go"]
LIBTEST = "The unit tests compare a handful of fixed values; an encoding or a proof that fails for one length, sign, depth or shape in a million passes them."

prop("C01", "Encoding and decoding any value gives the value back",
     "For every value of the types the codecs support (integers of every width, booleans, strings, byte slices and arrays, nested slices, maps, structs, pointers, nil values, big integers, addresses and self-encoding types), decoding the RLP or msgpack encoding with the same type succeeds, consumes exactly the encoding, and yields an equal value; equal values encode to equal bytes, also when encoded through a stream or appended to other data. Nested lists that a self-decoding type reads only in part do not disturb what follows them, and decoding over a variable that was used before gives what decoding into a fresh one gives, leaving values taken from it earlier unchanged.",
     ["inputs"], "for every type composed of the supported kinds and every value of it", LIBTEST,
     CODEC, [("RLP", "common/codec/rlp.go"), ("typed dispatch", "common/codec/codec.go")],
     "encoder and decoder containers", "bytes and values at the codec's public interface",
     "runtime monitoring: differential oracle over generated types and values",
     "random types by reflection, values weighted to boundaries; compared structurally and with a reference encoder")
prop("C02", "RLP encodings are the canonical ones other implementations accept",
     "The RLP encoding of every value is the one the BTP contracts on the other chains compute: the canonical shortest length prefixes, integers as minimal two's complement bytes, nil as the designated empty list, structs and slices as lists of their fields. Conversely any such encoding produced elsewhere decodes to the value it denotes, and a number that does not fit the receiving type is refused rather than cut.",
     ["inputs"], "for every value, every encoding an independent encoder produces, and every integer width and boundary", LIBTEST,
     CODEC, [("RLP writer and reader", "common/codec/rlp.go"), ("integer bytes", "common/intconv/bytes.go")],
     "encoder and decoder containers", "bytes compared with an independent RLP implementation",
     "runtime monitoring: differential oracle against an independent RLP implementation",
     "reference encoder and decoder written from the specification")
prop("C03", "Malformed encodings are refused without a crash or a wrong value",
     "Decoding arbitrary bytes into any supported type returns an error or a value; it never panics, never hangs, never allocates out of proportion to the input, and never accepts data that is cut short or whose declared lengths go beyond the data.",
     ["inputs"], "for every byte string, in particular cut, extended, spliced and bit-flipped valid encodings, and every receiving type", LIBTEST,
     CODEC + ["common/address.go"], [("RLP reader", "common/codec/rlp.go"), ("typed dispatch", "common/codec/codec.go")],
     "decoder containers", "errors, values, panics and memory at the codec's public interface",
     "runtime monitoring: mutation fuzzing with crash, allocation and truncation monitors",
     "mutations of valid encodings and raw random bytes into generated types")
prop("N01", "Integer byte forms are exact and minimal",
     "The byte form of every integer (signed, unsigned, 64-bit or arbitrary size) is the shortest two's complement big-endian form, converts back to the same integer, and agrees between the fixed-width and the arbitrary-size converters.",
     ["inputs"], "for every integer, in particular at every power of two and its neighbours up to 600 bits", LIBTEST,
     ["common/intconv/bytes.go", "common/intconv/string.go"], [("conversions", "common/intconv/bytes.go")],
     "none", "bytes and integers at the package interface", "runtime monitoring: exhaustive edges and random values against a reference", "arithmetic reference written with math/big")
prop("N02", "Hexadecimal numbers and byte strings round-trip and malformed ones are refused",
     "Every number formatted as hexadecimal text (HexInt and its sized forms, client side number types, JSON) parses back to the same number; text that denotes a number outside the receiving type, or no number at all, is refused with an error; byte strings round-trip through their 0x form.",
     ["inputs"], "for every integer, sign and width, every malformed text, and every byte string", LIBTEST,
     ["common/intconv/string.go", "common/hexint.go", "common/hexbytes.go", "chain/icon/client/type.go", "chain/ethbr/client/type.go"],
     [("parsing and formatting", "common/intconv/string.go"), ("client number types", "chain/icon/client/type.go")],
     "none", "text and numbers at the package interfaces", "runtime monitoring: round trips and refusals against a reference", "reference conversions with math/big")
prop("A01", "Chain addresses keep their identity in every form",
     "An address read from any of its forms (text, bytes, JSON, RLP, msgpack, a public key) equals the same address read from any other, prints the one canonical text, tells contracts and accounts apart, and equals no other address; malformed text or bytes are refused and leave no part of an earlier value behind.",
     ["inputs"], "for every 20-byte identifier and kind, every public key and every malformed form", LIBTEST,
     ["common/address.go", "common/crypto/key.go"], [("address forms", "common/address.go"), ("public key to address", "common/crypto/key.go")],
     "none", "forms and equality at the package interface", "runtime monitoring: generated forms against a reference", "reference forms and an independent secp256k1 implementation")
prop("A02", "BTP addresses split into exactly the parts they are made of",
     "A BTP address btp://network/contract gives back its protocol, network and contract exactly as written, whatever the chain's address form, and text that is not of that form is recognised as invalid or gives empty parts, never another address's parts.",
     ["inputs"], "for every network and contract text", LIBTEST,
     ["common/types/btpaddress.go"], [("parts", "common/types/btpaddress.go")], "none", "parts at the interface", "runtime monitoring: generated addresses against a reference splitter", "reference splitter")
prop("T01", "Message tree roots and proofs are exactly those the destination verifies",
     "The Merkle binary tree over any list of messages has the specified root whether it is built at once or grown message by message; every proof of any range and every path of any leaf is accepted by an independent verifier and yields the same root, position and total, also after being encoded and decoded; and no altered proof that still yields that root and total shows a message other than the one at its position.",
     ["inputs", "histories"], "for every number and content of messages, every range and every way of building the tree, and every alteration of a proof", LIBTEST,
     ["common/mbt/tree.go", "common/mbt/proof.go", "common/mbt/path.go"], [("tree", "common/mbt/tree.go"), ("range proofs", "common/mbt/proof.go"), ("paths", "common/mbt/path.go")],
     "tree nodes", "roots, proofs and paths at the package interface", "runtime monitoring: differential oracle against an independent tree and verifier", "all ranges of trees to 9 leaves, random ranges to 300, random alterations")
prop("T02", "Accumulator witnesses verify for every element at every length, also after recovery",
     "In a Merkle tree accumulator every element's witness is the one the specification gives and verifies against the accumulator, also when witness and accumulator are of different lengths, and a wrong element or witness never verifies; storing the state and recovering it, at any length, yields the same accumulator, from which the history continues unchanged (a store that fails can be repeated), and keeps the data of every element that was added as data readable by its hash.",
     ["inputs", "histories", "crash_points"], "for every number of elements, every pair of lengths, every point of storing and recovery", LIBTEST,
     ["common/mta/accumulator.go", "common/mta/extaccumulator.go"], [("accumulator", "common/mta/accumulator.go"), ("stored state", "common/mta/extaccumulator.go")],
     "roots, length, stored nodes", "witnesses and verdicts at the package interface", "runtime monitoring: model-based histories with store and recovery", "reference witnesses computed from the element list")
prop("T03", "Trie proofs are accepted only when every node links to the next",
     "A trie proof is accepted exactly when it is a non-empty chain of well-formed nodes, each referenced by hash from the one before and ending in a leaf, and then gives the leaf's value; any other list of byte strings is refused with an error, never with a crash.",
     ["inputs"], "for every chain of nodes and every alteration, reordering, cut or extension of one", LIBTEST,
     ["common/mpt/mpt.go"], [("proof check", "common/mpt/mpt.go")], "none", "verdicts at the package interface", "runtime monitoring: generated and altered proofs against a reference checker", "reference check written from the node format")
