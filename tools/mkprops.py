#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the list is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw))
    P.append(d)

p("P01", "Address encoding is canonical and lossless for every supported network",
  "For every supported network profile and every hash of the length that profile carries, encoding yields exactly the network's canonical address text (alphabet, version prefix, suffix and checksum). Decoding that text under the same profile returns the original hash. Where a profile hashes public keys, giving the public key yields the address of its hash.",
  ["inputs", "configurations"], "every address profile the library ships x every hash of the profile's length",
  "A test samples a handful of addresses; leading zero bytes, carry chains in base conversion, checksum case patterns and bit regrouping only go wrong on particular hash values.",
  ["addressEncoder/addressEncoder.go", "addressEncoder/base58.go", "addressEncoder/bech32.go", "addressEncoder/base32PolyMod.go", "addressEncoder/eip55.go", "addressEncoder/encoderProfile.go"],
  [("AddressEncode", "addressEncoder/addressEncoder.go"), ("AddressDecode", "addressEncoder/addressEncoder.go")])
p("P02", "Address decoding refuses anything that is not an address of that network",
  "Decoding a text under a network profile succeeds only if the text is the canonical address, in that network, of the hash that is returned. Any changed, missing or extra character, wrong checksum, other network's version or wrong payload length is reported as an error, never as data and never as a crash. Hexadecimal addresses, which carry no checksum, are read in any letter case, and bech32 texts in either case.",
  ["inputs", "fault_sequences"], "every profile x every text obtained from a valid address by corruption, truncation, extension, cross-network reuse or random construction",
  "The texts to refuse are unbounded; tests exercise at most one bad checksum per format.",
  ["addressEncoder/addressEncoder.go", "addressEncoder/bech32.go", "addressEncoder/base32PolyMod.go", "addressEncoder/xmrEncode.go"],
  [("AddressDecode", "addressEncoder/addressEncoder.go")])
p("P03", "The address validity check answers yes exactly for that coin's addresses",
  "For every coin symbol with a validity check, the check accepts a text exactly when it is a well-formed address of one of that coin's address kinds. It rejects corrupted addresses, other coins' addresses and arbitrary text with an error instead of crashing.",
  ["inputs", "configurations"], "every checked symbol x every text, valid for it or not",
  "Acceptance must match over all texts; tests try one good address per symbol.",
  ["addressEncoder/addressEncoder.go"], [("AddressCheck", "addressEncoder/addressEncoder.go")])
p("P04", "Hierarchical keys: private and public derivation agree and follow the scheme",
  "For every seed, supported curve, parent key and child number, the derived child (key, chain code, depth, parent fingerprint, child number) is the one the derivation scheme defines, and the public child derived from the parent's public key is the public key of the privately derived child. Deriving along a path equals deriving its steps one after another.",
  ["inputs", "histories"], "every seed, curve, tree position and child number, along every derivation sequence",
  "The key space is cryptographically large; short keys, carries and padding only show at rare values and after particular derivation sequences.",
  ["owkeychain/extendedkey.go", "owkeychain/hdkey.go"],
  [("GenPrivateChild/GenPublicChild", "owkeychain/extendedkey.go"), ("DerivedPrivateKeyWithPath/DerivedPublicKeyFromPath", "owkeychain/hdkey.go")])
p("P05", "Public keys never yield private or hardened children; bad derivations fail",
  "From a public key no sequence of operations yields private key material or a hardened child; such requests fail. A seed of unsupported length, a derivation deeper than 255 levels and a malformed path, or one with a number beyond 2^32-1 (2^31-1 when marked as hardened), are refused and yield no key.",
  ["inputs", "histories"], "every derivation history over private and public nodes, every path text, every depth",
  "The claim is about all histories; tests walk one or two fixed paths.",
  ["owkeychain/extendedkey.go", "owkeychain/hdkey.go"], [("GenPublicChild", "owkeychain/extendedkey.go"), ("path parsing", "owkeychain/hdkey.go")])
p("P06", "Extended-key and shared-chain texts round-trip and corrupted ones are refused",
  "Serialising any extended key and parsing the text gives back an equal key that derives the same children, and the text is the canonical one; a multi-signature share text carries exactly the public key, chain code and curve of its key. An extended-key text with changed, missing or extra characters or wrong length is refused with an error; a share text, which has no checksum, is refused when it does not have the format. Neither ever crashes.",
  ["inputs", "histories", "fault_sequences"], "every extended key on every curve, private or public, and every corruption of its text",
  "Round trip must hold for all keys and positions in the tree, including keys read back and derived further.",
  ["owkeychain/owencode.go", "owkeychain/multisig.go", "owkeychain/base58.go"], [("OWEncode/OWDecode", "owkeychain/owencode.go"), ("ChianEncode/ChainDecode/GetMultiSigShareData", "owkeychain/multisig.go")])
BTCF = ["btcTransaction/", "hcTransaction/", "cxcTransaction/", "zencashTransaction/", "omniTransaction/", "bitcoincashTransaction/", "bitcoinsvTransaction/"]
p("P07", "Bitcoin-family unsigned transactions encode exactly what was requested",
  "For the Bitcoin, HC, CXC, ZenCash, Omni, Bitcoin Cash and Bitcoin SV drivers, a created unsigned transaction is the chain's serialisation of exactly the requested inputs, outputs (amount and the script that pays the given address), lock time and replaceability, in order and nothing else. Requests with a missing field, an unusable address or a bad transaction id are refused.",
  ["inputs", "configurations"], "every list of inputs and outputs, every amount, index, lock time and replaceability, every address kind the chain supports",
  "Amounts, indices, counts and scripts range over huge spaces; a mis-encoded byte for one class of values loses funds and no sampled vector shows it.",
  [f + "transaction.go" for f in BTCF], [("CreateEmptyRawTransaction", "*/btc*.go, */transaction.go"), ("newTxOutForEmptyTrans / newTxInForEmptyTrans", "*/txOut.go, */txIn.go")])
p("P08", "Bitcoin-family signing digests commit to the whole transaction per input kind",
  "For the same drivers, the digest handed out for each input is the chain's signature hash of that input for its spending kind (plain, nested witness, native witness, multi-signature), computed over the given transaction and the given previous output, and names the address or keys and the number of signatures required. Unlock data that does not fit the transaction is refused.",
  ["inputs", "configurations"], "every transaction and every assignment of spending kinds and amounts to its inputs",
  "The digest must be right for every mix of input kinds, positions, counts and amounts; one wrong byte makes the spend invalid or lets amounts change.",
  [f + "transaction.go" for f in BTCF], [("CreateRawTransactionHashForSig / getHashes", "*/transaction.go, */btc*.go")])
p("P09", "Bitcoin-family signing and assembly produce valid canonical signed transactions",
  "For the same drivers, a signature made over a digest verifies under the signer's key and has a low S, and inserting the collected signatures yields exactly the chain's serialisation of the same transaction with strictly DER-encoded signatures, keys, redeem scripts and witnesses in place, which the driver's own verification accepts. Missing or malformed signature data is refused.",
  ["inputs", "histories"], "every transaction, key and valid signature, including signatures with short or high-bit components, for every spending kind",
  "Signature components with leading zeros or set high bits are rare and script lengths depend on them, so sampled signatures do not reach them.",
  [f + "transaction.go" for f in BTCF], [("SignRawTransactionHash", "*/btc*.go"), ("InsertSignatureIntoEmptyTransaction", "*/btc*.go"), ("DER encoding", "*/signatureUtil.go, */sigPub.go")])
p("P10", "Bitcoin-family verification accepts a signed transaction only if it is valid",
  "For the same drivers, verifying a signed transaction against the outputs it spends answers yes only if every input carries a valid signature over that very transaction. Any change to an input, output, amount, lock time, signature, key or spent script after signing, and to the spent amount where the input kind's digest commits to it, makes verification answer no or return an error.",
  ["inputs", "histories", "fault_sequences"], "every signed transaction and every tampering step between signing and verification",
  "The adversary's changes are unbounded; tests only verify untouched transactions.",
  [f + "transaction.go" for f in BTCF], [("VerifyRawTransaction", "*/btc*.go, */transaction.go")])
p("P11", "Multi-signature addresses and spends require exactly the declared threshold",
  "Creating an m-of-n address gives the redeem script with exactly the given keys in order and threshold, and the address committing to it; impossible thresholds, too many keys and malformed keys are refused. Spending it is accepted with m valid signatures of distinct keys in the script and refused with fewer, repeated or foreign ones.",
  ["inputs", "histories"], "every m, n, key list and subset and order of signers",
  "Subsets, orders and repetitions of signers are combinatorial; tests do one 2-of-3 spend.",
  ["btcTransaction/multiSig.go", "hcTransaction/multiSig.go", "omniTransaction/multiSig.go", "bitcoincashTransaction/multiSig.go", "btcLikeTxDriver/multiSig.go"],
  [("CreateMultiSig", "*/multiSig.go"), ("multi-signature verification", "*/transaction.go")])
p("P12", "Token and asset operations are encoded exactly in the carrying transaction",
  "For the Omni-layer operations (on the Omni, Bitcoin Cash, Bitcoin SV and HyperCash drivers), CXC assets and ZenCash replay protection, the created transaction carries exactly the requested operation: kind, property or asset, quantity, receiver or memo, or block reference, in the chain's payload format. Requests that cannot be represented are refused.",
  ["inputs"], "every operation kind and every property, quantity, text and block reference",
  "Quantities and texts range over large domains and encoding lengths change with them.",
  ["omniTransaction/", "bitcoincashTransaction/", "bitcoinsvTransaction/", "cxcTransaction/", "zencashTransaction/", "hypercashTransaction/"],
  [("omni payload builders", "*/omni*.go"), ("asset lock script", "cxcTransaction/txOut.go"), ("block reference suffix", "zencashTransaction/txOut.go")])
p("P13", "Reading back a Bitcoin-family transaction reports what it contains",
  "For the Bitcoin-family drivers, decoding an unsigned or signed transaction reports exactly its version, lock time, the referenced transaction id, index and spending kind of every input in order, the number of outputs and whether it has witnesses, however often it is asked. A truncated or extended transaction is refused with an error, never a crash.",
  ["inputs", "histories"], "every transaction the driver can create, unsigned or signed, decoded any number of times",
  "The decoder must invert the encoder on every value and at every stage of the life cycle.",
  ["btcTransaction/", "hcTransaction/", "cxcTransaction/", "zencashTransaction/", "omniTransaction/", "bitcoincashTransaction/", "bitcoinsvTransaction/"],
  [("DecodeRawTransaction", "*/transaction.go")])
p("P14", "MOAC and Ripple transactions encode and hash exactly the requested payment",
  "For the MOAC and Ripple drivers, the unsigned transaction, the digest to sign and the combined signed transaction are the chain's encoding of exactly the requested sender, receiver, amount, fee or gas, sequence or nonce, network, tag and memo. Requests that cannot be represented are refused.",
  ["inputs"], "every amount, fee, nonce, sequence, tag, memo and network",
  "Integer encodings change shape with magnitude; tests fix one magnitude.",
  ["moacchainTransaction/", "rippleTransaction/"], [("CreateEmptyRawTransactionAndHash", "moacchainTransaction, rippleTransaction"), ("VerifyAndCombineRawTransaction", "moacchainTransaction, rippleTransaction")])
p("P15", "Polkadot, V Systems, BigBang and Filenet transactions encode the request exactly",
  "For the Polkadot, V Systems, BigBang and Filenet drivers, the unsigned transaction, the message to sign and the combined signed transaction are the chain's encoding of exactly the requested parties, amounts, fee, nonce or anchor, inputs, data and mortality. Requests that cannot be represented are refused.",
  ["inputs"], "every amount, fee, nonce, height, input list, recipient list and data",
  "Compact integer modes, mortality periods and list orders have many regimes that fixed vectors do not visit.",
  ["polkadotTransaction/", "virtualeconomyTransaction/", "bigbangTransaction/", "filenetTransaction/"], [("creation and combination", "*/transaction.go")])
p("P16", "Cosmos, Evaio and Binance sign-documents state exactly the requested transfer",
  "For the Cosmos, Evaio and Binance Chain drivers, the document that is hashed for signing is the canonical JSON (sorted keys, no extra fields) of exactly the requested chain, account, sequence, fee, memo and messages, the digest is its hash, and the broadcast form carries the same content with the signature and key (for Binance Chain it reads back as such). Nothing in the request is dropped, defaulted or reordered.",
  ["inputs"], "every request, including every amount, denomination, memo text and list of fees and messages",
  "Texts and lists are unbounded; canonicalisation faults show only for particular characters or lengths.",
  ["cosmosTransaction/", "evaioTransaction/", "binancechainTransaction/"], [("sign document", "*/transaction.go"), ("CreateJsonForSend / VerifyAndCombineTransaction", "*/")])
p("P17", "Bitcoin-fork drivers build, hash and assemble the exact requested transaction",
  "For the Verge, Aliencoin, Vollar, HyperCash and Mateverse drivers, the unsigned transaction, each input's digest and the combined signed transaction are the chain's serialisation of exactly the requested inputs, outputs and locks, with strictly DER-encoded signatures; listing the inputs of an unsigned transaction reports what it contains. Requests that cannot be represented are refused.",
  ["inputs", "histories"], "every list of inputs and outputs, amounts, scripts, keys and signatures",
  "Per-input digests interact with input positions and script lengths; tests use one shape.",
  ["vergeTransaction/", "aliencoinTransaction/", "vollarTransaction/", "hypercashTransaction/", "mateverseTransaction/"], [("create / hash / combine", "*/transaction.go")])
p("P18", "Elastos, Bytom and FIII transactions encode and hash exactly the request",
  "For the Elastos, Bytom and FIII drivers, the unsigned transaction, the digests to sign and the combined signed transaction are the chain's serialisation of exactly the requested inputs, outputs, amounts, assets and programs, including Bytom multi-signature scripts of any threshold. Requests that cannot be represented are refused.",
  ["inputs", "histories"], "every list of inputs and outputs, amounts, positions and programs",
  "Varint sizes, entry identifiers and per-input digests vary with values and positions that fixed vectors do not visit.",
  ["elastosTransaction/", "bytomTransaction/", "fiiiTransaction/"], [("create / hash / combine", "*/transaction.go")])
p("P19", "WaykiChain and Ontology transactions encode and hash exactly the request",
  "For the WaykiChain and Ontology drivers, the unsigned transaction, its digest and the combined signed transaction are the chain's encoding of exactly the requested kind, parties, asset, amount, fee, height, nonce and contract data, and reading an Ontology transaction back reports what it contains. Requests that cannot be represented are refused.",
  ["inputs"], "every transaction kind, amount, fee, height, registration id, contract and memo",
  "Variable-length integers and script number encodings have many regimes that fixed vectors do not visit.",
  ["waykichainTransaction/", "ontologyTransaction/"], [("create / hash / combine", "*/")])
p("P20", "No driver releases or accepts a transaction whose signature does not match it",
  "For every non-Bitcoin-family driver, combining or verifying succeeds exactly when each required signature is valid for that very unsigned transaction under the presented public key. A signature for another transaction, another input or by another key, or any change to the signature or to the signed content of the transaction, makes it report failure.",
  ["inputs", "histories", "fault_sequences"], "every driver, transaction, key and every tampering step between signing and combining",
  "Tamperings and key mix-ups are unbounded; tests only combine matching signatures.",
  ["moacchainTransaction/", "rippleTransaction/", "polkadotTransaction/", "virtualeconomyTransaction/", "cosmosTransaction/", "evaioTransaction/", "bigbangTransaction/", "filenetTransaction/", "binancechainTransaction/", "elastosTransaction/", "fiiiTransaction/", "mateverseTransaction/", "waykichainTransaction/", "vollarTransaction/", "vergeTransaction/", "aliencoinTransaction/", "hypercashTransaction/", "ontologyTransaction/", "bytomTransaction/"],
  [("verify and combine", "*/")])
p("P21", "Drivers are stateless: calls do not interfere with each other or their arguments",
  "The result of any call depends only on its arguments: repeating it, interleaving it with calls of other wallets or coins, or running it concurrently gives the same result (up to signature randomness, nonces and clocks). No call alters the caller's argument data.",
  ["schedules", "histories"], "every interleaving of wallet sessions over all drivers, sequential or concurrent",
  "Interference depends on call order and timing; single-threaded tests of one driver cannot show it.",
  ["addressEncoder/", "owkeychain/", "btcTransaction/", "omniTransaction/", "cosmosTransaction/"], [("package-level state and shared slices", "all packages")])
p("P22", "The legacy Bitcoin test-network driver builds, signs and verifies exactly",
  "For the legacy Bitcoin test-network driver, created transactions encode exactly the requested inputs, outputs, lock time and replaceability, the digests are the network's signature hashes, the assembled transaction is the network's serialisation with the collected signatures, and verification of transactions with single-key inputs accepts it and refuses it after any tampering with the transaction or the spent outputs' data (verification of multi-signature inputs is not offered and reports failure). Multi-signature addresses and scripts are the network's.",
  ["inputs", "histories", "fault_sequences"], "every request, spending kind, key, signature and tampering step",
  "Same as for the other Bitcoin drivers: the input space is huge and tests fix one vector per kind.",
  ["btcLikeTxDriver/"], [("create / hash / sign / insert / verify", "btcLikeTxDriver/transaction.go")])
p("P23", "Exported codecs, checksums and hashes are exact and refuse malformed text",
  "The helpers the packages export for other code to build on - Base58 over any alphabet, Base58Check, the checksum and data helpers of addressEncoder, Base64, the general bech32/bech32m codecs (addressEncoder/bech32m, bytomTransaction, cosmosTransaction, evaioTransaction), bit regrouping, CRC-32, SCALE compact integers, program hashes from addresses and the incremental BLAKE hashes - return for every input exactly what the format defines: decoding gives back what was encoded, a text the format does not define is refused rather than misread or crashing, and a hash depends only on the bytes written since the last reset, not on how they were cut into writes or on sums taken in between.",
  ["inputs", "histories"], "every byte string, text, alphabet of distinct characters, prefix and sequence of writes, sums and resets",
  "Twenty-odd copies of the same codec are each exercised by a vector or none; carries, leading zeros, block boundaries and damaged texts are unbounded.",
  ["addressEncoder/", "addressEncoder/blake256/", "addressEncoder/bech32m/", "owkeychain/base58.go", "owkeychain/owencode.go", "*/base58.go", "bytomTransaction/bech32.go", "polkadotTransaction/codec.go"],
  [("Base58, Base58Check", "*/base58.go"), ("checksums and data helpers", "addressEncoder/addressEncoder.go"), ("Base64", "addressEncoder/base64.go"), ("BLAKE", "addressEncoder/blake256/")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
