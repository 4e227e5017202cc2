PROPS = []
NOT_APPLICABLE = {}


def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=()):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": list(over), "text": " ".join(text.split())}, "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    PROPS.append(d)


ENC = ["tfchain/encoders/rivine.py", "tfchain/encoders/sia.py"]
PRIM = ["tfchain/types/PrimitiveTypes.py"]
COND = ["tfchain/types/ConditionTypes.py"]

prop("C01", "Fixed-width integers encode exactly and out-of-range values are rejected",
     """Encoding an integer with a fixed width appends exactly its little-endian bytes of that width to what was encoded
     before; a value outside the width's range raises an error and leaves the encoded data unchanged. Equal encodings of
     in-range integers mean equal integers, in both binary formats.""",
     "every integer value, every width (1,2,3,4,8 bytes, single bytes), both encoders, any preceding data",
     "Tests encode a dozen example integers; boundaries of every width for every entry point are not covered.",
     ENC, [("add_int8..add_int64, range check", "tfchain/encoders/rivine.py"), ("add_int, add_byte", "tfchain/encoders/sia.py")])
prop("C02", "Slices are framed by their exact byte or element count, arrays are raw",
     """A byte or text slice is its length in bytes (rivbin: 1/2/3/4-byte variable prefix, siabin: 8-byte little-endian)
     followed by exactly its bytes; a list slice is its element count followed by its elements' encodings in order; an array is
     the same without prefix. Lengths of 2^29 and more are rejected by rivbin, and encoding several values appends them in order.""",
     "every length 0..2^29+16, every content, lists of up to 3 elements, both encoders",
     "The prefix changes form at 2^7, 2^14, 2^21, 2^29; tests use short ASCII strings only.",
     ENC, [("add_slice, _add_slice_length, add_array, add, add_all", "tfchain/encoders/rivine.py"),
           ("add_slice, add_array, add, add_all", "tfchain/encoders/sia.py")])
prop("C03", "The Merkle root is the tree hash of the pushed leaves in order",
     """The root of a tree equals the recursive tree hash of its leaves in push order (leaf: hash of 0x00 and the data, node: hash
     of 0x01, left and right; left subtree the largest full power of two), and of no leaf the hash of nothing. Asking for the root
     does not change the tree, and different leaf lists have different roots.""",
     "every leaf content and 0..9 leaves (17 in the thorough tier), any collision-free hash function",
     "Tests check one fixed list against one constant.",
     ["tfchain/crypto/merkletree.py"], [("Tree.push/root, join_subtree, leaf_sum, node_sum", "tfchain/crypto/merkletree.py")])
prop("C04", "Currency amounts parse, print and serialise without loss",
     """A currency amount given as text (optionally with the TFT unit), number or JSON keeps its exact value down to nine decimals,
     and printing it, with or without unit, or writing it as JSON and reading it back gives the same amount. Negative amounts raise
     the negative-value error and amounts with more than nine decimals the precision error; a rejected assignment keeps the old amount.""",
     "all amounts up to 10^21 smallest units, all decimal texts of up to 6 integer and 11 fraction digits, arbitrary short texts",
     "Tests sample a few literals; loss shows at particular digit counts, trailing zeros or suffix forms.",
     PRIM, [("Currency.value setter, from_json, json, str, __int__", "tfchain/types/PrimitiveTypes.py")])
prop("C05", "Currency arithmetic and comparison are exact",
     """Adding, subtracting, multiplying by a whole number and comparing currency amounts (also with plain ints and texts on either
     side, in place, and via sum()) gives the exact result of the operation on the amounts in smallest units; a negative difference is
     rejected with the negative-value error. Operands other than the target of an in-place operation are never changed.""",
     "all amounts up to 10^18 smallest units, all operand kinds and orders",
     "Tests add a few constants; sign, order and aliasing errors need other operand combinations.",
     PRIM, [("Currency operators", "tfchain/types/PrimitiveTypes.py")])
prop("C06", "Amounts encode as minimal big-endian integers behind their byte count",
     """The binary form of a currency or block stake amount is its shortest big-endian byte string in smallest units behind the byte
     count (rivbin: slice prefix, siabin: 8 bytes), so equal encodings mean equal amounts. Block stakes are exactly the non-negative
     integers and survive their JSON form.""",
     "all amounts below 2^80 smallest units (block stakes below 2^72), both encoders, alone, via add and in lists",
     "Byte-count boundaries (every power of 256) are not among the tested constants.",
     PRIM + ENC, [("Currency/Blockstake sia_binary_encode, rivine_binary_encode", "tfchain/types/PrimitiveTypes.py")])
prop("C07", "Binary data and hashes keep their bytes through text, JSON and encoding",
     """Binary data given as bytes or in its text notation (hex, 0x-hex, base64) keeps exactly its bytes through text and JSON and
     encodes as an array when of fixed size and as a slice otherwise; data of a fixed size accepts that size or nothing and a rejected
     assignment keeps the old value. Two values are equal exactly when their bytes are, and the nil hash is the all-zero hash in every form.""",
     "all contents of 0..4 (8) and 32 bytes in every notation and sizing mode, arbitrary short texts",
     "Tests use a handful of fixed values.",
     PRIM, [("BinaryData, Hash", "tfchain/types/PrimitiveTypes.py")])
prop("C08", "An address text is accepted exactly when type, hash and checksum agree",
     """Every wallet, atomic swap and multisig address prints as 78 characters (type, hash, and the first six bytes of the BLAKE2b hash
     of both, in hex) and parsing that text gives an equal address with the same binary form. A text is accepted only if its checksum is
     the one computed from its type and hash (the nil address: all zeros), and an accepted text is what the address prints as.""",
     "every 32-byte hash, address types 1..3 and nil, every checksum text, unusual type texts, other lengths",
     "A handful of real addresses cannot show that no wrong checksum is accepted.",
     COND, [("UnlockHash.from_json, __str__, _checksum, encodings", "tfchain/types/ConditionTypes.py")])
prop("C09", "Public keys keep their bytes and determine exactly one wallet address",
     """A public key survives its text form, encodes as algorithm byte and key (rivbin) or 16-byte padded algorithm name and key slice
     (siabin), and only 32-byte ed25519 keys are accepted. Its wallet address is the BLAKE2b hash of its length-prefixed siabin form, so
     different keys have different addresses.""",
     "every 32-byte key, key texts with other sizes and algorithm names",
     "Two fixed keys are tested.",
     ["tfchain/types/CryptoTypes.py"], [("PublicKey.from_json, unlockhash, encodings", "tfchain/types/CryptoTypes.py")])
prop("C10", "ERC20 addresses and hashes are validated and derived exactly",
     """A text is a valid ERC20 address exactly when it is 40 hex digits with an optional 0x prefix, and bytes exactly when 20 long; every
     valid text parses to the bytes it denotes and survives JSON. The ERC20 form of a TFT address is the last 20 bytes of the BLAKE2b
     hash of its type and hash.""",
     "every 20/32-byte value, texts with arbitrary characters at several positions, other lengths, every TFT address hash",
     "Validation is only tested on a few well-formed values.",
     ["tfchain/types/ERC20.py"], [("ERC20Address.is_valid_value, from_unlockhash, from_json", "tfchain/types/ERC20.py")])
prop("C11", "A multisig address depends on exactly the owners and the signature count",
     """The address of a multisig wallet is the Merkle root over the owner count, the owners in ascending text order and the number of
     required signatures, so it does not depend on the order in which owners are given. Two multisig wallets with different owners or
     different signature counts have different addresses, and computing the address leaves the owner list as given.""",
     "every set of 1..3 (thorough 4) owner hashes in every order, every threshold",
     "One fixed wallet is tested; order-independence is a claim about all permutations.",
     COND + ["tfchain/crypto/merkletree.py"], [("ConditionMultiSignature.unlockhash", "tfchain/types/ConditionTypes.py")])
prop("C12", "An atomic swap address commits to sender, receiver, secret hash and time",
     """The address of an atomic swap contract is the BLAKE2b hash of its encoded sender, receiver, hashed secret and refund time, so
     contracts differing in any term have different addresses; the secret hash is the SHA-256 of the 32-byte secret. Only wallet (or nil)
     addresses are accepted as parties and only timestamps, never block heights, as refund time.""",
     "every party hash, secret, secret hash and refund time",
     "One contract constant is tested.",
     COND, [("ConditionAtomicSwap.unlockhash, setters, AtomicSwapSecretHash.from_secret", "tfchain/types/ConditionTypes.py")])
prop("C13", "Output locks below 500000000 are heights, others timestamps, and hold exactly",
     """A lock value below 500000000 is a block height and any other one a unix timestamp; an output is locked exactly while the given
     chain height (or time) is below that value, and an output without lock is never locked. Negative values are rejected, and a lock
     given as a time span or datetime ends exactly that long after now, or at that moment.""",
     "every lock value 0..2^62, height, time and time span, through every condition that carries a lock",
     "The boundary at 500000000 and the equality case height = lock are single values among 2^62.",
     COND, [("OutputLock.value, is_timestamp, locked_check", "tfchain/types/ConditionTypes.py")])
prop("C14", "Duration texts mean the sum of their day, hour, minute and second parts",
     """A text is a duration exactly when it is a number of seconds or number-unit parts in descending order (days, hours, minutes,
     seconds, each at most once), and it means the sum of its parts. A whole number of seconds is printed as its days, hours, minutes and seconds (those of zero left out,
     fewer than 24, 60 and 60 of the latter), which parses to the same number again, and a lock given as '+' and a duration ends that long after now.""",
     "all texts of up to 3 (4) characters over digits, units, blanks and signs, every unit combination with 1-2 (3) digit parts",
     "Grammar corners (repeated, missing or reordered units) are not sampled.",
     COND + ["tfchain/internal/jsutils.py"],
     [("OutputLock.value text form, jsutils duration", "tfchain/types/ConditionTypes.py")])
prop("C15", "A recipient stands for exactly the condition it names, with its lock",
     """Sending to nothing, an address (object, text or bytes), a list of addresses (all must sign), a pair of addresses and signature
     count in either order, or a condition creates exactly that condition with that address; a lock wraps it in a time-locked condition
     with that value and the same recipient. Anything else is rejected.""",
     "11 recipient forms over every address, with no lock, height locks and time locks",
     "Tests use one or two forms with fixed addresses.",
     COND, [("from_recipient", "tfchain/types/ConditionTypes.py")])
prop("C16", "Conditions survive JSON and encode as type byte and length-prefixed data",
     """Every output condition (nil, address, atomic swap, multisig, and time locks around those except swaps and locks) has its documented
     JSON form, reads back from it as the same kind with the same address, lock and binary forms, and encodes as its type byte and its
     data as a slice in both encodings. Unknown types are rejected.""",
     "every condition kind with every address hash, lock, signature count, 0..3 multisig owners",
     "Tests cover one constant of each kind.",
     COND, [("ConditionTypes.from_json and the Condition* classes", "tfchain/types/ConditionTypes.py")])
prop("C17", "Fulfillments survive JSON, encode exactly, and count as signed only when signed",
     """Every input fulfillment (single, multisig, atomic swap) has its documented JSON form, reads back from it with the same binary forms,
     and encodes as type byte and data slice. It is fulfilled exactly when it carries its signature or, for multisig (also under a lock),
     at least the required number by different keys, both before and after JSON. A condition gets the fulfillment of its kind.""",
     "every key, signature and secret, 0..3 multisig signatures, every threshold",
     "Tests cover one constant per kind; fulfilled-ness after JSON is not tested.",
     ["tfchain/types/FulfillmentTypes.py"], [("FulfillmentTypes.from_json, from_condition, is_fulfilled, signature_add",
                                              "tfchain/types/FulfillmentTypes.py")])

TXNS = ["tfchain/types/transactions/Base.py", "tfchain/types/transactions/Standard.py", "tfchain/types/transactions/Minting.py",
        "tfchain/types/transactions/ThreeBot.py", "tfchain/types/transactions/ERC20.py", "tfchain/types/IO.py"]
prop("C18", "Transactions survive a JSON round trip in every form",
     """The JSON form of a transaction of any version is the documented one, and reading it back gives a transaction of the same version with
     the same JSON, binary form, signature hash and output ids, signed or unsigned: an unsigned 3Bot or ERC20 registration stays
     unsigned and a signed one signed.""",
     "every version, 0-2 inputs and outputs, every fulfillment and condition kind, all hashes, amounts, ids and signatures",
     "Tests round-trip one constant per version, all fully signed.",
     TXNS, [("json, from_json, binary_encode of every transaction class", "tfchain/types/transactions")])
prop("C19", "Binary form and output ids follow each version's layout",
     """The binary form of a transaction is the version byte and exactly the fields of that version's layout in order, each in that
     version's encoding. The id of its n-th coin or block stake output is the BLAKE2b hash of the output specifier, that form and n, so
     different outputs of different transactions have different ids; an index without an output is rejected.""",
     "every version (legacy 0 included) with 0-2 inputs and outputs and every field symbolic",
     "Tests compare constants; a field swapped or skipped only in combinations the constants lack goes unseen.",
     TXNS, [("binary_encode, coin_outputid_new, blockstake_outputid_new", "tfchain/types/transactions/Base.py")])
prop("C20", "The signature hash commits to every signed field, the input index and the key",
     """The hash a signer signs is the BLAKE2b hash of the version, the version's specifier and layout of all its fields except signatures,
     and the extra objects given (input index, public key, party specifier), so it changes with any of these and not with the
     signatures already made.""",
     "every version (legacy 0 included) with all fields symbolic, every input index and extra key",
     "Tests compare the hash of one constant per version; that no field escapes the hash is a claim about all transactions.",
     TXNS, [("signature_hash_get, _signature_hash_input_get", "tfchain/types/transactions/Base.py")])
prop("C21", "Transaction JSON is read as its version; unknown versions are rejected",
     """A transaction in JSON (object or text) is read as the class of its version; any other version raises UnknownTransansactionVersion,
     and a transaction class rejects the JSON of another version. A legacy (version 0) transaction is read as a version 1 transaction that
     keeps the legacy binary form, output ids and signature hash.""",
     "every version number -2..300, all legacy fields symbolic",
     "Tests read one example per known version.",
     TXNS + ["tfchain/types/transactions/Transactions.py"], [("Transactions.from_json, legacy_from_json", "tfchain/types/transactions/Transactions.py")])
prop("C22", "Arbitrary data is limited to 83 bytes and kept exactly",
     """A transaction with arbitrary data accepts up to 83 bytes (text counts in UTF-8 bytes) and keeps it exactly, also as base64 in JSON;
     more is rejected with a ValueError and leaves the data unchanged.""",
     "every data length 0..400 and every text length and UTF-8 size",
     "Tests use short ASCII data; the limit in bytes rather than characters is a corner case.",
     ["tfchain/types/transactions/Standard.py", "tfchain/types/transactions/Minting.py"],
     [("data setters", "tfchain/types/transactions/Standard.py")])
prop("C23", "3Bot transactions enforce their limits and charge exactly the due fees",
     """3Bot transactions require 10 TFT per month with 30% off from 12 and 50% off from 24 months, plus 90 TFT to register, 50 TFT for
     each extra or added or transferred name and 20 TFT to change addresses. At most 24 months, 5 names, 10 addresses and bot ids from 1
     are accepted; rejected values change nothing. Months and presence flags share one byte; registering an ERC20 address costs
     10 TFT, fixed.""",
     "every month count, number of names and addresses, bot id",
     "Tests do not look at fees at all.",
     ["tfchain/types/transactions/ThreeBot.py", "tfchain/types/transactions/ERC20.py"],
     [("required_bot_fees, compute_monthly_bot_fees, FlagsAndMonths, setters", "tfchain/types/transactions/ThreeBot.py")])
prop("C24", "Bot names are dot-joined labels of five or more characters, at most 63 in all",
     """A text is a bot name exactly when it is one or more dot-joined labels of at least 5 letters, digits and dashes, starting with a
     letter and not ending with a dash, and has at most 63 characters; anything else is a ValueError. A name keeps its text in JSON and
     copies, and is encoded as a slice.""",
     "all texts of the stated lengths over all ASCII characters",
     "Tests try a dozen names.",
     ["tfchain/types/ThreeBot.py"], [("BotName", "tfchain/types/ThreeBot.py")])
prop("C25", "Network addresses are hostnames, IPv4 or IPv6, encoded by kind and length",
     """A network address is a hostname (label and domain, at most 63 characters), an IPv4 address (four numbers up to 255) or an IPv6
     address; an IPv4 address mapped into IPv6 is IPv4. It is encoded as one byte of kind and length and its raw bytes, and keeps its text
     (canonical for IPv6) and encoding in JSON and copies. No address is an empty text.""",
     "all hostnames and octets within the stated lengths, every IPv6 group value and number",
     "Tests try three addresses.",
     ["tfchain/types/ThreeBot.py"], [("NetworkAddress", "tfchain/types/ThreeBot.py")])
W = ["tfchain/TFChainWallet.py"]
prop("C28", "A balance counts every output once, by the most final thing known of it",
     """However often and in whatever order an output is added to a balance, it is counted once, in the state that is most final: confirmed
     spent before unconfirmed spent before confirmed unspent before unconfirmed unspent. Available and unconfirmed coins are the sums of the
     outputs in those states, the addresses of all added outputs are known, and the balance is active when it has an unspent output.""",
     "every sequence of up to 3 sightings of 2 outputs, all ids and amounts",
     "Tests load one fixed wallet history per case.",
     W, [("WalletBalance.output_add", "tfchain/TFChainWallet.py")])
prop("C29", "Locked and unlocked coins are told apart by the chain height and time",
     """With a known chain height and time (both above zero) a balance's available, locked, unconfirmed and unconfirmed-locked amounts
     split its confirmed and unconfirmed unspent outputs by whether their lock is past at that height or time, and only unlocked outputs
     are listed as available. Without chain context nothing counts as locked. All totals are Currency amounts, also when zero.""",
     "all amounts, locks, heights and times",
     "Tests use one chain height and a few locks, far from the boundary.",
     W, [("WalletBalance totals", "tfchain/TFChainWallet.py")])
prop("C30", "Merging balances equals adding all their outputs to one balance",
     """Merging a balance into another counts every output of both once, in its most final state, adds up their coins, joins their addresses
     and keeps the later chain context. The merged-in balance is not changed, merging nothing changes nothing, and balances whose heights
     and times contradict each other are rejected, except that a balance without any context takes over that of the other.""",
     "all states of outputs shared between two balances of either class, all chain contexts",
     "Tests merge only balances of disjoint outputs at one height.",
     W, [("balance_add of WalletBalance and WalletsBalance", "tfchain/TFChainWallet.py")])
prop("C31", "Multisig outputs are kept in one wallet per multisig address",
     """In a wallets balance an output of a multisig condition, also a time-locked one, is kept in the multisig wallet of its address, with
     that condition's owners and signature count; other outputs are in the personal balance. Merging balances of one multisig wallet counts
     each output once, those of different multisig wallets stay apart, and a multisig wallet needs between one and all of its owners.""",
     "all output states, locks and amounts; all ways to merge personal and multisig balances",
     "Tests never merge two balances of one multisig wallet, nor lock multisig outputs.",
     W, [("WalletsBalance.output_add, multisig_output_add, balance_add", "tfchain/TFChainWallet.py"),
         ("MultiSigWalletBalance", "tfchain/TFChainWallet.py")])
prop("C32", "Funding picks unlocked outputs of the sources worth the amount",
     """Funding an amount from personal addresses (all of them, or the given address or addresses as text or unlock hash) returns distinct
     unlocked unspent outputs of just those sources, at most 99, worth exactly the amount plus the returned remainder, unconfirmed ones
     only if the confirmed ones do not suffice. It raises InsufficientFunds exactly when the 99 most valuable such outputs are worth less than the amount. With one
     source the remainder goes back to it; without source or with several no refund is suggested. Other source types raise TypeError.""",
     "all amounts, output values, locks and chain contexts; near the 99-input limit all values of two kinds of outputs",
     "Tests fund one amount from one fixed wallet of few outputs.",
     W, [("WalletsBalance.fund, _fund_individual", "tfchain/TFChainWallet.py")])
prop("C33", "Funding from multisig wallets keeps to the sources and the input limit",
     """Funding with multisig addresses among the sources uses only unlocked unspent outputs of the given sources, each once, at most 99, worth
     exactly the amount plus the remainder, and multisig ones only if the personal sources do not suffice. With at most 99 candidate outputs
     it raises InsufficientFunds exactly when the sources are worth less than the amount. The remainder of a single multisig source goes back
     to its multisig condition, and its inputs get multisig fulfillments.""",
     "all amounts, output values, locks and chain contexts for mixes of personal and multisig sources",
     "Tests fund from multisig wallets with one amount.",
     W, [("WalletsBalance._fund_multisig, fund", "tfchain/TFChainWallet.py")])
prop("C34", "Draining spends every available output exactly once",
     """Draining a balance returns transactions of at most 99 inputs, as few as possible, that together spend every unlocked confirmed output
     exactly once, and the unconfirmed ones only on request. Each has one miner fee, the data, and a single output of all its coins but
     the fee to the recipient with the lock. A zero or non-Currency fee is rejected; nothing to drain gives no transactions.""",
     "all amounts, fees, locks and chain contexts; 0..3 and 99..199 outputs",
     "Tests drain fixed wallets with few outputs, so batches never split.",
     W, [("WalletBalance.drain", "tfchain/TFChainWallet.py")])
S = "tfchain/types/transactions/Base.py"
SIGF = [S, "tfchain/types/IO.py", "tfchain/types/FulfillmentTypes.py", "tfchain/types/transactions/Minting.py",
        "tfchain/types/transactions/ThreeBot.py", "tfchain/types/transactions/ERC20.py"]
prop("C26", "A transaction requests exactly the signatures it still needs",
     """A transaction requests a signature from every owner of every coin and block stake input whose parent output is known who has not
     signed yet: the address of an address condition (anyone for a nil condition), each owner of a multisig condition, sender and receiver
     of an atomic swap, also under a time lock, over the hash of the input's index plus, for multisig and swap, the signer's key (and the
     swap secret if given). Minting requests the known mint condition's owners without index; bot and ERC20 registration transactions
     request their own keys' signatures over their labels. A request takes a signature only from the key of its address, once; a refused
     one changes nothing, an accepted one is stored with its key and that owner is not asked again.""",
     "all hashes, keys and secrets for every version, condition kind and set of signers",
     "Tests sign fixed transactions whose owners all sign in order.",
     SIGF,
     [("TransactionBaseClass.signature_requests_new", S), ("SignatureRequest and signature_requests_new of the fulfillments",
                                                           "tfchain/types/FulfillmentTypes.py"),
      ("CoinInput and BlockstakeInput", "tfchain/types/IO.py")])
prop("C27", "A transaction is fulfilled exactly when all needed signatures are there",
     """A transaction counts as fulfilled exactly when every coin and block stake input has a known parent output and enough signatures for it
     (one, or the required number of a multisig condition), and its own signatures are set: those of the mint condition, which must be
     known, of the bot, of both bots of a name transfer, or of the registered ERC20 key.""",
     "every subset of signatures on transactions of every version, all signature thresholds",
     "Tests only submit complete transactions; a wrongly complete one would be sent to the chain.",
     SIGF,
     [("TransactionBaseClass.is_fulfilled, _extra_is_fulfilled", S), ("is_fulfilled of the inputs", "tfchain/types/IO.py"),
      ("is_fulfilled of the fulfillments", "tfchain/types/FulfillmentTypes.py")])
WL = "tfchain/TFChainWallet.py"
WF = [WL, "tfchain/TFChainClient.py", "tfchain/types/transactions/Base.py", "tfchain/types/transactions/Standard.py"]
prop("C35", "Sending coins pays exactly what was asked from the given sources, signed",
     """Sending coins, directly or with several outputs through the transaction builder, makes one regular transaction whose inputs are distinct
     unlocked unspent outputs of the given sources (default: all personal addresses) and whose outputs are the requested amounts, conditions
     and locks in order, plus one with everything that remains after the minimum miner fee, if anything does, for the refund recipient
     (default: the only source, else the primary address). Every input has valid signatures of its owners in this wallet. It is submitted
     once, if and only if it is thereby fully signed. It raises InsufficientFunds, submitting nothing, only if the sources have too little;
     amounts that are not positive, and locks or data for an ERC20 recipient, are refused.""",
     "all amounts, output values, locks and chain contexts for each combination of sources, recipients and refunds",
     "Tests send one amount on a recorded chain; a wrong change output or key loses the user's coins.",
     WF, [("TFChainWallet.coins_send, _coins_send, CoinTransactionBuilder", WL), ("WalletsBalance.fund", WL),
          ("transaction_sign", WL)])
prop("C36", "An atomic swap contract is claimed exactly by whom and when it may be",
     """Redeeming succeeds exactly when the contract exists, is unspent, is worth the miner fee, its hash is that of the secret, and its
     receiver is an address of the wallet; refunding exactly when it is unspent, worth the fee, its refund time has come on the chain,
     and its sender is an address of the wallet. The submitted transaction spends only the contract, pays the minimum fee and everything
     else to the claiming address, and has that address's valid signature, with the secret only to redeem. Otherwise nothing is submitted, and the
     error names the contract, and the spending transaction if there is one.
     Verifying succeeds exactly when the contract is unspent and has the given amount, secret hash, minimum refund time (absolute or from
     now) and own sender or receiver, and returns it as it is on the chain. Contracts are equal exactly when terms, output and status are, and the text of one states its output, amount,
     parties and secret hash, and since when its refund is available or in how much time it will be.""",
     "all secrets, refund times, chain times, amounts and expectations, for every pair of own and foreign parties",
     "Tests redeem and refund one contract each; refunds at the exact time and wallets owning both sides are not tested.",
     WF + ["tfchain/types/ConditionTypes.py", "tfchain/types/FulfillmentTypes.py"],
     [("TFChainAtomicSwap.redeem, refund, verify", WL)])
prop("C37", "Creating an atomic swap contract locks the requested amount and terms",
     """Initiating or participating in an atomic swap makes one transaction funded, signed and submitted like any payment, whose first output
     has the requested amount and the swap condition: sender is the address getting the refund of the funding (the primary address if
     that is no address), the given receiver, the secret hash (of a new 32-byte secret when initiating), and the refund time as given or
     relative to the chain time (48 hours from then when initiating, 24 when participating). The returned contract matches that output.
     Amounts not above the fee (the error tells both) and too little funds are refused, nothing being submitted; nor is it with submit=False.""",
     "all amounts, hashes, refund times and chain times for each combination of sources and refunds",
     "Tests create two contracts with fixed amounts and times.",
     WF + ["tfchain/types/ConditionTypes.py"], [("TFChainAtomicSwap.initiate, participate, _create_contract", WL)])
prop("C38", "A wallet recovers its used keys and hands out every other one once",
     """The i-th key of a wallet is derived from its seed and i alone. The wallet starts with the requested number of keys and finds used
     further ones in steps of the scan count for as long as a step's last key is used, also those used later on. The unused keys before
     the last used one are handed out by address_new before any new key, in order, so that addresses are never repeated or skipped, and each
     address is signed for with its own key. Keys of others are not found. The mnemonic phrase of a wallet gives the same wallet again.""",
     "all seeds; all sets of used keys among the first ones, all scan steps",
     "Tests recover fixed wallets whose used keys follow each other.",
     [WL], [("TFChainWallet.addresses, _key_scan, address_new, key_pair_get", WL), ("SpendableKey", WL)])
prop("C39", "Signing a received transaction adds only missing signatures of the wallet",
     """Signing a given transaction, as text, dictionary or object, adds exactly the signatures still missing that keys of the wallet can give
     for inputs whose parent output the explorer knows, and for a mint transaction by the current minters, each valid, and changes nothing else.
     When
     that completes it, it is submitted, once and as signed. Nothing is submitted that is incomplete, or if submission was turned off.""",
     "all existing signatures, amounts and parent outputs for each combination of owners and signers",
     "Tests co-sign one two-owner transaction.",
     WF, [("TFChainWallet.transaction_sign", WL), ("signature_requests_new", "tfchain/types/transactions/Base.py")])
XC = "tfchain/TFChainClient.py"
XE = "tfchain/TFChainExplorerClient.py"
prop("C40", "Requests fail over to other explorers only when one cannot be reached",
     """A request, asking or posting, goes to the configured explorers in some order, each at most once, until one can be reached, and that one's
     answer counts: the line it sent with status 200; no content (status 204, or 400 with a message that the hash is unrecognized or not
     found) as ExplorerNoContent when asking; every other error status as ExplorerServerError, when posting as ExplorerServerPostError. If none
     can be reached, ExplorerNotAvailable names all of them. Posted data is sent unchanged as JSON. The network type decides on the
     explorers and the minimum fee, and is asked from a given explorer client if not given.""",
     "all orders in which explorers are tried, all combinations of unreachable explorers and error status codes",
     "Tests never use the network, so none of this code runs in them; a wrong retry could submit a payment twice.",
     [XE, XC, "tfchain/internal/HttpClient.py", "tfchain/errors.py"],
     [("TFChainExplorerClient.get, post", XE), ("Connection._http_request", "tfchain/internal/HttpClient.py"), ("TFChainClient.__init__", XC)])
prop("C41", "Looked up blocks, transactions and outputs are complete and those asked for",
     """Blocks (by id or height), transactions, coin and block stake outputs are returned exactly as the explorer reports them: all transactions
     with id, height (none if unconfirmed), contents, the ids of their outputs and, for each input, the output it spends; blocks with parent,
     time and payouts; an output with the transactions that made and, if any, spent it, in whatever order they are listed. An answer of
     another kind, for another id, without a required part or with lists of ids, outputs or payouts that do not match raises
     ExplorerInvalidResponse. Submitting a transaction posts it once and returns the id in the answer.""",
     "all ids, values, heights and times in answers, every single missing or surplus part",
     "Tests parse a few recorded pages that are all well-formed.",
     [XC, "tfchain/types/transactions/__init__.py", "tfchain/types/IO.py"],
     [("block_get, transaction_get, transaction_put, _output_get, _transaction_from_explorer_transaction", XC)])
prop("C42", "Reported balances count exactly the outputs of the looked up addresses",
     """The balance of a looked up address consists of exactly the outputs with that address, also time-locked ones, in its transactions: each
     once, spent or not and confirmed or not by the most final transaction about it, locked by the height and time of the last block. For a
     multisig address it has the owners and signature count of its condition, no matter which mint definitions are among the
     transactions. A wallet's balance combines those of all its addresses and of the multisig wallets linked to them.""",
     "all values, locks, heights and times; all states of the outputs; mint definitions of every kind",
     "Tests have no mint definition with outputs, nor locks near the chain height.",
     [XC, WL], [("ExplorerUnlockhashResult.balance, _multisig_balance", XC), ("TFChainWallet.balance", WL)])
prop("C43", "3Bot, mint condition, ERC20 and address lookups report what was asked for",
     """A 3Bot record is looked up by id, name or public key (also as text), a mint condition for the last or a given height, an ERC20 registration
     by personal address, and an address by text, unlock hash, or the owners of a multisig wallet; each is asked from its own endpoint
     and reported exactly as answered. Unknown 3Bots raise ThreeBotNotFound, unregistered addresses ExplorerNoContent, answers of another
     kind or without a required part ExplorerInvalidResponse. What is no identifier or personal address is refused without asking.""",
     "all ids, keys, heights, expirations and addresses; every single missing part",
     "Tests look up a few recorded pages.",
     [XC], [("TFChainThreeBotClient.record_get", XC), ("TFChainMinterClient.condition_get", XC), ("TFChainERC20Client.address_get", XC),
            ("TFChainClient.unlockhash_get", XC)])
prop("C44", "Transactions of an address or wallet are listed once, newest first",
     """Looking up an address or listing the transactions of a wallet, whose addresses may also have none, gives every transaction of it exactly
     once, unconfirmed ones first and then by descending height, each with its height and unconfirmed state.""",
     "all heights and unconfirmed states; all ways transactions are shared between addresses",
     "Tests list the transactions of fixed wallets whose addresses are all used.",
     [WL, XC], [("TFChainWallet.transactions", WL), ("TFChainClient.unlockhash_get", XC)])
prop("C45", "Mint conditions and new coins are signed by the current minters",
     """Setting a new mint condition and creating coins make a transaction of that kind with exactly the given condition or amount, recipient, lock
     and data, the minimum miner fee and a nonce, and nothing else; with the fulfillment of the current mint condition, also one with a lock or
     several owners, signed validly by exactly the owners in this wallet. It is submitted, once and as returned, exactly when those
     signatures suffice. Amounts that are not positive, and definitions without a recipient, are refused and nothing is submitted.""",
     "all amounts and locks; all kinds of mint conditions",
     "Tests mint with one owner and one amount.",
     WF + ["tfchain/types/transactions/Minting.py"], [("TFChainMinter.definition_set, coins_new", WL)])
prop("C46", "3Bot records are made, updated and moved for exactly their fees",
     """Registering a 3Bot, updating one and transferring names make a transaction with exactly the given months, names and addresses, spending
     unlocked outputs of the given sources, each once and with valid signatures of its owners, with exactly the fees due for it and the
     minimum miner fee paid and the rest returned as change. The bots sign it, with a new key or the requested one for a new bot, as far as
     their keys are in this wallet, and it is submitted, once and as returned, exactly when fully signed. Bad months, unknown bots, updates
     that change nothing, updates of inactive bots that pay no month and transfers between inactive bots are refused, with an error that names
     the unknown or inactive bot and its expiration, too little funds are reported as InsufficientFunds, and nothing is submitted.""",
     "all values of the outputs, months, times and expirations",
     "Tests make one record with fixed funds.",
     WF + ["tfchain/types/transactions/ThreeBot.py"], [("TFChainThreeBot.record_new, record_update, name_transfer", WL)])
prop("C47", "Coins sent to ERC20 and address registrations cost exactly what they should",
     """Sending coins to an ERC20 address and registering an address of the wallet for withdrawals make a transaction with exactly the given address
     and amount, or with the key, ERC20 address and signature of the registered address and the registration fee, spending unlocked outputs
     of the given sources, each once and validly signed, with the rest, after the minimum miner fee, returned as change; it is submitted,
     once and as returned, exactly when fully signed. The wallet's registrations are reported as the explorer has them. Amounts that are not
     positive and addresses that are not the wallet's are refused, the error naming the address, and nothing is submitted.""",
     "all values of the outputs, amounts and ERC20 addresses",
     "Tests send once and register one address.",
     WF + ["tfchain/types/transactions/ERC20.py"], [("TFChainERC20.coins_send, address_register, address_get, addresses_get", WL)])
prop("C48", "A transaction reports exactly the parts put into it, and only those",
     """In every transaction version, the inputs, outputs, block stakes, miner fees, arbitrary data, mint conditions and fulfillments, keys, signatures, id
     and height reported are exactly those put in, in order, each with its value, condition, fulfillment, id and known parent output,
     whichever way they were put in. Assigning a part replaces it, assigning nothing clears it, and a part that was never set reads as
     nothing of its kind. An assignment of the wrong type or size (a second refund, data over 83 bytes, a negative height) is refused and
     changes nothing. Other transactions are not affected. Transactions are equal exactly when their ids are.""",
     "all ids, amounts, keys, signatures, data and heights",
     "Tests read back the parts of transactions parsed from a handful of JSON texts, never assign them.",
     TXNS + ["tfchain/types/IO.py"], [("Transaction*.coin_inputs, coin_outputs, miner_fees, data, mint_condition, public_key, signature, ...", S), ("CoinInput, CoinOutput, BlockstakeInput, BlockstakeOutput", "tfchain/types/IO.py")])
prop("C49", "A lock given as a date, and a moment shown as text, mean the same moment",
     """A lock given as a date text is the moment the text states: year/month/day with a four or two digit year, day/month/year, or month/day of
     the current year, with an optional time of day in 24 or 12 hour form, is the first second of that day, or that second of it; a text -4h is
     that long before now. Every date and time the calendar has is accepted if a lock can express it; a text that states no moment, or one
     too old for a lock on time (which would be taken for a block height), is refused. A timestamp lock is shown as its year/month/day
     hours:minutes:seconds, which reads back as the same lock. Times are in UTC.""",
     "all digits of all supported forms, all current times, all shown timestamps of the years checked",
     "The tests of date texts are commented out in the repository, and a calendar has too many days to sample.",
     ["tfchain/internal/jsutils.py", "tfchain/types/ConditionTypes.py"],
     [("DateTime.clean, Time_.formatTime, getEpochDeltaTime", "tfchain/internal/jsutils.py"), ("OutputLock.__init__, __str__", "tfchain/types/ConditionTypes.py")])

prop("C50", "Nonces and swap secrets carry all the randomness their size allows",
     """The nonce of a new mint condition or coin creation transaction, and a random atomic swap secret, are drawn anew each time, from a source with
     as many values as they can have (8 and 32 bytes): two of them are the same only if the random source gave the same. A transaction that is read
     from JSON keeps its nonce: reading the same JSON twice gives the same transaction, and nothing in it is replaced by something random.
     The secret hash of an atomic swap belongs to that secret.""",
     "all values the random source can give, for two consecutive values",
     "That nothing of the randomness is lost is a statement about pairs of runs; a test sees one value at a time, which always looks random.",
     ["tfchain/internal/jsutils.py", "tfchain/types/transactions/Minting.py", "tfchain/types/ConditionTypes.py"],
     [("generateXByteID", "tfchain/internal/jsutils.py"), ("TransactionV128.__init__, TransactionV129.__init__", "tfchain/types/transactions/Minting.py"),
      ("AtomicSwapSecret.random", "tfchain/types/ConditionTypes.py")])

prop("C51", "A balance is shown with its true amounts, height and time",
     """The text of a balance states the sum of its available and of its locked coins; if there are any unconfirmed coins also the sums of the unconfirmed
     available and locked ones, and if unconfirmed transactions spend coins also the sum of these. It states the height and time of the chain it is
     for, or that they are unknown. The text of a multisig balance also states its address, owners and number of required signatures, and a
     balance with multisig wallets lists each of them that has unspent outputs apart from the personal coins. The error for an amount with too many
     decimals tells the amount and the number of its decimals.""",
     "outputs in every state and any lock, chain heights and times known and unknown",
     "The text depends on every combination of states, locks, heights and times, and the tests look at no balance text.",
     ["tfchain/TFChainWallet.py", "tfchain/errors.py"],
     [("WalletBalance.__repr__, _human_readable_balance", "tfchain/TFChainWallet.py"), ("MultiSigWalletBalance._human_readable_balance", "tfchain/TFChainWallet.py"),
      ("CurrencyPrecisionOverflow", "tfchain/errors.py")])
prop("C52", "The error of a refused operation names what it is about",
     """An operation that is refused submits nothing, and its error carries the facts as they are: the negative amount; the amount of too many
     decimals and their number; the amount of a swap contract that is not above the fee, and that fee; the swap contract (id, parties, amount, secret
     hash, refund time) that is spent, not due, not the wallet's, not as expected or claimed with a wrong secret, with the transaction that spent it, or
     the id that is no contract; the 3Bot that is unknown, or that is inactive with its expiration; the address that is not the wallet's; the endpoint
     of a failed request with the answer that cannot be one, the data that could not be posted, or the explorers that were tried.""",
     "amounts, contracts, secrets, times, bots, addresses, status codes and endpoints",
     "Callers decide on these facts (retry, ask for more, report); the tests check no attribute of an error.",
     ["tfchain/errors.py", "tfchain/TFChainWallet.py", "tfchain/TFChainClient.py", "tfchain/TFChainExplorerClient.py"],
     [("error classes", "tfchain/errors.py"), ("TFChainAtomicSwap, TFChainThreeBot, TFChainERC20", "tfchain/TFChainWallet.py"),
      ("TFChainExplorerClient.get, post", "tfchain/TFChainExplorerClient.py")])
