"""Which harness module decides which property, and what each run's bounds are."""

MODULES = {}
BOUNDS = {}
EXTRA_ASSUMPTIONS = {}

ASSUMPTIONS = [
    "Python semantics as modelled by /verif/engine (validated on every run by replaying solver models on the real code)",
    "hash functions are injective on the inputs of one path (collision resistance); concrete inputs get real digests; no digest ends or "
    "starts in 16 or more equal bytes that the code or harness compares it with as a constant",
]


def reg(module, prop, bounds, *extra):
    MODULES[prop] = "harness." + module
    BOUNDS[prop] = bounds
    if extra:
        EXTRA_ASSUMPTIONS[prop] = list(extra)


reg("enc", "C01", "integers in [-2^72, 2^72]; 2 preceding bytes; both encoders; every add_int*/add_byte entry point; int-like objects, booleans, texts and bytes of 0..2 characters given as a byte; arguments that are no numbers")
reg("enc", "C02", "byte slices of every length 0..2^29+16 (opaque content); strings of every character count and UTF-8 "
    "size up to 2^29+16; lists of 0..3 symbolic elements (integers, bytes, booleans, nested once) and longer concrete ones")
reg("merkle", "C03", "0..9 leaves (thorough: 17) of 0..3 symbolic bytes each with an uninterpreted injective hash function; 0..80, 95..97 and 127..129 leaves (thorough: 259, 384, 511..513, 768, 1025) with a hash function that keeps its whole input")
reg("prim", "C04", "amounts 0..10^21 smallest units (exhaustive in value) as int/text/JSON; texts of up to 6 integer and 11 "
    "fraction digits, optional TFT suffix in any letter case; arbitrary ASCII texts of up to 4 characters (JSON: 3), also behind and before fixed parts")
reg("prim", "C05", "amounts 0..10^18 smallest units per operand; operand kinds Currency (from JSON/int/text), int, str; "
    "multiplication by symbolic ints 0..10^12 (of amounts to 10^15) and constants up to 999999999, fractions and floats of six fixed values; sums of 0..4 amounts")
reg("prim", "C06", "amounts 0..2^90 smallest units; block stakes 0..2^72; up to 2 preceding bytes")
reg("prim", "C07", "binary data of 0..4, 20, 32, 33, 40 and 64 (thorough also 5..8, 39..128) symbolic bytes, hex / 0x-hex / base64 text, fixed, free and "
    "inferred sizes; arbitrary ASCII texts up to 4 characters for rejection")
W32 = "all 32-byte hashes/keys symbolic (every byte); hash functions uninterpreted and injective"
reg("types", "C08", "addresses of the three types with " + W32 + "; checksum texts over all 12 hex characters; type texts over "
    "'0123 +-_aAx'; lengths 0,1,66,76..80")
reg("types", "C09", W32 + "; key texts with 1,2,7-character algorithm names and 0,1,31,33,64-byte keys")
reg("types", "C10", "20/32-byte values fully symbolic; texts with two arbitrary ASCII characters at 5 positions, 3 prefixes; "
    "lengths 0,1,19,21,32")
reg("types", "C11", "1..3 owners (thorough 4), every permutation and address type, " + W32 + "; thresholds 1..3; one symbolic among 4..33, 64, 65, 128 "
    "(thorough to 257) owners")
reg("types", "C12", W32 + "; refund times 500000000..2^40; secrets of 0,31,32,33 bytes")
reg("types2", "C13", "lock values 0..2^62, heights 0..2^40, times 0..2^62 (all symbolic); negative values down to -2^40; "
    "time spans up to 10^9 s; datetime objects and textual dates of fixed values at any current time (any date: C49)")
reg("types2", "C14", "11 unit combinations of 1..2 symbolic digits per part, one unit of 1..6; durations 0..20 days for printing; "
    "arbitrary texts of 1..3 (4) characters over '19dhms -x'; fractional numbers and textual dates are outside")
reg("types2", "C15", "11 recipient forms with " + W32 + "; lock none / heights / timestamps up to 2^40; lists of 3..65 (thorough 129) owners, two symbolic")
reg("types2", "C16", "all condition kinds, multisig with 0..3 and 5..129 owners, locks around nil/address/multisig; " + W32 +
    "; lock values and signature counts 0..2^60")
reg("types2", "C17", "all fulfillment kinds, 0..3 multisig pairs and up to 33 read, 129 counted; " + W32 + "; signatures of 64 symbolic bytes")
TXB = ("every version (1,128,129,144,145,146,208,209,210): 0..5, 64 and 128/129 inputs, outputs and fees (v1, 129), the outer ones symbolic, of the listed fulfillment/condition kinds, "
       "amounts of 0, 2..4 and 8 bytes, bot ids 32 bit, months 0..24, up to 5 names and 10 addresses of fixed texts; ")
reg("txn", "C18", TXB + W32)
reg("txn", "C19", TXB + W32)
reg("txn", "C20", TXB + W32 + "; input index 0..2^32")
reg("txn", "C21", "versions -2..300; legacy transactions of 0..2 inputs/outputs, 0..1 block stake inputs/outputs; " + W32)
reg("txn", "C22", "data of every length 0..400 (opaque content), text of every character count and UTF-8 size; JSON for 0..3, 83 bytes")
reg("txn", "C23", "months -40..300 (fees 0..100), bot ids -5..2^33, 0..6 names, 0..11 addresses, all symbolic or enumerated")
reg("bot", "C24", "names of 1,3..7 (thorough 2, 8) arbitrary ASCII characters, 11..12 (13, 17) over 'aZ5.-', two free characters at "
    "the end of seven prefixes and inside names of 62..64 (58..64) characters")
reg("bot", "C25", "IPv4 octets of 1..3 symbolic digits or arbitrary characters; IPv6 with one symbolic group at each position, "
    "compressed forms, every number -5..2^130; hostnames of 1..6 (9) characters over 'aZ5.-_ @\\n' and with 1..3 arbitrary "
    "characters in four positions, lengths 59..68 (IPv6 scope ids and other IPv6 notations are outside)")
reg("bal", "C28", "1..3 (thorough 4) sightings of 2 outputs with symbolic ids and values, every state of every sighting; 8..130 (thorough 600) outputs sighted once or twice, three values symbolic")
reg("bal", "C29", "1..2 (thorough 3) outputs, amounts 0..2^64, chain height and time 0..2^40, locks 1..2^40 or none, on address, nil and "
    "multisig conditions; 8..130 (thorough 600) outputs with fixed locks but one")
reg("bal", "C30", "1..2 (thorough 2+2) sightings of 2 outputs per balance; heights 0..2^30, times 0..2^40; both balance classes; 9..130 (600) outputs, three values symbolic")
reg("bal", "C31", "1..2 sightings of outputs of two multisig wallets and one address, plain or time locked; two balances of one multisig "
    "wallet merged in six ways; signature counts -3..6 for 0..3 owners; up to 40 (130) wallets, 64 (130) owners, 70 (300) outputs each")
reg("bal", "C32", "0..3 (thorough 4) outputs with amounts 0..2^50, requested amount 1..2^52, locks and chain context symbolic, 21 "
    "combinations of outputs and sources; 99..121 (thorough 201) outputs of two symbolic amounts; 8..65 (99) sources of one output each")
reg("bal", "C33", "1..3 (thorough 4) outputs of two multisig wallets and two addresses, amounts 0..2^50; 100 (thorough 99, 130) outputs of "
    "one symbolic amount; 8..65 (98) multisig sources of one output each")
reg("bal", "C34", "0..3 outputs with amounts 0..2^50, fees 1..2^40, symbolic locks; 99..199 outputs of two symbolic amounts")
reg("sig", "C26", "transactions of every version with 2 coin inputs (v1 also 2 block stake inputs), owners of 1..3 keys; 3..33 (thorough 256) inputs or "
    "owners of fixed keys; " + W32)
reg("sig", "C27", "every subset of the signatures of up to 2 inputs, up to 3 owners per input; 3..33 (thorough 256) inputs or owners of "
    "fixed keys, any required number; " + W32)
reg("wal", "C35", "1..3 outputs per wallet, 20 combinations of outputs, sources, recipients, refunds and locks; amounts up to 2^33 (one "
    "scenario, thorough all: 2^41) smallest units; locks 1..2^40; chain heights to 2^30 and times to 2^40; 8..34 (98) inputs, 10..130 outputs; concrete keys")
reg("swap", "C36", "contract values 0..2^40, times to 2^40, secrets of 32 symbolic bytes; six pairs of parties; concrete keys")
reg("swap", "C37", "17 combinations of up to 16 outputs, sources and refunds, amounts up to 2^33, contract times to 2^40, hashes of 32 symbolic bytes")
reg("keys", "C38", "every set of used keys among the first 6 (far: 8, thorough 11) indices after the initial ones, scan steps 1..5; seeds of "
    "32 symbolic bytes for derivation (ed25519 injective); two looks at the chain at most; 16..258 (1025) keys with one symbolic used one; phrases of five fixed seeds of each of three sizes")
reg("keys", "C39", "21 combinations of 1..2 inputs spending confirmed and unconfirmed outputs, existing signatures of 64 symbolic bytes, known and unknown parent outputs; parent "
    "values to 2^33, outputs to 2^16; 15 mint conditions and signature sets of two versions in four forms; concrete keys")
reg("keys", "C42", "two outputs of 0..2^60 with symbolic locks in 1..2 transactions of every state, on a personal, the free-for-all and two "
    "multisig addresses, with mint definitions of four kinds; 11 combinations of outputs of a whole wallet; heights to 2^30, times to 2^40; "
    "up to 70 (260) transactions of 1..60 outputs, wallets of up to 20 (65) addresses and 70 (260) multisig wallets, two or three values symbolic")
reg("lookup", "C40", "1..3 explorers, every order of asking; 4, 5, 7 and 12 explorers of which one or none can be reached (of more than 5 in n*6 orders); HTTP status codes 200, 201, 204 and 300..599 (symbolic), five bodies, four kinds of unreachability; urlopen is a stand-in")
reg("lookup", "C41", "transactions of 0..2 coin and block stake inputs and outputs with 32-byte symbolic ids, values of 2^20..2^22, heights and times to 2^40; blocks of 0..2 transactions and payouts; transactions of up to 100 inputs and 130 outputs, blocks of 65 transactions or 130 payouts, the outer parts symbolic; every single missing or surplus part of an answer")
reg("lookup", "C43", "records of 0..5 names and 0..10 addresses, symbolic ids, keys and expirations; identifiers of five forms; mint conditions of three kinds, heights to 1000; symbolic ERC20 addresses; addresses with up to 65 transactions and 130 multisig wallets; every single missing or wrong part of an answer")
reg("keys", "C44", "0..3 (thorough 4) transactions of symbolic heights 0..2^40 or unconfirmed; 8 distributions over two addresses; 10..130 (513) transactions, one of symbolic height")
reg("services", "C45", "9 mint conditions of own and foreign owners, 9..34 (129) owners with two own ones, 5 recipients; amounts -2^40..2^60, locks to 2^40; concrete keys")
reg("services", "C46", "12 combinations of sources and refunds, up to 30 inputs, output values 2^36..2^40, months 0..24 (refused: -40..300), times and expirations to "
    "2^40, fixed bot names and addresses; concrete keys")
reg("services", "C47", "12 combinations of sources and refunds, up to 30 inputs, output values and amounts to 2^40, symbolic ERC20 addresses; concrete keys")
reg("parts", "C48", "0..2 inputs, outputs and fees with symbolic 32-byte ids, four-byte amounts, keys and signatures, known and unknown parent "
    "outputs; 9..130 (thorough 513) inputs, outputs, block stakes and fees, three of each symbolic; data of 0, 1, 3, 83 and 84 bytes (text: one character of any width, the others ASCII); heights -5..2^40")

AGAIN = "; the same object asked again after a change of its parts or of the chain (stale answers)"
for _p in ("C03", "C08", "C09", "C11", "C12", "C16", "C17", "C19", "C20", "C28", "C29", "C30", "C35", "C36", "C40", "C41", "C42", "C43", "C44", "C45", "C46", "C47"):
    BOUNDS[_p] += AGAIN
for _p in ("C34", "C35", "C36", "C37", "C45"):
    BOUNDS[_p] += "; data of 0..83 and more bytes given to the operation"

MODULES["IDIOMS"] = "harness.idioms"  # the engine's own check, not a property
reg("dates", "C49", "every digit of Y/m/d, d/m/Y, y/m/d and m/d texts with 1 and 2 digit months and days, with times H:M, H:M:S and 12 hour forms; any moment of "
    "2 to 7 years from 1986 to 2106 as current or shown moment (thorough: of all of them); spans of 1 and 2 digits in every unit; one arbitrary printable "
    "character in place of digits; Python's own expression and field rules for a format are used for symbolic texts; other than digit characters "
    "and leap seconds are outside; the time zone is UTC")
reg("rand", "C50", "every stream of random draws; two values made one after the other; the quality of the source itself (Python's random module) is outside")
reg("report", "C51", "up to 2 outputs (thorough 3) of one of four amounts each in any state, any lock below 2^40 or none, five heights and times of the chain; heights "
    "to 999 and any moment of 3 days in the first line; amounts with 10 and 13 decimals; the wording beyond amounts, addresses, height and time is outside")
reg("refusals", "C52", "amounts to 2^61, negative or of 10, 11 and 15 decimals; contracts of values, times and secrets as in C36; bot ids 4..999, expirations and times to 2^40; "
    "addresses of 32 symbolic bytes; two explorers, status codes 300..599; answers of two wrong shapes; the wording of errors is outside")
