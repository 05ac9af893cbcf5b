"""Which reference functions, twin pairs and rules decide each property.

Patterns name functions and values of the reference model (specs/).  Only the
functions a property selects are put in place of the package's own when its
obligations are compared, so a change elsewhere does not touch its verdict.
"""


def mods(*names):
    out = []
    for n in names:
        out.append(n if n.startswith("!") else ("aiootp." + n + ("" if "*" in n or n[-1] == "$" else ".*")).rstrip("$"))
    return ["!aiootp." + x[1:] if x.startswith("!") else x for x in out]


EQ = mods("generics.canon.*bytes_are_equal$")
PACK = mods("generics.canon")
HASH = mods("generics.hashing", "generics.domains")
BASE = PACK + HASH
CIPHERS = mods("ciphers") + BASE
SPLIT = mods("_gentools.batch$", "_gentools.resize$", "_gentools.popleft$")
RNG = mods("randoms.rng", "randoms.simple", "randoms.threading_safe_entropy_pool", "randoms._early_salts", "randoms.entropy_daemon")
TEXT = mods("generics.byte_io")
PASS = mods("keygens.passcrypt")
WORKERS = mods("asynchs.concurrency_interface", "asynchs.threads", "asynchs.processes", "asynchs.loops")
CURVE = mods("keygens.curve_25519", "keygens$")
DB = mods("databases") + TEXT

PROPS = {
    "C01": dict(ref=CIPHERS + TEXT + SPLIT),
    "C02": dict(ref=CIPHERS + SPLIT, rules=["atomic"]),
    "C03": dict(ref=CIPHERS + SPLIT + mods("_permutations"), rules=["atomic"]),
    "C04": dict(ref=CIPHERS + mods("_permutations")),
    "C05": dict(ref=CIPHERS + RNG, rules=["atomic"]),
    "C06": dict(ref=CIPHERS + mods("asynchs.clocks")),
    "C07": dict(ref=CIPHERS + TEXT + SPLIT + mods("_permutations"), rules=["atomic"]),
    "C08": dict(ref=PACK),
    "C09": dict(ref=mods("_permutations", "generics.transform.xi_mix$") + CIPHERS),
    "C10": dict(ref=EQ + PASS + mods("ciphers", "keygens.package_verifier", "keygens.package_signer", "keygens.curve_25519.ed25519")),
    "C11": dict(ref=mods("randoms", "ciphers.key_bundle", "ciphers.padding", "ciphers.cipher_interface", "databases.sync_database",
                         "databases.async_database", "databases.database_properties", "keygens.curve_25519", "keygens.passcrypt.interface",
                         "keygens.passcrypt.session_init", "keygens.passcrypt.sessions_manager", "keygens.mnemonics", "_paths")),
    "K01": dict(ref=BASE + mods("keygens.domain_kdf", "ciphers.cipher_kdfs", "databases.dbkdf")),
    "K02": dict(ref=CURVE),
    "K03": dict(ref=CURVE + BASE + mods("keygens.domain_kdf")),
    "K04": dict(ref=mods("keygens.package_signer", "keygens.package_verifier", "keygens.curve_25519.ed25519",
                         "keygens.curve_25519.shared_interface") + EQ + DB),
    "K05": dict(ref=PASS + BASE + TEXT + WORKERS + mods("asynchs.clocks")),
    "K06": dict(ref=PASS + BASE + WORKERS),
    "K07": dict(ref=mods("keygens.mnemonics", "_constants.datasets.WORD_LIST$", "generics.transform") + PASS + BASE),
    "B01": dict(ref=DB + mods("_paths", "keygens.domain_kdf") + BASE),
    "B02": dict(ref=DB + mods("_paths"), rules=["atomic"]),
    "B03": dict(ref=DB + PASS + BASE + mods("_paths", "keygens.domain_kdf")),
    "B04": dict(ref=DB + BASE + mods("keygens.domain_kdf", "ciphers")),
    "F01": dict(ref=mods("_paths", "asynchs.guards", "asynchs.aos")),
    "G01": dict(ref=mods("asynchs.guards"), rules=["atomic"]),
    "G02": dict(rules=["blocking"], ref=WORKERS + mods("asynchs.guards", "asynchs.aos", "asynchs")),
    "T01": dict(twins=["aiootp.*"], rules=["awaited", "atomic"]),
    "S01": dict(ref=mods("commons", "_constants.NamespaceMapping.*$", "*.slots_types$"), rules=["declared"]),
    "S03": dict(ref=mods("commons") + mods("_gentools.*collate$")),
    "S02": dict(ref=mods("commons", "*.__repr__$", "_debug_control", "_exceptions"), rules=["masking"]),
    "U01": dict(ref=mods("randoms.ids", "_permutations", "asynchs.clocks") + RNG, rules=["atomic"]),
    "U02": dict(ref=mods("asynchs.clocks")),
    "D01": dict(ref=TEXT + mods("generics.transform", "_constants.datasets")),
    "D02": dict(ref=mods("_gentools")),
    "E01": dict(ref=mods("_exceptions", "asynchs.clocks")),
    "R01": dict(ref=mods("__engagement", "__PUBLIC_X25519_KEY__$")),
    "H01": dict(ref=WORKERS + mods("asynchs.aos")),
}
