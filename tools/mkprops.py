"""Writes /verif/properties.jsonl from the table below (kept as a script so the
long texts stay readable and the JSON stays valid)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = False
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


CI = "aiootp/ciphers/cipher_interface.py"
CS = "aiootp/ciphers/cipher_streams.py"
DS = "aiootp/ciphers/decipher_streams.py"
SH = "aiootp/ciphers/stream_hmac.py"
SJ = "aiootp/ciphers/stream_junction.py"
SI = "aiootp/ciphers/synthetic_iv.py"
KB = "aiootp/ciphers/key_bundle.py"
KD = "aiootp/ciphers/cipher_kdfs.py"
PD = "aiootp/ciphers/padding.py"
FM = "aiootp/ciphers/ciphertext_formatting.py"
C2 = "aiootp/ciphers/chunky_2048.py"
S2 = "aiootp/ciphers/slick_256.py"
CC = ["aiootp/ciphers/chunky_2048_config.py", "aiootp/ciphers/slick_256_config.py",
      "aiootp/ciphers/dual_output_shake_cipher_config.py", "aiootp/ciphers/shake_permute_cipher_config.py"]
CN = "aiootp/generics/canon.py"

prop("C01", "One-shot decryption authenticates the whole message before releasing anything",
     "Every one-shot decryption entry point (bytes, JSON and URL-safe token; sync and async; both ciphers) returns plaintext, or lets any decrypted timestamp or padding byte influence its outcome, only after the authentication tag carried by the message has been found equal to the tag recomputed from the key, salt, IV, associated data and every ciphertext block in order. Altering, dropping, adding or reordering any byte of the message, or using another key or associated data, makes the call raise. A message whose length is not header plus a positive whole number of blocks is refused before decryption starts.",
     ["inputs", "configurations"], "all messages, keys, associated data, TTLs; both ciphers; sync and async twins",
     "Tests tamper with a handful of bytes in sampled messages; a path that skips a block, or that checks after releasing, shows only for particular block counts or field positions.",
     [CI, C2, S2, SH, SJ, SI, FM, PD], [("decrypt entry points", CI), ("tag verification", SH), ("block pipeline", SJ), ("message parsing", FM)],
     observe=["return value and raised exception of bytes_decrypt/json_decrypt/read_token and twins"])

prop("C02", "Stream decryption verifies each block's ID before the block is used",
     "A decryption stream accepts a block of ciphertext for decryption only after the ID delivered with it has been found equal to the ID computed for exactly that block at exactly that position from the key, session values, associated data and all previous blocks; a failed comparison raises and leaves the stream able to go on as if the rejected block had not been offered. Blocks of wrong length, and block IDs outside the permitted length range, are refused. Once finalised a stream accepts no further data.",
     ["inputs", "histories"], "all sequences of buffer/shuffle/iterate/finalise calls with arbitrary packets, both ciphers, sync and async",
     "Tests run a few fixed stream scripts; acceptance of a bad block in the middle of a longer history or of a short ID is not reached.",
     [DS, CS, "aiootp/ciphers/cipher_stream_properties.py", SH], [("packet buffering", DS), ("block ID computation and test", SH)],
     state=["stream buffers", "stream status flags"], observe=["exceptions of buffer/iteration/finalise", "order and content of yielded plaintext"])

prop("C03", "Tags, block IDs and block keys cover every block once, in order, on both sides",
     "The final tag, every block ID and every block's key stream depend on the session values and on each previous ciphertext block exactly once, in order, and the encrypting and the decrypting side feed identical values, so both sides derive identical tags, IDs and key streams for the same message. The tag can be produced or tested only after finalisation, finalisation happens only once, and nothing may be fed in afterwards.",
     ["inputs", "histories"], "all messages of any number of blocks; both ciphers; one-shot and stream; sync and async",
     "Round-trip tests cannot see a value that both sides omit; omission of a block or of a chaining value needs a message pair constructed against it.",
     [SH, SJ, SI, CS, DS], [("running MAC", SH), ("stream junctions", SJ), ("first-block processing", SI)],
     state=["running MAC and chained digests"], observe=["tag, block IDs, ciphertext"])

prop("C04", "Key, salt, IV, associated data and configuration all bind the session keys",
     "The key streams and the authentication state of a session are derived from the caller's key, the session salt, the IV, the full associated data and the cipher's fixed configuration, encoded unambiguously and separated by purpose. Every public encryption, decryption, token and stream entry point passes the caller's key, salt, associated data and IV on to that derivation unchanged. Keys that are not bytes or shorter than the minimum, and wrongly typed or sized salts, IVs and associated data, are refused.",
     ["inputs", "configurations"], "all values of key/salt/iv/aad including empty and very long; both ciphers; all entry points and twins",
     "A parameter dropped by one wrapper, or by both directions, still round-trips; the tests use default associated data on most entry points.",
     [KB, KD, CI, CS, DS] + CC, [("key bundle", KB), ("key derivation", KD), ("public wrappers", CI)],
     observe=["ciphertext as a function of all inputs"])

prop("C05", "Every encryption session uses a fresh random IV and a single-use key bundle",
     "For encryption the IV always comes fresh from the OS random source and a caller-chosen IV is refused; for decryption the IV is required and is used as given; when the caller gives no salt (or an empty one) a fresh random one is drawn. A session's key material is bound to one direction and to sync or async use, and can be attached to one tag validator and one cipher pipeline only; any second use is refused.",
     ["inputs", "histories"], "all call sequences on key bundles, validators and pipelines; all entry points",
     "IV reuse is invisible in outputs of single runs; tests check a few misuse orders of the setup calls only.",
     [KB, SH, SJ, CI, CS, DS], [("mode and registration typestate", KB), ("validator typestate", SH)],
     state=["bundle mode and registers"], observe=["IV in the output", "refusal exceptions"])

prop("C06", "Expired messages are rejected whenever a TTL is given",
     "Whenever the caller passes a TTL, one-shot decryption and token reading return data only if the authenticated embedded timestamp is no older than the TTL, and stream decryption yields its first plaintext only after the same test; with no TTL no age limit applies. A stream whose test failed or could not be made yet must make it again before it yields anything. Timestamps written by encryption are the current time in the format the reader expects.",
     ["inputs", "histories", "schedules"], "all TTL values, ages, iteration/buffer orders; both ciphers; sync and async",
     "Tests sleep through one or two expiry cases; boundary and interrupted-iteration histories are not reached.",
     [PD, CI, DS, "aiootp/asynchs/clocks.py"], [("timestamp test", "aiootp/asynchs/clocks.py"), ("depadding", PD), ("stream first-block test", DS)],
     observe=["TimestampExpired vs returned plaintext"])

prop("C07", "Encrypted data is recovered byte for byte: padding, layout and block framing",
     "For every plaintext, including empty, block-aligned and multi-block ones, the padding added before encryption is removed exactly by decryption, the message fields are written and read at the same offsets and in the same order, and splitting into blocks and re-joining loses, repeats or reorders nothing, for any pattern of buffering in streams. The output length is determined by the plaintext length alone, and padding bytes are fresh random bytes.",
     ["inputs", "histories", "configurations"], "all plaintext lengths and chunkings; both ciphers; one-shot and stream; sync and async",
     "Tests try a limited list of sizes; off-by-one errors at one residue of the block size or one buffering pattern escape.",
     [PD, FM, CS, DS, CI] + CC, [("padding", PD), ("ciphertext formatting", FM), ("stream buffering", CS)],
     observe=["decrypt(encrypt(x)) == x", "ciphertext length"])

prop("C08", "Canonical packing is injective and unpacking accepts only what packing produces",
     "Packing different sequences of byte strings (or different block size, pad or integer width) never gives the same bytes, and unpacking returns exactly the packed items. Unpacking raises a canonical-encoding error for every byte string that packing cannot produce: truncated or inflated lengths, wrong item counts, padding that is too long, of the wrong byte, or with trailing data.",
     ["inputs"], "all byte strings and item sequences; sync and async",
     "Injectivity and strictness are statements about all pairs of inputs; tests corrupt a few sampled encodings.",
     [CN], [("packer", CN), ("unpacker", CN), ("padding test", CN)], observe=["bytes packed", "items or exception from unpack"])

prop("C09", "Encipherment and permutations are exact inverses of their counterparts",
     "Each keyed permutation maps its integer domain one-to-one and its inversion undoes it for every value and key, step by step in the same key schedule, for every size the configuration allows. For both ciphers the block transformation applied in decryption is the inverse of the one applied in encryption under the same key stream.",
     ["inputs", "configurations"], "all keys, values and permitted sizes; both directions; sync and async",
     "Tests sample random keys and values; a wrong mask or an off-by-one in a domain bound fails only for rare values.",
     ["aiootp/_permutations/affine_permutation.py", "aiootp/_permutations/affine_permutation_config.py", "aiootp/_permutations/affine_xor_chain.py", "aiootp/_permutations/affine_xor_chain_config.py", "aiootp/_permutations/fast_affine_xor_chain.py", SJ, SI],
     [("permutation", "aiootp/_permutations"), ("block transforms", SJ)], observe=["invert(permute(x)) == x"])

prop("C10", "Authenticity verdicts use full-length constant-time comparison and fail closed",
     "Wherever a secret-dependent value supplied from outside (message tag, block ID, password-hash tag, package checksum, transmitted digest) is accepted or rejected, the verdict is taken by a constant-time comparison of the complete values and every path on which that comparison is not true raises or returns a refusal. Exceptions raised by such a test are never swallowed on the way to the caller.",
     ["inputs", "programs"], "every verification site reachable from the public API",
     "Timing and partial comparison are invisible to functional tests.",
     [SH, CN, "aiootp/keygens/passcrypt/interface.py", "aiootp/keygens/package_verifier.py", "aiootp/keygens/domain_kdf.py"],
     [("constant-time comparison", CN)], observe=["verdict and exception of each verification entry point"])

prop("C11", "Secret and unique values come from the OS random source on every path",
     "Every generated key, salt, IV, padding byte, identifier token and random choice offered by the package contains, for every call, fresh output of the operating system's secure random source of at least the documented size; caller-supplied or time-derived entropy is only ever mixed in additionally, and the shared entropy pool is both read and advanced by each draw. No such generator returns a constant, a cached or a purely pseudo-random value (helpers for random delays and plain uniform numbers are not among them).",
     ["inputs", "histories", "schedules"], "all calls of the random API and all internal draws",
     "Output of a weak source looks random to a test; reuse between two calls in different threads is not reached.",
     ["aiootp/randoms/entropy_daemon.py", "aiootp/randoms/rng.py", "aiootp/randoms/simple.py", "aiootp/randoms/threading_safe_entropy_pool.py"],
     [("entropy pool", "aiootp/randoms"), ("draw sites", "aiootp/ciphers")], observe=["provenance of generated values"])

prop("K01", "Keyed hashing and domain KDFs separate all of their inputs",
     "Two calls of the package's hashing helper or of a domain KDF that differ in any input — items, their split, key or its absence, domain, pad, hash, output size, context data, or history of updates — absorb different byte strings, and equal calls give equal results for both sync and async variants. A KDF's state depends on every update in order, copies evolve independently, and empty updates or missing keys are refused.",
     ["inputs", "histories"], "all inputs and update histories; all hash functions",
     "Collision-free encoding is a property of all input pairs; tests compare sampled outputs.",
     ["aiootp/generics/hashing.py", CN, "aiootp/generics/domains.py", "aiootp/keygens/domain_kdf.py"],
     [("hash helper", "aiootp/generics/hashing.py"), ("domain KDF", "aiootp/keygens/domain_kdf.py")], observe=["derived bytes"])

prop("K02", "Ed25519 and X25519 wrappers use exactly the key they were given",
     "Signing uses the instance's own secret key over exactly the given data; verification succeeds only if the signature over exactly the given data is valid under the caller's public key or, when none is given, the instance's own. Key import and generation keep secret and public key consistent, refuse to replace a key that is already set, and exported bytes re-import to the same key; key exchange uses the own secret with the peer's public key.",
     ["inputs", "histories"], "all keys, data, signatures and import/generate orders; sync and async",
     "Tests verify a few signatures; acceptance under the wrong key or replacement of a key needs particular call orders.",
     ["aiootp/keygens/curve_25519/shared_interface.py", "aiootp/keygens/curve_25519/ed25519.py", "aiootp/keygens/curve_25519/x25519.py"],
     [("key container", "aiootp/keygens/curve_25519/shared_interface.py"), ("signature API", "aiootp/keygens/curve_25519/ed25519.py")], observe=["verify verdict, exported keys"])

prop("K03", "Key-exchange clients and servers derive the same key from the full transcript",
     "In the two- and three-way Diffie-Hellman protocols client and server finish with the same KDF, which depends on every public key of the transcript in a fixed order and on every required shared secret; ephemeral keys are generated fresh for each session. Each party sends exactly its public values, and uses the peer's values in the roles in which they were sent.",
     ["inputs", "histories"], "all key pairs and protocol runs; sync and async; both protocols",
     "Both parties share code, so a secret or key omitted on both sides still agrees in tests.",
     ["aiootp/keygens/curve_25519/double_diffie_hellman_client.py", "aiootp/keygens/curve_25519/double_diffie_hellman_server.py", "aiootp/keygens/curve_25519/triple_diffie_hellman_client.py", "aiootp/keygens/curve_25519/triple_diffie_hellman_server.py"],
     [("protocol generators", "aiootp/keygens/curve_25519")], observe=["messages sent and resulting KDF"])

prop("K04", "Package signing and verification cover the full summary and every listed file",
     "A signed package summary is accepted only if its signing key is the expected one, its checksum is that of the whole remaining summary, the checksum of every listed file equals that of the file under the given directory when one is given, and the signature over the checksum is valid; any other summary raises. The signer produces summaries that include version, scope, public key and every added file's checksum, stores its secret key only encrypted under the caller's credentials, and never emits a summary whose signature does not verify.",
     ["inputs", "histories"], "all summaries, files, keys, credentials and call orders",
     "Tests alter a few fields; a field or file left out of the check is only noticed by altering exactly that field.",
     ["aiootp/keygens/package_signer.py", "aiootp/keygens/package_verifier.py"],
     [("verifier", "aiootp/keygens/package_verifier.py"), ("signer", "aiootp/keygens/package_signer.py")], observe=["exception vs acceptance; emitted summary"])

prop("K05", "A passphrase hash verifies only for its passphrase, context, age and cost limits",
     "Verification of a stored passphrase hash succeeds only if the tag recomputed from the given passphrase and associated data under the cost settings, salt and timestamp contained in the hash equals the stored tag, the hash is within the TTL when one is given, and each cost setting lies within the ranges the caller allows; these limits are enforced before the costly computation. The stored form contains exactly the settings, salt and timestamp that were used, and reading it back yields the same values for every permitted setting.",
     ["inputs", "configurations"], "all passphrases, hashes, settings, ranges and TTLs; sync and async; instance and one-off use",
     "Tests use minimum costs and a few settings; encoding errors at the ends of the ranges and unchecked ranges are not reached.",
     ["aiootp/keygens/passcrypt/interface.py", "aiootp/keygens/passcrypt/sessions_manager.py", "aiootp/keygens/passcrypt/hash_format.py", "aiootp/keygens/passcrypt/session_init.py"],
     [("verify entry points", "aiootp/keygens/passcrypt"), ("hash encoding", "aiootp/keygens/passcrypt")], observe=["verify verdict; hash bytes"])

prop("K06", "Password derivation binds every input and parameter and rejects invalid ones",
     "The derived password tag depends on the passphrase, salt, associated data, memory, CPU and parallelism settings, tag size and timestamp when used, with each parallel worker computing on its own distinct input and every worker's result entering the final tag in a fixed order. Inputs of wrong type, size or range are refused before any work is done, and sync, async and worker-process computations give the same result for the same inputs.",
     ["inputs", "configurations", "schedules"], "all inputs and permitted settings; any worker completion order",
     "A parameter that does not influence the result, or worker results gathered in completion order, agree in ordinary test runs.",
     ["aiootp/keygens/passcrypt"], [("session set-up", "aiootp/keygens/passcrypt"), ("parallel evaluation", "aiootp/keygens/passcrypt")], observe=["derived tag; exceptions"])

prop("K07", "Mnemonic words and keyed choices depend on all inputs and use the full word list",
     "Mnemonic generation derives its words from the passphrase, salt and cost settings through the password KDF, each word selected by its own unbiased slice of derived bytes over the whole word list, and returns exactly the requested number of words. Without a passphrase fresh random entropy takes its place, and the same inputs always give the same words in sync and async variants.",
     ["inputs"], "all passphrases, salts, sizes and word lists; sync and async",
     "Bias or ignored inputs are not visible in single outputs.",
     ["aiootp/keygens/mnemonics.py"], [("word selection", "aiootp/keygens/mnemonics.py")], observe=["returned words"])

prop("B01", "Databases put only authenticated ciphertext on disk, bound to the file's name",
     "Every byte a database writes to its directory is ciphertext made with a key derived from the database key, its random root salt and the file's own name (the manifest under its own purpose key), and every value it reads back is returned or cached only after authenticated decryption under that same derivation. A file moved to another tag's name, another database or altered in any way is refused; filenames reveal neither tags nor contents.",
     ["inputs", "histories"], "all databases, tags, values, operations; sync and async",
     "Tests look at results through the API; plaintext written by one path, or keys shared between files, round-trip unnoticed.",
     ["aiootp/databases/sync_database.py", "aiootp/databases/async_database.py", "aiootp/databases/database_properties.py", "aiootp/databases/dbkdf.py"],
     [("file writing and reading", "aiootp/databases"), ("key derivation", "aiootp/databases")], observe=["arguments of file writes; values returned by queries"])

prop("B02", "Database operations change manifest, cache and files together and completely",
     "Setting, querying, saving, rolling back, popping and deleting tags or metatags change the manifest, the cache and the files exactly as documented: saving writes every cached tag, every metatag and the manifest; popping and deleting remove all traces of the tag; deletion of a database removes every listed file, its metatags and its profile salt; rollback restores the last saved state. A failed operation raises unless the caller asked for silence, and a value that could not be saved is not reported as saved.",
     ["histories", "inputs"], "all sequences of operations on databases and metatags, with and without cached values; sync and async",
     "Combinations of cached/uncached, saved/unsaved, silent/not and nested metatags multiply beyond the fixed test histories.",
     ["aiootp/databases/sync_database.py", "aiootp/databases/async_database.py", "aiootp/databases/database_properties.py"],
     [("tag operations", "aiootp/databases"), ("whole-database operations", "aiootp/databases")], state=["manifest", "cache", "directory"], observe=["files, membership, return values"])

prop("B03", "Database and profile keys are derived from all credentials and isolated",
     "A profile's login key depends on the passphrase through the password KDF with the caller's cost settings, and on the username, every credential, the salt, the associated data and per-device and per-profile secret salts; opening with any of these changed opens a different database. Sub-databases' keys, tag filenames, tag keys and the manifest's key are derived under distinct purposes, so no two coincide, and sync and async databases open each other's files.",
     ["inputs", "configurations"], "all credentials, settings, tags and metatags; sync and async",
     "A credential that is ignored still opens the database in tests that use the right credentials.",
     ["aiootp/databases/profile_tokens.py", "aiootp/databases/dbkdf.py", "aiootp/databases/dbdomains.py", "aiootp/databases/sync_database.py", "aiootp/databases/async_database.py"],
     [("profile derivation", "aiootp/databases/profile_tokens.py"), ("purpose separation", "aiootp/databases/dbdomains.py")], observe=["filenames and keys as function of inputs"])

prop("B04", "Values a database encrypts for the caller open only in the same context",
     "A value that a database encrypts or turns into a token for the caller, under a given name and associated data, is returned only to a call on a database with the same keys that gives the same name and associated data, and only within the TTL when one is given; every other attempt raises. Different names or associated data always select different keys, for bytes, JSON and token forms, sync and async alike.",
     ["inputs", "configurations"], "all values, names, associated data and ages; bytes, JSON and token form; sync and async",
     "Tests decrypt with the arguments they encrypted with, so an argument that is not passed on to the key goes unnoticed.",
     ["aiootp/databases/sync_database.py", "aiootp/databases/async_database.py"],
     [("value encryption", "aiootp/databases/sync_database.py"), ("value encryption (async)", "aiootp/databases/async_database.py")], observe=["key used per call", "outcome of decryption"])

prop("F01", "Secret salt files are exclusive, length-checked and left without permissions",
     "Every creation, reading, updating and deletion of a salt file happens under the guard for exactly that absolute path (readers exclude writers), salts shorter than the minimum are refused on write and on read, and a newly made file is left without permissions, as is a file opened for reading or updating, on every exit path of those including errors. Asynchronous variants never block the event loop while waiting for the guard, and an existing salt is never overwritten by opening it.",
     ["schedules", "crash_points", "inputs"], "all interleavings of salt file operations; exceptions at any step",
     "Tests run the operations one at a time as root and without failures in between.",
     ["aiootp/_paths.py"], [("salt file operations", "aiootp/_paths.py"), ("guards", "aiootp/asynchs/guards")], observe=["file mode, content, lock held"])

prop("G01", "Concurrency guards give first-come exclusive turns and always release them",
     "At any time at most one holder of an exclusive guard on a queue runs, turns are granted in order of request, non-exclusive holders exclude only as documented, and every way of leaving the guarded block — return, exception, cancellation while waiting — takes the holder off the queue and drops its registration. A token that does not match the one removed, or reuse of a guard, is reported, and shared per-name bookkeeping is removed only when no user is left.",
     ["schedules", "fault_sequences"], "all interleavings of threads/tasks entering and leaving guards, with exceptions",
     "Tests use a few tasks with sleeps; leaks and lost turns need particular interleavings or cancellations.",
     ["aiootp/asynchs/guards"], [("guard enter/exit", "aiootp/asynchs/guards/concurrency_guard.py"), ("manager", "aiootp/asynchs/guards/manager.py"), ("policies", "aiootp/asynchs/guards/policies.py")],
     state=["queues", "observer sets"], observe=["mutual exclusion; queue empty after exit"])

prop("G02", "Asynchronous entry points never block the event loop",
     "No coroutine of the package performs, directly or through helpers, a blocking wait, sleep, lock acquisition, process or thread join, reading, writing, permission change or removal of files, or password-hash computation on the event loop; such work is awaited, polled with yielding sleeps, or handed to an executor, thread or process. Every coroutine created inside the package is awaited, returned or scheduled.",
     ["schedules", "programs"], "every async function and everything it can call synchronously",
     "Blocking shows as latency or deadlock only under concurrent load, which the tests do not create.",
     ["aiootp/asynchs", "aiootp/_paths.py", "aiootp/databases/async_database.py", "aiootp/keygens/passcrypt"], [("async call graph", "aiootp")], observe=["calls made on the event loop"])

prop("T01", "Asynchronous variants compute exactly what their synchronous twins compute",
     "For every pair of synchronous and asynchronous variants of the same public operation, equal inputs give equal results, equal exceptions in the same cases and equal lasting effects on the object, and have the same parameters with the same defaults. They differ only in yielding to the event loop.",
     ["inputs", "programs"], "all twin pairs in the package, all inputs",
     "Tests exercise twins separately on sampled inputs; a divergence in a rarely used branch or default goes unnoticed.",
     ["aiootp"], [("twin pairs", "aiootp")], observe=["results, exceptions, effects of both variants"])

prop("S01", "Frozen containers never change once set; typed slots accept only their types",
     "On instances of the package's frozen container types every way of changing state — attribute and item assignment and deletion, update, clear, merging — raises and leaves the contents as they were once a value is set. Typed containers store only values of the declared types, and configuration objects reject undeclared or ill-typed settings.",
     ["inputs", "histories", "programs"], "all frozen/typed container types and all mutation routes",
     "Tests try assignment and deletion on one or two classes; other routes and subclasses are not reached.",
     ["aiootp/commons/instances.py", "aiootp/commons/slots.py", "aiootp/commons/typed_slots.py", "aiootp/commons/namespaces.py", "aiootp/commons/configs.py"],
     [("freezing", "aiootp/commons/instances.py"), ("typed slots", "aiootp/commons/typed_slots.py")], observe=["exception and unchanged contents"])

prop("S02", "Text representations and error messages never expose secret values",
     "The text representation of the package's containers, ciphers, key objects, databases and key bundles shows masked values unless debug mode is on, including nested containers. Exceptions raised by the package name parameters, sizes, types or public values but never contain keys, passphrases, plaintext or other secret bytes.",
     ["inputs", "programs"], "all repr-able types, all raise sites",
     "Leaks depend on which value a message formats in a rarely raised error.",
     ["aiootp/commons/slots.py", "aiootp/commons/namespaces.py", "aiootp/_exceptions.py"], [("masking", "aiootp/commons"), ("exception factories", "aiootp/_exceptions.py")], observe=["repr text; exception text"])

prop("U01", "GUIDs keep their layout, are unique per node and tick, and decode exactly",
     "Every raw or keyed identifier consists of the current timestamp, fresh random bytes, the node number and a counter that advances on every call, each in its fixed field; masking with a key and unmasking are inverse, sorting keys order identifiers by time, node and counter, and reading an identifier returns exactly the fields it was built from. Sizes, node numbers and keys outside the permitted ranges are refused.",
     ["inputs", "histories", "configurations"], "all sizes, node numbers, keys, prefixes; all call sequences; sync and async",
     "Field overlap or a counter that stalls shows only at particular sizes or call counts.",
     ["aiootp/randoms/ids"], [("raw identifiers", "aiootp/randoms/ids"), ("keyed identifiers", "aiootp/randoms/ids")], observe=["identifier bytes and decoded fields"])

prop("U02", "Clocks measure in the declared unit and epoch and test ages correctly",
     "A clock's timestamps are the integer number of its units since its epoch, encoded big-endian in the declared width, reading one returns that number, and deltas and TTL tests are computed in the same unit and epoch. A timestamp older than the TTL by at least one unit is refused, any other is accepted, and no TTL means no age limit.",
     ["inputs", "configurations"], "all units, epochs, widths, timestamps and TTLs; sync and async",
     "Unit and epoch mix-ups cancel out when the same clock writes and reads within one test.",
     ["aiootp/asynchs/clocks.py"], [("clock", "aiootp/asynchs/clocks.py")], observe=["timestamp bytes; exceptions"])

prop("D01", "Text and number encodings are exact inverses over their whole domain",
     "Converting bytes to URL-safe text and back, integers to digits of any table and base and back, and bytes to word phrases and back returns the original value, and decoding refuses characters that are not in the table. Distinct values give distinct encodings.",
     ["inputs"], "all byte strings, integers, bases and tables; sync and async",
     "Boundary values (zero, powers of the base, padding lengths) form a sparse subset of sampled inputs.",
     ["aiootp/generics/byte_io.py", "aiootp/generics/transform.py", "aiootp/_constants/datasets.py"], [("encoders and decoders", "aiootp/generics")], observe=["decode(encode(x)) == x"])

prop("D02", "Iteration helpers deliver every item once, in order, and in exact batches",
     "The iteration helpers (batching, resizing, counting and ranges, zipping, cycling, collating, unpacking, popping, and their async variants) deliver every input item or byte exactly once and in order: batches join to the input and have the requested size except possibly the last, resizing preserves the byte stream, zipping stops with the shortest input, and counters advance by one from the given start. Resizing refuses sizes and block limits below one.",
     ["inputs"], "all inputs, sizes and positions; sync and async",
     "Loss at batch boundaries needs particular length/size combinations.",
     ["aiootp/_gentools.py"], [("batching and resizing", "aiootp/_gentools.py")], observe=["delivered items"])

prop("H01", "Work handed to threads or processes delivers its own result or its error",
     "Submitting a function to the package's thread and process helpers runs exactly that function with exactly the given arguments, and the caller receives that call's result or its exception; gathering returns results in the order the functions were given. A failure in the worker reaches the caller and is not turned into a missing or foreign result.",
     ["inputs", "schedules", "fault_sequences"], "all functions, arguments, completion orders and failures; sync and async",
     "Result mix-ups need overlapping workers finishing in another order.",
     ["aiootp/asynchs/concurrency_interface.py", "aiootp/asynchs/threads.py", "aiootp/asynchs/processes.py"], [("submission and gathering", "aiootp/asynchs/concurrency_interface.py")], observe=["returned result per submission"])

prop("S03", "Attribute containers act as one consistent mapping of the names they hold",
     "On the package's slotted, namespace and typed containers attribute access and item access read, set and delete the same values; iteration, keys, values, items, length and truth all describe the same names, each set name once, including slots inherited from every base class, and never a name that is unset, deleted or declared unmapped. Construction and update store every given pair, and names of the container's own methods cannot be replaced.",
     ["inputs", "histories"], "all containers, names (text or other hashable) and sequences of setting, deleting, updating and reading",
     "Tests build a few small containers; deleted slots, inherited slots and non-text names are combinations they do not enumerate.",
     ["aiootp/commons/slots.py", "aiootp/commons/namespaces.py", "aiootp/commons/typed_slots.py"],
     [("container protocol", "aiootp/commons/slots.py")], observe=["results of mapping operations after a history"])

prop("E01", "Failures carry the declared error type, and ignoring errors ignores only those",
     "Every kind of authentication failure is an authentication error and a value error, expiry is a timeout error that carries the unit and the number of units exceeded, and the other declared failure types keep their standard base types and details. The context manager for ignoring exceptions suppresses exactly the listed types, and only if its handler answers true; every other exception reaches the caller unchanged, the success handler runs only without an exception, and the final handler always runs, in sync and async use.",
     ["inputs", "fault_sequences"], "all exception types and handlers, sync and async; handlers that fail",
     "Tests raise one listed and one unlisted exception; which types pass through is a question about all exceptions.",
     ["aiootp/_exceptions.py"], [("exception types", "aiootp/_exceptions.py"), ("ignoring context", "aiootp/_exceptions.py")], observe=["exception type and attributes", "order of handlers run"])

prop("R01", "A security report leaves the program only encrypted to the published key",
     "The interactive security-report helper shows the report, the reporter's address and any key only as ciphertext, encrypted under a key derived from a freshly generated key pair, the maintainers' published public key, the date and a synthetic IV over the complete padded message. The fresh secret key is kept only encrypted in the reporter's profile database, opened with the given address, passphrase and memory cost, and without the user's consent nothing is generated, stored or shown.",
     ["inputs", "histories"], "all answers, addresses, passphrases and messages; first and repeated reports",
     "The helper is interactive and not covered by tests, and plaintext in output or a weak key would look like a working report.",
     ["aiootp/__engagement/issue_reporting.py", "aiootp/__init__.py"], [("report encryption", "aiootp/__engagement/issue_reporting.py")], observe=["printed text", "database content"])

if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
    print(len(P))
