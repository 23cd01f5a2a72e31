"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import importlib, json, os, pathlib, sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None):
    a = dict(files=["aiootp/" + f for f in files.split()],
             mechanism=[dict(name=n, where="aiootp/" + w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=over.split(), text=text),
                  why_tests_cant=why, anchors=a))


CI = "ciphers/cipher_interface.py"
prop("P01", "Decryption returns exactly the message that was encrypted",
     "For every valid key, salt, associated data and message, decrypting the output of a cipher's bytes, JSON or token encryption with the same key and associated data returns exactly the original message. "
     "This holds for every cipher, for messages of every length, and with the synchronous and asynchronous methods mixed freely.",
     "inputs configurations", "every key, salt, IV, associated data, timestamp and message of every length, both ciphers, every sync/async pairing",
     "Tests round-trip a handful of lengths and random keys; an error limited to one residue of the length, one padding size or one pairing is not reached.",
     f"{CI} ciphers/stream_junction.py ciphers/dual_output_shake_cipher.py ciphers/shake_permute_cipher.py ciphers/padding.py ciphers/synthetic_iv.py ciphers/ciphertext_formatting.py",
     [("message encryption", CI), ("block keystream", "ciphers/stream_junction.py"), ("padding", "ciphers/padding.py"), ("packet layout", "ciphers/ciphertext_formatting.py")],
     "return value of the decrypt methods")
prop("P02", "Altered ciphertexts and wrong parameters are rejected without plaintext",
     "A ciphertext (or the ciphertext a token's base64 text stands for) is decrypted only if it is exactly one produced under the same key and associated data: changing, adding, removing or reordering any of its bytes, or supplying a different key or associated data, makes decryption raise an error and return no plaintext. "
     "The authentication check covers every byte of the header and of every block and is made before any plaintext is handed back.",
     "inputs", "every key, associated data, ciphertext and every modification of any of them, both ciphers, bytes/JSON/token, sync and async (authentication primitive ideal)",
     "Tests flip a few positions of a few messages; a byte, length or field left out of authentication shows only for that modification.",
     f"{CI} ciphers/stream_hmac.py ciphers/cipher_kdfs.py ciphers/stream_junction.py ciphers/synthetic_iv.py ciphers/ciphertext_formatting.py ciphers/key_bundle.py",
     [("tag computation", "ciphers/stream_hmac.py"), ("key derivation from key, salt, aad, IV", "ciphers/cipher_kdfs.py"), ("decrypt entry points", CI)],
     "exceptions and return values of the decrypt methods")
prop("P03", "Expired messages, tokens and streams are refused; fresh ones are not",
     "When a time-to-live is given, decrypting a message, token or stream whose age in seconds exceeds it raises the expiry error carrying how far it is past the limit, before any plaintext is released; when the age does not exceed it, or when no limit is given, the age never prevents decryption. "
     "For streams this holds for every order of feeding data and reading results.",
     "inputs histories", "every creation time, current time, limit and message; every order of buffering and reading on decipher streams",
     "Tests sleep for a second or two around one limit; other ages, boundary equality and unusual call orders are not reached.",
     f"{CI} ciphers/padding.py ciphers/decipher_streams.py ciphers/cipher_stream_properties.py asynchs/clocks.py",
     [("timestamp test", "asynchs/clocks.py"), ("padding removal", "ciphers/padding.py"), ("stream start", "ciphers/decipher_streams.py")],
     "exception raised by decrypt / iteration")
prop("P04", "Ciphertext layout and length depend only on the plaintext length",
     "Every ciphertext is the authentication tag, salt and IV at their configured sizes followed by a whole number of blocks, and its total length is the smallest such length that fits the timestamp, the SIV key, the message and at least one padding byte. "
     "Splitting a ciphertext returns those same fields, and any byte string of impossible length is refused before decryption starts.",
     "inputs configurations", "every message length and content, every ciphertext byte string, both ciphers",
     "Tests look at a few lengths; off-by-one block counts at one boundary or a wrong length test need the specific size.",
     f"ciphers/padding.py ciphers/ciphertext_formatting.py {CI} ciphers/chunky_2048_config.py",
     [("padding size", "ciphers/padding.py"), ("ciphertext splitting", "ciphers/ciphertext_formatting.py")], "length and fields of the ciphertext")
prop("P05", "Online streams round-trip for every chunking of the data",
     "However a message is split into pieces when it is fed to an encryption stream, and however the resulting packets are grouped when fed to a decryption stream, the concatenated output equals the original message and finalising with the tag succeeds. "
     "Buffering and reading (once the first packet has been fed) may be interleaved in any order, and asynchronous and synchronous streams interoperate.",
     "inputs histories configurations", "every message, every split into pieces including empty ones, every interleaving of buffering and reading, both ciphers",
     "Tests use one or two chunkings; losing or duplicating bytes at a particular split or after an early read is not reached.",
     "ciphers/cipher_streams.py ciphers/decipher_streams.py ciphers/cipher_stream_properties.py ciphers/padding.py",
     [("buffering", "ciphers/cipher_streams.py"), ("depadding", "ciphers/decipher_streams.py")], "bytes yielded by the streams")
prop("P06", "Stream packets are authenticated individually and failures change nothing",
     "A decryption stream accepts a packet only if it is the next packet of the same stream under the same key, salt, associated data and IV; any altered, missing, repeated, reordered or truncated packet is refused with an error before its plaintext is released. "
     "After a refused packet the stream is exactly as before, so the genuine continuation is still accepted and decrypts to the original message; an altered stream never passes its final tag test.",
     "inputs histories fault_sequences", "every stream, every corrupted packet at every position, any number of refused packets before the genuine one",
     "Tests corrupt one packet in one stream; retained state after a failure depends on position and on what was fed before.",
     "ciphers/decipher_streams.py ciphers/stream_hmac.py ciphers/cipher_streams.py",
     [("block id test", "ciphers/stream_hmac.py"), ("packet buffering", "ciphers/decipher_streams.py")], "exceptions and yielded bytes of a decryption stream")
prop("P07", "A cipher session can be used once, in one direction, in the right order",
     "Each cipher session encrypts or decrypts a single message: a second stream, a change of direction, an update after finalisation, reading a tag before finalisation or finalising twice all raise an error and produce no output. "
     "Encryption always draws a fresh random IV (and a fresh salt unless one is given), a caller-supplied IV is refused for encryption and required for decryption, and a tag or block-id comparison succeeds only for the exact value.",
     "histories inputs", "every sequence of calls on a session, tag object or stream, every tag and block-id value",
     "Tests try a few forbidden sequences; others (sync/async mixes, calls after failures) are not reached.",
     "ciphers/stream_hmac.py ciphers/key_bundle.py ciphers/cipher_streams.py ciphers/decipher_streams.py ciphers/cipher_interface.py",
     [("mode and finalise registers", "ciphers/stream_hmac.py"), ("IV and mode registration", "ciphers/key_bundle.py")], "exceptions raised by session objects")
prop("P08", "Keys, salts, IVs and block IDs of the wrong size or type are refused",
     "A cipher accepts keys of at least 64 bytes only, associated data that is bytes only, and salts and IVs of exactly their configured size (an empty salt counts as none given); anything shorter, longer or of another type is refused with an error before any ciphertext or plaintext is produced. "
     "Block IDs are made or accepted only between their configured minimum and maximum size, and tags and block IDs that are not bytes are refused.",
     "inputs configurations", "every argument value of every size and type, both ciphers",
     "Tests try a couple of wrong sizes per argument, not every size, type or entry point.",
     "ciphers/key_bundle.py ciphers/cipher_kdfs.py ciphers/stream_hmac.py ciphers/synthetic_iv.py ciphers/cipher_interface.py",
     [("key bundle validation", "ciphers/key_bundle.py"), ("block id size test", "ciphers/stream_hmac.py")], "exceptions of constructors")
prop("P09", "Canonical packing is lossless and unambiguous",
     "Unpacking a canonically packed sequence of byte strings returns exactly that sequence, and two different sequences (or the same sequence packed with a different block size, counter width or padding) never pack to the same bytes. "
     "The packed length is a multiple of the block size, and malformed packed data is refused with the documented error.",
     "inputs configurations", "every number of items of every length and content, every block size, counter width and pad byte",
     "Tests pack a few small sequences; ambiguity is a relation between two inputs and cannot be sampled.",
     "generics/canon.py", [("packing", "generics/canon.py"), ("unpacking", "generics/canon.py")], "bytes returned / exception")
prop("P10", "Hashes and derived keys bind every input unambiguously",
     "The keyed and unkeyed hash helpers and the domain KDF absorb domain, key, salt and every data item with unambiguous boundaries, so that two calls that differ in any of these, or in how bytes are divided among the items, never feed the same data to the hash. "
     "A KDF's result is a function of its construction and the sequence of its updates only; copies are independent, key sizes are honoured, different output kinds are separated, and async results equal sync results.",
     "inputs histories", "every domain, key, salt, payload, item sequence, hasher, size and update/copy history (hash primitive ideal)",
     "Tests compare a few digests; collisions by moved boundaries concern pairs of inputs.",
     "generics/hashing.py keygens/domain_kdf.py generics/canon.py ciphers/cipher_kdfs.py",
     [("hash helpers", "generics/hashing.py"), ("domain KDF", "keygens/domain_kdf.py")], "digests")
prop("P11", "Text and number encodings are lossless",
     "Writing a non-negative integer with any base of at least two and any table of distinct characters, and reading it back, returns that integer; a character outside the table is refused. "
     "URL-safe text, filenames (of byte strings that do not start with a zero byte) and word phrases (of non-empty byte strings) read back as exactly the bytes they were made from, and the file helpers read back exactly what was written or appended. "
     "Asynchronous and synchronous versions return the same results.",
     "inputs", "every byte string, integer, base and table",
     "Tests convert random samples; zero, powers of the base, boundary bases and foreign characters are special cases.",
     "generics/byte_io.py generics/transform.py", [("byte IO", "generics/byte_io.py"), ("base conversion", "generics/transform.py")], "return values / exceptions")
prop("P12", "Generator tools deliver every item exactly once, in order",
     "Splitting, resizing, unpacking, zipping, collating, cycling, counting, ranging and queue-draining helpers yield exactly the items or numbers they document: every input item once, in order, with no loss, duplication or change, in pieces of the requested size. "
     "The async variants yield the same sequence as the sync ones for sync and async sources alike.",
     "inputs", "every sequence, size, start/stop/step and mix of sync and async sources",
     "Tests run short fixed sequences; a loss at a boundary of size or an empty source is not reached.",
     "_gentools.py", [("batch/resize", "_gentools.py"), ("zip/collate/cycle", "_gentools.py")], "items yielded")
prop("P13", "Keyed permutations are bijections with exact inverses",
     "For every key and configured size, the affine permutations and the affine-XOR chains map every value of their domain to a value of the same domain, the inverse operation returns the original value, and distinct inputs give distinct outputs. "
     "Asynchronous versions agree with synchronous ones, and keys of the wrong size are refused.",
     "inputs configurations", "every key, every size, every value in the domain",
     "Domains have 2^8 to 2^2048 values; tests try random points or the one-byte domain.",
     "_permutations/affine_permutation.py _permutations/affine_permutation_config.py _permutations/affine_xor_chain.py _permutations/affine_xor_chain_config.py _permutations/fast_affine_xor_chain.py", [("affine permutation", "_permutations/affine_permutation.py"), ("affine XOR chain", "_permutations/affine_xor_chain.py"), ("fast affine XOR chain", "_permutations/fast_affine_xor_chain.py")], "permute/invert results")
prop("P14", "Sequence IDs and GUIDs are unique and readable back",
     "Under one key, sequence IDs of distinct numbers that fit the configured size are distinct, have the configured size, and read back to the number they were made from. "
     "A GUID reads back to exactly the timestamp, random token, node ID and tick it was made from, GUIDs made in one clock instant by one generator differ for at least 256 consecutive calls, raw GUIDs sort by time, and GUIDs of the wrong size are refused.",
     "inputs histories configurations", "every key, number, node id, clock reading, random token, configuration and call history",
     "Uniqueness quantifies over pairs and histories; tests sample.",
     "randoms/ids/sequence_id.py randoms/ids/guid.py randoms/ids/raw_guid.py randoms/ids/raw_guid_config.py _permutations/fast_affine_xor_chain.py",
     [("sequence ids", "randoms/ids/sequence_id.py"), ("guids", "randoms/ids/guid.py"), ("raw guids", "randoms/ids/raw_guid.py")], "IDs returned")
prop("P15", "Clocks stamp, read and test time consistently",
     "For every unit, epoch not in the future, byte order and size, a timestamp reads back to the clock's time when it was made (or is refused when it does not fit), the delta of a timestamp is the current time minus the stamped time, and the time is exactly the number of whole units elapsed since the epoch. "
     "A timestamp test raises the expiry error exactly when the delta exceeds the limit, reporting the unit and the excess, and never raises it when no limit is given.",
     "inputs configurations", "every clock unit, epoch, byte order, timestamp size, current time, timestamp and limit",
     "Tests use the real clock at the moment of the run.",
     "asynchs/clocks.py", [("clock", "asynchs/clocks.py")], "return values and exceptions")
prop("P16", "Exclusive guards exclude each other and are granted in arrival order",
     "At most one exclusive holder of a concurrency guard is inside at a time and never together with a non-exclusive holder; non-exclusive holders may overlap with each other. "
     "Waiting guards enter in the order in which they queued, every released guard lets the next one in, and leaving removes exactly the leaver's bookkeeping, also when the body raised.",
     "schedules histories", "every number of guards, every policy mix and every interleaving of enter, wait and exit steps",
     "Tests run a few tasks under the event loop's one schedule.",
     "asynchs/guards/concurrency_guard.py asynchs/guards/policies.py asynchs/guards/state_machine.py",
     [("policies", "asynchs/guards/policies.py"), ("guard enter/exit", "asynchs/guards/concurrency_guard.py")], "order of entry/exit of guarded bodies")
prop("P17", "A guard is single-use and target managers keep targets apart",
     "A guard moves only from unused to pending to running to done, any other transition raises and the reported status always matches the history. "
     "A target manager serialises guards of the same target as above, never makes guards of different targets wait for each other, and forgets a target exactly when its last user has left, including when entering failed or the body raised.",
     "histories schedules", "every sequence of operations on guards and on managers with any number of targets",
     "Tests follow the normal life cycle and a few wrong orders.",
     "asynchs/guards/manager.py asynchs/guards/state_machine.py", [("use tracker", "asynchs/guards/state_machine.py"), ("target manager", "asynchs/guards/manager.py")], "exceptions, statuses, manager's targets")
prop("P18", "Frozen and typed containers stay frozen and typed",
     "On frozen containers and configurations an attribute or item can be assigned once and thereafter never changed or deleted by assignment, update, deletion or clearing; typed containers refuse values of a wrong type. "
     "Containers behave as mappings of their public attributes: length, iteration, membership, keys, values, items, update and clear agree with one another and with attribute access. Containers that are not of an open kind do not show the values they hold in their representation.",
     "inputs histories", "every container kind, attribute name, value and sequence of set/delete/update/clear operations",
     "Tests exercise each class with a few attributes.",
     "commons/slots.py commons/namespaces.py commons/instances.py commons/configs.py commons/typed_slots.py",
     [("containers", "commons/slots.py")], "attribute access and exceptions")
prop("P19", "Salt files keep their secret, permissions and exclusivity",
     "A salt file that was created or updated reads back exactly the salt given (or a fresh random one of at least 32 bytes), shorter salts are refused and leave an existing file unchanged, and deletion removes only that file. "
     "After every operation, successful or failed, the file has no permission bits set, concurrent operations on one file behave as if run one after another, and none blocks the event loop while waiting for another.",
     "inputs histories fault_sequences", "every salt, path, sequence of sync/async operations and failure of a file operation",
     "Tests run each helper once; permissions after a failing step and concurrent use are not reached.",
     "_paths.py", [("salt file operations", "_paths.py"), ("deniable filenames", "_paths.py")], "file contents, mode bits, exceptions")
prop("P20", "Databases persist exactly what was saved",
     "After a database is saved, one opened again with the same credentials by the sync or async class returns exactly the tags and values stored, whether bytes or JSON-able data; values set but never saved are not visible, and reverting a tag restores its last saved value. "
     "Popping a tag and saving a single tag act on the stored values at once and leaving a database's context saves it; nothing else that was saved is lost or altered by saving, opening, reading, reloading or clearing caches in any order.",
     "histories inputs", "every sequence of set, pop, save, rollback, cache clearing and reopen operations with every tag and value",
     "Tests follow a fixed script on one or two databases.",
     "databases/sync_database.py databases/async_database.py databases/database_properties.py", [("manifest and tags", "databases/sync_database.py")], "values returned by queries, files on disk")
prop("P21", "Database operations follow mapping semantics for every history",
     "A database behaves as a mapping from tags to values: querying returns the latest value set for that tag or nothing, popping returns and removes it, listing and counting tags and membership agree with the operations performed, and operations on one tag or metatag never affect another. "
     "Deleting a database removes the files of its listed tags, its list and its metatags' files and no others.",
     "histories", "every sequence of operations, tags and values",
     "Tests follow a fixed script.",
     "databases/sync_database.py databases/async_database.py", [("tag operations", "databases/sync_database.py")], "return values")
prop("P22", "Database files are bound to database, tag and key",
     "A file of one tag, database, metatag or key is never accepted in place of another: whatever reads a file that was swapped with another, altered, cut short or emptied raises an error instead of yielding data or nothing, and a database or profile opened with other credentials shows none of the data. "
     "File names and keys differ for different tags, metatags and databases, and a database's encryption and token helpers open exactly what was sealed by the same database for the same file name and associated data within its time to live.",
     "inputs histories fault_sequences", "every pair of tags, databases, metatags, keys of equal length and every modification or swap of files (hash and cipher ideal)",
     "Binding relates pairs of inputs; tests check one or two.",
     "databases/sync_database.py databases/async_database.py databases/database_properties.py databases/dbkdf.py databases/dbdomains.py databases/profile_tokens.py", [("key derivation", "databases/dbkdf.py"), ("profile credentials", "databases/profile_tokens.py")], "exceptions when loading")
prop("P23", "Passphrase hashes verify the right passphrase and only that",
     "Verifying a passphrase hash succeeds for the passphrase, associated data and parameters it was made with and raises an error for any other passphrase, associated data or altered hash, for raw and self-describing hashes, sync and async. "
     "The hash is a function of passphrase, salt, associated data and cost settings only, has the requested tag size, and every one of these inputs is bound unambiguously.",
     "inputs configurations", "every passphrase, salt, aad, mb, cpu, cores, tag and salt size (hash ideal)",
     "Each hash is costly, so tests run few combinations.",
     "keygens/passcrypt/interface.py keygens/passcrypt/session_init.py keygens/passcrypt/sessions_manager.py",
     [("session initialisation", "keygens/passcrypt/session_init.py"), ("verification", "keygens/passcrypt/interface.py")], "return values and exceptions")
prop("P24", "Passphrase-hash headers are exact and limits are enforced",
     "The header of a self-describing passphrase hash encodes timestamp, mb, cpu, cores, salt and tag losslessly for every permitted setting and is refused when malformed or truncated. "
     "Verification refuses hashes whose mb, cpu or cores lie outside the caller's permitted ranges or that are older than the time-to-live before doing any costly work, accepts those within, and settings outside the documented bounds are refused at creation.",
     "inputs configurations", "every permitted and forbidden mb, cpu, cores, salt, tag size, timestamp and range",
     "Tests try a few settings; field truncation appears only at large values.",
     "keygens/passcrypt/interface.py keygens/passcrypt/hash_format.py keygens/passcrypt/config.py", [("hash format", "keygens/passcrypt/interface.py")], "return values and exceptions")
prop("P25", "Key exchanges agree and bind both parties' keys",
     "Both sides of the double and triple Diffie-Hellman exchanges derive the same key-derivation state when they use each other's genuine public keys, and a different one when any public or secret key involved is different. "
     "Public and secret keys survive export and import unchanged, signatures verify exactly for the signed message and key, and sync and async methods agree.",
     "inputs", "every pair of key pairs and every substitution of one of them, every message (curve operations ideal)",
     "Tests run one random exchange.",
     "keygens/curve_25519/double_diffie_hellman_client.py keygens/curve_25519/double_diffie_hellman_server.py keygens/curve_25519/triple_diffie_hellman_client.py keygens/curve_25519/triple_diffie_hellman_server.py keygens/curve_25519/x25519.py keygens/curve_25519/ed25519.py",
     [("exchanges", "keygens/curve_25519")], "derived keys")
prop("P26", "Package signatures cover every file and field",
     "A package summary signed by the signer verifies with the matching key, and verification raises an error whenever the signature, signing key, scope field or any listed file name or content differs from what was signed. "
     "The signed summary lists exactly the files that were added with their digests.",
     "inputs histories", "every scope, file set, file content and modification (signature and hash ideal)",
     "Tests sign one package and alter one or two things.",
     "keygens/package_signer.py keygens/package_verifier.py", [("signer", "keygens"), ("verifier", "keygens")], "exceptions and summary")
prop("P27", "Keyed choices and mnemonics are deterministic and within range",
     "Keyed choices are a function of key, domain, number of choices and number of words only and return exactly the requested positive number of elements of the given sequence, all of them reachable and evenly so; every one of these inputs is bound. "
     "Mnemonics made from a passphrase are the keyed choices for the passphrase's hash under the given salt and cost settings, those made without one are fresh, unused cost settings are refused, and sync and async versions agree.",
     "inputs", "every passphrase, salt, word list and size",
     "Tests draw a few phrases.",
     "keygens/mnemonics.py randoms/simple.py", [("mnemonics", "keygens/mnemonics.py")], "words returned")
prop("P28", "Random byte and number helpers honour the requested size",
     "Every random byte generator returns exactly the requested number of bytes for every size and kind of extra entropy, never a repeated value: each call, sync or async, mixes at least 256 fresh bits of the system's entropy source and the caller's entropy into its output and into the shared pool. "
     "Numbers and choices lie in the requested range and invalid freshness values are refused.",
     "inputs configurations", "every size, range and argument of every generator",
     "Tests ask for a few sizes.",
     "randoms/entropy_daemon.py randoms/simple.py randoms/rng.py", [("generators", "randoms/rng.py")], "return values")
prop("P29", "Worker helpers return the function's result or raise its error",
     "Running a function in a new or pooled thread or process, single, gathered or submitted, calls it once with the given arguments and returns exactly its result of any size, gathered results in the order of the requests; a result is never lost, swapped between calls or replaced by another. "
     "When the function raises, an error is raised instead, for pooled calls the function's own. "
     "Probe delays that are not positive are refused without running anything.",
     "schedules inputs", "every function result or error, every number of concurrent calls and completion order",
     "Tests call a few functions under one schedule.",
     "asynchs/threads.py asynchs/processes.py asynchs/concurrency_interface.py", [("workers", "asynchs/concurrency_interface.py")], "return values and exceptions")


BOUND_ONLY = set()


def main():
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    sys.path.insert(0, str(ROOT))
    sys.path.insert(0, str(ROOT / "tools"))
    import meta
    checks, na = [], []
    for p in P:
        pid = p["id"]
        if pid in meta.CHECKS:
            level, technique, note = meta.CHECKS[pid]
            checks.append(dict(property=pid, quick_cmd=f"./check {pid}", thorough_cmd=f"./check {pid}",
                               evidence_file=f"evidence/{pid}.json", technique=technique, level=level, level_note=note))
        else:
            na.append(dict(property=pid, reason=meta.NA.get(pid, "check not built yet")))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             hooks=meta.HOOKS, notes=meta.NOTES)
    (ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")


if __name__ == "__main__":
    main()
