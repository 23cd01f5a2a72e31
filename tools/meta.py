"""Per-check manifest entries."""
HOOKS = dict(guard="none", enable="no change to /repo is needed: the checks load /repo's source through an import hook that rewrites calls, subscripts and contracted loops in memory", source_commits=[])
NOTES = ("Every check regenerates its verification conditions from /repo's working tree on each run. "
         "Replay any alarm with ./check --replay evidence/replay/<id>.json.")
TECH = "contracts on the real functions, verification conditions from the running source discharged by z3 (cvc5 cross-check in thorough); bounded stand-in runs replay counterexamples"
CHECKS = {
    "P01": ("proof", TECH, "Proved for all inputs modulo the assumptions listed in the evidence (ideal XOF determinism, CPython semantics, contract of the batching helpers which P12 proves)."),
    "P02": ("proof", TECH, "Transcript injectivity, tag computation and the accept condition of every decrypt method are proved for all inputs; unforgeability itself is the ideal-hash assumption A-IDEAL. Keys of different length are covered by the bounded part only (see KNOWN_FINDINGS.txt)."),
    "P03": ("proof", TECH, "Proved for all times, limits and messages for bytes/JSON/token decryption, and for reading and finalising a decryption stream with any number of queued blocks, after any number of refused or early reads. Bounded runs replay ages around the limit and many call orders."),
    "P04": ("proof", TECH, 'Proved for every message and every byte string (block transform through its proved contract); bounded runs replay lengths around every boundary.'),
    "P05": ("proof", TECH, 'Each stream operation is proved from an arbitrary state satisfying the queue invariant (any number of queued blocks), so every chunking and interleaving is covered; block transforms through their contracts (P01), block IDs P06. Bounded runs replay chunkings end to end.'),
    "P06": ("proof", TECH, 'ID binding, chaining, encoder/decoder agreement and the effect of a refusal at any position of any feed are proved from arbitrary states; unforgeability is the ideal-hash assumption. Bounded runs damage real streams.'),
    "P07": ("proof", TECH, 'Outcome of every operation proved for every control state of a session with arbitrary data state (closed under the operations, so every history); freshness of IV and salt modulo A-RAND. Bounded runs execute all short and random long histories.'),
    "P08": ("proof", TECH, 'Acceptance <=> exact size proved for byte strings of every size at every entry point; other types are enumerated (bounded).'),
    "P09": ("proof", TECH, 'Encoder and decoder rounds proved for any number of items from any position; whole pack/unpack proved for up to 2 items (3 for separation), block size and pad symbolic, counter widths 1, 2, 4, 8, 16; bounded runs compare with an independent encoder and parser.'),
    "P10": ("proof", TECH, 'Two-call separation proved on the absorbed bytes for every key, size and item content/length with up to 2 items per call (any number by the encode lemma of P09); construction, update, copy and output calls from any payload state; keys of unequal length are the recorded finding.'),
    "P11": ("proof", TECH, 'Base conversion proved by loop invariants for any number, base and table; URL-safe text for any bytes (base64 primitives assumed inverse); filenames per length 1..64; word phrases and file helpers bounded only.'),
    "P12": ("proof", TECH, 'One step of each generator from any state proved against adversarial sources (sync and async, ending or raising at any pull); batches, resizing, counting and ranges for any data, size, start, stop and step; zip and collate with up to 3 sources.'),
    "P13": ("proof", TECH, 'Body of the affine permutation proved for every key and value at every configured size (cycle walk cut by an invariant, undone step by step by the other direction); the chains proved over that contract from any key, position and increment. Termination of the cycle walk rests on the stated pigeonhole step.'),
    "P15": ("proof", TECH, 'Every unit, instant (below 2**200 ns), epoch, limit and stamp content; timestamp sizes 1, 4, 8, 16 in both byte orders. The instant is an arbitrary integer supplied in place of the system clock.'),
    "P14": ("proof", TECH, 'Every key, number, node id, token, tick and 64 bit nanosecond instant at every configured size, over the contract of the affine permutation proved in P13. Distinctness is derived from read-back.'),
    "P16": ("proof", TECH, 'Any number of guards: every step of entering, waiting and leaving of the four policies, from an arbitrary state of the shared deques described by a data invariant, preserves it and lets guards in exactly when allowed. Thread interleavings inside a step are covered by a bounded search only (switches at every source line).'),
    "P17": ("proof", TECH, 'Complete transition relation of the life cycle; registration, clean-up and the managed enter/exit for any number of users, queued and observing guards, over the contract of the guard proved in P16. Interleavings of whole histories are additionally explored by the bounded check.'),
    "P18": ("other", TECH, 'Real classes run with opaque values (any inspection of a value fails), so results hold for every value; names are covered by one representative per class of names, each from every combination of set and unset neighbours. Random histories against a dictionary model.'),
    "P19": ("proof", TECH, 'Every operation, sync and async, on an existing or missing file with arbitrary content and salt, without failures and with any one file operation failing, over stated contracts of the file operations and of the guards (P16, P17). Interleavings and real files are covered by the bounded check.'),
    "P20": ("other", TECH, 'Proved for all byte strings and JSON values and for histories of any length (every operation from every reachable abstract state, states shown closed) over contracts of files, ciphers and key derivation; the number of tags is bounded (one tag next to one other, one metatag). Random histories on real files run next to it.'),
    "P21": ("other", TECH, 'As P20: every return value, listing, membership and the exact set of deleted files, from every reachable abstract state; the number of tags is bounded. Random histories on real files run next to it.'),
    "P22": ("proof", TECH, 'For any tags, file names, associated data and salts: requests to the key derivation are equal only for equal kind and inputs, helpers open exactly matching seals, and any replaced file is refused by every reader, over contracts of ciphers, key derivation and files; profile login keys for up to 2 credentials. Real files are swapped, cut and altered by the bounded check.'),
    "P23": ("proof", TECH, 'Two computations give equal hashes only for equal inputs, and verification of any byte string recomputes with exactly its parts and accepts exactly on equality, for every passphrase, salt, associated data, setting and size over ideal hashing and packing (P09, P10), 1 and 2 cores each (core counts above: bounded runs); the memory work is an assumed contract exercised with real hashes.'),
    "P24": ("proof", TECH, 'Header layout and round trip, every setting bound, every salt and passphrase size, every limit range, time-to-live and arbitrary hash bytes; refused hashes shown to start no computation. Other types are enumerated (bounded).'),
    "P25": ("proof", TECH, 'Both sides give the key derivation equal inputs, equal inputs imply equal public keys and shared secrets, keys round-trip, and signing and verifying reach the curve with exactly the given arguments: for every key, message and signature over an ideal curve and key derivation (P10). Real curve operations run in the bounded check.'),
    "P26": ("proof", TECH, 'Acceptance of any summary is proved equivalent to its four conditions, and the signed text shown to hold exactly the added files, credentials, scope and key, for arbitrary contents, digests, keys and signatures over ideal hashing, JSON text and signatures (P25); the number of files, fields and credentials in the proofs is at most 2 each, larger packages run in the bounded check.'),
    "P27": ("proof", TECH, 'selection, mnemonic and passphrase-word generators under contract for every symbolic key, domain and index stream; table sizes enumerated; evenness over keys bounded'),
    "P28": ("proof", TECH, "token, csprng, pool and generator functions under contract for every size, entropy and system randomness; stirring rounds 0 and 1; the standard library's uniform and choice bounded only"),
    "P29": ("other", TECH, 'worker helpers under contract for every result and error with one scheduling order of the worker assumed; real threads and processes bounded'),
}
NA = {}
