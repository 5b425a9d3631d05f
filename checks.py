CRYPTO = "Ideal cryptography: blake3 is an injective random-looking function, signatures verify only for the key and message they were made with, Diffie-Hellman agrees for and only for the matching key pair, ciphertexts open only with their key, nonce and associated data (stub crates ksym/stubs; replay uses the real ones)."
RAND = "Randomly drawn 32-byte values are distinct and unguessable; where an entry asks for it their relative order is symbolic."
SEED = "Standard HashMap iteration order is explored for the hasher seeds the harness selects, not for all seeds."
ONE = "Single-threaded use of each object (no two tasks inside one Keyhive at a time)."
STD = [CRYPTO, RAND, SEED, ONE]
TWO = "Two tasks on one thread that switch where one takes a lock (futures-util's mutex, with a hook that may yield before it is taken); tasks on two threads between two locks are equivalent to one of these orders."
CHECKS = {
 "M02": dict(bin="auth", quick=[("h_delegate", 0, 400), ("h_revoke", 0, 200)], covers=["authorized", "unauthorized", "authorized-revocation", "unauthorized-revocation"], assumptions=STD,
   bounds="Two groups, one a member of the other; five principals; existing chain depth 3; one crafted operation with any signer (5), proof (6), target (2 or 5) and all four levels of every edge."),
 "M04": dict(bin="trans", quick=[("h_access", 2, 200)], covers=["nested"], assumptions=STD,
   bounds="Two groups and two individuals, every edge set between them, all four levels per edge."),
 "D01": dict(bin="enc", quick=[("h_readers", 0, 100), ("h_readers", 1, 200)], covers=["both-read", "relay", "revoked", "remaining-reader"], assumptions=STD,
   bounds="One document, one group that may be a member of it, an outsider and two principals; every access level (or none) of the direct member, the group and the group's member, in either order; then one revocation of any of them and new content."),
 "K01": dict(bin="cgka", quick=[("h_concurrent", 4311, 60), ("h_concurrent", 4321, 150), ("h_concurrent", 14311, 200), ("h_fork", 2, 120)], thorough=[("h_concurrent", 14311, 600), ("h_concurrent", 4322, 1200), ("h_concurrent", 5421, 1200), ("h_concurrent", 14321, 7200), ("h_fork", 2, 300), ("h_fork", 3, 5000)], covers=["concurrent", "keyed", "removed", "agreed", "changed", "outsider", "merged", "own"], assumptions=STD,
   bounds="Three members and one further participant (thorough: up to four and one); two concurrent branches of up to two and one operations (thorough: two and two) of any kind on any participant, received in either order, then one further operation by any member; forks with up to two remote operations split any way. Branches that change the same participant's membership in opposite directions are excluded, as are histories that leave no member."),
 "E01": dict(bin="ingest", quick=[("h_order", 3, 60), ("h_order", 13, 120), ("h_order", 23, 150), ("h_order", 14, 120), ("h_order", 24, 150), ("cgka:h_late", 1, 60)], thorough=[("h_order", 0, 300), ("h_order", 10, 900), ("h_order", 20, 2000), ("h_order", 11, 3600), ("h_order", 1, 2000), ("h_order", 21, 14400), ("cgka:h_late", 1, 60)], covers=["waited", "done"], assumptions=STD,
   bounds="Three histories of 5 to 15 membership and key agreement events (nested group; revocation in a document; revocation in a group that reads a document). Delivery one by one with any first and last event and the rest in either direction (thorough: any first two and last), or in two batches one of which holds any one or two events (thorough: any split), prekeys first or last; then everything again. Also: a group of four whose first two members rotate, add or remove concurrently and one encrypts, received by another in any order."),
 "Q01": dict(bin="query", quick=[("h_sync", 2, 60), ("h_sync", 3, 300), ("h_admins", 20, 90), ("h_admins", 21, 90)], thorough=[("h_sync", 3, 300), ("h_sync", 4, 14000), ("h_admins", 30, 600), ("h_admins", 31, 600), ("h_admins", 41, 7200)], covers=["synced", "revoked", "done", "former", "added"], assumptions=STD,
   bounds="Two groups, two documents and three other agents; every history of up to three additions and revocations among them by their founder, with one group a relabelling of the other. Also: a group or document, direct or through a member group, whose founder adds another admin (and possibly a third) who then adds or removes any of them twice (thorough: four times)."),
 "I01": dict(bin="prekey", quick=[("h_pick", 72, 60), ("h_ops", 2, 30), ("h_ops", 3, 60)], thorough=[("h_pick", 200, 600), ("h_ops", 3, 100), ("h_ops", 4, 3600)], covers=["picked", "rotated", "cyclic", "all-retired"], assumptions=STD,
   bounds="Any three (thorough: four) additions and rotations over three keys in any order, forked after half of them; drawing one of 1 to 72 (thorough: 200) prekeys with any two successive outputs of the hash that chooses."),
 "M01": dict(bin="member", quick=[("h_converge", 0, 60), ("h_converge", 1, 400)], thorough=[("h_converge", 0, 100), ("h_converge", 1, 600), ("h_converge", 10, 3600), ("h_converge", 11, 10800)], covers=["concurrent", "revoked", "two-revokers"], assumptions=STD,
   bounds="A group of three in which two or all three concurrently add or revoke anyone, received one by one in any order and repeatedly (thorough: with any order among the hashes of the operations)."),
 "M03": dict(bin="member", quick=[("h_effect", 1, 120), ("h_effect", 2, 350), ("h_undone", 0, 30), ("h_undone", 1, 30)], thorough=[("h_effect", 2, 600), ("h_effect", 11, 900), ("h_effect", 3, 7200), ("h_effect", 12, 7200), ("h_undone", 0, 30), ("h_undone", 1, 30)], covers=["revoked", "retained", "out", "re-added", "refused", "done", "undone"], assumptions=STD,
   bounds="Four principals; any chain of grants at any level among them; then one or two (thorough: three, or a second grant to someone first) successive revocations or additions by anyone of anyone, retaining or not. Long histories restrict levels to Admin and Read."),
 "A01": dict(bin="archive", quick=[("h_archive", 2, 30), ("h_archive", 11, 90), ("h_merge", 2, 150)], thorough=[("h_archive", 3, 600), ("h_archive", 12, 600), ("h_archive", 4, 3600), ("h_archive", 13, 7200), ("h_merge", 3, 7200)], covers=["done", "reader", "revoked", "waiting", "merged", "read", "rotated"], assumptions=STD,
   bounds="A group and a document, two further people, any two (thorough: four) of six kinds of change; saved by the founder, or by a member after one (thorough: three) changes from which any one event is still missing; then restored and continued. Merging: after any two (thorough: three) membership changes with any one event missing or any combination of key rotations known to one side, into a new or informed instance, and back."),
 "S01": dict(bin="forge", quick=[("h_author", 0, 30), ("h_author", 1, 40), ("h_card", 0, 60), ("h_tamper", 0, 60), ("h_tamper", 2, 100), ("h_tamper", 3, 100), ("h_tamper", 4, 60), ("h_tamper", 10, 60), ("h_tamper", 11, 60), ("h_name", 0, 30)], thorough=[("h_author", 0, 30), ("h_author", 1, 40), ("h_card", 0, 60), ("h_card", 1, 60)] + [("h_name", 0, 30)] + [("h_tamper", k, 600) for k in [*range(7), *range(10, 17)]], covers=["refused", "unreadable", "read"], assumptions=STD,
   bounds="Every event kind (quick: prekey addition, delegation, key agreement addition, revocation, contact card; thorough: also rotations, key agreement removals and updates) with any one byte of its encoding replaced by any other value, before the authentic one arrives (prekeys, and thorough: also after). Prekey additions and rotations over any of four keys, signed by any of three people in the name of any. Key agreement operations of every kind signed by and about any of a founder, a direct reader, a reader through a group, a relay and an outsider, to a replica that has or has not seen the key agreement. Other authority is M02's."),
 "T01": dict(bin="tx", quick=[("h_tx", 1, 30), ("h_tx", 2, 60), ("h_tx", 11, 60)], thorough=[("h_tx", 2, 300), ("h_tx", 3, 3600), ("h_tx", 12, 1800), ("h_tx", 21, 3600)], covers=["done", "failed", "received", "read", "revoked"], assumptions=STD,
   bounds="A founder with a group and a document in it, two further people; any one or two (thorough: three) of eight kinds of change inside the transaction, which succeeds or fails; any one (thorough: two) of them by the founder meanwhile (thorough: also with two inside); then further changes."),
 "L02": dict(bin="tx", quick=[("h_log", 1, 30), ("h_log", 2, 60), ("h_log", 3, 90), ("h_refused", 0, 60)], thorough=[("h_log", 3, 120), ("h_log", 4, 1800), ("h_refused", 0, 60)], covers=["followed", "read", "revoked", "accepted", "refused"], assumptions=STD,
   bounds="A founder with a group in a document; any one to three (thorough: four) of seven kinds of change. Received: a revocation by any of four people of any of three delegations with any of four proofs, the levels of two of the delegations varying."),
 "D02": dict(bin="causal", quick=[("h_history", 4, 100), ("h_faults", 4, 60), ("h_faults", 5, 120)], thorough=[("h_history", 4, 600), ("h_history", 5, 7200), ("h_faults", 5, 600), ("h_faults", 24, 600), ("h_faults", 6, 7200)], covers=["deep", "done", "missing", "failed", "judged", "second link"], assumptions=STD,
   bounds="Any history of four (thorough: five) contents, each naming any of the earlier ones, over any key rotations, read from the last by a member added last, with any of the others missing at first. Below the document: any history of five (thorough: six, or other hasher seeds) with any one content damaged, malformed or unreadable, or any one link with a wrong key."),
 "C01": dict(bin="causal", quick=[("h_store", 4, 120)], thorough=[("h_store", 4, 300), ("h_store", 5, 7200)], covers=["removed", "removed all", "done"], assumptions=STD,
   bounds="Any four (thorough: five) insertions, removals and removals of all over eight ciphertexts (two contents, two updates, two sizes)."),
 "S02": dict(bin="causal", quick=[("h_content", 4, 200), ("h_content", 2, 60), ("h_content", 3, 60), ("h_seal", 3, 30)], thorough=[("h_content", 0, 3600), ("h_content", 1, 3600), ("h_content", 2, 60), ("h_content", 3, 60), ("h_seal", 3, 30)], covers=["opened", "refused", "unreadable", "sealed"], assumptions=STD,
   bounds="Every single-bit (thorough: single-byte, and of a former epoch's) alteration of the encoding of an encrypted content; every other update of the document named in its place, for the present and a former epoch; received by a reader before the authentic one, who then writes. Sealed text of up to three bytes with up to two bytes of associated data, any one byte replaced, cut short or extended."),
 "P01": dict(bin="conc", quick=[("h_conc", 100 * k + 1, 200) for k in (3, 5, 6, 1, 9, 8)], thorough=[("h_conc", 100 * k + 1, 600) for k in range(1, 8)] + [("h_conc", 100 * k + 11, 3600) for k in range(1, 8)], covers=["put off", "both", "read", "unreadable", "restored"], assumptions=[CRYPTO, RAND, SEED, TWO],
   bounds="Two of 21 calls on one keyhive with two nested groups, two documents and three other people; the first (quick: any of 17) may be put off once (thorough: the second too), at any lock it takes, until the other call ends or waits for a lock."),
}
