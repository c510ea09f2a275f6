#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from the one table below."""

import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SM, ST, IK, SE = ("omemo/session_manager.py", "omemo/storage.py", "omemo/identity_key_pair.py", "omemo/session.py")
BE, BTBV = "omemo/backend.py", "examples/btbv_session_manager.py"

TESTS = ("The two existing tests run one fixed happy path (two fresh accounts exchange messages under two backends with "
         "all devices trusted, and one migration). ")


def m(name, where):
    return {"name": name, "where": where}


# id, title, statement, over, quantifier text, why tests can't (appended to TESTS), files, mechanism
PROPERTIES = [
    ("C01", "Messages are only encrypted for trusted, active devices of the right accounts",
     "Whenever a message is encrypted, key material is produced only for devices that belong to one of the recipients "
     "or to the own account, are not the own device, are active for the version under which they get the message, "
     "use a loaded version, and whose recorded trust for exactly their identity key evaluates to trusted at that "
     "moment (after the trust decision, if one was needed). No key material is produced as long as any candidate "
     "device is undecided.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "all recorded trust levels, activity flags, version sets, backend orders, sets of recipients, trust decisions and "
     "failures of bundle downloads and session building",
     "Every device is trusted and active there, so a missing filter is invisible.",
     [SM], [m("is_valid_recipient_device filter", f"{SM}:encrypt"), m("apply_backend_priority_order", f"{SM}:encrypt"),
            m("re-read of trust after the decision", f"{SM}:encrypt")]),
    ("C02", "Sessions are only ever established with the identity key on record",
     "A session with a device, whether built actively for sending, passively from a received key exchange or as a "
     "replacement, is only ever created with the identity key that is on record for that device (and that trust was "
     "evaluated for), never with a different one offered by a downloaded bundle or a message. Such a mismatch is "
     "reported (for encryption and replacement as a failure of that device, for decryption as inconsistent public "
     "data), and it leaves the recorded identity key as it was.",
     ["inputs", "configurations", "histories"],
     "all identity keys in bundles, in received key exchanges, in stored sessions and on record, changing between any "
     "two downloads",
     "Bundles never change their identity key there.",
     [SM], [m("identity key comparison before build_session_active/passive", f"{SM}:encrypt, decrypt, replace_sessions"),
            m("identity key pinning", f"{SM}:__get_device_information")]),
    ("C03", "Every eligible device receives the message exactly once; failures are reported",
     "A successful encryption covers every eligible (trusted, active, not own) device of the recipients and of the own "
     "account exactly once, under the loaded version with the highest requested priority that the device is active "
     "for, or reports that device with the reason why encrypting for it failed, and one device's failure never affects "
     "another device. Each returned message carries the own account, own device id and exactly the key material "
     "belonging to the content it is returned with, for that version's plaintext, with the identifier that was passed.",
     ["inputs", "configurations", "fault_sequences"],
     "all device sets, version sets, priority orders and subsets of devices for which download, session building or "
     "encryption fails",
     "There is one device per account and nothing fails.",
     [SM], [m("grouping by backend", f"{SM}:encrypt"), m("EncryptionError collection", f"{SM}:encrypt")]),
    ("C04", "Undecided devices are put up for one trust decision and block encryption",
     "If at least one candidate device is undecided, the application is asked once for a decision about exactly the "
     "undecided candidate devices, with the message's identifier passed through; if none is undecided it isn't asked. "
     "If a device is still undecided afterwards, encryption fails as still undecided, and neither key material is "
     "produced nor a session or bundle touched; a failing decision is passed on the same way.",
     ["inputs", "configurations", "fault_sequences"],
     "all recorded trust levels before and after the decision and all outcomes of the decision",
     "The decision is never requested with more than one outcome.",
     [SM], [m("undecided_devices / _make_trust_decision", f"{SM}:encrypt")]),
    ("C05", "Recipients who would get nothing abort the encryption, and are named",
     "Encryption fails for lack of eligible devices if and only if at least one recipient other than the own "
     "account would receive no copy of the message, either because none of its devices is eligible or because "
     "encrypting for all of them failed; the error names exactly those recipients. An encryption that fails stores "
     "no session state.",
     ["inputs", "configurations", "fault_sequences"],
     "all device sets, trust levels and failures",
     "There is always an eligible device.",
     [SM], [m("NoEligibleDevices checks", f"{SM}:encrypt")]),
    ("C06", "Ratchet state is durable before a message leaves; key exchanges repeat",
     "Every session used to encrypt a message is written to storage in its advanced state, for exactly its "
     "version, account and device, before the message is handed to the application, so that no key is used twice "
     "after a crash; the same holds for empty messages, before they are sent. Sessions not used for a message are not written. The key exchange accompanies a device's key "
     "material exactly when the session was built by the own side and hasn't been confirmed by the other side yet.",
     ["inputs", "histories", "crash_points", "configurations"],
     "all session states (new, built actively and confirmed or not, built passively) and device sets",
     "Nothing looks at what is stored when a message is handed out.",
     [SM], [m("store_session before return", f"{SM}:encrypt"),
            m("store_session before _send_message", f"{SM}:__send_empty_message"),
            m("initiation/confirmed -> key exchange attached", f"{SM}:encrypt")]),
    ("C07", "Messages of distrusted devices are rejected before any key material is used",
     "Decrypting a message from a device whose recorded trust evaluates to distrusted always fails as such, before "
     "any key exchange or encrypted key of the message is processed, in every mode. Messages of trusted and of "
     "undecided devices are not rejected for their trust.",
     ["inputs", "configurations", "histories"],
     "all recorded trust levels, sessions, key exchanges and modes (history synchronisation or live)",
     "All devices are trusted.",
     [SM], [m("trust evaluation before build/decrypt", f"{SM}:decrypt")]),
    ("C08", "A message that can't be decrypted changes nothing",
     "If decrypting a message fails before its content is decrypted, for whatever reason (not for this device, "
     "unknown version, unknown or distrusted sender, missing session, identity key mismatch, failed key exchange, "
     "failed or over-limit decryption), then stored sessions and trust are unchanged, no pre key is hidden, "
     "deleted or generated, no bundle is published and no message is sent or queued.",
     ["inputs", "histories", "fault_sequences"],
     "all messages (key material per device, key exchange, identity key), stored sessions and failures of the version's "
     "cryptography",
     "Only valid messages are decrypted.",
     [SM], [m("effects only after a successful decrypt", f"{SM}:decrypt")]),
    ("C09", "Valid messages decrypt; stored sessions are used and replaced correctly",
     "A message with key material for the own device, from a known or discoverable device that isn't distrusted, "
     "decrypts exactly if its cryptography succeeds, and otherwise fails with the documented error: without key "
     "exchange the stored session is used (its absence is reported as no session); with one, the stored session is "
     "used if the other side built it by that same key exchange, and otherwise a new session is built and replaces "
     "the stored one. The result is the plaintext (none for empty messages) and key material decrypted with the "
     "key material addressed to the own device, together with the information about the sending device, and the "
     "session is stored in its advanced state, before its pre key is given up or anything is sent, and isn't lost "
     "if publishing or sending fails afterwards.",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "all stored sessions (none, built from the same or another key exchange, active or passive), messages with several "
     "recipients, and failures",
     "Only one session history is tried.",
     [SM], [m("session selection", f"{SM}:decrypt"), m("error classification", f"{SM}:decrypt")]),
    ("C10", "Pre keys are used once, replenished in time, and the published bundle keeps up",
     "Once a key exchange has been accepted, the pre key it used is no longer offered: it is deleted right away, "
     "or, while the history is being synchronised, only hidden and kept. If at most the configured threshold (99 by default) of "
     "visible pre keys is left after that, they are refilled to 100 (and not otherwise), and after every "
     "decryption the published bundle equals the local one.",
     ["inputs", "configurations", "histories"],
     "all numbers of remaining pre keys, thresholds from 25 to 99, modes, and messages with and without key exchange",
     "The threshold is never reached.",
     [SM], [m("hide/delete_pre_key", f"{SM}:decrypt"), m("refill threshold", f"{SM}:decrypt")]),
    ("C11", "Empty messages complete sessions and advance long chains, exactly when needed",
     "In live mode, after a message has been decrypted, exactly one empty message is sent back to the sending "
     "device, using the session and version of that message, if the message contained a key exchange or the "
     "receiving chain is longer than 53 messages; otherwise none is sent. The session is stored in its advanced "
     "state afterwards, and during history synchronisation nothing is sent.",
     ["inputs", "histories", "configurations"],
     "all receiving chain lengths, messages with and without key exchange, and modes",
     "Only a handful of short chains occur.",
     [SM], [m("staleness threshold and key exchange trigger", f"{SM}:decrypt"),
            m("mode check", f"{SM}:decrypt")]),
    ("C12", "History synchronisation defers automatic messages and sends each exactly once",
     "While the history is being synchronised nothing is sent and used pre keys stay usable; when the "
     "synchronisation ends, exactly one empty message is sent for every session that became due for one in the "
     "meantime (by a key exchange or a long receiving chain), with the stored session, whatever restarts happened "
     "in between, and sessions that no longer exist are skipped. The pre keys hidden during the synchronisation "
     "are deleted at its end, nothing is sent twice if the synchronisation is ended again (also if sending "
     "a message failed, which is reported), and the library behaves as in live mode afterwards and for messages that "
     "arrive while the deferred ones are being sent.",
     ["inputs", "histories", "schedules", "crash_points"],
     "all sequences of up to a bounded number of messages from several devices and versions, with restarts in between",
     "No message arrives during a synchronisation, and nothing restarts.",
     [SM], [m("queue in storage", f"{SM}:decrypt, after_history_sync"),
            m("delete_hidden_pre_keys", f"{SM}:after_history_sync")]),
    ("C13", "A device list update activates exactly the listed devices and forgets nothing",
     "After a device list of an account was received or downloaded for one version, exactly the devices on it are "
     "active for that version, new devices have been added (undecided, for that version only), the labels on it "
     "are recorded (a missing label leaves the recorded one), and nothing about other accounts or other versions "
     "changed. Devices that disappear from a list become inactive and keep their identity key, trust and label; "
     "lists of versions that aren't loaded are refused without any change.",
     ["inputs", "histories", "configurations"],
     "all earlier device states, device lists (ids and labels) and versions",
     "Lists only ever grow by one device there.",
     [SM], [m("active/namespaces/label bookkeeping", f"{SM}:update_device_list, refresh_device_list"),
            m("per-device storage keys", f"{SM}:update_device_list")]),
    ("C14", "The own device stays on the own device lists; foreign lists are never published",
     "Whenever a device list of the own account is processed that lacks the own device, a corrected list, with the "
     "own device and its label in addition to all listed devices with their labels, is published for that version, "
     "and afterwards the own device is active for it and published. The device list of another account is never "
     "published, and no list of another version is.",
     ["inputs", "histories", "configurations"],
     "all device lists, earlier device states, labels and versions",
     "The own device is never removed by another client.",
     [SM], [m("own device re-adding", f"{SM}:update_device_list")]),
    ("C15", "An interrupted device list update can be repeated, and loses nothing",
     "If processing a device list is interrupted by a crash or a failing storage or upload operation, then the "
     "known devices stay known with their identity key, trust and other versions, and processing the same list "
     "again (after a restart, too) reaches exactly the state that an uninterrupted run reaches.",
     ["crash_points", "fault_sequences", "inputs", "histories"],
     "every point between two durable effects of the update, every failing operation, all lists and earlier states",
     "Nothing fails or crashes.",
     [SM], [m("order of the stores", f"{SM}:update_device_list")]),
    ("C16", "Device information is complete, and identity keys are pinned on first sight",
     "The information about an account's devices contains exactly the known devices whose identity key is on "
     "record or can be obtained from a bundle, each with its recorded identity key, versions, activity, label and "
     "the trust recorded for exactly that account and key (undecided if none). An identity key that is not on "
     "record is taken from a bundle of that very device and recorded for good; a recorded one never changes and no "
     "bundle is downloaded for it; the own device is told apart from the account's other devices.",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "all recorded states, bundles and download failures",
     "Every device's bundle is available and stable.",
     [SM], [m("identity key lookup and pinning", f"{SM}:get_device_information"), m("trust lookup", f"{SM}:get_device_information")]),
    ("C17", "Trust is kept per account and identity key; the last decision wins",
     "The trust level reported for a device is the last one set for its account together with its identity key, and the "
     "configured undecided level if none was ever set for that pair, no matter what was set for other accounts or keys, "
     "and over restarts.",
     ["inputs", "histories"],
     "all identity keys, account names and sequences of trust decisions",
     "Only one key per account occurs.",
     [SM], [m("trust storage key", f"{SM}:set_trust, __get_device_information")]),
    ("C18", "The first start creates a fresh, unique, fully published own device",
     "The first start picks a device id between 1 and 2^31-1 that is on none of the own account's lists, creates "
     "one identity key used by all versions, and publishes for every version a bundle with enough pre keys "
     "(refilled to 100 if at or below the threshold) and after that the own device with its label on the device "
     "list, keeping the devices already on it; a second start reuses all of it and publishes nothing. Invalid "
     "arguments (a refill threshold outside of 25 to 99, two backends of the same version) are refused without any "
     "effect, all others are accepted.",
     ["inputs", "configurations", "histories"],
     "all device lists, random numbers, backend sets and argument values",
     "The lists are empty there, and the arguments valid.",
     [SM], [m("device id generation", f"{SM}:create"), m("argument validation", f"{SM}:create"),
            m("order bundle -> list", f"{SM}:create")]),
    ("C19", "Backends can be added and removed between starts",
     "A start with stored data keeps the own device id, identity key and label; for every version that is new it "
     "publishes a bundle and then the own device on that version's list, and for every version that is no longer "
     "loaded it takes the own device off that version's list and then deletes its bundle, keeping other devices' "
     "entries. It changes nothing published for the versions that remain and purges no version's private data, and "
     "the recorded versions afterwards are exactly the loaded ones.",
     ["configurations", "histories", "inputs"],
     "all pairs of earlier and current backend sets, and all device lists",
     "There is no restart.",
     [SM], [m("comparison of stored and configured namespaces", f"{SM}:create"), m("purge of removed versions", f"{SM}:create")]),
    ("C20", "An interrupted start can be repeated and converges",
     "If a start is interrupted by crashes or failing storage or network operations, repeating it until it "
     "succeeds ends with one device id and one identity key, every version's local bundle published, the own "
     "device on every list with its label and other devices' entries kept. At no point is the own device on a "
     "version's list while no bundle of it is published.",
     ["crash_points", "fault_sequences", "configurations"],
     "every point between two durable or remote effects, every failing operation, all backend changes",
     "Nothing fails or crashes.",
     [SM, IK], [m("order of effects", f"{SM}:create"), m("signalling that a version was set up", f"{SM}:create"),
                m("identity key storage order", f"{IK}:get")]),
    ("C21", "Purging a version removes exactly that version's data",
     "Purging a version takes the own device off its published list, keeping the other devices' entries, purges "
     "the private data of exactly that version if it is loaded and deletes its bundle; afterwards the own device "
     "no longer supports that version, which is no longer used for encryption. Online and offline data of other "
     "versions and information about other devices don't change, the own device is never listed without bundle and "
     "private data, and a purge that was interrupted is completed by the next start without that version.",
     ["inputs", "configurations", "crash_points", "fault_sequences"],
     "all backend sets, recorded devices and queues; every interruption point",
     "It is never called.",
     [SM], [m("purge sequence", f"{SM}:purge_backend")]),
    ("C22", "Purging an account removes everything about it and nothing else",
     "After purging an account, no device, label, version, identity key, queued message or trust in its recorded "
     "identity keys is left, its sessions are purged in every loaded version, and nothing about other accounts or "
     "the own one changed, published or sent. When the account's devices appear again, they are treated as new: "
     "undecided, with their identity key obtained anew.",
     ["inputs", "histories", "configurations"],
     "all recorded states of the purged and other accounts, including those of not loaded versions",
     "It is never called.",
     [SM], [m("purge sequence", f"{SM}:purge_bare_jid")]),
    ("C23", "Signed pre keys are rotated in time, published, and retried on failure",
     "While running, no loaded version's signed pre key is rotated before the configured period is over, each one "
     "whose period is over is rotated at the next check, and the wait until the next check ends at most one minute "
     "after the next rotation is due and is never zero. After each rotation the new bundle is published; a failing "
     "upload is retried after one minute, doubled with each failure up to one hour, until it succeeds, without "
     "rotating anything in the meantime. The period is one week unless configured. Once a version is purged, its "
     "signed pre key isn't rotated and its bundle isn't published any more.",
     ["inputs", "schedules", "fault_sequences", "configurations"],
     "all ages of signed pre keys, rotation periods, timer delays and sequences of upload failures",
     "No test runs for a day, let alone a week.",
     [SM], [m("rotation loop", f"{SM}:__manage_signed_pre_key_rotation"), m("back-off", f"{SM}:__manage_signed_pre_key_rotation")]),
    ("C24", "Ensuring consistency publishes exactly what is missing or outdated",
     "Ensuring data consistency publishes, for every loaded version, the local bundle if the published one is "
     "missing, can't be downloaded or differs, and nothing if it is the same; it puts the own device on the device "
     "list if it is missing there and leaves the list alone otherwise, always keeping other devices' entries. "
     "Failures are reported to the caller.",
     ["inputs", "configurations", "fault_sequences"],
     "all published bundles and lists, labels and versions",
     "It is called only when everything is consistent.",
     [SM], [m("bundle comparison", f"{SM}:ensure_data_consistency"), m("list refresh", f"{SM}:ensure_data_consistency")]),
    ("C25", "Changing the own label publishes it and changes nothing else",
     "Setting, changing or removing the own device's label records it and publishes it on the own device lists of "
     "all loaded versions, keeping all other devices and their labels, and changes nothing else about any device. "
     "Later device list updates without labels keep it, and the own device is listed with it when it has to be "
     "added again.",
     ["inputs", "configurations", "histories"],
     "all labels (present, absent), earlier labels and lists",
     "It is never called.",
     [SM], [m("label store and upload", f"{SM}:set_own_label")]),
    ("C26", "The own identity key never changes once created",
     "The own identity key pair is generated once from fresh random bytes, and every later load, in any process "
     "and after any crash or storage failure, yields the same key pair as the first one handed out. Both kinds of "
     "stored secrets (seed or private key) are told apart, and converting a seed to a private key preserves the "
     "public key.",
     ["histories", "crash_points", "fault_sequences", "inputs"],
     "every stored state, sequence of loads, crash point between stores and failing storage operation",
     "It is loaded once from a complete state.",
     [IK], [m("order of the two stores and completeness check", f"{IK}:IdentityKeyPair.get")]),
    ("C27", "Replacing sessions: per-version isolation of failures",
     "Replacing a device's sessions builds, for each loaded version with a stored session with that device, a new "
     "session, sends its key exchange in one empty message to that device's account, and only then replaces the "
     "stored session. Whatever fails for one version is reported for exactly that version, leaves its stored "
     "session as it was, and doesn't keep other versions from being replaced; other devices' sessions are "
     "untouched.",
     ["inputs", "fault_sequences", "configurations"],
     "all version sets, stored sessions and combinations of failures",
     "It is never called.",
     [SM], [m("per-namespace error handling", f"{SM}:replace_sessions"), m("store after send", f"{SM}:replace_sessions")]),
    ("C28", "The storage cache is never visible",
     "Loading a key returns what was stored last, or nothing if it was never stored or has been deleted since, no "
     "matter whether the cache is enabled, also after failed operations and restarts, and a load that runs "
     "concurrently with a write returns a value held while it ran and never influences later loads. Stores and "
     "deletions reach the underlying storage right away with the unmodified value, and changing a value handed in "
     "or out afterwards changes neither what is stored nor what later loads return.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "all bounded sequences and interleavings of operations, values and failures",
     "The cache is disabled in the tests.",
     [ST], [m("cache of loads, stores and deletes", f"{ST}:Storage.load/store/delete"), m("deep copies", f"{ST}:Storage.load/store")]),
    ("C29", "Typed loads return the stored type or refuse; byte strings round-trip",
     "Loading a value as a primitive, optional, list, dictionary or bytes returns exactly the stored value if it has that type, "
     "nothing if nothing is stored, and raises a type error otherwise. Every byte string reads back as stored.",
     ["inputs"],
     "all JSON values of bounded depth and all byte strings of bounded length",
     "Only values that the library itself wrote are loaded.",
     [ST], [m("check_type helpers", f"{ST}:Storage.load_*"), m("base64 encoding", f"{ST}:Storage.store_bytes/load_bytes")]),
    ("C30", "Skipped message key limits are validated as documented",
     "A limit of skipped message keys per message is accepted exactly if it is absent, or between one and the "
     "limit per session, or both are zero; everything else is refused. The accepted limits are in force as given, "
     "and an absent limit per message means the one per session.",
     ["inputs"], "all pairs of nonnegative limits, and absent per-message limits",
     "One pair of limits is used there.",
     [BE], [m("limit validation", f"{BE}:Backend.__init__")]),
    ("C31", "Fingerprints show the whole identity key in the documented format",
     "The displayed fingerprint of an identity key consists of eight groups of eight lower-case hexadecimal digits which, "
     "joined, are exactly the key's Curve25519 form, so different keys never look the same.",
     ["inputs"], "all identity keys of 32 bytes",
     "It is never called.",
     [SM], [m("hex and splitting", f"{SM}:format_identity_key")]),
    ("C32", "Arguments of the caller are never modified",
     "No operation modifies the sets, lists, dictionaries or messages passed to it by the application, whatever "
     "its outcome, and changing a passed list of backends afterwards doesn't change what is loaded.",
     ["inputs", "fault_sequences"], "all inputs and outcomes of creating, encrypting, decrypting and device list updates",
     "Nothing compares arguments afterwards.",
     [SM], [m("copies instead of in-place changes", f"{SM}:create, encrypt, update_device_list")]),
    ("C33", "The example policy trusts blindly only before the first manual decision",
     "The shipped trust policy example blindly trusts undecided devices of exactly those accounts for none of "
     "whose devices trust was decided manually, asks the user about exactly the undecided devices of the other "
     "accounts, never changes decisions made earlier, and refuses unknown trust levels. Messages are encrypted for "
     "exactly the trusted and blindly trusted devices.",
     ["inputs", "histories"], "all recorded levels of all devices of several accounts",
     "The example has no tests.",
     [BTBV], [m("_make_trust_decision", f"{BTBV}"), m("_evaluate_custom_trust_level", f"{BTBV}")]),
    ("C34", "Sending chain lengths are reported for the stored sessions",
     "The reported sending chain lengths of a device contain exactly the loaded versions it supports, each with the length of "
     "the stored session's sending chain, or nothing where there is no session, and asking changes nothing.",
     ["inputs", "configurations"], "all stored sessions, version sets and chain lengths",
     "It is never called.",
     [SM], [m("get_sending_chain_length", f"{SM}:get_sending_chain_length")]),
    ("C36", "Operations on different accounts can run at once",
     "Operations that concern different accounts (encrypting, decrypting, device list updates and refreshes, device information, "
     "trust, session replacement, chain lengths, purging an account) don't influence each other when they run concurrently, at "
     "whatever points their execution alternates: each has the result, and together they have the durable and published "
     "effects, that they have one after the other.",
     ["schedules", "inputs"], "all interleavings of two operations at the points where they wait",
     "Tests await one operation after the other.",
     [SM], [m("no state of an operation is kept in the instance", f"{SM}:encrypt"), m("decrypt", f"{SM}:decrypt"),
            m("update_device_list", f"{SM}:update_device_list")]),
    ("C37", "Operations depend on stored data, not on what the process did before",
     "An operation has the same result, and the same durable, published and sent effects, no matter whether the process has "
     "run other operations before it or was restarted over the same stored data in between: what an earlier operation found "
     "(trust, bundles, sessions, device lists) isn't remembered anywhere but in the storage. The only exceptions are the "
     "synchronisation mode and the retry delays of the signed pre key rotation.",
     ["histories", "inputs"], "all pairs of operations, with a restart in between or not",
     "Tests run one operation in a new process, and never compare histories.",
     [SM, ST], [m("devices are loaded anew", f"{SM}:__get_device_information"), m("encrypt", f"{SM}:encrypt"),
                m("decrypt", f"{SM}:decrypt"), m("cache", f"{ST}:load")]),
    ("C35", "Messages decrypt to the encrypted plaintext only at their recipients",
     "With a conforming version implementation, what one party encrypts is readable by exactly the addressed devices and by "
     "nobody else, and any modification in transit is detected.",
     ["inputs", "histories"], "all plaintexts, keys and modifications in transit",
     "A test can't range over all keys and attackers.",
     [BE, SE], [m("Backend.encrypt_plaintext/encrypt_key_material", f"{BE}")]),
]

TECHNIQUE = "bounded symbolic execution of the real code, Z3 decides every path"
NOTE = ("Bounded: every feasible path of the real Python code within the scenario's bounds is executed on symbolic values, and "
        "Z3 shows that no value taking the path violates the assertions; counterexamples are replayed on the real code with "
        "plain values. ")
TRUST = "Trusts CPython, Z3 and the nondeterministic stubs for storage, server, trust callbacks and backends."
EXTRA = {}

NOT_APPLICABLE = {
    "C35": "The cryptography lives in backends outside this repository (twomemo/oldmemo) and in C libraries behind FFI; its "
           "confidentiality and authenticity are computational claims that an SMT encoding of the code in /repo can't "
           "express. The checks replace it by stubs that follow the documented contract."
}


def main():
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    import props
    table = props.table()
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
        for cid, title, statement, over, text, why, files, mechanism in PROPERTIES:
            assert len(title) <= 80, (cid, len(title))
            f.write(json.dumps({
                "id": cid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                "why_tests_cant": TESTS + why, "anchors": {"files": files, "mechanism": mechanism, "hook_needed": None}
            }) + "\n")
    checks = []
    for cid, *_ in PROPERTIES:
        if cid in NOT_APPLICABLE:
            continue
        c = table[cid]
        checks.append({
            "property": cid,
            "quick_cmd": f"python3-vt check.py {cid} --tier quick",
            "thorough_cmd": f"python3-vt check.py {cid} --tier thorough",
            "technique": TECHNIQUE,
            "level": "model_checking",
            "level_note": NOTE + "Bounds: " + "; ".join(c.bounds) + ". " + (
                "Outside: " + "; ".join(c.outside) + ". " if c.outside else "") + TRUST
        })
    assert {c["property"] for c in checks} == set(table), set(table) ^ {c["property"] for c in checks}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "python3-vt -c 'import z3; print(z3.get_version_string())'",
            "checks": checks,
            "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
            "notes": "No hooks in /repo. Genuine defects found and repaired are in known_findings.json and DESIGN.md."
        }, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
