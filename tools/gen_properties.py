#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

DES, DESI, AES, AESI, UTIL = "pkg/des/des.go", "pkg/des/des_internal.go", "pkg/aes/aes.go", "pkg/aes/aes_internal.go", "pkg/util.go"
SVC, REPO, MACH, HND, RT, WR = ("pkg/server/" + x for x in ("service.go", "repository.go", "machine.go", "handlers.go", "routing.go", "wrapper.go"))
ECB = ["encryption/aes_ecb.go", "encryption/des_ecb.go"]

prop("C01", "TDES initial key is the X9.24-1 key, whatever the counter",
 "For every 16-byte base derivation key and every key serial number of 1 to 10 bytes, the TDES initial key equals the one ANSI X9.24-1 A.6 prescribes. A short key serial number counts as left-padded with FF bytes, and the 21 transaction-counter bits never influence the initial key. A base key of any other size, or a key serial number longer than 10 bytes, is refused with an error.",
 ["inputs"], "all BDKs, all KSN lengths and contents, all 2^21 counters",
 "One BDK/KSN pair is tested (five counters for the same device); padding, counter masking at every bit and the key variant on other bytes are never exercised.",
 [DES, DESI] + ECB, [("DerivationOfInitialKey", DES), ("serializeKeySerialNumber, removeTransactionCounter, serializeKeyWithHexadecimal", DESI)],
 ["des.DerivationOfInitialKey", "server.InitialKey", "dukptcli -ik"])

prop("C02", "TDES transaction key follows the X9.24-1 derivation for every counter",
 "For every 16-byte initial key and every key serial number of 1 to 10 bytes, the TDES transaction key equals the key obtained by applying the ANSI X9.24-1 A.3 non-reversible step once per set counter bit, from the most significant bit to the least. This holds for all 2^21 counter values and does not depend on any earlier derivation. Initial keys of another size and over-long key serial numbers are refused with an error.",
 ["inputs", "histories"], "all 2^21 transaction counters, all initial keys and device identifiers, any sequence of derivations",
 "Tests cover counters 1 to 5 of one device: 3 of the 21 counter bits and at most two chained steps; the bits in the upper two counter bytes are never set.",
 [DES, DESI], [("DeriveCurrentTransactionKey shift-register walk", DES), ("makeNonReversibleKey", DESI)],
 ["des.DeriveCurrentTransactionKey", "server.TransactionKey"],
 state=[("keyBytes", "key register, rewritten once per set bit", DES), ("ksnBytes", "KSN register holding the counter bits consumed so far", DES)])

prop("C03", "AES initial key is the X9.24-3 key and has the size of the base key",
 "For every base derivation key of 16, 24 or 32 bytes and every initial key ID, the AES initial key equals the ANSI X9.24-3 6.3 derivation of that size. The result is exactly as long as the base key, and depends only on the first 8 bytes (the initial key ID) of an 8-byte ID or a 12-byte key serial number. Other base key sizes and identifiers shorter than 8 bytes are refused with an error.",
 ["inputs"], "all base keys of the three sizes, all 8-byte IDs and 12-byte KSNs",
 "Only one AES-128 BDK and ID is tested; the multi-block AES-192 and AES-256 derivations are not tested at all.",
 [AES, AESI], [("DerivationOfInitialKey", AES), ("createDerivationData, derivationKey", AESI)],
 ["aes.DerivationOfInitialKey", "server.InitialKey"])

prop("C04", "AES transaction key follows the X9.24-3 derivation for every counter",
 "For every initial key of 16, 24 or 32 bytes and every 12-byte key serial number, the AES transaction key equals the key obtained by applying the ANSI X9.24-3 key derivation once per set bit of the 32-bit counter, most significant bit first, each step using the counter bits consumed so far. The transaction key is exactly as long as the initial key. Any other key size or key serial number size is refused with an error.",
 ["inputs", "histories"], "all 32-bit counters (every counter with few bits set, dense windows of all others), three key sizes, all device IDs",
 "Tests cover counters 1 to 8 with one AES-128 initial key: 4 of 32 counter bits, and neither of the two longer key sizes.",
 [AES, AESI, UTIL], [("DeriveCurrentTransactionKey mask walk", AES), ("createDerivationData, derivationKey", AESI), ("GetAesTcFromKsn", UTIL)],
 ["aes.DeriveCurrentTransactionKey", "server.TransactionKey"])

prop("C05", "TDES counter visits every valid value once, in order, then refuses",
 "From any TDES key serial number of 4 to 10 bytes, asking for the next one yields the same device bits with the smallest larger 21-bit counter having at most 10 set bits. Starting from counter 0, repeated requests visit all 1,048,575 valid counters exactly once in increasing order. From the last valid counter on, every request fails with an error and no key serial number.",
 ["histories", "inputs"], "the whole counter chain and all 2^21 counter values, all device identifiers",
 "Tests make a single step from counter 1; carries, the skip rule, byte boundaries and exhaustion are never reached.",
 [UTIL], [("GenerateNextDesKsn", UTIL), ("GetDesTcFromKsn", UTIL)],
 ["pkg.GenerateNextDesKsn", "server.Service.MakeNextKSN"],
 state=[("transaction counter", "low 21 bits of the KSN", UTIL)])

prop("C06", "AES counter visits every valid value once, in order, then refuses",
 "From any 12-byte AES key serial number, asking for the next one yields the same 8 identifier bytes with the smallest larger 32-bit counter having at most 16 set bits. Repeated requests therefore visit every valid counter exactly once, in increasing order, up to FFFF0000. From FFFF0000 on, every request fails with an error and no key serial number.",
 ["histories", "inputs"], "all 2^32 counter values, all device identifiers",
 "Tests make nine steps from counter 0; the skip rule (from counter 0001FFFF on) and exhaustion are never reached.",
 [UTIL], [("GenerateNextAesKsn", UTIL), ("GetAesTcFromKsn", UTIL)],
 ["pkg.GenerateNextAesKsn", "server.Service.MakeNextKSN"],
 state=[("transaction counter", "last 4 bytes of the KSN", UTIL)])

prop("C07", "AES KSN validity check accepts exactly the counters a device can use",
 "A 12-byte AES key serial number is reported valid if and only if its 32-bit counter is non-zero and has at most 16 set bits, i.e. exactly if a device counting up from zero reaches it. The counter read from a key serial number is its last four bytes (AES) or its last 21 bits (TDES) in big-endian order. The identifier bytes never influence the answer.",
 ["inputs"], "all 2^32 AES counters, all 2^21 TDES counters, all identifier bytes",
 "Tests check the predicate on counters 1 to 8 only, never on an invalid one.",
 [UTIL], [("IsValidAesKsn, GetAesTcFromKsn, GetDesTcFromKsn", UTIL)],
 ["pkg.IsValidAesKsn", "pkg.GetAesTcFromKsn", "pkg.GetDesTcFromKsn"])

prop("C08", "No two transactions of a device share a transaction key",
 "Along a device's whole life, from the first key serial number to the last, all transaction keys are pairwise different and differ from the initial key. Devices with different identifiers, and machines with different initial keys, never share a transaction key for the same counter.",
 ["histories", "inputs"], "all pairs of the 1,048,575 TDES counters; all pairs of explored AES counters; pairs of device identifiers",
 "Uniqueness quantifies over all pairs of transactions of a history of a million; tests look at five.",
 [DES, DESI, AES, AESI, UTIL], [("counter bits in the KSN register fed to each derivation step", DESI), ("createDerivationData", AESI)],
 ["des.DeriveCurrentTransactionKey", "aes.DeriveCurrentTransactionKey"])

prop("C09", "PIN, MAC and data, request and response, each use their own key",
 "For one transaction key, PIN encryption, request MAC, response MAC, request data and response data are each computed under the distinct working key the standard assigns to that purpose, for TDES and for AES of all three sizes. Consequently data encrypted for one direction does not decrypt in the other, the request and response MACs of the same message differ, and PIN or MAC values are never reproduced by the data operation. Any action other than response is treated as a request.",
 ["inputs", "configurations"], "all transaction keys and KSNs, all pairs of purposes, all action strings",
 "Tests pin a few vectors of request and response output for AES-128 and TDES; they do not vary key size, action spelling, or compare purposes with each other.",
 [DES, DESI, AES, AESI], [("key variants in GenerateMac/EncryptData/DecryptData/encryptPinblock", DES), ("generateDerivationKey, usage indicators", AESI)],
 ["des.*", "aes.*"])

prop("C10", "TDES PIN encryption is standard and decrypts back to the same PIN",
 "For every supported 8-byte PIN block format, every PIN length that format can carry and every PAN of at least 13 digits, the encrypted PIN decrypts under the same key and PAN to exactly the PIN given. The ciphertext is the format's PIN block encrypted with two-key TDES under the PIN variant of the transaction key. Format names are case-insensitive; unknown formats, PINs or PANs the format cannot carry, and keys that are not 16 bytes are refused with an error.",
 ["inputs", "configurations"], "13 formats x PIN lengths 4 to 12 x PAN lengths x keys",
 "Tests round-trip one 4-digit PIN and one PAN in ISO-0 only; the other twelve formats and longer PINs are never used.",
 [DES, DESI, "go.mod"], [("EncryptPin, DecryptPin", DES), ("encryptPinblock, decryptPinblock", DESI), ("pinblock formatters", "go.mod")],
 ["des.EncryptPin", "des.DecryptPin", "server.EncryptPin", "server.DecryptPin"])

prop("C11", "AES PIN encryption is ISO format 4 and decrypts back to the same PIN",
 "For AES keys of 16, 24 and 32 bytes, every PIN of 4 to 12 digits and every PAN of 12 to 19 digits, the encrypted PIN decrypts under the same key, key serial number and PAN to exactly the PIN given. The ciphertext is an ISO 9564 format 4 block enciphered under the PIN encryption key derived for that transaction. PIN or PAN lengths outside these ranges, and key sizes that do not match the key type, are refused with an error.",
 ["inputs", "configurations"], "three key sizes x PIN lengths x PAN lengths x KSNs",
 "Tests round-trip one PIN and PAN with AES-128; the ciphertext itself is never checked because it is randomised.",
 [AES, AESI] + [ECB[0]], [("EncryptPin, DecryptPin", AES), ("generateDerivationKey", AESI)],
 ["aes.EncryptPin", "aes.DecryptPin"])

prop("C12", "TDES data encryption is standard CBC and decrypts back to the data",
 "For every 16-byte transaction key, plaintext, direction and initial vector, TDES data encryption is CBC two-key TDES under the data key of X9.24-1 A.4.1, and decryption with the same parameters returns the plaintext followed only by the zero padding up to the 8-byte block. A missing initial vector is zero, a shorter one is zero-extended and a longer one is cut to one block, identically in both directions. Keys that are not 16 bytes are refused with an error.",
 ["inputs", "configurations"], "all plaintext lengths and contents, all IV lengths, both directions, all keys",
 "Tests encrypt a single 17-byte string without IV; explicit IVs and other lengths are never exercised.",
 [DES, ECB[1]], [("EncryptData, DecryptData", DES)], ["des.EncryptData", "des.DecryptData"])

prop("C13", "AES data encryption is standard CBC and decrypts back to the data",
 "For transaction keys of 16, 24 and 32 bytes, every plaintext, direction and initial vector, AES data encryption is CBC under the data key X9.24-3 derives for that key serial number and direction, and decryption with the same parameters returns the plaintext followed only by the zero padding up to the 16-byte block. A missing initial vector is zero, a shorter one is zero-extended and a longer one is cut to one block, identically in both directions. Key sizes that do not match the key type are refused with an error.",
 ["inputs", "configurations"], "all plaintext lengths and contents, all IV lengths, both directions, three key sizes",
 "Tests encrypt a single 17-byte string without IV under AES-128.",
 [AES, AESI], [("EncryptData, DecryptData", AES), ("generateDerivationKey", AESI)], ["aes.EncryptData", "aes.DecryptData"])

prop("C14", "TDES MAC is the ISO 9797 retail MAC of the whole message",
 "For every 16-byte transaction key, direction and message of any length, the TDES MAC is the 8-byte ISO 9797-1 algorithm 3 (single-DES CBC with final TDES) value of the zero-padded message under the MAC variant of the key. Every byte of the message influences the MAC. Keys that are not 16 bytes are refused with an error.",
 ["inputs", "configurations"], "all message lengths and contents, both directions, all keys",
 "Tests compute the MAC of one 17-byte message under five keys.",
 [DES, ECB[1]], [("GenerateMac", DES)], ["des.GenerateMac", "server.GenerateMac"])

prop("C15", "AES CMAC and HMAC are the standard values under the derived MAC key",
 "For every transaction key size, key serial number, direction and message, the CMAC is the 16-byte AES-CMAC (SP 800-38B) under the AES MAC key derived for that direction. The HMAC is the 32-byte HMAC-SHA-256 under the HMAC key of the same size derived for that direction. Key sizes that do not match the key type, and key types of the other family, are refused with an error.",
 ["inputs", "configurations"], "all message lengths and contents, both directions, six key types",
 "Tests compute both MACs of one 17-byte message under AES-128/HMAC-128 keys.",
 [AES, AESI], [("GenerateCMAC, GenerateHMAC", AES), ("checkWorkingKeyLength, checkWorkingKeyLengthHmac", AESI)],
 ["aes.GenerateCMAC", "aes.GenerateHMAC"])

prop("C16", "Malformed arguments are answered with an error, never a panic",
 "No combination of argument sizes, strings or ciphertexts makes a public key-management, PIN, MAC, data or counter function panic. Keys and key serial numbers of a size the algorithm does not define are refused with an error and no output, never silently zero-filled, truncated or wrapped.",
 ["inputs"], "every size of every byte argument from nil to well past the defined sizes, all enumerations of malformed strings, garbage ciphertexts",
 "Existing tests contain no negative case at all for the libraries.",
 [DES, DESI, AES, AESI, UTIL] + ECB, [("length checks", DESI), ("getDerivationKeyType, checkWorkingKeyLength", AESI)],
 ["pkg.*", "des.*", "aes.*", "encryption.*"])

prop("C17", "Library calls leave their arguments alone and never depend on past calls",
 "No library call changes the bytes of a key, key serial number, initial vector or ciphertext passed to it, nor memory behind the end of such a slice, and no result shares memory with an argument or an earlier result. The answer of a call depends only on its arguments: after any sequence of other calls, successful or failing, it is the same as on first use.",
 ["histories", "inputs"], "all call sequences up to a depth over an alphabet covering every function, with shared and overlapping buffers",
 "Effects of one call on another only show in sequences that reuse buffers or repeat calls with one argument changed; the tests use each result once and overwrite their KSN variable.",
 [DES, DESI, AES, AESI, UTIL] + ECB, [("defensive copies", DES), ("createDerivationData append", AESI), ("GenerateNextAesKsn/GenerateNextDesKsn result buffers", UTIL)],
 ["pkg.*", "des.*", "aes.*"])

prop("C18", "Library calls are safe to run concurrently on shared inputs",
 "Any two library calls, on the same or different goroutines, may overlap while sharing their key, key serial number, initial vector and ciphertext slices. In every interleaving there is no data race, and each call returns what it returns when run alone.",
 ["schedules"], "all pairs and selected triples of calls, all interleavings",
 "The tests are single-threaded.",
 [DES, DESI, AES, AESI, UTIL] + ECB, [("no shared mutable state, no writes to arguments", AESI)],
 ["pkg.*", "des.*", "aes.*"])

prop("C19", "The string interface equals the library and refuses undecodable hex",
 "Each operation of the unified string interface returns the hex (or plain text) of the library operation selected by its algorithm, key type and MAC type, on the decoded parameters, and fails exactly when that operation fails. A hexadecimal parameter that cannot be decoded is refused with an error; it is never treated as an empty key, key serial number, initial vector or ciphertext. Upper and lower case hex are equivalent, and decoding inverts encoding for every byte string.",
 ["inputs", "configurations"], "all operations x algorithms x key types x MAC types x parameter shapes, all short hex strings",
 "The tests reach the string interface only through a handful of service calls with well-formed parameters.",
 [WR, UTIL], [("InitialKey ... DecryptData dispatch", WR), ("HexDecode, HexEncode", UTIL)],
 ["server.InitialKey", "server.TransactionKey", "server.EncryptPin", "server.DecryptPin", "server.GenerateMac", "server.EncryptData", "server.DecryptData", "pkg.HexDecode", "pkg.HexEncode"])

prop("C20", "The command line performs exactly the documented operation or fails",
 "dukptcli runs only the first requested operation in the order ik, tk, ep, dp, gm, en, de, with the flags of that operation, and prints RESULT with the library's answer and exits 0. It accepts the documented algorithm, key type (aes128, aes192, aes256), MAC type and action values. A missing required flag, an invalid value or a failing operation gives a message, a non-zero exit status and no RESULT line.",
 ["configurations", "inputs"], "all subsets of execution flags, all presence/absence combinations of each operation's flags, all documented option values",
 "cmd/dukptcli has no tests.",
 ["cmd/dukptcli/main.go", "cmd/dukptcli/doc.go", WR], [("main flag dispatch", "cmd/dukptcli/main.go"), ("makeFuncCall", "cmd/dukptcli/main.go")],
 ["dukptcli process output and exit status"])

prop("C21", "The machine service behaves like its sequential specification",
 "After any sequence of create, get, list, next-KSN, delete, PIN, MAC and data calls, the service holds exactly the machines created and not deleted, each with its current key serial number and the transaction key the standard derives from its initial key and that number. Every PIN, MAC and data call uses the current key of the named machine and no other; requests naming an unknown machine (other than deleting it, which is harmless) and duplicate creations fail. A next-KSN request moves exactly the named machine forward by exactly one valid counter, and fails without effect once the counter is exhausted.",
 ["histories"], "all operation sequences up to a depth over several TDES and AES machines including ones close to exhaustion",
 "Tests call each operation once on a fresh service; interactions between operations, machines and failures are not explored.",
 [SVC, REPO, MACH, WR], [("service methods", SVC), ("repositoryInMemory", REPO), ("NewMachine", MACH)],
 ["server.Service"], state=[("machines", "map from initial key to machine record", REPO), ("CurrentKSN, TransactionKey", "per-machine position in the key sequence", MACH)])

prop("C22", "Stored machines change only through successful service operations",
 "A call that fails leaves every stored machine as it was. Editing a machine record that was passed to or returned from the service, or passing the same record to create again, never alters what the service stores. Records returned earlier are snapshots that later operations do not change.",
 ["histories", "fault_sequences"], "all operation sequences up to a depth with client edits of every record handed out and with failing operations at every position",
 "No test inspects a machine after a failed call or modifies a record it was given.",
 [SVC, REPO, MACH], [("CreateMachine, MakeNextKSN update order", SVC), ("StoreMachine/FindMachine/FindAllMachines pointer handling", REPO)],
 ["server.Service"])

prop("C23", "Concurrent service calls are linearizable; no KSN is handed out twice",
 "Under every interleaving of concurrent calls on one service, each call takes effect atomically at some point between its start and its return, as in the sequential specification. In particular no two next-KSN requests for a machine return the same key serial number, no request is lost, and no operation ever combines a transaction key with another transaction's key serial number. There are no data races.",
 ["schedules"], "all interleavings of 2 and 3 threads of 1 to 3 operations on shared machines (unbounded for the small ones, preemption-bounded for the larger)",
 "All tests are single-threaded; a race needs two overlapping requests.",
 [SVC, REPO, MACH], [("mutexes in service and repository", SVC), ("repositoryInMemory.mtx", REPO)],
 ["server.Service", "http handler"], state=[("machines", "shared map", REPO), ("machine record", "CurrentKSN and TransactionKey must change together", MACH)],
 hook="none in /repo: the check rebuilds the package with sync replaced by a controlled shim through a build overlay")

prop("C24", "Each REST route performs its documented operation",
 "For any sequence of requests, each documented route has exactly the effect and result of the service operation it is documented to perform on the machine named in the path with the parameters in the body: decrypt routes decrypt what the matching encrypt route produced, and generate_ksn advances that machine. The JSON answer carries the result in the documented field. Requests do not affect other machines, and read-only routes change nothing.",
 ["histories", "inputs"], "all request sequences up to a depth over the ten routes and several machines",
 "Router tests cover ping, create, list and get; none of the six cryptographic routes nor generate_ksn is called through HTTP.",
 [HND, RT], [("MakeHTTPHandler route table", RT), ("decode*Request, *Endpoint", HND)], ["http handler responses"])

prop("C25", "Failed REST requests are reported as failures with the reason",
 "A request whose operation fails is answered with a non-2xx status and a JSON body whose error field is the non-empty reason, never as success. A request naming an unknown machine is answered 404 and a duplicate creation 400. A request that succeeds is answered 200 with no error.",
 ["inputs", "histories", "fault_sequences"], "every failing operation kind on every route, in every reachable service state of the bounded model",
 "Router tests contain no failing request.",
 [HND, RT, SVC], [("encodeResponse, encodeError, codeFrom, marshalStructWithError", RT), ("Err fields of responses", HND)], ["http status and body"])

prop("C26", "No HTTP request can crash a handler or corrupt stored machines",
 "Whatever the method, path, headers or body of a request, malformed JSON and wrongly typed or missing fields included, the handler answers with one complete HTTP response and does not panic. A request that is not answered 200 leaves every stored machine unchanged. Every OPTIONS request is answered 200, and a path or method that no route has is answered 404 or 405 (paths not in clean form may be redirected). Allowed origins (https pages and http://localhost with a port), and no others, are echoed in the CORS headers, on every successful response.",
 ["inputs", "fault_sequences"], "methods x paths x header values x malformed body shapes, truncation of a valid body at every byte, failing body readers",
 "Router tests send three well-formed requests.",
 [RT, HND], [("MakeHTTPHandler", RT), ("bindJSON", HND), ("preflightHandler, saveCORSHeadersIntoContext, respondWithSavedCORSHeaders", RT)], ["http handler responses"])

prop("C27", "The server process serves its configured addresses and stops cleanly",
 "For every combination of address and log-format flags and environment variables (environment wins), with and without TLS, the server process answers the REST routes on the configured HTTP address and the version on the admin address. On SIGINT or SIGTERM it stops accepting connections, completes requests already in progress and exits with status 0. A process whose HTTP address cannot be bound, or whose certificate cannot be used, ends instead of running on without serving.",
 ["configurations", "fault_sequences"], "all combinations of flags and environment settings; all interleavings of the stop signals with the steps of requests in progress, idle and new connections",
 "cmd/server has no tests.",
 ["cmd/server/main.go", "version.go"], [("main", "cmd/server/main.go")], ["TCP connections to the process, exit status"])

prop("C28", "The block cipher helpers are exact, invertible and strict on sizes",
 "The AES and (triple) DES single-block helpers encrypt exactly one block under exactly the given key, decryption inverts encryption, and a 16-byte TDES key acts as the 24-byte key that repeats its first half. Keys and blocks of any other size are refused with an error.",
 ["inputs"], "all key sizes and block sizes up to well past the largest, single-deviation neighbourhoods of keys and blocks",
 "The encryption package has no tests.",
 ECB, [("NewTripleDesECB, NewDesECB, NewAesECB, Encrypt, Decrypt", "encryption/")], ["encryption.*"])

prop("C29", "The in-memory repository is an exact, atomic map keyed by initial key",
 "After any sequence of store, find, list and delete, the repository holds exactly the machines stored and not deleted; storing an existing initial key or nil fails and keeps the stored machine, finding an absent key reports not found, and deleting an absent key is harmless. Under every interleaving of concurrent calls the outcome is that of some sequential order, with no data race, so exactly one of several concurrent stores of one key succeeds.",
 ["histories", "schedules"], "all operation sequences up to a depth over three keys; all interleavings of 2 and 3 threads",
 "The repository is only exercised through single-threaded service tests.",
 [REPO], [("repositoryInMemory", REPO)], ["server.Repository"], state=[("machines", "map from initial key to machine", REPO)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
