#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Authorised decryption returns exactly what was last stored",
  "An authorised decryption returns, byte for byte, the plaintext and associated data of the last successful encryption or update of that object, whatever their sizes and contents, whichever storage provider holds them and whatever was done to other objects or by restarted instances in between; a deleted object is gone. Every encryption gets a new object identifier. Buffers passed in are never modified, and later changes to passed-in or returned buffers never change stored data.",
  ["inputs", "histories", "configurations"],
  "all plaintexts and associated data of any size and content; all sequences of encrypt/update/decrypt/delete over many objects, with re-created instances, on the memory, bolt and custom providers",
  "The tests round-trip a handful of short constant strings on one or two objects; size, content and history are unbounded.",
  ["d1.go", "utility.go", "data/object.go", "crypto/cryptor.go", "crypto/aes.go"],
  [("Encrypt/Update/Decrypt/Delete", "d1.go"), ("Object.Seal / SealedObject.Unseal", "data/object.go"), ("Cryptor JSON + AEAD", "crypto/cryptor.go")],
  [("sealed object + sealed access per OID", "latest content and its wrapped key", "io.Provider")],
  ["return values of Encrypt, Update, Decrypt, Delete", "caller's buffers after each call"])

p("C02", "Object calls succeed only for authenticated, scoped and listed callers",
  "Encrypt succeeds exactly when the identity provider accepts the token and the caller's own scopes include the scope the call requires; every other object call (decrypt, update, delete, read, change or check access) needs this and, in addition, at least one identifier (the caller's own or one of its groups) that is on the object's access list and itself carries that scope. A refused call fails with the not-authenticated or not-authorized error, returns no data and leaves storage unchanged. Each call is judged on the caller's current identity and the current access list.",
  ["inputs", "histories", "configurations"],
  "all identities (scopes, groups, group scopes), access lists, operations, tokens, and histories in which any of them change",
  "The tests take single wrong scopes one operation at a time; combinations of caller scope, several groups with different scopes and list membership are exponential, and none change an identity mid-history.",
  ["d1.go", "utility.go", "id/id.go", "id/scope.go"],
  [("verifyAccess", "utility.go"), ("authorizeAccess", "utility.go"), ("GetIDs/GetIDScope/Contains", "id/id.go, id/scope.go")],
  [("access list", "identifiers allowed on the object", "sealed access in io.Provider")],
  ["error value and results of each call", "bytes held by the storage provider before and after"])

p("C03", "Access lists contain exactly what authorised callers put there",
  "At every moment an object's access list is exactly its creator's identity plus the groups named at encryption, plus those added and minus those removed by later successful calls, in that order. Updating content never changes the list, changing the list never changes the content, and each change takes effect on the very next call. Identifiers are compared exactly as given, for any number and any (UTF-8) spelling of identifiers. An access list handled directly is the same exact set, before and after sealing.",
  ["inputs", "histories"],
  "all histories of encrypt/update/add/remove/read calls with any numbers of groups and any UTF-8 identifiers",
  "The tests use one to a few UUID groups and one add/remove; large lists, odd spellings and long histories are not reached.",
  ["d1.go", "data/access.go", "utility.go"],
  [("AddGroupsToAccess/RemoveGroupsFromAccess/GetAccessGroups/AuthorizeIdentity", "d1.go"), ("Access.AddGroups/RemoveGroups/Seal/Unseal", "data/access.go")],
  [("Access.Groups", "set of identifiers with access", "data/access.go")],
  ["GetAccessGroups result after every call", "outcome of calls by each identity"])

p("C04", "Tampered object storage never yields altered data or wider access",
  "Whatever an adversary who controls storage but not the keys does to stored objects and access lists (changing, truncating, deleting, swapping between objects or record kinds, replaying old versions, inserting records made with other keys), a decryption returns only a plaintext and associated data pair that an authorised caller once stored together under that same object identifier, or an error. No caller gains an operation on an object that no version of that object's access list ever granted, and the returned access list is always one the object really had. The same holds for sealed objects and access lists handled directly: changing any one of their fields makes unsealing fail.",
  ["inputs", "histories", "fault_sequences"],
  "all modifications of stored bytes or fields, all swaps and replays of records, at any point of a history",
  "The tests flip the first byte of one field of one record at a time; they never swap, replay, truncate or tamper through the public operations.",
  ["d1.go", "utility.go", "data/object.go", "data/access.go", "crypto/aes.go", "crypto/kwp.go", "crypto/cryptor.go"],
  [("OID and associated data authenticated as AAD", "data/object.go, data/access.go"), ("requested OID overrides the stored one", "utility.go"), ("AES-GCM tag, KWP integrity check", "crypto/aes.go, crypto/kwp.go")],
  (), ["results of every operation on tampered storage"])

p("C05", "Tampered identity storage never yields another user's rights",
  "Whatever an adversary who controls storage but not the keys does to stored user and group records (changing, swapping between identifiers, replaying, inserting records made with other keys), logging in as a user succeeds only with a password that this user once had, and an accepted token resolves only to the user it was issued to, with the scopes given at creation and a set of groups that user once had, each with the scopes that group was created with. Otherwise the call fails.",
  ["inputs", "histories", "fault_sequences"],
  "all modifications, swaps and replays of stored user and group records at any point of a history",
  "The tests corrupt a record's bytes, and unit-test unsealing with a changed ID, but never present one user's valid record under another identifier through the public operations.",
  ["id/standalone.go", "id/standalone_user.go", "id/standalone_group.go"],
  [("record identifier authenticated as AAD", "id/standalone_user.go, id/standalone_group.go"), ("getUser/getGroup", "id/standalone.go")],
  (), ["LoginUser, ChangeUserPassword and GetIdentity on tampered storage"])

p("C06", "Tokens give back their exact contents until expiry and cannot be forged",
  "Reading a token returns exactly the bytes it was created with at every instant up to and including its expiry time and never after it, also after conversion to and from its string form and in any time zone. A token whose ciphertext, key or expiry has been changed, combined from other tokens, or made under another key is rejected. The library's own tokens expire one hour after creation.",
  ["inputs", "histories", "fault_sequences"],
  "all contents, validity periods (including negative), instants of use, and modifications of the sealed token or its string form",
  "The tests use one content, flip one byte, and try only an already expired token; the clock is never controlled.",
  ["data/token.go", "d1.go", "crypto/cryptor.go"],
  [("expiry authenticated as AAD and compared with the clock", "data/token.go"), ("TokenFromString/String", "data/token.go"), ("CreateToken/GetTokenContents", "d1.go")],
  (), ["CreateToken, GetTokenContents, Token.Seal, SealedToken.Unseal/String, TokenFromString"])

p("C07", "Only a user's current password logs in, and tokens identify that user",
  "After any history of creating, logging in, changing passwords and deleting users, a login succeeds exactly when the user exists and the password is the one most recently issued for that user; anything else gives the not-authenticated error. Changing a password requires the current one and replaces it immediately; a failed attempt changes nothing. An issued token resolves to exactly that user until its stated expiry, and never once it has expired or the user has been deleted.",
  ["inputs", "histories"],
  "all histories of user operations over several users and re-created providers, all wrong passwords and tokens",
  "The tests try one wrong password or token per scenario on one or two users and never mix deletion, password history and restart.",
  ["id/standalone.go", "id/standalone_user.go", "crypto/password.go", "data/token.go"],
  [("LoginUser/ChangeUserPassword/DeleteUser/GetIdentity", "id/standalone.go"), ("authenticate/changePassword", "id/standalone_user.go")],
  [("User.SaltAndHash", "current password verifier", "id/standalone_user.go")],
  ["results of NewUser, LoginUser, ChangeUserPassword, DeleteUser, GetIdentity"])

p("C08", "Identities match recorded scopes and groups; only members change membership",
  "The identity resolved for a user has exactly the union of the scopes given at the user's creation and exactly the groups the user is in, each with the union of the scopes given at that group's creation. A user is put in or taken out of a set of groups if and only if the caller's token is valid, the caller is at that moment a member of every one of those groups, and the target user exists; a refused or failed call changes no membership of anyone, and no call except deleting a user makes that user's identity unresolvable. Creating a group makes its creator its first and only member.",
  ["inputs", "histories"],
  "all histories of user, group and membership calls with any token, target and list of group identifiers, including user identifiers used as groups",
  "The tests use a few fixed membership scenarios; they never pass a user identifier as a group, mixed lists, or long histories.",
  ["id/standalone.go", "id/standalone_user.go", "id/standalone_group.go", "id/scope.go"],
  [("NewGroup/AddUserToGroups/RemoveUserFromGroups/GetIdentity", "id/standalone.go"), ("ScopeUnion", "id/scope.go")],
  [("User.Groups", "memberships", "id/standalone_user.go")],
  ["GetIdentity of every user after each call", "errors"])

p("C09", "Search returns exactly the identifiers added and not deleted",
  "For every keyword, a search returns exactly the identifiers added for that keyword and not deleted since, each as often as it was added since its last deletion; deleting a pair removes all its occurrences and nothing else, and nothing stored remains of it. Keywords never influence each other, however similar, and keywords and identifiers are matched exactly for any length and content (keywords byte by byte, identifiers as UTF-8 text). This holds for chains of any length and age and across re-created indexes.",
  ["inputs", "histories", "configurations"],
  "all sequences of add/search/delete over any keywords and identifiers, of any length, with duplicates, on any provider",
  "The tests use chains of at most five identifiers on one or two keywords; long chains, long-lived keywords (large counters) and similar keywords are not reached.",
  ["index/index.go", "data/node.go", "crypto/tagger.go", "crypto/kdf.go"],
  [("Add/Search/Delete/deleteNode", "index/index.go"), ("Node.NextLabel", "data/node.go"), ("per-keyword keys", "index/index.go")],
  [("chain of sealed nodes per keyword", "identifiers in order with next counter", "io.Provider")],
  ["Search results", "number of stored nodes"])

p("C10", "Index operations require an authenticated caller with the index scope",
  "Adding, searching and deleting in the index succeed only when the identity provider accepts the token and the caller's own scopes include the index scope (scopes of its groups do not count). A refused call fails with the not-authenticated or not-authorized error, returns nothing and neither reads nor changes stored index data. Each call is judged on the caller's current identity.",
  ["inputs", "histories"],
  "all identities, tokens, operations and histories in which identities change",
  "No existing test exercises index authorisation at all.",
  ["index/index.go", "id/scope.go"],
  [("verifyAccess", "index/index.go")], (), ["errors and results of Add, Search, Delete", "calls seen by the storage provider"])

p("C11", "Tampered index storage never yields identifiers not added to the keyword",
  "Whatever an adversary who controls storage but not the index key does to stored index entries (changing, deleting, moving between positions or keywords, replaying, inserting entries made with other keys), a search ends and returns either an error or only identifiers that were once added for exactly that keyword. An entry is accepted only at the position of the keyword it was created for.",
  ["inputs", "histories", "fault_sequences"],
  "all modifications, moves, swaps and replays of stored index entries",
  "The tests flip one byte of one node outside the index; no stored entry is ever moved, swapped or replayed through Search.",
  ["index/index.go", "data/node.go", "crypto/cryptor.go"],
  [("label authenticated as AAD of the node", "data/node.go"), ("per-keyword tag and encryption keys", "index/index.go")],
  (), ["Search, Add and Delete on tampered storage"])

p("C12", "The storage provider never sees plaintext, secrets or keys",
  "Nothing handed to the storage provider, as record key, as record contents or in the context of a call, contains or depends in the clear on object plaintexts, access list members, passwords, users' scopes or groups, group scopes, index keywords or identifiers, or any encryption key; only associated data and object, user and group identifiers are visible. With the same randomness, two histories that differ only in such secrets of equal length give the storage provider identical traffic except for ciphertext bytes and index record keys. Index record keys have a fixed length and differ for different keywords and different index keys.",
  ["inputs", "histories"],
  "all contents, identifiers, keywords and histories",
  "No test looks at the bytes given to the storage provider.",
  ["data/object.go", "data/access.go", "data/node.go", "id/standalone_user.go", "id/standalone_group.go", "index/index.go", "crypto/cryptor.go"],
  [("everything but AD and IDs goes through the cryptor", "data/*.go, id/standalone_*.go"), ("KMAC labels", "data/node.go, crypto/tagger.go")],
  (), ["keys and values of every storage call"])

p("C13", "Every sealing uses fresh unpredictable keys, nonces and identifiers",
  "Each time anything is sealed (object, update, access list, token, index entry, user, group) a new 256-bit data key and a new nonce are used, so sealing equal content again never repeats a data key, wrapped key, nonce or ciphertext; generated identifiers, passwords and salts never repeat either. All of this randomness is drawn from the operating system's cryptographic random source, in full: with that source fixed the outcome is reproducible, and every requested random byte comes from it.",
  ["inputs", "histories", "configurations"],
  "all contents and sequences of sealing operations; all lengths of random requests",
  "The tests check two equal encryptions at most; reuse after many operations or for special sizes is not sampled.",
  ["crypto/cryptor.go", "crypto/aes.go", "crypto/random.go", "crypto/password.go", "d1.go", "id/standalone.go"],
  [("Cryptor.Encrypt draws key", "crypto/cryptor.go"), ("AES256GCM.Encrypt draws nonce", "crypto/aes.go"), ("NativeRandom", "crypto/random.go")],
  (), ["stored records, tokens, passwords, NativeRandom output"])

p("C14", "Each master key fully protects exactly its own kind of data",
  "Objects, access lists, tokens and index entries (and, in the standalone identity provider, users, groups and tokens) are each protected by their own master key: an instance whose configuration differs in any bit of one key cannot use data protected by that key and can use all other data unchanged. Instances with equal keys are interchangeable. Constructors reject any key they use that is not exactly 32 bytes long, pass on key provider errors, and do not depend on the passed key buffers afterwards.",
  ["inputs", "configurations"],
  "all keys, all single-bit differences in each key, all key lengths",
  "The tests only ever use one fixed, fully distinct key set, so a swapped or partly ignored key is invisible.",
  ["d1.go", "index/index.go", "id/standalone.go", "key/key.go", "key/static.go", "crypto/cryptor.go"],
  [("New", "d1.go"), ("NewSecureIndex", "index/index.go"), ("NewStandalone", "id/standalone.go")],
  (), ["operations of two differently keyed instances on shared storage"])

p("C15", "Failed storage calls never corrupt objects; a retry completes the work",
  "When any single storage call fails during an object operation (rejected, performed but reported as failed, or the process stopping there), the operation does not report success unless its full effect is in place; other objects are untouched; and the object's access list and, if readable, content are exactly those before or those after the operation. A failed change to an access list never makes content unreadable, and a failed operation whose first write was rejected has changed nothing. Repeating a failed update, delete or access change once storage works again succeeds and leaves exactly its full effect, with no stored remains after a delete.",
  ["fault_sequences", "crash_points", "histories", "inputs"],
  "every storage call of every operation, every failure mode, from random states",
  "One test injects a failure at one call of delete; all other operations, calls and modes are untested.",
  ["d1.go", "utility.go"],
  [("order of writes in Encrypt/Update/Delete", "d1.go"), ("error propagation in put/get/delete helpers", "utility.go")],
  (), ["results during the fault, and of all operations after storage recovers"])

p("C16", "Failed storage calls never lose or resurrect index entries",
  "When any single storage call fails during an index operation (rejected, performed but reported as failed, or the process stopping there), the operation does not report success unless its full effect is in place, and a search afterwards shows exactly the entries before or after the operation (a failed delete may have removed some of the occurrences it was to remove). Other identifiers and keywords are never affected, a repeated delete completes, a delete that reports success leaves no record of its entries in storage, and entries once deleted never reappear in any later history.",
  ["fault_sequences", "crash_points", "histories"],
  "every storage call of every operation, every failure mode, followed by arbitrary further histories",
  "No existing test injects a storage failure into the index.",
  ["index/index.go"],
  [("order of overwrite and delete in deleteNode", "index/index.go"), ("Add after last node", "index/index.go")],
  (), ["Search after recovery and after further operations"])

p("C17", "Failed storage calls never damage identity data",
  "When any single storage call fails during a user or group operation (rejected, performed but reported as failed, or the process stopping there), the operation does not report success unless its full effect is in place, and afterwards every user's password, scopes and groups are exactly those before or those after the operation. In particular a password change whose write was rejected leaves the old password valid, and no user becomes unresolvable.",
  ["fault_sequences", "crash_points", "histories"],
  "every storage call of every user and group operation, every failure mode, from random states",
  "No existing test injects a storage failure into the identity provider.",
  ["id/standalone.go"],
  [("putUser/putGroup/getUser/getGroup error handling", "id/standalone.go"), ("group stored before membership", "id/standalone.go")],
  (), ["logins and identities after recovery"])

p("C18", "Storage providers behave as an exact map of byte strings",
  "For the memory and bolt providers (and the proxy around them), after any sequence of calls a get returns exactly the bytes last put or updated for that identifier and data type, including empty ones; put fails with already-exists exactly when the record exists, get and update fail with not-found exactly when it does not, and delete always succeeds. Distinct (identifier, type) pairs never collide, whatever their bytes. Providers neither modify nor retain the caller's buffers, and a bolt file reopened later holds the same records.",
  ["inputs", "histories"],
  "all identifiers, data types, contents and call sequences",
  "The tests use one identifier and one short value per type; empty values, spare-capacity buffers, prefixes and reopening are not tried.",
  ["io/mem.go", "io/bolt.go", "io/proxy.go", "io/io.go"],
  [("newKey", "io/mem.go"), ("key = id || type", "io/bolt.go"), ("DataType.Bytes", "io/io.go")],
  (), ["results of Put, Get, Update, Delete", "caller's buffers"])

p("C19", "Storage provider calls are atomic under concurrent use",
  "Concurrent calls on the memory and bolt providers behave as if executed one at a time in an order consistent with real time: of several concurrent puts of one record exactly one succeeds, a record deleted for good is not brought back by an update in flight, and a get never sees mixed or foreign contents.",
  ["schedules", "histories"],
  "all interleavings of concurrent calls on shared records",
  "No existing test calls a provider from more than one goroutine.",
  ["io/mem.go", "io/bolt.go"],
  [("check and store in Put/Update", "io/mem.go"), ("bolt transactions", "io/bolt.go")],
  (), ["call/return history checked for linearizability"])

p("C20", "Bolt: acknowledged writes survive power loss; others are all or nothing",
  "Once a call on the bolt provider has returned success, its effect survives a crash of the process or loss of power at any later moment: reopening the file gives exactly the acknowledged records. A call interrupted by the crash is afterwards either fully in effect or not at all, and the file, once NewBolt has returned it for the first time, always opens again and accepts further calls.",
  ["crash_points", "histories", "fault_sequences"],
  "every write and sync boundary of every call, every subset of unsynced writes lost",
  "No existing test closes, crashes or reopens a bolt file.",
  ["io/bolt.go"],
  [("one bolt read-write transaction per call", "io/bolt.go"), ("synchronous commit (default bolt options)", "io/bolt.go")],
  (), ["contents of the reopened file"], None)

p("C21", "Concurrent use on unrelated data is safe and gives isolated results",
  "One instance of the library, index, standalone identity provider, cryptor, hasher or key wrapper may be used from many goroutines at once: operations on unrelated objects, keywords or users give exactly the results they give when run alone, with no data race, even when callers share a context with a logger or argument slices. In particular no object's access list ever receives an identity of a concurrent caller.",
  ["schedules", "histories"],
  "all interleavings of concurrent operations on disjoint data",
  "No existing test runs operations concurrently, and the suite is not run with the race detector.",
  ["d1.go", "utility.go", "index/index.go", "id/standalone.go", "crypto/cryptor.go", "crypto/kwp.go", "log/log.go"],
  [("stateless cryptors, per-call state", "crypto/*.go"), ("CopyCtxLogger", "log/log.go"), ("group list building in Encrypt", "d1.go")],
  (), ["results compared with the sequential model; race detector reports"])

p("C22", "Interleaved calls on the same data never mix, leak or lose entries",
  "For concurrent operations on one object under any interleaving of their storage calls, every decryption that succeeds returns one complete content that was stored for that object by its encryption or one update, and no call succeeds for a caller that no version of the access list admitted; no call fails for a caller who is on the list throughout, except as not found while the object is being deleted, and except decryptions while it is being updated; a deleted object never comes back. Beside a sequence of calls by another caller, a call gets what was true at some time while it ran: content never stored while the caller was on the list is not returned to it, and lists are complete lists. Concurrent additions to one keyword never lose an acknowledged entry: afterwards a search shows every addition that reported success once and none that reported failure, and searches running meanwhile return only identifiers added for that keyword. A deletion that is the only change to its keyword takes full effect; calls on one keyword never change another.",
  ["schedules", "histories"],
  "all interleavings, at storage-call granularity, of concurrent calls on one object or one keyword",
  "No existing test interleaves operations.",
  ["d1.go", "utility.go", "index/index.go"],
  [("content bound to its key and OID by authentication", "data/object.go"), ("put fails when a node already exists", "index/index.go"), ("update of missing records fails", "utility.go")],
  (), ["results of all calls in the interleaving and of reads after it"])

p("C23", "Key wrapping is AES-KWP, exact and tamper-evident",
  "Wrapping any key material of 16 to 8192 bytes under a 16- or 32-byte wrapping key gives exactly the AES-KWP (RFC 5649 / SP 800-38F) result, unwrapping returns the original bytes, and inputs are not modified. Unwrapping anything that is not a valid wrapping under that key (any changed, truncated, extended or reordered bytes, wrong key, wrong length prefix or non-zero padding) fails. Other sizes of wrapping key or key material are rejected.",
  ["inputs"],
  "all wrapping keys, key material sizes and contents, and all modified wrappings",
  "The tests cover sizes 16-127 with random bytes and three vectors; no modified wrapping is ever unwrapped.",
  ["crypto/kwp.go"],
  [("computeW/invertW", "crypto/kwp.go"), ("IV, length and padding checks in Unwrap", "crypto/kwp.go")],
  (), ["KWP.Wrap, KWP.Unwrap, NewKWP"])

p("C24", "KMAC and the key derivation built on it conform to SP 800-185",
  "KMAC128, KMAC256 and the derived key function produce exactly the SP 800-185 result for every key length, message, customization string and output length, independent of how the message is split into writes; taking the sum does not disturb the state and reset restores the initial state. The tagger gives the KMAC of its data under its key: deterministic, and different for different data or keys. Too short keys or outputs are refused.",
  ["inputs", "histories"],
  "all keys, messages, customization strings, output lengths and write/sum/reset sequences",
  "The tests check the NIST sample vectors and four tagger inputs; lengths that hit the padding boundaries are not sampled.",
  ["crypto/kmac.go", "crypto/kdf.go", "crypto/tagger.go"],
  [("bytepad/leftEncode/rightEncode", "crypto/kmac.go"), ("KMACKDF", "crypto/kdf.go"), ("Tagger.Tag", "crypto/tagger.go")],
  (), ["NewKMAC128/256, KMACKDF, Tagger.Tag"])

p("C25", "Authenticated encryption is exact AES-256-GCM and authenticates everything",
  "Encryption under a 32-byte key is standard AES-256-GCM (ciphertext, 16-byte tag, 12-byte nonce), decryption returns the original bytes for any plaintext and associated data, and any other key length is rejected. Decryption fails, without returning plaintext, if a single bit of ciphertext, tag, nonce, key or associated data differs or bytes are added or removed. The cryptor built on it round-trips any value it can serialize, rejects a changed wrapped key, ciphertext or associated data, and leaves its inputs unmodified so that decryption can be repeated.",
  ["inputs"],
  "all keys, plaintexts, associated data, and all modifications of them",
  "The tests cover small sizes with constant content and one corrupted byte.",
  ["crypto/aes.go", "crypto/cryptor.go"],
  [("AES256GCM.Encrypt/Decrypt", "crypto/aes.go"), ("Cryptor.Encrypt/Decrypt", "crypto/cryptor.go")],
  (), ["AES256GCM and Cryptor results"])

p("C26", "A password hash verifies exactly its own password",
  "A generated salt-and-hash verifies the password it was generated with and no other password (short of PBKDF2's own key equivalences, such as trailing NUL bytes), and a changed, truncated or extended salt-and-hash verifies nothing and is handled without a crash. Generated passwords carry 256 bits of randomness, and hashes are salted PBKDF2 (HMAC-SHA3-256, 10000 rounds), so stored hashes stay valid and equal passwords give unrelated hashes.",
  ["inputs"],
  "all passwords and all salt-and-hash byte strings",
  "The tests flip one salt and one hash byte and never try near-miss passwords or malformed hashes.",
  ["crypto/password.go"],
  [("GeneratePassword/Compare", "crypto/password.go")], (), ["PasswordHasher.GeneratePassword, PasswordHasher.Compare"])

p("C27", "Stored records and tokens stay readable across builds",
  "Objects, access lists, users, groups, index entries and tokens written by the current release remain readable with the same meaning by any later build of the same major version under the same keys, and what that build writes is readable by the current release. This covers record layout, what is authenticated, key wrapping, index labels and password hashes.",
  ["inputs", "configurations", "histories"],
  "all records of every kind, in both directions",
  "The tests only read what the same build just wrote, so a symmetric format change passes.",
  ["data/object.go", "data/access.go", "data/node.go", "data/token.go", "id/standalone_user.go", "id/standalone_group.go", "crypto/cryptor.go", "index/index.go", "io/io.go", "io/bolt.go"],
  [("JSON records, base64 payloads, AAD construction", "data/*.go, id/standalone_*.go"), ("key derivation and labels", "index/index.go, data/node.go")],
  (), ["records and tokens exchanged with an independent implementation and golden data"])

p("C28", "Malformed input is refused with an error, never a crash or hang",
  "No byte string presented as a token, password, wrapped key, ciphertext, password hash, stored record, name or key of any length makes an operation panic, hang or exhaust memory (excepted: a KMAC constructed with a key or tag below its documented minimum, and records sealed with the instance's own keys that hold what the library never writes): it is either processed or refused with an error, and afterwards the same instance keeps working normally.",
  ["inputs"],
  "all byte strings at every decoding entry point",
  "The tests give a few fixed malformed tokens; decoders face unbounded untrusted input.",
  ["data/token.go", "utility.go", "id/standalone.go", "index/index.go", "crypto/kwp.go", "crypto/aes.go", "crypto/password.go", "crypto/cryptor.go"],
  [("length checks before slicing", "crypto/aes.go, crypto/kwp.go"), ("JSON/base64 errors returned", "data/token.go, utility.go, id/standalone.go, index/index.go")],
  (), ["return of every decoding entry point under generated and fuzzed bytes"])

p("C29", "Components sharing one storage provider do not interfere",
  "Encrypted objects, access lists, index entries, users and groups kept in one storage provider never affect each other: any history of object, index and identity calls gives each component exactly the results it would have with storage of its own, even when identifiers of one kind are used in calls for another.",
  ["histories", "inputs", "configurations"],
  "all interleaved histories of the three components on one provider, with identifiers crossed between kinds",
  "The tests share a provider but never cross identifiers or mix the components in one history.",
  ["io/io.go", "id/standalone.go", "utility.go", "index/index.go"],
  [("distinct data types per record kind", "io/io.go, id/standalone.go")], (), ["results of all three components; keys used in storage"])

p("C30", "Logging is debug-only and never touches the caller's logger",
  "The library writes log output only at debug level and only to the logger found in the context, and never writes a token, password, key, plaintext, keyword or indexed identifier to it. Calls never alter the fields the caller's own logger emits, and every line logged on behalf of a call carries that call's method, user and object fields and never those of another call made with the same context, even when calls overlap. Used directly, the log package's functions add fields to exactly the logger they are given, and a copied one has the fields of its original and its own from then on.",
  ["inputs", "histories", "schedules", "configurations"],
  "all operations, logger configurations and overlaps of calls sharing a context",
  "No existing test uses a logger.",
  ["log/log.go", "d1.go", "utility.go", "index/index.go", "id/standalone.go"],
  [("CopyCtxLogger", "log/log.go"), ("WithMethod/WithUserID/WithObjectID", "log/log.go")],
  (), ["lines written to the context's logger"])

p("C31", "Scope sets obey set algebra and identifiers resolve to their own scopes",
  "A scope set contains a requested set exactly when every requested scope is a member; unions are exact, independent of order, grouping and repetition; the all-scope contains every defined scope and the defined scopes are distinct. An identity's identifiers are exactly its own and its groups', its own identifier resolves to its own scopes, a group identifier to that group's scopes, and any other identifier to no scope.",
  ["inputs"],
  "all scope sets, lists of scopes and identities",
  "The tests use fixed examples of identities and random but equal-typed scopes.",
  ["id/scope.go", "id/id.go"],
  [("ScopeUnion/Contains", "id/scope.go"), ("GetIDs/GetIDScope", "id/id.go")], (), ["ScopeUnion, Contains, GetIDs, GetIDScope"])

p("C32", "Interleaved identity calls never grant, mix or resurrect rights",
  "For concurrent calls of the standalone identity provider on the same users and groups, under any interleaving of their storage calls: an identity that is resolved has its user's exact scopes and only groups into which the user was put by its creation of the group or by a member of the group, each with that group's scopes; no call succeeds for a caller who at no time was entitled to it, and none fails when nothing that runs meanwhile stands in its way; no user ever has two passwords, or none of those issued; a user whose deletion was acknowledged never comes back. A call that is the only one to change a user takes exactly its effect, and beside a sequence of calls by another caller a call is judged by, and returns, what was true at some time while it ran.",
  ["schedules", "histories"],
  "all interleavings, at storage-call granularity, of concurrent identity calls on the same users and groups",
  "No existing test interleaves identity operations.",
  ["id/standalone.go", "id/standalone_user.go", "id/standalone_group.go"],
  [("update of a missing user fails, so that a deleted one is not stored again", "id/standalone.go"), ("membership is checked on the caller's stored record at the time of the call", "id/standalone.go")],
  (), ["results of all calls in the interleaving and of reads and logins after it"])

p("C33", "Errors name what is wrong and never something else",
  "Whatever records are missing or unreadable and whichever storage call fails, with whatever error, plain or wrapped: a call that fails reports something that is indeed wrong with it. A token that is not accepted, or a missing scope, is reported as not authenticated or not authorized before anything else, so that the answer does not depend on whether the data exists; a missing access list, object, user or group as that not being found; a record that is already there as that existing; not being on a list or in a group as not authorized. Any other failure of the storage or of the key provider, and records that cannot be read, are never reported as one of these, and the provider's error stays recognisable; a login or password change that fails before its write tells no more than that the user is not authenticated. All of it by errors.Is.",
  ["schedules", "histories"],
  "all combinations of caller, missing or unreadable records, failing storage call, storage error and its wrapping, for all calls of the three components",
  "Existing tests compare a handful of errors with unwrapped sentinels from one provider.",
  ["d1.go", "utility.go", "id/standalone.go", "index/index.go", "io/io.go"],
  [("storage errors are translated with errors.Is", "utility.go"), ("verifyAccess runs before any look at the data", "utility.go"), ("login failures are all alike", "id/standalone.go")],
  (), ["the error returned by each call"])

p("C34", "The caller's context reaches every provider call and ends the work",
  "Every call made to a storage, identity or key provider for an operation, also through the standalone identity provider and the storage proxy, is made while the operation runs, and with a context that carries the caller's values, has no later deadline, has not ended while the caller's has not, and ends with the caller's; the identity provider is asked about exactly the token given. With providers that heed their context, an operation whose context ends changes no record from then on and does not report success if any of its calls was refused for it; nothing is done for an operation after it returned.",
  ["schedules", "histories"],
  "all operations, kinds of context and moments at which it ends",
  "No existing test passes a context other than the background one.",
  ["d1.go", "utility.go", "id/standalone.go", "index/index.go", "io/proxy.go", "log/log.go"],
  [("all provider calls take the operation's ctx", "utility.go"), ("CopyCtxLogger derives from the caller's context", "log/log.go")],
  (), ["contexts seen by the providers, records and results"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
