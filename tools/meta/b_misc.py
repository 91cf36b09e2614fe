BFS = "explicit-state breadth-first model checking that executes the real code as transition function"
SCHED = "stateless model checking of the real code: all schedules within a deviation bound under a controlled scheduler"
BOTH = "explicit-state model checking on the real code plus stateless exploration of all schedules within a deviation bound"
ENUM = "exhaustive bounded enumeration of inputs and operation sequences on the real code against a reference model"
PROPS = [
 dict(id="C09", title="Assets: only verified content is served, the same to every reader",
  statement="An asset group only ever hands out bytes whose size and SHA-512 are those of the built-in manifest, under the versions and metadata the manifest gives them; content that does not match is refused and changes nothing. Registered versions are listed without repetition in semantic version order, repeated additions are idempotent, and every handle to a group, however old, sees what has been registered. Concurrent readers never see a partly registered asset, and DRED runs on such an asset in encoder and decoder alike, or is switched off.",
  over=["histories","inputs","schedules"], text="All reachable states of an asset manager under every payload and group name; all schedules within the bound of readers against an addition.",
  why="Tests add one or two assets in one order; the property is about every order, every kind of wrong content and concurrent readers.",
  files=["src/rust/src/core/assets.rs","src/rust/src/webrtc/media.rs"], mech=[("manifest verification and registries","src/rust/src/core/assets.rs")],
  technique=BOTH, level="model_checking", note="The reachable states are completed for the in-memory manager; concurrency within a deviation bound under sequential consistency."),
 dict(id="C10", title="Signaling messages survive their encoding and never crash the decoder",
  statement="Offers, answers, added and removed ICE candidates and hangups decode to what was encoded, for every address, port, parameter and device id, and to the documented wire fields. A message that is malformed, truncated or of an unknown kind is refused (or read as the documented default) and never crashes the decoder.",
  over=["inputs"], text="Every address class with all ports, all presence combinations of parameters, hangup ids and types to 2^17, all byte strings of up to 3 bytes, every truncation and single-byte change of encoded messages.",
  why="The module's tests cover a few removed candidates; the property is over all values and all damaged messages.",
  files=["src/rust/src/core/signaling.rs","protobuf"], mech=[("candidate, offer, answer and hangup conversions","src/rust/src/core/signaling.rs")],
  technique=ENUM, level="exploration", note="Exhaustive over the stated finite domains; three-byte strings are complete in the thorough tier."),
 dict(id="C11", title="Call link root keys: one text per key, and only the key opens the data",
  statement="Every call link root key that can be generated or parsed has exactly one canonical text that parses back to the same key; a text with a wrong, missing, extra or surplus character, or bytes with a repeated pair or an unknown version, is refused. Data encrypted with a root key decrypts to the same data only with the same key and only when untouched. The room a root key leads to depends on the whole key.",
  over=["inputs"], text="All lengths, version bytes and positions of repeated pairs; all single edits of key texts and all pairings of their groups; every name length and tampered bit; every pair of sample keys.",
  why="Tests parse a handful of texts; a lenient parser shows on one odd text only.",
  files=["src/rust/src/lite/call_links/root_key.rs","src/rust/src/lite/call_links/base16.rs"], mech=[("consonant base 16","src/rust/src/lite/call_links/base16.rs"),("root key parsing and derivation","src/rust/src/lite/call_links")],
  technique=ENUM, level="exploration", note="Exhaustive over the stated edits and domains; trusts AES-GCM-SIV and HKDF."),
 dict(id="C12", title="Call service requests and answers: right request, answer mapped, never a crash",
  statement="Reading, creating, updating and deleting call links, peeking and joining send exactly the documented request and call back exactly once. Every answer of the server, well-formed or not, is mapped to the documented result: status codes to their errors, present fields to what they say, malformed bodies to an error. No answer crashes the client.",
  over=["inputs"], text="Every operation with every combination of optional arguments against every status code and every body from the product of its fields, each truncated, missing a field or with a field of a wrong type.",
  why="The tests decode a few good answers; the property is over all codes and malformed bodies.",
  files=["src/rust/src/lite/call_links.rs","src/rust/src/lite/sfu.rs","src/rust/src/lite/http.rs"], mech=[("call link client","src/rust/src/lite/call_links.rs"),("peek and join","src/rust/src/lite/sfu.rs")],
  technique=ENUM, level="exploration", note="Exhaustive over the stated products on the real client code with a scripted HTTP client."),
 dict(id="C13", title="HTTP requests: every answer goes to its own request, at most once",
  statement="With HTTP requests delegated to the application, every request gets an id of its own and every answer (or failure) reaches exactly the callback of the request it names, at most once, in whatever order answers come and from whatever threads. Repeated answers and answers to unknown requests reach nobody and disturb nothing; nobody hangs. A status is a success exactly from 200 to 299 and an error exactly from 400 to 799, and only a success's body is read.",
  over=["histories","schedules"], text="All histories of up to five requests with every answer, failure, repeat and stray answer; all schedules within the bound of senders against answering threads; every status.",
  why="Nothing tests the matching under concurrency or reordering today.",
  files=["src/rust/src/lite/http.rs"], mech=[("delegating client","src/rust/src/lite/http.rs")],
  technique=BOTH, level="model_checking", note="The histories' state space is completed within its bound; concurrency within a deviation bound under sequential consistency."),
 dict(id="C14", title="Group call members: opaque ids resolve to the right member or to nobody",
  statement="The user an opaque member id of a call resolves to is always the one it was made for, whatever has been looked up before, by whom and in whatever concurrent order; ids of other calls, damaged or malformed ids resolve to nobody. Asking again gives the same answer. Group member maps resolve exactly the members they were given.",
  over=["histories","schedules","inputs"], text="Every sequence of lookups up to the depth, beyond the capacity of the caches; concurrent lookups over all schedules within the bound; member lists of up to 3.",
  why="Cache errors need a history of lookups that overflows the cache; tests look up once.",
  files=["src/rust/src/lite/call_links/member_resolver.rs","src/rust/src/lite/sfu.rs"], mech=[("lookup caches","src/rust/src/lite/call_links/member_resolver.rs"),("member map","src/rust/src/lite/sfu.rs")],
  technique=BOTH, level="model_checking", note="The real resolver with a stand-in for zkgroup that keeps its contract; bounds on depth and deviations."),
 dict(id="C15", title="Endorsements: the newest set that still holds is used, and only for its members",
  statement="The endorsements offered for sending are always those received last for an expiration that has not passed and that has not been marked invalid, with exactly the endorsements of the asked members; when one of them is missing none are offered. Expired and invalidated sets are never offered again and are dropped.",
  over=["histories"], text="Every sequence up to the depth of insertions, invalidations, hand-overs and clean-ups for three expirations and three members; every query and set of recipients in every state.",
  why="The tests insert a couple of sets in order; expirations, repeated insertions and invalidations interact over histories.",
  files=["src/rust/src/core/endorsements.rs"], mech=[("endorsement update cache","src/rust/src/core/endorsements.rs")],
  technique=BFS, level="model_checking", note="Exhaustive to the depth; states are merged by the reference model, zkgroup is a stand-in."),
 dict(id="C16", title="Call locks: mutual exclusion, and a panicking holder is never hidden",
  statement="The locks around call state let at most one writer, and no reader beside it, into the data at any time; no update is lost and everyone who waits for the lock gets it once it is free. If a thread panics while holding the lock for writing, every later attempt reports the failure instead of handing out half-changed data.",
  over=["schedules"], text="All interleavings within the deviation bound of threads that lock, read, update and panic.",
  why="Tests lock from one thread or a fixed pair; the property is about all interleavings and panics.",
  files=["src/rust/src/core/call_mutex.rs","src/rust/src/core/call_rwlock.rs"], mech=[("call mutex","src/rust/src/core/call_mutex.rs"),("call rwlock","src/rust/src/core/call_rwlock.rs")],
  technique=SCHED, level="model_checking", note="All schedules up to the deviation bound under sequential consistency."),
 dict(id="C17", title="Logs never contain IP addresses, ICE passwords or ICE foundations",
  statement="In release builds, whatever text is logged through redaction, every IPv4 address and every documented form of IPv6 address, every line with an ICE password and every ICE candidate foundation of a secret's length comes out masked, however often and wherever it stands. Everything around it is kept, and text without such things is unchanged.",
  over=["inputs"], text="Every place and length of zero compression in several spellings, zones, embedded and printed addresses, all IPv4 octet shapes, ten surroundings, repeated occurrences, every text of up to five lines of seven kinds.",
  why="Tests redact about forty fixed strings; leaks are in the forms and positions between them.",
  files=["src/rust/src/core/util.rs","src/rust/regex-aot"], mech=[("redaction","src/rust/src/core/util.rs")],
  technique=ENUM, level="exploration", note="Exhaustive over the stated shapes, compiled as a release build does; addresses outside the documented forms are not claimed."),
]
