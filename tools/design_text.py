D = {
"C01": "Two real `MrpStream`s and a network of in-flight packets are one state; transitions are send, deliver any packet in flight, duplicate, drop, acknowledge, resend after the deadline. Windows 1–3, 2–5 messages, bounded packets in flight; the reachable spaces are completed (about 10^5 states, 1.5·10^6 transitions in quick). Oracle: delivered sequence is a prefix of the sent one; from *every* state a fair continuation (poll, deliver everything) must deliver, acknowledge and fall silent. `outages` loses one packet on its first n transmissions. Thorough: larger windows and both directions. 5–15 s quick. `large_windows` (15 to 257 packets and no limit, every loss of one or two of them) and `long_histories` (70 000 messages) reach past the widths of counters; there the histories are one per choice of losses, not all interleavings.",
"C02": "Same state space, with every failing callback and every class of hostile header (old, duplicate, beyond the window, acknowledging the unsent, wrapped sequence numbers) applied in every reachable state; oracle: a reference specification of the outcome of every call and unchanged peer-visible state after a rejection. 5–15 s. The same large windows and long histories, with the same reference for every call.",
"C03": "Same search with fragmented messages (1–3 fragments) mixed with plain ones, windows 3 and 4. Oracle: whole, in order, once; a refused message leaves the stream as it was; streams without limit too. A second search feeds a receiver every sequence of up to 5 packets with arbitrary announced lengths; oracle: a reader of three states (between messages, within one, dropping the rest of one). 10–20 s. `large_messages`: eleven windows × message sizes around them × every (or every edge) lost fragment, up to 65 537 fragments without limit.",
"C04": "Sender scripts over {frame, ratchet advance, reset, lost frame} of the stated length × every arrival order of frames and keys × joining points, on real `Context`s; special harnesses at the documented limits (300 frames, 5 ratchets, 5 secrets) and ratchet counter wrap-around. Oracle: reference set of frames that have to decrypt to their text. 3·10^5 cases quick, 15–30 s. `wire_format` decrypts and builds frames with an independent reference of the documented form (counters of every length, MAC, IV); `sizes`: payloads of 0 to 70 bytes and around every power of two to 2^20; `many_senders`: up to 1100 senders in one context, ids at every power of two.",
"C05": "The same scripts with one of 15 kinds of damage delivered before each frame (rejected, buffer not decrypted, counted once; genuine frames exactly as without it), every single bit of sample frames, frames of other senders, and a breadth-first search over the decryption-error reporter. 10^6 cases, 5 s. Damage also for payloads of every size class, among many senders, and with many errors (counts and times of the reports compared).",
"C06": "Every sequence of encrypt/advance/reset (to a new or the same secret) of length 8 (quick), also across the ratchet counter's wrap-around and 70 000 frames in one secret; the key stream is exposed by encrypting zeros and compared with all others. 1 s. Every frame size of `sizes` too: no two blocks of one frame, or of successive ones, share key stream.",
"C07": "Twelve harnesses of the real actor: up to 3 senders, delayed sends, children registered while stopping, failing starts, panicking tasks, stop from outside/inside/twice; every schedule with up to 2–4 deviations (tens of thousands of executions, completed within the bound). Oracle: task order, no task after join returned, no live threads, no deadlock. `many_tasks_and_actors`: 70 000 tasks, 300 actors of one stopper.",
"C08": "Concurrent senders, a reader and closing (twice) of the real event stream; all schedules with up to 5 deviations, plus 2400 lengths of the backlog.",
"C09": "Breadth-first over asset managers: every payload (each manifest content, truncated, extended, altered) added under every group name as bytes and as file in every reachable state; manager and registries obtained before/after compared with a reference. Readers against an addition over all schedules within the bound. `dred`: every order of additions × duration × FEC: the codecs' weights are those of one registered asset, or DRED is off. `sizes`: contents of 0 to 2^21 bytes, as bytes and file, changed, cut and extended at counter edges; `hashes`: every changed bit and every other length of the manifest's hash; `many_versions`: up to 700 entries in three orders.",
"C10": "Removed candidates: the product of address classes and all 65 536 ports; connection parameters: all presence combinations; hangups: all kinds × device ids to 2^17 and around powers of two; all byte strings of ≤3 bytes (3 in thorough), every truncation and single-byte change of encoded messages. Oracle: round trip, the documented wire fields (hand-made encodings), no panic. `sizes`: texts of 0 to 2^20 characters of three kinds, keys as long, up to 5000 codecs per list.",
"C11": "Key bytes: all lengths, versions and repeated-pair positions; texts: all single edits (substitution, insertion, deletion, swap, truncation, extension) and group pairings; names of every length with every bit tampered; every pair of sample keys for rooms.",
"C12": "Each operation × optional arguments × status codes × bodies (product of fields, truncations, missing or mistyped fields) against the real client with a scripted HTTP client; oracle: documented request, mapping and exactly one callback.",
"C13": "Breadth-first over histories of up to five requests with every answer, failure, repeat and stray answer; all schedules within 4–6 deviations of senders against answering threads. All 65536 statuses × 8 bodies for what a status means and what is read of an answer. `many_requests`: up to 70 001 requests, 1, 7 or all of them open at once, four orders of the answers, one of them open throughout.",
"C14": "Every sequence of lookups to the depth (members, other calls' ids, damaged ids, enough strangers to overflow the caches), concurrent lookups over all schedules within the bound, member lists of ≤3. zkgroup has a stand-in with its contract.",
"C15": "Breadth-first over histories of insert/invalidate/hand over/clean up for three expirations, three members; reference model = what is stored and marked, queries for every recipient set in every state.",
"C16": "Lockers, readers and panicking holders over all schedules with 4–6 deviations.",
"C17": "Exhaustive shapes: every place and length of zero compression in five spellings, ten surroundings, repeats; all IPv4 octet shapes; every text of ≤5 lines of seven kinds; built without debug assertions because debug builds do not redact. `long_texts`: up to 5000 secrets of each kind in one text, close together or over 64 KB.",
"C18": "A real `CallManager` with simulated WebRTC and a recording `Platform`. Alphabet: call/proceed/accept/hang up/drop/reset/message sent/failed, offers (low/high id, other peer, expired), answers, ICE, hangups of all kinds, busy, ICE connected/disconnected/failed, gathered candidates, media, RTP accepted/hangup, the 60 s timer. Depth 5 from nothing and 4 from four prefixes (ringing/talking × in/out) in quick, 8/7 or 150 s each in thorough, plus all pairs of simultaneous inputs. After *every* history the user hangs up, confirms everything, and all calls must be over with no thread left. 1.6·10^5 states, 60 s quick.",
"C19": "Same world. Alphabet: proceed, accept, answers of two devices, ICE connected/disconnected/failed, incoming media, RTP accepted (for this and for another call), declines, hang-up. Depth 9 from nothing, 7 from two answered devices, 10 from an answered incoming call (thorough 13/11/16). The monitor compares `outgoing_audio_enabled` of every simulated peer connection, `connect_incoming_media`, the application events and the RTP messages sent with what was injected. Eight races (e.g. both devices accept at once, accept against hang-up, disconnect, peer hang-up) over all schedules with up to 2 (quick) or 3 deviations: 1.4·10^5 executions, 40 s.",
"C20": "Same world; the application confirms (or fails) each message as a separate input, callbacks `on_send_*` can be made to fail. Alphabet: calls, glare and foreign offers, proceed, accept, answers, hang-ups, busy, candidates gathered on the parent/child/incoming connection, ICE up/down, confirmation, failure, one fault and its repair, reset. Depth 7 from nothing, 4–5 from four prefixes; after every history: a stray confirmation releases nothing, hang-up, and a further call whose offer and candidate must come through. Seven races over all schedules with 2–4 deviations. 1.3·10^5 states, 60–80 s quick.",
"C21": "Two or three real call managers (caller and two devices of the callee; three users) linked by FIFO channels per pair for signaling and for RTP data. Choices: deliver the next message of a channel, connect the two ends in WebRTC, deliver RTP data, proceed, call, accept, hang up, gather a candidate. Depth 8–16 in quick (completed for two clients that only call). After every history everything is delivered and the ends compared; then the first that rings accepts, everything is delivered and compared again; then everybody hangs up: all concluded, no threads. 5·10^4 states, 60 s quick.",
"C22": "A real group call `Client` (its actor, timers and crypto) with simulated WebRTC, an SFU client and an observer that record. Inputs: every set of devices of a pool of three (two users, one with two devices; an own other device; a stranger the members cannot resolve), pushed over RTP or as a peek result, waits of 1 and 5 s (a rotation takes effect after 3 s), resending keys; one frame is encrypted after every input. Oracle: the harness plays every user with a real receive context fed only the keys sent to that user, and an attacker who tries every key a user ever got on every frame before and after. Depth 4–6 quick (10^5 executions, 60–90 s), 7–9 thorough.",
"C23": "Same world as C22. Two devices of two users come and go (pushed or peeked) while five claimants send keys: the genuine device, the same after a rotation (ratchet 7), another device (ratchet 255), another member and a stranger pretending to be the first device; four malformed keys. After every input a frame and an encrypted heartbeat of each claimant are delivered. Oracle: a model of ten lines (keys taken, keys waiting for their device, flags), events compared exactly. Depth 5 (2.7·10^5 executions, 70 s) and 4 after approval and in a call link call; 7/6 thorough.",
"C24": "Same world as C22. Three devices of two users are listed in every order the search has; the inputs are heartbeats (newer or older RTP time), speaker notices, lists of forwarded video, decoded frames of some height, leaving messages (own and forged), mute requests and reactions of boundary sizes, and waiting for a tick; six searches (five families and everything), depths 4 to 6 quick, 5 to 7 thorough. Oracle: a record per device, events compared exactly after each input. It found the one fixed defect below.",
"C25": "Same world as C22, one member already in the call. First search: one of eight scripts of three reliable messages, whose effect is a list of raised hands each, as up to five packets; then every sequence of 5 deliveries (any packet, again too), loose messages and ticks (6·10^4 executions). Second search: every sequence of 5 admin actions, reports in several packets, acknowledgements and waits. Oracle: the packets received in a row; a table of what was sent when. It found the one fixed defect below.",
"C26": "Same world. Every sequence of 5 requests, lists and waits (9·10^4 executions, 25 s); oracle: number and wish of the newest request, the last list. ",
"C27": "Same world. Every sequence of 7 inputs from the start and of 5 from within the call (12 kinds of input, waits of 10 and 25 ms around the 20 ms that closing takes; 2·10^5 executions, 50 s). Oracle: connection, being in the call, when and why it ends; events compared exactly, the busy mark, leave messages, media switches and threads looked at after every input. It found the one fixed defect below.",
"C28": "Same world as C22. Every sequence of 6 inputs (7 thorough; 4·10^5 executions, 45 s); oracle: the state of the ring (unknown, wanted, allowed, sent, over), rings and answers compared exactly. Ring ids of 262 eras. It found the one fixed defect below.",
"C29": "Same world as C22. Every sequence of 4 to 6 inputs in four families (state, videos, rates, everything from before joining; one more in thorough; 10^6 executions, 3 min). What goes to the others is decrypted and decoded by the harness; oracle: the state set, the heartbeat clock, the last request, the number of others; messages, rates and media switches are compared exactly after every input. It found the one fixed defect below.",
"C30": "Same world as C22, virtual time. Speech: levels 0/1000/1001, muting, leaving, waits of 0.2, 1, 2.8 and 5 s, depth 6 (5·10^5 executions). Bandwidth: four estimates at the thresholds, others, ICE, waits of 0.2 to 10 s, depth 5 from joining and 6 from low bandwidth. Oracle: the ticks replayed on the start and pause of speech and on one small state machine; events compared exactly after every input. 2 min quick.",
"C31": "Same world. Depth 6 from the start (group), 5 (call link) and 4 from within the call; oracle: when the last question, answer or failure was and whether to ask again, replayed tick by tick; the number of questions to the SFU is compared after every input. 2 min quick.",
"C32": "A real `CallManager` with simulated WebRTC, at an incoming call (or an outgoing one that two devices have answered). Inputs: sender statuses (3 values) and receiver statuses with sequence numbers in every order, together and apart, accepted and hang-up for this and another call, 6 kinds of malformed packets, equal/older/greatest RTP times, ICE up and down, acceptance. Depth 4 without merging states, 7–9 with (merged by the reference's state and what was sent). Oracle: a record per connection (last numbers, last values); events, rates, ends compared exactly after every input. 10^5 executions, 30 s quick.",
"C33": "Same world. Routes relayed or not, both data modes (queued and at once), receiver statuses at the limits (0, 29 999, … bps), offers and answers with a limit; own statuses and waits; estimates at the thresholds with waits of 1, 5 and 10 s; depth 5–7 quick. Oracle: the minimum of the limits; the merged message and its number; a three-state record per second for low bandwidth; every packet is decoded and compared. Four races of route, data mode, status and receiver status over all schedules with up to 2 deviations. It found the one fixed defect below (a lock-order deadlock). 40 s quick.",
"C34": "Same world. An outgoing call (from nothing; ringing at two devices; accepted) and an incoming one (from nothing; accepted); at every state every kind of hangup from devices 2, 3 and 4 (that of the call, another, an unknown one), about this device and another, by message and by RTP data, busy messages, foreign peers and call ids, the user's hangup and 61 s; two of them in one history. Oracle: a table of what each does, computed from the state before; RTP messages and messages handed to the application are compared with it, to the end of the call. Twelve races of two inputs over all schedules with up to 2 deviations: the end is that of one order, and nobody who is told in that order is left out. It found the three fixed defects below. 90 s quick.",
"C35": "Same world. Two call ids (one loses a glare, one wins it), two peers, one or 29 candidates at a time, six kinds of hangups, offers fresh and expired, an own call; depth 4 (5 thorough), and at the end of every history both offers are sent. Oracle: one slot with the rules of the statement; candidates are recognized by their addresses where the connection is given them. Three races. 90 s quick.",
"C36": "The real `simnet::router` on its real actors over virtual time. `queues`: 2 sending and receiving link configurations (delay, rate, queue) x 4 (5) packets of 3 sizes and 3 gaps; oracle: a discrete-event simulation of two links in a row written from the statement, comparing exact delivery times, contents and drops. `losses` with probabilities 0 and 1 on either link and both loss models; `routing`: every sequence of adding, re-adding and sending; `jitter`; `two_senders`, `stopped_meanwhile`: every schedule within the bound; `units`: a grid of sizes, rates and durations against 128-bit arithmetic. `large_and_late`: packets up to 200 kB on slow links, rates above 2^32 bit/s and delays of more than a minute. ~80 s quick.",
"C37": "The real `ptr`, `arc` and rffi types with stand-ins for WebRTC's side that record every reference taken and given back, and read the C layouts byte by byte. References and owned objects: every sequence of 6 (7) useful operations (get, clone, lend, hand over, take back, swap, drop) on two places, against a count of who holds what. Addresses: every byte value per octet, all ports. ICE servers and their copies: the strings must not be the original's. All callbacks of the two observers with and without an observer, with a failing one, and with each pointer null. Sizes, counts and numbers reach beyond 8, 16 and 31 bits throughout. 30 s quick.",
"C38": "The real `SessionDescription`, `to_v4`, `from_v4` and the two observers with a stand-in (`stubs/sim/sdp_observer.rs`) that reads the C layouts. `from_what_is_signaled`: all combinations of three codec lists up to length 2 over missing, known and unknown types, configuration flags, five strings and WebRTC's failure (950k cases), and the way back likewise. `create_observer`/`set_observer`: WebRTC's thread answers once or twice, every schedule around the asker. Oracle: the mapping written from the statement and an account of descriptions made, deleted and handed over. `sizes`: codec lists, other participants, keys and strings of lengths around the powers of two up to thousands, and strings that a tidying change would alter. 2 s quick.",
"C39": "The real `StatsObserver` fed through its C callback by a stand-in (`stubs/sim/stats_observer.rs`). Every sequence of 3 (4) reports, each with one of 7 steps of a stream (absent, still, three ways of going on, begun anew) and 0, 0.5 or 10 s after the last; several streams at once with route changes; streams that go unreported for 599 to 601 s around the 60th report. Oracle: the figures computed anew from the raw counters, each stream against its own last report; every figure is finite and not negative. Three genuine defects found and repaired. `much`: counters, losses and intervals beyond 16 and 32 bits and raw reports up to 1 MB; `many`: up to 1000 streams of each kind whose numbers differ in any bits; `forgotten_again`: around the 60th, 120th and 180th report. 15 s quick.",
"C40": "Two or three real call managers whose WebRTC is a stand-in that gives every created description its own credentials and records what is set (`stubs/sim/sdp_observer.rs`). `calls`: 16 codec settings x 1 or 2 devices x 3 kinds of older clients, two calls each and a repeated answer; descriptions of both ends are compared pairwise, and all keys and public keys of an execution must differ. `outgoing`/`incoming`: the harness is the other end with its own X25519 and HKDF: 4 proper keys and 19 improper ones (all points of low order, their non-canonical forms, wrong lengths) x identities. `between`: each public key or identity changed by somebody in between. 1 s quick.",
"C41": "The real group call client with the same stand-in. `n devices come and go`: breadth-first over lists of any of 3, 4 or 5 devices (one of the own user, one without a name, two of one user), in two orders, before and after the SFU lets the client in (at once or pending), and WebRTC failing on the local or the remote description; after each step the descriptions set since the last are compared with an account of places, and the transceivers with them. `the SFU's key`: 14 points of low order and 4 proper keys x extra information against an independent derivation, and keys of two calls. 5 s quick.",
"C42": "The real `PeerConnectionFactory` and `AudioDeviceModule` (worker thread, channels, callbacks table) between two stand-ins: `mc/audio/src/sound.rs` implements the C functions of cubeb (contexts, streams, device lists, callbacks; it records every wrong use, and a stop waits for a callback that runs), `mc/audio/src/rtc.rs` is WebRTC (owner of the factory, reads the C layouts, plays and takes samples). `playing`/`recording`: every sequence of 5 of 7 callback sizes, and of WebRTC's answers (full, part, none, failing); samples are numbered. `operations`, `histories`, `failures`: breadth-first over 25 kinds of operations, each direction alone until no new state appears (depth 13) and both together, with failures and without merging states (10^5 states), a window is pumped through whatever runs after each. `delays`: requests while the sound card is slow. `release`: everything that can fail while setting up, every order of dropping handles. Eight races of a delivering sound card with stop, change, warm-up. Two defects found and repaired (a stale delay for ever after one late answer, a leaked module). 1.5 min quick.",
"C43": "Same stand-ins, with a log sink. `lines`: 7 forms of lines x all combinations of 22 names (8 for the form with four), exact text expected. `cut`: each form with 5 names, padded so that cubeb's 255 bytes end at each byte of it; no two characters of a name beyond the allowed start may be seen. `histories`: every sequence of 3 of 39 operations with devices of secret names and ids; everything logged and returned is searched. Two defects found and repaired (repeated and leaked parts of a line, lines cut off). 3 s quick.",
"C44": "Same stand-ins. Lists of up to 2 devices of 64 kinds (enabled, default, with or without id or name, monitor) and of 3 of 33 kinds, in both directions: the app's list, WebRTC's count and names, and what is opened for each choice by number and by id. `changes`: from each list of up to two to each other; the observer's notices. `long_names`: 2800 names around the 128 bytes of space. Oracle: the rules of the statement (20 lines). Two defects found and repaired. 3 s quick.",
"C45": "The real wrappers against a stand-in for WebRTC (about 90 `Rust_…` functions) that gives every object an identity and a reference count and notes every call with its arguments. `questions`: 34 operations × argument variants × 2 connections × 2 answers: exactly one call, on the right object, with the right arguments, and the right outcome. `lifetimes`: every sequence of making, cloning, using and dropping objects to the depth: the stand-in reports a use after the last release, a release too many, a factory or observer that goes first, and what is left at the end. `logs`: every severity with every kind of line. Oracle: a table of what each operation means, written from WebRTC's interface. One defect found and repaired (a new connection's video track was released before WebRTC took it). `large`: lists, candidates, host names, packets, weights and pictures of up to 70 000 elements and odd texts. 20 s quick.",
}
