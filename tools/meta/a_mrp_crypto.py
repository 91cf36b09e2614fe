BFS = "explicit-state breadth-first model checking that executes the real code as transition function"
SCHED = "stateless model checking of the real code: all schedules within a deviation bound under a controlled scheduler"
ENUM = "exhaustive bounded enumeration of operation sequences on the real code against a reference model"
PROPS = [
 dict(id="C01", title="Reliable message stream: in order, exactly once, under any network",
  statement="Whatever the network does to packets (reordering, duplication, loss, delay), the receiver of a reliable stream is handed a prefix of the sent messages, in sending order and each exactly once. As long as both ends keep polling and packets can get through again, every accepted message is eventually delivered and acknowledged, and then nothing is retransmitted any more.",
  over=["schedules","histories","fault_sequences"], text="Every interleaving of sends, receives, acknowledgements, resends, deliveries in any order, duplicates and losses, for windows of 1..3 packets and the stated numbers of messages and packets in flight; from every reachable state a fair continuation must deliver everything.",
  why="Unit tests follow a dozen hand-written packet orders; the property is about every order of deliveries, losses and retransmissions.",
  files=["mrp/src/stream.rs","mrp/src/window.rs"], mech=[("send buffer and acknowledgement handling","mrp/src/stream.rs"),("sliding window buffer","mrp/src/window.rs")],
  technique=BFS, level="model_checking", note="Exhaustive within the stated bounds (the reachable state spaces are completed); the explored object is the real stream, so no model has to be trusted. Assumes the documented polling contract."),
 dict(id="C02", title="Reliable message stream: acknowledgements, resends and hostile headers",
  statement="A stream never has more unacknowledged packets than its window, resends a packet only when its deadline has passed and stops once it is acknowledged, and sends an acknowledgement only when there is something new to acknowledge. A failed send callback loses nothing and changes nothing that the peer could see. Headers out of the window, acknowledgements of things never sent and repeated packets are rejected or ignored without disturbing the stream, and never crash it.",
  over=["histories","inputs","fault_sequences"], text="In every reachable state of two streams within the bounds, every operation, every failing callback and every class of hostile header.",
  why="Tests try single failures in fresh streams; the property quantifies over all states a stream can be in when the failure or hostile header arrives.",
  files=["mrp/src/stream.rs","mrp/src/window.rs"], mech=[("send/resend/ack bookkeeping","mrp/src/stream.rs"),("window bounds","mrp/src/window.rs")],
  technique=BFS, level="model_checking", note="Exhaustive within bounds against a reference specification of the outcome of every call; deadlines are two abstract instants."),
 dict(id="C03", title="Reliable message stream: fragmented messages are merged whole and in order",
  statement="A message sent in fragments is handed over only when all of its fragments have arrived, with exactly the bytes that were sent, in order with the other messages and exactly once. A message that cannot be sent as a whole is refused as a whole and leaves the stream as it was. Whatever lengths a peer announces, the packets of a message that had to be given up are dropped, and what follows it arrives as usual.",
  over=["schedules","histories","fault_sequences"], text="All mixes of plain and fragmented messages, delivery orders, copies, losses and resends within windows of 3 and 4 packets.",
  why="Tests merge a few hand-written fragment orders; interleavings of fragments of several messages with retransmissions are out of their reach.",
  files=["mrp/src/stream.rs","mrp/src/merge_buffer.rs","mrp/src/window.rs"], mech=[("merge buffer","mrp/src"),("fragment numbering","mrp/src/stream.rs")],
  technique=BFS, level="model_checking", note="Exhaustive within bounds on the real streams. A refused message may be one that would just fill the window (the code is conservative there)."),
 dict(id="C04", title="Group media crypto: a receiver decrypts exactly what its sender encrypted",
  statement="A receiver that has been given a sender's secrets decrypts every frame that arrives within the documented limits to the plain text that was encrypted, whatever the order in which frames, ratchet advances and secret resets arrive. An out of order or repeated frame never makes later frames undecryptable. Frames have the documented form, so that every version can read those of every other.",
  over=["schedules","histories","inputs"], text="Every sender script up to the bound over {frame, ratchet advance, reset, lost frame}, every arrival order of its frames and keys, and every point at which the receiver joins.",
  why="The tests decrypt a few sequences in order; the property quantifies over all interleavings of ratcheting, resetting, loss and reordering.",
  files=["src/rust/src/core/crypto.rs"], mech=[("receiver ratchet states","src/rust/src/core/crypto.rs"),("out of order secrets","src/rust/src/core/crypto.rs")],
  technique=ENUM, level="exploration", note="Every script and every arrival order within the bound is executed on real contexts and compared with a reference; nothing is sampled."),
 dict(id="C05", title="Group media crypto: damaged frames are rejected without side effects",
  statement="A frame with any altered bit in its cipher text, authentication tag, frame counter or ratchet counter, or one from another sender, is rejected, and afterwards genuine frames decrypt exactly as if it had not arrived. Errors are counted and reported at the documented rate.",
  over=["inputs","histories"], text="Every script and arrival order within the bound with every kind of damage before each frame; every single bit of sample frames; every reachable state of the error reporting.",
  why="The tests tamper with one frame in one state; the side effects of a forged frame depend on the receiver's history.",
  files=["src/rust/src/core/crypto.rs"], mech=[("authenticate before committing ratchet state","src/rust/src/core/crypto.rs"),("decryption error statistics","src/rust/src/core/crypto.rs")],
  technique=ENUM, level="exploration", note="Exhaustive over scripts, orders and kinds of damage within the bound; trusts HMAC and HKDF."),
 dict(id="C06", title="Group media crypto: no key stream is ever used twice",
  statement="Over any sequence of encrypting, ratchet advances and secret changes, a sender never encrypts two frames with the same key stream under the same ratchet step of a secret, and frame counters never go backwards within one secret.",
  over=["histories"], text="Every sequence of encrypt / advance / reset to a new or to the same secret up to the bound.",
  why="Uniqueness is a statement about all pairs of frames of all histories; tests compare a couple of frames.",
  files=["src/rust/src/core/crypto.rs"], mech=[("sender state","src/rust/src/core/crypto.rs")],
  technique=ENUM, level="exploration", note="Exhaustive over operation sequences within the bound; the key stream itself is observed by encrypting zeros."),
 dict(id="C07", title="Actors run tasks in order, one at a time, until stopped",
  statement="An actor runs the tasks given to it one at a time, those of one sender in the order they were sent, and delayed ones not before their time. Once stopping and joining has returned, no task of the actor or of any actor registered with the same stopper runs any more and their threads have ended, whatever else runs at the same time; a task that panics or asks for the stop itself does not hang anyone.",
  over=["schedules"], text="All interleavings within the deviation bound of up to three senders, delayed sends, child registration, failing start, panicking tasks and stopping from outside or from inside.",
  why="Tests run one schedule picked by the operating system; stopping races only show in particular interleavings.",
  files=["src/rust/src/common/actor.rs"], mech=[("task queue and stop flag","src/rust/src/common/actor.rs"),("registration of child actors","src/rust/src/common/actor.rs")],
  technique=SCHED, level="model_checking", note="All schedules up to the deviation bound under sequential consistency; threads, channels, locks and the clock are the explorer's."),
 dict(id="C08", title="Event streams deliver every event once, in order, and end when closed",
  statement="A reader of an event stream receives every event sent before it closes the stream, each exactly once and in its sender's order. Once closed (even twice), or once all senders are gone, the stream ends after those events and stays ended; nobody hangs.",
  over=["schedules"], text="All interleavings within the deviation bound of concurrent senders, a reader, closing and closing twice.",
  why="The tests are sequential; loss or hanging needs a particular interleaving of send and close.",
  files=["src/rust/src/core/util.rs"], mech=[("event stream over a channel","src/rust/src/core/util.rs")],
  technique=SCHED, level="model_checking", note="All schedules up to the deviation bound under sequential consistency."),
]
