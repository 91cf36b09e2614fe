BFS = "explicit-state breadth-first model checking that executes the real code as transition function"
F = ["src/rust/src/core/call_manager.rs","src/rust/src/core/call.rs","src/rust/src/core/call_fsm.rs","src/rust/src/core/connection.rs","src/rust/src/core/connection_fsm.rs"]
PROPS = [
 dict(id="C18", title="Direct calls: every call ends once and concludes once, leaving nothing behind",
  statement="Every direct call that is made or offered is started at most once, ends at most once and is concluded exactly once, and the application hears nothing of a call before its start or (what races with the end apart) after its end; whatever the user, peers, the network and the clock do, hanging up ends the call that is going on and leaves no thread of it behind. At most one call is going on, the call manager is busy exactly while one is, and making a call during another is refused without harm to the other.",
  over=["histories"], text="Every sequence of inputs up to the depth, from nothing and from calls that ring or are accepted, each also with two inputs at once and each followed by a hang-up.",
  why="Tests play a few dozen fixed scenarios; the property is about every order of application, peer, WebRTC and timer inputs.",
  files=F, mech=[("call termination","src/rust/src/core/call_manager.rs"),("call state machine","src/rust/src/core/call_fsm.rs")],
  technique=BFS, level="model_checking", note="Exhaustive to the depth on the real call manager with simulated WebRTC; inputs are processed to quiescence, or two at once in the default schedule."),
 dict(id="C19", title="Direct calls: media flows only with the one device the call was accepted on",
  statement="In a direct call, sound is sent and received media is connected only with the one device on which the call was accepted, never before the user (incoming) or that device over its own connection (outgoing) accepted this very call, whatever other devices ring, answer or accept. As soon as a connected device has accepted, the application is told exactly once and the media is on; ringing comes before it, and reconnecting and reconnected afterwards follow that device's connection. An acceptance does not end a call whose media is there.",
  over=["histories","schedules"], text="Every sequence of the connection inputs of two forked devices up to the depth, and every schedule within the deviation bound of acceptances, connections and hang-ups that arrive together.",
  why="Tests accept on one device in one order; the property is about every order of connections and acceptances of several devices.",
  files=F, mech=[("acceptance","src/rust/src/core/call_fsm.rs"),("connection state machine","src/rust/src/core/connection_fsm.rs")],
  technique=BFS + "; stateless exploration of all schedules within a deviation bound", level="model_checking", note="Exhaustive to the depth; simulated WebRTC; schedules within the bound."),
 dict(id="C20", title="Direct calls: signaling messages leave in order, each once, one at a time",
  statement="A call manager hands the application one signaling message at a time and the next one only when it is told that the last was sent or failed (or when a new call begins), in the order they arose: offer or answer first and once, then every gathered ICE candidate exactly once in gathering order to whom it is for, messages of an ended call before those of the next, and no offer, answer or candidate of a call that is over. No message ever waits while none is on its way. A message that cannot be sent ends its call with a failure, except ICE of a connected call, and what comes after it is still sent.",
  over=["histories","schedules","faults"], text="Every sequence of inputs, confirmations, failures and refusing callbacks up to the depth, and every schedule within the bound of candidates, confirmations and endings that arrive together.",
  why="Tests confirm every message at once; the property is about every interleaving of confirmations, failures, candidates and ends of calls.",
  files=F, mech=[("message queue","src/rust/src/core/call_manager.rs"),("candidate buffer","src/rust/src/core/connection.rs")],
  technique=BFS + "; stateless exploration of all schedules within a deviation bound", level="model_checking", note="Exhaustive to the depth; simulated WebRTC; schedules within the bound."),
 dict(id="C21", title="Linked clients: both ends of a direct call agree, in glare and on forked devices",
  statement="When linked clients call one another and the network has delivered everything (in the order sent between two clients), every call is either going on at both users' ends or at neither, accepted on both or on neither and on one called device only, and its ICE candidates have reached the other end once and in order. Of two users that call each other at once the call with the greater id survives on both sides (neither, if the ids are equal); a device whose call was taken, declined or found busy elsewhere is told so for that very reason, somebody who is busy says so, and hanging up at either end ends the call everywhere. Only a caller whose offer was ignored for the sake of a call that was then given up before it was offered is left ringing, as if nobody were there.",
  over=["histories"], text="Every interleaving of deliveries, connections, user actions and RTP data between two or three linked real call managers up to the depth, each completed by delivering everything.",
  why="Tests drive one client against scripted messages; agreement is about every interleaving of two or more real ones.",
  files=F, mech=[("offer collisions","src/rust/src/core/call_manager.rs"),("hang-ups to other devices","src/rust/src/core/call_fsm.rs")],
  technique=BFS, level="model_checking", note="Exhaustive to the depth over two and three linked call managers; per-pair FIFO delivery without loss; simulated WebRTC."),
 dict(id="C32", title="Direct calls: what the peer says over RTP data takes effect once and in order",
  statement="A sender or receiver status that the peer sends over RTP data for this call takes effect exactly when its sequence number is above all of its kind before it: at once while the call is accepted (also while reconnecting), and the last one heard before at the moment of acceptance; the application gets one event per field of a changed status of the device the call was accepted on, and a receiver status becomes the limit of the send rate. An accepted or hang-up message counts only if it names this call. Packets that are late (an RTP time below one already seen), of another payload type or source, empty, undecodable, oversized, without a sequence number or about another call change nothing, and an accepted message on an incoming call ends it as an internal failure.",
  over=["histories","inputs"], text="Every sequence of packets (statuses with all orders of sequence numbers, acceptances, hang-ups, malformed ones), of one device or two, with the connection going up and down and the call being accepted, up to the depth.",
  why="Tests deliver a few packets in a good order; reordering, repetition and the moment of acceptance are the point.",
  files=F, mech=[("RTP data receive","src/rust/src/core/connection.rs"),("status sequence numbers","src/rust/src/core/connection_fsm.rs")],
  technique=BFS, level="model_checking", note="Exhaustive to the depth over one real call manager; deterministic schedule per history; simulated WebRTC."),
 dict(id="C33", title="Direct calls: the send rate keeps every limit and the peer learns the last state",
  statement="The maximum send rate of a connection is always the least of what the local data mode, the peer's last receiver status (or its offer or answer) and, on a relayed route, 1 Mbps allow, but never below 30 kbps. Every change of the own status (merged field by field) and of the data mode is sent to the peer at once with the next sequence number, and from acceptance on the last message is repeated every second with rising RTP times; low bandwidth is announced once, while connected with own video on and an estimate below 60 kbps (not within 10 s of being seen disconnected), its recovery once, at least 6 s later above 70 kbps. Threads that change the route, the data mode and the status at the same time never wait for one another for ever, and the last change counts.",
  over=["histories","schedules"], text="Every sequence of routes, data modes, statuses, receiver statuses, estimates and waits up to the depth; every schedule within the deviation bound of the threads that change the route, the data mode and the status.",
  why="Tests compute a few rates; no test runs two threads on one connection.",
  files=F, mech=[("bandwidth controller","src/rust/src/core/connection.rs"),("tick: repeats and estimates","src/rust/src/core/connection.rs")],
  technique=BFS, level="model_checking", note="Exhaustive to the depth; races over all schedules with up to 2 (quick) or 3 deviations; simulated WebRTC; virtual time."),

 dict(id="C34", title="Direct calls: a hangup or busy ends the call it is for, and the others are told",
  statement="A hangup or busy by message or by the call's connection ends the active call, with the reason its kind stands for, if it names this call and peer, is not this device's own come back, and comes from the device the call is with (any device until there is one); everything else changes nothing. When an outgoing call is declined, busy, refused for want of permission or accepted by one device, or the user hangs up or it times out, every other device is told so exactly once over its connection and the application is handed exactly one message for the rest (none for a call never offered). This holds also when two such things happen at the same time: nobody is left ringing.",
  over=["histories","schedules"], text="Every sequence up to the depth of a call's progress and of hangups of every kind and busy messages from every device, peer and call id; every schedule within the deviation bound of two such things at once.",
  why="Tests send a hangup of a few kinds in a few states, and look at one schedule.",
  files=F, mech=[("handle_received_hangup, handle_remotely_accepted_connection","src/rust/src/core/call_fsm.rs"),("handle_received_busy, terminate_call","src/rust/src/core/call_manager.rs"),("send_hangup_via_rtp_data","src/rust/src/core/connection_fsm.rs")],
  technique=BFS, level="model_checking", note="Exhaustive to the depth; twelve races over all schedules with up to 2 (quick) or 3 deviations; simulated WebRTC and peers."),
 dict(id="C35", title="Direct calls: what arrives before its offer counts, and nothing else is kept",
  statement="Candidates that arrive while no call is active, or during an outgoing call, before the offer they belong to are given to the connection of that call in the order of their arrival and once each, together with those that come later (of more than 30 messages the last 30). A hangup that arrives before its offer ends the call as soon as that starts, whatever candidates came before or after it. What is for another call or from another peer than the offer, or came during an incoming call, never has an effect, and only the messages of the last call id that was seen are kept.",
  over=["histories","schedules"], text="Every sequence up to the depth of candidates, hangups, offers (of two call ids and two peers, also expired ones), own calls, hangups and confirmations; every schedule within the deviation bound of candidates around an offer and around the decision to proceed.",
  why="One test sends one early message.",
  files=F, mech=[("PendingCallMessages","src/rust/src/core/call_manager.rs"),("received_ice, proceed","src/rust/src/core/call.rs")],
  technique=BFS, level="model_checking", note="Exhaustive to the depth; three races over all schedules with up to 2 (quick) or 3 deviations; candidates are removals, which the simulated WebRTC records."),
]
