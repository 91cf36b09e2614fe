PATHS = "explicit-state breadth-first model checking that executes the real code as transition function"
F = ["src/rust/src/core/group_call.rs","src/rust/src/core/crypto.rs"]
PROPS = [
 dict(id="C22", title="Group calls: only the users who are in the call can decrypt its media",
  statement="In a group call a media key is only ever sent to users whose devices are in the call, and the devices of a user in the call can decrypt every frame a member sends from the moment the member knows of them. Whoever is added gets no key that opens a frame from before, and whoever has left cannot open frames sent more than ten seconds later, whatever the order of joining, leaving, rejoining and resending keys.",
  over=["histories"], text="Every sequence up to the depth of changes of who is in the call (pushed by the SFU or peeked), waiting and resending keys, a frame being sent in every state.",
  why="Tests rotate and advance keys in three fixed scenarios; secrecy is about every order of arrivals, departures and pending rotations.",
  files=F, mech=[("key rotation","src/rust/src/core/group_call.rs"),("ratchet","src/rust/src/core/crypto.rs")],
  technique=PATHS, level="model_checking", note="Exhaustive to the depth on the real group call client with simulated WebRTC; X25519 and randomness have stand-ins."),
 dict(id="C23", title="Group calls: a device is believed only with a key from the user who owns it",
  statement="In a group call the media and data of a device are decrypted exactly from when a well-formed media key for it has arrived from the very user who owns the device and the device is known to be in the call, whichever comes first. Keys that other members or strangers send for it, malformed keys, and whatever is encrypted with them are never believed, shown or counted, and displace nothing. The application is told of a device's first key exactly once each time the device joins, and sees for every device whether it has one.",
  over=["histories"], text="Every sequence up to the depth of changes of who is in the call and of keys (genuine, rotated, forged by a member or a stranger, malformed), media and data of every claimant being tried in every state.",
  why="Tests forge one key in one order; what counts is every interleaving of devices appearing and keys arriving.",
  files=F, mech=[("taking or keeping keys","src/rust/src/core/group_call.rs")],
  technique=PATHS, level="model_checking", note="Exhaustive to the depth on the real group call client with simulated WebRTC; device ids are not reassigned to other users; at most five keys per device."),
 dict(id="C24", title="Group calls: the application sees the devices the SFU listed, as they are",
  statement="The devices a group call shows the application are exactly those the SFU last listed, in that order, each with the newest state that the device itself sent (by its own RTP time), when it was added and last spoke, whether its video is forwarded, at which heights and whether a higher resolution is still to come. The application is told of every change and of nothing else; mutes are attributed only to a member whose request was seen, and a device is taken to be leaving only when it says so itself. Mute requests and reactions (of 1 to 256 bytes) are told at the next tick.",
  over=["histories"], text="Every sequence up to the depth of device lists, heartbeats new and old, speakers, forwarding lists, decoded frames, mute requests, reactions, leaving messages and waits, in five families and all together.",
  why="Tests try single updates; what the application sees depends on every order in which lists, heartbeats, forwarding and frames replace each other.",
  files=F, mech=[("remote device states","src/rust/src/core/group_call.rs")],
  technique=PATHS, level="model_checking", note="Exhaustive to the depth on the real group call client with simulated WebRTC; three devices of two users; keys of genuine devices are given at once."),
 dict(id="C25", title="Group calls: reliable messages from and to the SFU take effect once, in order",
  statement="Whatever the network does to the packets of the SFU, each of its reliable messages, plain, as content or in parts, takes effect exactly once and in order as soon as all before it are there, also when several become ready together or one cannot be decoded, and is acknowledged at the next tick. An admin action or a large report of the client leaves at once in packets of at most 1200 bytes and, unchanged, again a second after it last did until it is acknowledged, never after that; the packets to the SFU have RTP numbers without gaps.",
  over=["schedules","histories","fault_sequences"], text="Eight scripts of three reliable messages (plain, content, in parts, undecodable) under every order of deliveries, repetitions, loose messages and ticks; every sequence of admin actions, reports, acknowledgements (old, partial, impossible) and waits.",
  why="Tests deliver packets in order, one message at a time; what is lost shows only when a late packet releases several.",
  files=["src/rust/src/core/group_call.rs","mrp/src/stream.rs","src/rust/src/protobuf.rs"], mech=[("handle_sfu_to_device","src/rust/src/core/group_call.rs"),("Extend for SfuToDevice","src/rust/src/protobuf.rs")],
  technique=PATHS, level="model_checking", note="Exhaustive to the depth on the real group call client with simulated WebRTC; fewer than 64 packets wait for an acknowledgement."),
 dict(id="C26", title="Group calls: raising a hand is repeated until heeded, and lists are never stale",
  statement="A request to raise or lower the hand leaves at once and is repeated every half second until the SFU has heeded it or a newer one, and never after that. The application is told of every raised-hands list that differs from the last, of the list that heeds its request even if it is the same, and never of a list from before its newest request.",
  over=["histories"], text="Every sequence up to the depth of requests, lists (same or different, heeding no, an older, the newest or a later request) and waits.",
  why="Tests raise one hand; what matters is every interleaving of requests with lists that heed older or newer ones.",
  files=["src/rust/src/core/group_call.rs"], mech=[("handle_raised_hands, send_raise_hand","src/rust/src/core/group_call.rs")],
  technique=PATHS, level="model_checking", note="Exhaustive to the depth on the real group call client with simulated WebRTC."),
 dict(id="C27", title="Group calls: a call ends once, and busy is taken and given back exactly",
  statement="A group call client that has been connected ends exactly once, for the first reason there was (the user, the SFU refusing or removing it, ICE failing, or another call in its way), having left with its media off and the SFU told; then nothing is told any more and nothing of it runs. The call manager is busy from when a client joins until it has left, whatever comes in between and also if joining is tried while the call is ending; another call's mark is respected and never taken away. The application is told of every change of the connection and of being in the call, and of nothing else.",
  over=["histories"], text="Every sequence up to the depth of connecting, joining, leaving, disconnecting, being let in, refused, removed, approved, ICE states, another call and waits around the closing delay.",
  why="Tests join and leave in the usual order; what remains busy or running for ever shows in the unusual ones.",
  files=["src/rust/src/core/group_call.rs"], mech=[("join, leave_inner, end","src/rust/src/core/group_call.rs")],
  technique=PATHS, level="model_checking", note="Exhaustive to the depth on the real group call client with simulated WebRTC; joining again after leaving (before the end) is not covered, nor joining before connecting."),
 dict(id="C28", title="Group calls: a ring goes out once, by whoever began the call, and is taken back",
  statement="Asking to ring a group sends one ring, named after the call's era, to the whole group exactly if this user began the call, at once or as soon as joining shows it, and never before being in the call, after leaving it or a second time. If nobody else was in the call when it rang and nobody came, leaving in whatever way takes that ring back exactly once; otherwise it is never taken back. Joining a call whose ring had arrived first tells the user's own devices, once, that the oldest such ring was accepted.",
  over=["histories"], text="Every sequence up to the depth of asking to ring, rings that arrive, joining, being let in (begun by this user, another or unknown), refused or removed, lists of devices, leaving and disconnecting; with and without knowing the own user and when busy.",
  why="Tests ring in four fixed orders; whether a ring stays alive or rings twice depends on every order of ringing, joining, others coming and leaving.",
  files=["src/rust/src/core/group_call.rs"], mech=[("ring_inner, leave_inner","src/rust/src/core/group_call.rs")],
  technique=PATHS, level="model_checking", note="Exhaustive to the depth on the real group call client with simulated WebRTC; joining again after leaving is not covered."),
 dict(id="C29", title="Group calls: what one says of oneself, asks of the SFU, and sends",
  statement="While in the call, and only then, a client tells the others its whole current state at every change and every second, its reactions (1 to 256 bytes), mute requests (never to itself) and that it leaves; a mute by another member is attributed only if it took effect. It asks the SFU for the newest wanted videos of known devices, at the allowed data rate, at once (but only once between two heartbeats) and with each heartbeat, and tells it twice that it leaves. Media go out, the microphone is on and the send rates are above the minimum exactly while in the call with others, as their number and screen sharing say.",
  over=["histories"], text="Every sequence up to the depth of mutes, presenting, sharing, reactions, mute requests, video requests, data modes, lists of 0 to 8 others, joining, leaving, being removed and waits, in four families.",
  why="Tests set one thing at a time while in the call; what goes out before joining or after leaving, or is repeated stale, shows only in combinations.",
  files=["src/rust/src/core/group_call.rs"], mech=[("send_heartbeat, set_send_rates_inner, send_video_requests_to_sfu","src/rust/src/core/group_call.rs")],
  technique=PATHS, level="model_checking", note="Exhaustive to the depth on the real group call client with simulated WebRTC; joining again after leaving is not covered."),
 dict(id="C30", title="Group calls: notices on speech, levels and bandwidth come once and in time",
  statement="The application is advised to lower its hand once the user has spoken, unmuted, for 5 s with pauses under 3 s, and told that the user stopped after a pause of 3 s, each only when it was not the last such notice; audio levels are told at the interval asked for; neither happens after leaving. Low bandwidth is told once, when the estimate is below 70 kbps at a check (every second while connected with others in the call), and its recovery once, when the estimate is above 80 kbps at least 6 s later.",
  over=["histories"], text="Every sequence up to the depth of levels and bandwidths at the thresholds, muting, others coming and going, connecting, disconnecting, leaving and waits around the limits, on virtual time.",
  why="Tests of timers use a few real waits; what is told twice, too early or never depends on where in its interval each input comes.",
  files=["src/rust/src/core/group_call.rs"], mech=[("tick","src/rust/src/core/group_call.rs")],
  technique=PATHS, level="model_checking", note="Exhaustive to the depth on the real group call client with simulated WebRTC and time; no rejoining."),
 dict(id="C31", title="Group calls: the SFU is asked who is there in time, and not more often",
  statement="Once it may (a group call: with a membership proof), a client asks the SFU at once for the list of devices, and again when the last list is 10 s old, or when an answer has been missing or a failure is past for more than 5 s. Anything that shows the list to be out of date (joining, data or a key of an unknown device, a device leaving and then again 2 s later, other group members, a notice of the SFU) makes it ask at once or, while an answer is awaited, as soon as that is there; nothing else does.",
  over=["histories"], text="Every sequence up to the depth of proofs, member lists, joining, answers (oldest or newest question, good or failed), pushed lists, notices, data, keys and leaving messages of known and unknown devices, and waits around the limits.",
  why="Tests answer every question at once; questions lost or repeated show only when answers come late, fail or cross with other news.",
  files=["src/rust/src/core/group_call.rs"], mech=[("maybe_request_remote_devices","src/rust/src/core/group_call.rs")],
  technique=PATHS, level="model_checking", note="Exhaustive to the depth on the real group call client with simulated WebRTC and time; no rejoining. The list a joining client had before counts as new when it has joined, as the code says."),
]
