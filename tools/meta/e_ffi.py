import runpy, pathlib
_b = runpy.run_path(str(pathlib.Path(__file__).with_name("b_misc.py")))
SCHED, BOTH, ENUM = _b["SCHED"], _b["BOTH"], _b["ENUM"]
def F(*a): return ["src/rust/src/" + f for f in a]
PROPS = [
 dict(id="C36", title="Simulated network: every packet arrives once, when and where it should",
  statement="Every packet sent into the simulated network is delivered at most once, unchanged, to the interface last added for its destination address, after exactly the configured delay plus the time that both links need to transmit it (payload plus IP and UDP headers) one after the other. It is dropped exactly when its source or destination is unknown, when the configured loss takes it, or when it does not fit behind what waits in a link's queue. Sizes, rates and durations convert into each other exactly, rounding down to the unit.",
  over=["histories","schedules","inputs"], text="Every combination of link configurations, packet sizes and gaps of a grid; every sequence of adding interfaces and sending; every schedule within the deviation bound of threads that send and of one that stops the network; every pair of a grid of sizes, rates and durations.",
  why="There is no test of the network but calls over it; a wrong queue or delay only makes their quality odd.",
  files=F("simnet/router.rs","common/units.rs","common/actor.rs"), mech=[("links, queues, routing","src/rust/src/simnet/router.rs"),("units","src/rust/src/common/units.rs")],
  technique=BOTH, level="model_checking", note="Exhaustive over the grids against a discrete-event oracle in virtual time; schedules with up to 2 (quick) or 3 deviations; losses of probability 0 and 1."),
 dict(id="C37", title="WebRTC boundary: all is released exactly once and crosses unchanged",
  statement="Whatever sequence of clones, moves and hand-overs an application makes of objects shared with WebRTC, each is given back exactly as often as it was taken, what has one owner is deleted exactly once, and what a peer connection factory made is released before the factory is. Addresses, packets, ICE servers (and their copies), audio encoder and jitter buffer configurations, video frames and RTP headers cross to WebRTC and back unchanged. Each event of WebRTC reaches its observer exactly once and unchanged, also one that fails, and null arguments do nothing.",
  over=["histories","inputs"], text="Every sequence up to the depth of operations on two places that hold references or owned objects; every combination of the grids of values that cross.",
  why="Tests use one or two objects in one order; a dangling or doubly released pointer mostly shows no symptom.",
  files=F("webrtc/ptr.rs","webrtc/arc.rs","webrtc/network.rs","webrtc/injectable_network.rs","webrtc/peer_connection_factory.rs","webrtc/peer_connection_observer.rs","webrtc/rtp_observer.rs","webrtc/media.rs","webrtc/rtp.rs"), mech=[("Unique, Owned, Borrowed","src/rust/src/webrtc/ptr.rs"),("Arc","src/rust/src/webrtc/arc.rs"),("callbacks","src/rust/src/webrtc/peer_connection_observer.rs")],
  technique=ENUM, level="exploration", note="Exhaustive over operation sequences to the depth and over the grids; WebRTC's side is a stand-in that reads the C layout."),
 dict(id="C38", title="Session descriptions: what is signaled is what WebRTC gets and gives",
  statement="Credentials, codecs, flags, bitrate limits and keys that are signaled reach WebRTC and come from it unchanged, where only unknown codecs are left out, and codecs are asymmetric only if both an encode-only and a decode-only list is present. What WebRTC cannot make, or what contains a NUL, is an error and never an empty description. A result that WebRTC gives before, while or after it is asked for reaches the asker once, and every description and set of parameters is deleted exactly once unless it is handed over.",
  over=["inputs","schedules"], text="Every combination of codec lists up to length 2, flags, strings and outcomes of WebRTC; every schedule within the bound of WebRTC's answers around the question for them.",
  why="Tests use one set of parameters; two phones that disagree on a codec or a credential fail only when they meet.",
  files=F("webrtc/sdp_observer.rs"), mech=[("from_v4, to_v4, observers","src/rust/src/webrtc/sdp_observer.rs")],
  technique=BOTH, level="model_checking", note="Exhaustive over the grids (a million cases) and over schedules with up to 4 (quick) or 6 deviations; WebRTC's side is a stand-in that reads the C layout."),
 dict(id="C39", title="Call statistics: complete, ordered, per interval, never absurd",
  statement="Every report of WebRTC becomes a beginning, the system, the connection, all audio and video senders, all audio and video receivers and an end, in that order, each stream with the figures of the time since its own last report. Counters are differences, never below zero, rates are per second of the time that passed, gauges are as WebRTC gave them, and none is negative, infinite or not a number, also when no time passed or a stream began anew. The raw report can be taken once, and a stream that was not reported for ten minutes is forgotten at a clean-up and otherwise counts on.",
  over=["histories"], text="Every sequence, up to the depth, of reports of streams that are absent, stand still, go on in several ways or begin anew, with several times in between, and of route changes.",
  why="Tests cover a helper or two; which report precedes which decides what a difference means.",
  files=F("webrtc/stats_observer.rs"), mech=[("on_stats_complete, snapshots","src/rust/src/webrtc/stats_observer.rs")],
  technique=ENUM, level="exploration", note="Exhaustive over sequences of 3 (quick) or 4 reports from a set of steps; virtual time; WebRTC's side is a stand-in."),
]
