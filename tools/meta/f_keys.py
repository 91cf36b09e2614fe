import runpy, pathlib
_h = pathlib.Path(__file__)
ENUM = runpy.run_path(str(_h.with_name("e_ffi.py")))["ENUM"]
PATHS = runpy.run_path(str(_h.with_name("d_group.py")))["PATHS"]
PROPS = [
 dict(id="C40", title="Direct calls: both ends use the same keys, and nobody else does",
  statement="In every direct call, the two ends give WebRTC the same key for what the caller sends and the same other key for what the callee sends (those that the protocol derives from both ends' fresh secrets and both identities), together with the same ICE credentials and codecs, once per connection and before anything can flow. No key is used in another call or with another device, and ends that were given another public key or identity than the other one's have none in common. A public key of low order or of the wrong length ends the call, and WebRTC gets no description.",
  over=["inputs","histories"], text="Every combination of codec settings, of older clients on either side, of one or two called devices and of two calls in a row; every improper public key; every single thing that somebody in between can change.",
  why="Tests negotiate one pair of keys; that both ends mix them up in the same way can be seen only with both ends.",
  files=["src/rust/src/core/connection.rs","src/rust/src/webrtc/sdp_observer.rs"], mech=[("negotiate_srtp_keys, start_outgoing_child, start_incoming","src/rust/src/core/connection.rs")],
  technique=ENUM, level="exploration", note="Exhaustive over the listed combinations with real call managers on both ends and an independent derivation; WebRTC is a stand-in that keeps what it is given. An absent public key is not covered: WebRTC refuses it."),
 dict(id="C41", title="Group calls: WebRTC has the SFU's keys and one place for every device",
  statement="WebRTC gets the client's key for what is sent and the SFU's for what is received (fresh in every call, those that the protocol derives from the client's and the SFU's secrets and the SFU's extra information), with the ICE credentials that were exchanged; an SFU key of low order ends the call before anything is set. At any time every other device with a known user that the last list has, and no other, has exactly one place in the local and the remote description and among the transceivers; it keeps that place as long as it is there, a place is empty before another device gets it, and there are no more places than there have been devices at once. A description that WebRTC cannot make ends the call.",
  over=["histories","inputs"], text="Every sequence up to the depth of lists of any of up to five devices, before and after the SFU answers, and of one failure of WebRTC; every improper key of the SFU.",
  why="Tests add and remove a device or two; a place that is taken over in the wrong order shows only as a missing video.",
  files=["src/rust/src/core/group_call.rs","src/rust/src/webrtc/sdp_observer.rs"], mech=[("DheState, set_peer_connection_descriptions, set_peek_result_inner","src/rust/src/core/group_call.rs")],
  technique=PATHS, level="model_checking", note="All reachable states for three devices and to the depth for five; WebRTC is a stand-in that keeps what it is given; no rejoining."),
]
