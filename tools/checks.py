"""What each check runs, and how MANIFEST.json describes it (see manifest.py)."""

CODEC_NOTE = ("Seeded exploration, not a proof: the real codec runs on generated, mutated and (where small) exhaustive inputs while an independent "
              "reference model judges every result. Trusts the reference, the generators' reach and the Go toolchain.")
CODEC = dict(pkg="codec", shards=8, procs=2, note=CODEC_NOTE)


def codec(technique, **kw):
    return dict(CODEC, technique=technique, **kw)


STORE_NOTE = ("Seeded exploration, not a proof: the real storage runs on real files in scratch directories while every file operation, and every lock "
              "acquisition where concurrency matters, passes through hooks in an overlay of the standard library. Trusts the reference models, the overlay, the "
              "reach of the generators and schedules, and the Go toolchain.")
STORE = dict(pkg="store", shards=8, procs=2, overlay=["sync", "fs"], note=STORE_NOTE)


def store(technique, **kw):
    return dict(STORE, technique=technique, **kw)


PEX_NOTE = ("Seeded exploration, not a proof: the real handler answers generated announces in virtual time, with lock acquisitions spread by a hook in an "
            "overlay of the standard library where concurrency matters. Trusts the model, the generators' reach and the Go toolchain.")


CHECKS = {
    "B01": codec("runtime monitoring: differential oracle (reference encoder) over generated types and values"),
    "B02": codec("runtime monitoring: round-trip oracle over generated types, values and texts"),
    "B03": codec("runtime monitoring: reference parser as oracle over exhaustive short, mutated and typed inputs"),
    "B04": codec("runtime monitoring: panic, stack, read and allocation monitors under hostile inputs", as_gb=64),
    "B05": codec("runtime monitoring: byte-exact capture oracle over generated values"),
    "B06": codec("runtime monitoring: split, cut and failing streams against the sequential reference"),
    "B07": codec("Go race detector with a result oracle under concurrent first uses of generated types", race=True, shards=4, procs=4),
    "B08": codec("runtime monitoring: reference field-rule model over generated struct types"),
    "M01": codec("runtime monitoring: SHA-1 oracle over generated metainfo bytes"),
    "M02": codec("runtime monitoring: generator-as-oracle field comparison and tiling invariants"),
    "T01": codec("runtime monitoring: round-trip and independent wire oracle over generated messages"),
    "W01": codec("runtime monitoring: independent BEP 3 writer as oracle, split streams"),
    "W02": codec("runtime monitoring: reference reader, allocation and cut monitors over hostile streams", as_gb=64),
    "F01": codec("runtime monitoring: set model as oracle"),
    "G01": codec("runtime monitoring: generator-as-oracle over generated links"),
    "S01": store("runtime monitoring: model-checked histories with observers between all file operations"),
    "S02": store("runtime monitoring: byte-exact oracle over finished torrents and ranges"),
    "S03": store("runtime monitoring: independent admission model over arbitrary puts and reads"),
    "S04": store("offline linearizability checking (porcupine) of recorded concurrent histories, and the Go race detector", race=True, shards=4, procs=4),
    "S05": store("runtime deadlock detection in virtual time with randomized preemption at locks and file operations"),
    "S06": store("fault injection: a crash at every file operation, with a recovery oracle", level="fault_enumeration"),
    "S07": store("fault injection: every file operation failing, with integrity and recovery oracles", level="fault_enumeration"),
    "S08": store("runtime monitoring: waiter outcomes against a model at quiescent points in virtual time"),
    "S09": store("runtime monitoring: conservation oracle at every step and between file operations"),
    "S10": store("runtime monitoring: containment monitor over all file operations, denying and recording escapes"),
    "S11": store("runtime monitoring: generator-as-oracle over damaged directories"),
    "S12": store("runtime monitoring: open files and work files listed after every operation, with failing file operations"),
    "S13": store("runtime monitoring: histories of torrents that share directories, each judged by its own model, one at a time and preempted at locks and file operations"),
    "X01": dict(pkg="pex", shards=8, procs=2, overlay=["sync", "fs"], note=PEX_NOTE,
                technique="runtime monitoring: model of current peers in virtual time as oracle"),
    "X02": dict(pkg="pex", shards=4, procs=4, overlay=["sync", "fs"], race=True, note=PEX_NOTE,
                technique="offline linearizability checking (porcupine, with expiry) of recorded concurrent announces, and the Go race detector"),
    "X03": dict(pkg="pex", shards=8, procs=1, overlay=["sync", "fs"], note=PEX_NOTE,
                technique="runtime monitoring: heap measured between crowds of announces in virtual time"),
}

P2P_NOTE = ("Seeded exploration, not a proof: the real server runs in virtual time on a simulated network that an overlay of the standard library puts under "
            "its sockets, among honest and hostile peers and trackers written independently; every byte that crosses is recorded and judged by rules. Trusts "
            "the rules, the peers' diversity, the simulated network and the Go toolchain.")


def p2p(technique, **kw):
    return dict(dict(pkg="p2p", shards=8, procs=2, overlay=["sync", "fs", "net"], note=P2P_NOTE, technique=technique), **kw)


CHECKS.update({
    "P01": p2p("runtime monitoring: liveness rules for well-behaved peers over recorded message histories with hostile peers"),
    "P02": p2p("runtime monitoring: completion and content oracle for downloads among hostile peers, in virtual time"),
    "P03": p2p("runtime monitoring: offline checker over recorded message histories (requests matched with blocks)"),
    "P04": p2p("runtime monitoring: offline checker over recorded message histories (announcements against verified pieces)"),
    "P05": p2p("runtime monitoring: offline checker over recorded connection histories (conservation of places)"),
    "P06": p2p("runtime monitoring: servers stopped at random moments in virtual time, with monitors of calls, connections, announces and goroutines"),
    "P07": p2p("runtime monitoring: model of tracker tiers and traffic counters as oracle, with failing trackers"),
    "P08": p2p("runtime monitoring: offline checker over recorded handshakes"),
    "P11": p2p("runtime monitoring: completion and conservation oracles over swarms of real servers and the real tracker, with restarts, in virtual time"),
    "P12": p2p("runtime monitoring: goroutines, collectable connections and memory in use counted after every crowd of peers, in virtual time"),
    "P10": p2p("Go race detector over a server in virtual time among many peers and trackers", race=True, shards=8, procs=3),
    "P09": p2p("runtime monitoring: offline checker over recorded message histories (request discipline)"),
})

NOT_APPLICABLE = {}
