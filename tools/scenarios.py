"""Which scenarios decide which property, and how many runs of each."""

EDGE = ["edge-p0%d" % i for i in range(1, 10)]

def edge(p, own, other=0, **kw):
    s = "edge-p%s" % p[1:]
    runs = [(s, own)]
    if other:
        runs += [(x, other) for x in EDGE if x != s]
    return dict(runs=runs, **kw)

AUTH = ["auth-p10", "auth-p11", "auth-p12"]

def auth(p, own, other=0, **kw):
    s = "auth-p%s" % p[1:]
    return dict(runs=[(s, own)] + [(x, other) for x in AUTH if x != s], **kw)

def store(*runs, **kw):
    return dict(runs=list(runs), **kw)

SCEN = {
    "P01": edge("P01", 3500, 60),
    "P02": edge("P02", 3500, 60),
    "P03": edge("P03", 3500, 60),
    "P04": edge("P04", 3500, 60),
    "P05": edge("P05", 3500, 60),
    "P06": edge("P06", 3500, 60),
    "P07": edge("P07", 3500, 60),
    "P08": edge("P08", 3500, 60),
    "P09": edge("P09", 3500, 60),
    "P10": auth("P10", 3500, 120),
    "P11": auth("P11", 3500, 120),
    "P12": auth("P12", 3500, 120),
    "P13": store(("st-p13", 2200)),
    "P15": store(("st-p15", 2000)),
    "P14": store(("acme-p14", 6000)),
    "P19": store(("tls-p19", 4000)),
    "P21": store(("ws-p21", 5000)),
    "P20": store(("st-p20", 2000)),
    "P16": store(("st-p16", 2400), ("st-p17", 700)),
    "P17": store(("st-p17", 2400), ("st-p16", 700)),
    "P18": store(("st-p18", 2500)),
}

REAL = [
    "github.com/c2FmZQ/tlsproxy/proxy and its internal packages, built from /repo's working tree without changes",
    "its dependencies: crypto/tls, net/http (server and transport), x/net/http2, x/crypto, go-proxyproto, go-jwt, c2FmZQ/storage",
    "the Go runtime, with its choice of the next goroutine, its clock and its random numbers taken over by the simulator",
    "TLS and HTTP of the simulated clients and backend servers (crypto/tls, net/http, x/net/http2)",
]
STUBS = [
    "TCP: an in-memory network with latency, segmentation, buffers, resets, stalls, partitions and refused or hanging dials",
    "disk: an in-memory file system under the storage package, with process crashes and failing calls",
    "clock and timers: simulated time",
    "randomness: a seeded generator for runtime and crypto/rand",
    "identity providers, browsers and relying parties: simulated nodes with their own misbehaviour; they speak real HTTP over the simulated network",
    "DNS: not used; ACME certificate authority: simulated in P14 (RFC 8555 with http-01 and tls-alpn-01), not used elsewhere (certificates come from the test certificate manager)",
    "QUIC: disabled, UDP is not simulated",
]
ASSUME = [
    "goroutines are preempted at channel, lock, timer and I/O operations and, in some runs, at memory allocations; data races between single instructions are out of reach",
    "one run uses one processor: true parallelism and weak memory effects are not simulated",
    "TCP resets that a kernel sends when a socket with unread data is closed are not simulated",
]
RULE = ("Each case is one simulated execution: a seed decides the configurations, the workload, the faults, the network and every scheduling "
        "decision. Non-trivial: at least one invariant of the oracle was evaluated; distinct: different hash of scheduling decisions and events.")
