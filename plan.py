"""What each check runs: scenarios, seeds per tier, and what is real and what is stubbed."""
COMMON_ASSUMPTIONS = [
    "OpenSSL computes hashes and signatures correctly (its random generator and key generation are replaced by seeded ones)",
    "sampled, not exhaustive: the property held on the seeds explored",
]
LIB = ["lib/src (signer, validator, TLV, NAL unit list, reports, OpenSSL glue)", "lib/src/legacy", "lib/vendors/axis-communications"]
OSSL_STUB = "randomness of OpenSSL and key generation (seeded, fixture keys)"
PLUG_STUB = "signing plugin: latency, failures and capacity decided by the simulator (signatures are real)"
SEI_MEASURE = "distinct kinds of SEI: (pictures, hash list, public key, timestamp, golden, emulation prevention, codec, hash, key, size in units of 16 bytes) tuples"
STREAM_MEASURE = "distinct (NAL unit string, validation string, verdict, accumulated verdict) tuples of all reports"
def sc(scen, variant="stub", quick=20000, thorough=2000000, chunk=400, cap=120, cap_t=3000):
    return dict(scen=scen, variant=variant, quick=quick, thorough=thorough, chunk=chunk, cap=cap, cap_t=cap_t)
def plan(scenarios, measure=STREAM_MEASURE, stubs=(PLUG_STUB, OSSL_STUB), real=LIB, assumptions=(), level="exploration", technique=None, note=None):
    return dict(scenarios=scenarios, measure=measure, stubs=list(stubs), real=list(real), assumptions=list(assumptions), level=level, technique=technique, note=note)
PLUG = ["lib/plugins/threaded-signing (its threads run one at a time under the simulated scheduler)"]
THREAD_STUB = ["GLib/POSIX threads, mutexes, conditions and clocks: replaced by the deterministic scheduler (semantics of the real ones, incl. spurious wake-ups, time-outs and failing thread creation)",
               "signing hardware: latency and failures decided by the simulator (signatures are real)", OSSL_STUB]
SCHED_MEASURE = "distinct interleavings: hash of the complete sequence of thread switches of a run"
TA = ["sequentially consistent memory: accesses are interleaved, weak-memory reorderings are covered only through the race check"]
def thr(scens, real=LIB + PLUG, **k): return plan(scens, measure=SCHED_MEASURE, stubs=THREAD_STUB, real=real, assumptions=TA, **k)
PLAN = {
    "S01": plan([sc("S01", quick=40000)]),
    "S02": plan([sc("S02", quick=50000), sc("S02n", quick=32, chunk=1, thorough=1500)]),
    "S03": plan([sc("S03", quick=40000), sc("S03h", quick=4000), sc("S03n", quick=32, chunk=1, thorough=1500), sc("S03t", "thr", quick=4000, chunk=50, thorough=300000)], real=LIB + PLUG, stubs=[PLUG_STUB] + THREAD_STUB),
    "S04": plan([sc("S04", quick=60000)]),
    "S05": plan([sc("S05", quick=60000)]),
    "S06": plan([sc("S06", quick=25000)]),
    "S07": plan([sc("S07", quick=25000), sc("S07h", quick=6000)]),
    "S08": plan([sc("S08", quick=70000), sc("S08r", quick=10000), sc("S08n", quick=32, chunk=1, thorough=1500)]),
    "S09": plan([sc("S09", quick=60000), sc("S09v", quick=12000), sc("S09p", quick=10000)]),
    "G01": plan([sc("G01", quick=30000), sc("G01r", quick=6000), sc("G01n", quick=32, chunk=1, thorough=1500)], measure=SEI_MEASURE),
    "G02": plan([sc("G02", quick=15000), sc("G02u", "unthr", quick=5000, chunk=60, thorough=300000)], measure=SEI_MEASURE, real=LIB + ["lib/plugins/unthreaded-signing"]),
    "G03": plan([sc("G03", quick=25000)], measure=SEI_MEASURE),
    "G04": plan([sc("G04", quick=25000)], measure=SEI_MEASURE),
    "G05": plan([sc("G05", quick=60000)]),
    "T01": thr([sc("T01", "thr", quick=9000, chunk=60, thorough=600000), sc("T01c", "thr", quick=4000, chunk=50, thorough=300000), sc("T01u", "unthr", quick=3000, chunk=40, thorough=300000)], real=LIB + PLUG + ["lib/plugins/unthreaded-signing"]),
    "T02": thr([sc("T02", "thr", quick=9000, chunk=60, thorough=600000), sc("T02c", "thr", quick=3000, chunk=50, thorough=300000)]),
    "T03": thr([sc("T03", "thr", quick=6000, chunk=60, thorough=500000), sc("T03c", "thr", quick=3000, chunk=30, thorough=200000)]),
    "T04": thr([sc("T04", "thr", quick=9000, chunk=60, thorough=600000), sc("T04c", "thr", quick=4000, chunk=50, thorough=300000), sc("T04s", quick=8000, chunk=100, thorough=600000), sc("T04u", "unthr", quick=8000, chunk=100, thorough=600000)], real=LIB + PLUG + ["lib/plugins/unthreaded-signing"]),
    "T05": thr([sc("T05", quick=12000, chunk=100, thorough=600000), sc("T05u", "unthr", quick=6000, chunk=100, thorough=600000), sc("T05t", "thr", quick=3000, chunk=30, thorough=300000)], real=LIB + PLUG + ["lib/plugins/unthreaded-signing"]),
    "V01": plan([sc("V01", quick=12000, chunk=100), sc("V01m", quick=10000, chunk=100)], stubs=[PLUG_STUB, OSSL_STUB, "trust anchor: the built-in root certificate is replaced by a simulated one, so that genuine attestations can be made"]),
    "F03": plan([sc("F03", quick=20000, chunk=200)], measure="distinct (fault, key type, parameters, outcome) tuples", stubs=[OSSL_STUB, "disk: files and their operations are simulated (failing open, write, close; lost and short writes)"]),
    "F01": plan([sc("F01s", "unthr", quick=25000, chunk=100), sc("F01v", "unthr", quick=25000, chunk=100), sc("F01t", "thr", quick=5000, chunk=60, thorough=300000)], measure="distinct (failing call site, lasting or not) and report tuples", stubs=[OSSL_STUB, "memory allocator and OpenSSL calls: real, but any call can be made to fail"], real=LIB + PLUG + ["lib/plugins/unthreaded-signing"]),
    "F02": plan([sc("F02", quick=25000, chunk=200)], measure="distinct (report strings, verdict) and (NAL unit kind, altered, return code) tuples", stubs=[PLUG_STUB, OSSL_STUB], note="memory errors are found by AddressSanitizer and bounds checks around exact-size buffers; allocations and crypto objects are counted"),
    "F04": plan([sc("F04", quick=25000, chunk=200)], measure="distinct (refused setting, return code) pairs", stubs=[PLUG_STUB, OSSL_STUB]),
    "L01": plan([sc("L01", quick=12000, chunk=200), sc("L01f", quick=40000, chunk=300), sc("L01r", quick=8000, chunk=200), sc("L01x", quick=4000, chunk=100)], stubs=[PLUG_STUB, OSSL_STUB, "old cameras: a signer for the old format written for the simulator and calibrated against the streams recorded with version 1.1.29"]),
}
