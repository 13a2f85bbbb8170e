"""Per-property settings of the checks: build flavours, number of runs, what ran real and what was simulated."""
STUB = ["thread scheduling (seeded, one task at a time, switch points at every instrumented access)", "memory allocator (seeded failures, chosen prior contents, redzones)",
        "clock", "mutexes and one-time initialisation (cooperative)"]
STREAMS = ["input and output streams (seeded fragmentation, end of data, full device, errors)"]
DEFAULT = dict(flavours=["asan", "native"], runs={"*": 20000, "popcnt": 6000}, wall=60, recheck=150, minimise=40,
               thorough=dict(runs={"*": 400000, "popcnt": 100000}, wall=600, recheck=600, flavours=["asan", "native", "plain", "popcnt"]),
               real=["all code under include/sim_ds reached by the scenario, compiled from the working tree", "libstdc++ containers and iostreams", "boost aligned allocator"], stub=STUB)
BITS = ["asan", "native", "popcnt"]
PROPS = {
    "C01": dict(stub=STUB + STREAMS),
    "C02": dict(stub=STUB + STREAMS),
    "C03": dict(stub=STUB + STREAMS),
    "C04": dict(flavours=BITS),
    "C05": dict(flavours=BITS),
    "C06": dict(flavours=BITS),
    "C07": dict(),
    "C08": dict(),
    "C09": dict(),
    "C10": dict(),
    "C11": dict(flavours=BITS),
    "C12": dict(flavours=BITS),
    "C13": dict(flavours=BITS),
    "C14": dict(),
    "C16": dict(),
    "C15": dict(stub=STUB + STREAMS),
}
