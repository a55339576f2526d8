"""The checks, one function per property."""

import json
import os
import re

import vlib

REGISTRY = {}


def check(f):
    REGISTRY[f.__name__] = f
    return f


def cap_of(cfg):
    return int(re.search(r"Cap = (\d+)", open(os.path.join(vlib.SPEC, "cfg", cfg + ".cfg")).read()).group(1))


def pool(r):
    """StreamPool.tla: every transition replayed."""
    cfgs = ["pool_solid", "pool_mixed", "pool_zero", "pool_two", "pool_long", "pool_solid1", "pool_solid3"]
    if r.prop != "C01":
        cfgs += ["pool_fail", "pool_fail1"]
    fs = [r.build]
    fs += [lambda c=c: r.tlc("MCStreamPool", c) for c in cfgs]
    out = r.parallel(*fs)[1:]
    r.parallel(*[lambda c=c, o=o: r.harness("pool", o, cpus=cap_of(c)) for c, o in zip(cfgs, out)
                 if cap_of(c) <= len(vlib.CPUS)])


@check
def C01(r):
    pool(r)


@check
def C02(r):
    small = [("one", {}), ("three", {}), ("live", {}), ("split", {"want_error": True})]
    more = [("one2", {}), ("two", {}), ("single", {}), ("three2", {})]
    models = small + ([] if r.quick else more)
    out = r.parallel(lambda: r.build(sched=True), lambda: r.build(race=True),
                     *[lambda m=m, k=k: r.tlc("ConcurrentPool", "concurrent_" + m, **k) for m, k in models])[2:]
    cases = {m: o for (m, _), o in zip(models, out) if m not in ("live", "split")}

    # The number of processors is that of decoders kept.
    n = len(vlib.CPUS)
    runs = []
    for i in range(n):
        cap = 1 + i % 2 if n > 1 else 1
        pin = [vlib.CPUS[(i + k) % n] for k in range(cap)]
        streams = "OneStream" if r.quick else ["OneStream", "OneStream", "TwoStreams", "Single"][i // 2 % 4]
        names = {"OneStream": ["one", "three"], "TwoStreams": ["two"], "Single": ["single"]}[streams]
        traces = os.path.join(r.work, "traces-%d.ndjson" % i)
        runs.append((cap, streams, traces))
        runs[-1] += (lambda i=i, pin=pin, traces=traces, names=names: r.harness(
            "concpool", traces, *[cases[m] for m in names], sched=True, pin=pin, env={"VERIF_SHARD": "%d/%d" % (i, n)}),)
    r.parallel(*[x[3] for x in runs])

    def validate(cap, streams, files):
        text = "".join(open(f).read() for f in files if os.path.exists(f))
        if not text:
            return
        path = os.path.join(r.work, "traces-%s-%d.ndjson" % (streams, cap))
        open(path, "w").write(text)
        done = r.tlc("ConcurrentTrace", "concurrent_trace", env={"VERIF_TRACES": path},
                     extra=[("Cap = 1", "Cap = %d" % cap), ("<- OneStream", "<- " + streams)])
        ok = {json.loads(l)["done"] for l in open(done)}
        all_ = [json.loads(l) for l in text.splitlines()]
        r.count("walks", len(all_))
        for t in all_:
            if t["id"] not in ok:
                r.violate("trace", "what goroutines did is no behaviour of ConcurrentPool: " + json.dumps(t), t)
                break

    groups = {}
    for cap, streams, f, _ in runs:
        groups.setdefault((cap, streams), []).append(f)
    r.parallel(*[lambda k=k, v=v: validate(k[0], k[1], v) for k, v in groups.items()],
               *[lambda i=i: r.harness("conctasks", sched=True, pin=[vlib.CPUS[i]], env={"VERIF_SHARD": "%d/%d" % (i, n)})
                 for i in range(n)])
    r.harness("concfree", race=True)


@check
def C03(r):
    pool(r)
    r.harness("closing")


@check
def C04(r):
    pool(r)


def walks(r, sub, *specs):
    """Explores (module, config)s and replays them."""
    out = r.parallel(r.build, *[lambda s=s: r.tlc(*s) for s in specs])[1:]
    r.parallel(*[lambda o=o: r.harness(sub, o) for o in out])


@check
def C14(r):
    walks(r, "dircursor", ("DirCursor", "dir_small"), ("DirCursor", "dir_large"))


@check
def C18(r):
    walks(r, "registry", ("Registry", "registry_own"), ("Registry", "registry_zero"), ("Registry", "registry_builtin"))


@check
def C21(r):
    walks(r, "handle", ("Handle", "handle_small"), ("Handle", "handle_one"))


def cases(r, sub, module, *cfgs, **kw):
    """Explores configurations of a specification of cases and runs each case."""
    out = r.parallel(r.build, *[lambda c=c: r.tlc(module, c) for c in cfgs])[1:]
    r.harness(sub, *out, **kw)


@check
def C13(r):
    cases(r, "fsview", "FsView", "fsview_small", "fsview_pairs", "fsview_triples", "fsview_quads", "fsview_longs")


@check
def C15(r):
    out = r.parallel(r.build, *[lambda s=s: r.tlc(*s) for s in
                                [("KeyCache", "keycache"), ("KeyCache", "keycache2"), ("AesProps", "aesprops"),
                                 ("KeyIdentity", "keyidentity")]])[1:]
    r.parallel(lambda: r.harness("keycache", out[0]), lambda: r.harness("keycache", out[1]),
               lambda: r.harness("aesprops", out[2]),
               *[lambda i=i: r.harness("keyidentity", out[3], gomaxprocs=1, env={"VERIF_SHARD": "%d/4" % i})
                 for i in range(4)])


@check
def C17(r):
    cases(r, "graph", "MCCoderGraph", "graph_all", "graph_five", "graph_valid", "graph_linear")


@check
def C16(r):
    cases(r, "errors", "Errors", "errors")


@check
def C07(r):
    near = ["layout_crc", "layout_sizes", "layout_three", "layout_empty", "layout_four", "layout_crc3"]
    far = ["far_many", "far_three", "far_solid"]
    out = r.parallel(r.build, *[lambda c=c: r.tlc("Layout", c) for c in near], *[lambda c=c: r.tlc("Far", c) for c in far])[1:]
    r.harness("layout", *out[:len(near)])
    r.harness("far", *out[len(near):])
    if r.narrow():
        r.harness("layout", *out[:len(near)], arch="386")


@check
def C08(r):
    out = r.parallel(r.build, lambda: r.tlc("Modes", "modes"),
                     *[lambda c=c: r.tlc("Meta", c) for c in ("meta_defined", "meta_order", "meta_empty")])[1:]
    r.harness("modes", out[0])
    r.harness("meta", *out[1:])


@check
def C10(r):
    cases(r, "integrity", "MCIntegrity", "integrity")


@check
def C11(r):
    cases(r, "scan", "MCScan", "scan_one", "scan_two")


@check
def C12(r):
    far = ["far_many", "far_three", "far_solid"]
    out = r.parallel(r.build, lambda: r.tlc("Volumes", "volumes"), lambda: r.tlc("Volumes", "volumes_trail"),
                     *[lambda c=c: r.tlc("Far", c) for c in far])[1:]
    r.harness("volumes", *out[:2])
    r.harness("farsplit", *out[2:])


@check
def C06(r):
    cases(r, "truncate", "Truncate", "truncate", "truncate_four")


@check
def C05(r):
    walks(r, "fault", ("FaultStream", "fault_two"), ("FaultStream", "fault_three"))


@check
def C09(r):
    out = r.parallel(r.build, *[lambda s=s: r.tlc(*s) for s in
                                [("Header", "header_one"), ("Header", "header_pairs"), ("Header", "header_pairs2"),
                                 ("Methods", "methods2" if r.quick else "methods3")]])[1:]
    # What is allocated is measured, so that processes do one thing at a time.
    n = len(vlib.CPUS)
    r.parallel(*[lambda i=i: r.harness("header", *out[:3], gomaxprocs=2, env={"VERIF_SHARD": "%d/%d" % (i, n)})
                 for i in range(n)])
    r.harness("methods", out[3])
    # What is an int has fewer bits elsewhere.
    if r.narrow():
        r.harness("header", out[0], gomaxprocs=2, arch="386")
        r.harness("methods", out[3], arch="386")


@check
def C19(r):
    out = r.parallel(r.build, *[lambda c=c: r.tlc("Chunking", c) for c in
                                ("chunking_cases", "chunking_cases8", "chunking_x86", "chunking_arm")])[1:]
    r.harness("chunking", *out[:2])


RECYCLED = ["deflate", "zstd", "brotli", "lz4"]


@check
def C20(r):
    out = r.parallel(r.build, *[lambda c=c: r.tlc("Recycle", c) for c in
                                ["recycle_one", "recycle_stuck", "recycle_two"] + ([] if r.quick else ["recycle_three"])])[1:]
    one = ["brraw", "lzma2", "lzma", "bzip2", "ppmd", "aes", "bcj", "delta4"]
    fs = [lambda m=m: r.harness("recycle", *out, gomaxprocs=1, env={"VERIF_METHOD": m, "VERIF_COVER": "1"})
          for m in RECYCLED]
    fs += [lambda m=m: r.harness("recycle", *out[:3], gomaxprocs=1, env={"VERIF_METHOD": m}) for m in one]
    fs += [lambda m=m: r.harness("recycle", *out[:3], gomaxprocs=4, env={"VERIF_METHOD": m}) for m in RECYCLED]
    r.parallel(*fs)
    r.harness("recyclemix", *out[:3], env={"VERIF_METHODS": ",".join(RECYCLED + ["brraw", "lzma2", "aes"])})


FILTERS = ["arm", "arm64", "bcj", "bcj2", "ppc", "sparc"]


@check
def C22(r):
    far = r.parallel(r.build, *[lambda f=f: r.tlc("Filters", "filters_far_" + f) for f in FILTERS])[1:]
    near = FILTERS + ["bcj_at", "bcj2_long", "delta1", "delta2", "delta3"] + ([] if r.quick else ["bcj_more", "bcj2_more"])

    def rest():
        out = r.parallel(*[lambda f=f: r.tlc("Filters", "filters_" + f) for f in near])
        r.harness("filters", *out)

    r.parallel(lambda: r.harness("filtersfar", *far, gomaxprocs=len(FILTERS)), rest)
