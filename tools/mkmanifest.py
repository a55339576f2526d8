#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# property: (specification, technique, level, note)
CHECKS = {
    "C01": ("TLA+ (StreamPool) checked by TLC, every transition replayed into the code",
            "All histories of two or three handles over solid, mixed, empty and single-file streams up to the bounds of "
            "spec/cfg/pool_*.cfg are replayed edge by edge on stored streams and by random walks on every method and chain; "
            "contents are compared byte by byte. Trusts the harness's own encoders."),
    "C02": ("TLA+ (ConcurrentPool) checked by TLC; traces of the code under controlled schedules checked against it",
            "Goroutines with separate handles are specified at the grain of taking, creating, moving, using, giving back and "
            "closing decoders; TLC shows that no decoder has two users, and that taking in two steps breaks this. The programs of "
            "the model run on a build of the code that can be stopped before every statement, under schedules with few "
            "preemptions and random ones; what was seen is checked by TLC to be a behaviour of the model. The other shared state "
            "(key cache, registry, recycled decoders, listings) is driven the same way, and everything runs under the race "
            "detector as well. Schedules are sampled, not exhausted."),
    "C03": ("TLA+ (StreamPool) checked by TLC, every transition replayed with recording decoders",
            "Decoder creation, reads and closes are observed through a registered decoder on top of each chain and compared "
            "with the model after every call, for pools of 1, 2 and 3 decoders (set through the CPU affinity)."),
    "C04": ("TLA+ (StreamPool) checked by TLC, every transition replayed with recording decoders",
            "Which decoder serves an open, how many are created and how many bytes they decode is compared with the model "
            "after every call."),
    "C05": ("TLA+ (FaultStream) checked by TLC, the code walked along the edges that agree with what it does",
            "Storage fails at random reads, once, a few times or for good, delivering nothing, some or nearly all of the data, "
            "below every method and chain; every result is matched against the model, contents are compared byte by byte, and "
            "each read that opening an archive takes is failed on its own."),
    "C06": ("TLA+ (Truncate) checked by TLC, walks of the explored state graph replayed for every cut",
            "Archives of every method and chain are cut at every byte of their data, by moving the header and by storage that "
            "ends, and made of streams that decode to less than declared; handles are opened, read and closed along random "
            "walks of the model that belongs to what can still be decoded, which independent decoders tell."),
    "C07": ("TLA+ (Layout, Far) checked by TLC, every case replayed into the code",
            "Every mixture of streams, files, directories and empty files within the bounds of spec/cfg/layout_*.cfg is "
            "written with every way of leaving optional parts out; the listing and the contents are compared, and each file "
            "with data has to be read from its own stream. Positions and sizes beyond 31 and 32 bits are specified apart (Far)."),
    "C08": ("TLA+ (Meta, Modes) checked by TLC, every case replayed into the code",
            "Every choice of which entries have which property, in every order and encoding of the property records, with "
            "values over the whole range of times, attributes and names; file modes for every combination of attribute bits."),
    "C09": ("TLA+ (Header, Methods) checked by TLC, every case replayed into the code",
            "A writer that departs in up to two elements from the header it means to write is explored; the rules of the "
            "reader are checked to be enough for every later use of counts and indices. Each header is opened and read, plain "
            "and encoded, with what is allocated measured; so is every departure of a coder from a correct one. Memory for "
            "the dictionaries of coders is not counted."),
    "C10": ("TLA+ (Integrity) checked by TLC, every case replayed into the code",
            "Which regions of an archive may change without consequence is specified; every bit of short regions and bursts "
            "of up to 32 bits are changed, with and without renewing the checksums above them."),
    "C11": ("TLA+ (Scan) checked by TLC, every case replayed into the code",
            "The search is specified down to its buffer and checked to find the first archive; all places around the ends of "
            "its buffers and of the range are used for the archive, for fragments and for signatures that are not valid."),
    "C12": ("TLA+ (Volumes, Far) checked by TLC, every case replayed into the code",
            "Every way of cutting an archive into up to four volumes with one of them missing, unreadable or cut short is "
            "made of real files; what is opened, listed, read and left open in the process is compared. One archive is cut at "
            "every byte, and into more than a thousand volumes; sparse volumes reach beyond 4 GiB."),
    "C13": ("TLA+ (FsView) checked by TLC, every case replayed into the code",
            "Every set of entries within the bounds of spec/cfg/fsview_*.cfg (names of up to four elements over ordinary "
            "elements, '.', '..' and empty ones, files, directories and duplicates) is built as an archive, walked, listed "
            "and probed with paths that exist and that do not."),
    "C14": ("TLA+ (DirCursor) checked by TLC, every transition replayed into the code",
            "All histories of two handles with every batch size on directories of up to a few elements, and random walks on "
            "one of thousands."),
    "C15": ("TLA+ (KeyCache, AesProps, KeyIdentity) checked by TLC, every transition replayed into the code",
            "Histories of decrypting with related passwords, salts and cost parameters in one process and in fresh ones, with "
            "the cache evicting, every property vector of the AES coder, and different initialisation vectors."),
    "C16": ("TLA+ (Errors) checked by TLC, every case replayed into the code",
            "Every chain of coders, encrypted and not, with a fault of every kind at every phase, for files and for encoded "
            "headers; hint and wrapped cause are compared."),
    "C17": ("TLA+ (CoderGraph) checked by TLC, every case replayed into the code",
            "Every arrangement of coders within the bounds of spec/cfg/graph_*.cfg is built with recording coders, which see "
            "their properties, sizes and inputs; arrangements that cannot be read have to be rejected."),
    "C18": ("TLA+ (Registry) checked by TLC, every transition replayed into the code",
            "All histories of registrations, opens and reads over related method ids, and of replacing the built-in methods, "
            "which run in processes of their own."),
    "C19": ("TLA+ (Chunking) checked by TLC, every pair of schedules replayed into the code",
            "A decoder that looks ahead is specified between a source and a consumer with schedules of their own; every pair of "
            "schedules for up to eight bytes is imposed on every filter, through decoders that deliver portions in front of "
            "each coder, and long contents full of branch instructions are read through every filter, method and pair of both "
            "with portions and buffers around all block sizes. Decoders that return nothing without an error are left out."),
    "C20": ("TLA+ (Recycle) checked by TLC, every transition replayed into the code",
            "Histories of two or three handles over streams that decode, are cut short, damaged, made of noise or refer to what "
            "was before their beginning are replayed on the decoders themselves, caught by a registered decoder above them; "
            "what each stream decodes to is compared with what it does in a process of its own. Garbage collection may empty "
            "the recyclers at any time, which hides nothing in the model but may in the code."),
    "C21": ("TLA+ (Handle) checked by TLC, every transition replayed into the code",
            "All histories of reads with buffers of every size relative to what is left, of empty reads, of closing once and "
            "twice and of asking for information, on both interfaces and on every method."),
    "C22": ("TLA+ (Filters) checked by TLC, every case replayed into the code",
            "The eight filters are specified in both directions; TLC shows that one inverts the other on all short sequences over "
            "the bytes that matter, at several positions and wrapping around at 4 GiB, and the decoders have to return the plain "
            "bytes of every case. Long sequences are encoded by encoders that are compared with the specification first."),
}

NA = {
    "C23": "Whether third-party LZMA, PPMd, Deflate, bzip2, Zstandard, Brotli and LZ4 code implements its numeric format is "
           "not a question about states and transitions of this system; the code lives in other modules.",
}


def main():
    checks = []
    for p in sorted(CHECKS):
        tech, note = CHECKS[p]
        checks.append({
            "property": p,
            "quick_cmd": "bin/check %s quick" % p,
            "thorough_cmd": "bin/check %s thorough" % p,
            "technique": tech,
            "level": "model_checking",
            "level_note": note,
        })
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    na = [{"property": p, "reason": NA.get(p, "its check is not built yet")} for p in props if p not in CHECKS]
    m = {
        "version": 1,
        "setup_cmd": "bash tools/setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "See DESIGN.md. No hooks are needed: the checks use the public API only.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
