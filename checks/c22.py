"""C22: the command-line tools: wrap and extract are inverse, probe reports what is in the file."""
import io
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
from datetime import datetime, timezone
from fractions import Fraction
from uuid import UUID

from mediatimestamp.immutable import Timestamp, TimeOffset

from mc import env
from mc import formats as F
from mc import gsfdom as D
from mc import h264 as H
from mc import refgsf as R
from mc.core import Check, Violation
from mc.sinks import Sink
from checks.c21 import Pieces, Writer, adts
from mediagrains import tools

FLOW, SRC = UUID("c6f0e1a2-0007-4000-8000-0123456789ab"), UUID("c6f0e1a2-0008-4000-8000-0123456789ab")
MADE = {FLOW, SRC}  # identifiers the tools have generated so far
INS = ["file", "pipe", "trickle"]
OUTS = ["file", "pipe"]
PLACEMENTS = [(i, o) for i in INS for o in OUTS]
PROGRAM = ("import sys; sys.path.insert(0, %r); import mc.env; mc.env.REPO = %r; from mediagrains import tools; "
           "sys.argv = sys.argv[1:]; getattr(tools, sys.argv[0])()")


class Std:
    """What sys.stdin or sys.stdout is to the tools."""
    def __init__(self, buffer):
        self.buffer = buffer


def stamp(v):
    return "%s%d:%d" % ("-" if v[0] < 0 else "", v[1], v[2])


def ratio(v):
    f = Fraction(*v)
    return {"numerator": f.numerator, "denominator": f.denominator}


def created_of(t):
    return datetime(*t, tzinfo=timezone.utc)


def grain_json(g):
    """What the probe has to say of a grain."""
    out = {"source_id": str(g["source_id"]), "flow_id": str(g["flow_id"]), "origin_timestamp": stamp(g["ots"]),
           "sync_timestamp": stamp(g["sts"]), "rate": ratio(g["rate"]), "duration": ratio(g["duration"]),
           "grain_type": g["type"],
           "timelabels": [{"tag": t, "timelabel": {"frames_since_midnight": c, "frame_rate_numerator": n,
                                                   "frame_rate_denominator": d, "drop_frame": df}}
                          for (t, c, n, d, df) in g["timelabels"]]}
    h = g["hdr"]
    if g["type"] == "video":
        off, comps = 0, []
        for (w, hh, st, ln) in h["components"]:
            comps.append({"width": w, "height": hh, "stride": st, "length": ln, "offset": off})
            off += ln
        out["cog_frame"] = dict({k: h[k] for k in ("format", "layout", "width", "height", "extension")}, components=comps)
        for k, name in (("aspect", "source_aspect_ratio"), ("pixel_aspect", "pixel_aspect_ratio")):
            if h[k][0]:
                out["cog_frame"][name] = ratio(h[k])
    elif g["type"] == "coded_video":
        f = {k: h[k] for k in ("format", "layout", "origin_width", "origin_height", "coded_width", "coded_height")}
        f["length"] = len(g["data"])
        if h["key_frame"] is not None:
            f["is_key_frame"] = h["key_frame"]
        if h["temporal_offset"] is not None:
            f["temporal_offset"] = h["temporal_offset"]
        if h["unit_offsets"]:
            f["unit_offsets"] = list(h["unit_offsets"])
        out["cog_coded_frame"] = f
    elif g["type"] == "audio":
        out["cog_audio"] = {k: h[k] for k in ("format", "channels", "samples", "sample_rate")}
    elif g["type"] == "coded_audio":
        out["cog_coded_audio"] = {k: h[k] for k in ("format", "channels", "samples", "sample_rate", "priming", "remainder")}
    elif g["type"] == "event":
        out["event_payload"] = {"type": h["event_type"], "topic": h["topic"], "data": h["event_data"]}
    return out


def normal(v):
    """The probe's grain without what the file does not say, and with absent lists as empty ones."""
    v = json.loads(json.dumps(v))
    v.pop("creation_timestamp", None)
    v.setdefault("timelabels", [])
    for t in v["timelabels"]:
        t["timelabel"] = {k: t["timelabel"].get(k) for k in ("frames_since_midnight", "frame_rate_numerator",
                                                             "frame_rate_denominator", "drop_frame")}
    if "cog_frame" in v:
        v["cog_frame"].setdefault("extension", 0)
    if "cog_coded_frame" in v and not v["cog_coded_frame"].get("unit_offsets"):
        v["cog_coded_frame"].pop("unit_offsets", None)
    return v


def span(grains):
    """(start, end) of the media times of grains."""
    starts, ends = [], []
    for g in grains:
        t = D.to_ts(g["ots"])
        starts.append(t)
        if g["type"] in ("audio", "coded_audio") and g["hdr"]["sample_rate"]:
            t = t + TimeOffset.from_count(g["hdr"]["samples"] - 1, g["hdr"]["sample_rate"])
        ends.append(t)
    return min(starts), max(ends)


OPERATIONS = [["read", 0], ["read", 1], ["read", 4], ["read", 30], ["read"], ["read", None], ["read", -1],
              ["seek", 0], ["seek", 3], ["seek", 9, 0], ["seek", 30], ["seek", 0, 1], ["seek", 4, 1], ["seek", -1, 1],
              ["seek", 0, 2], ["seek", -2, 2], ["tell"]]


class C22(Check):
    id = "C22"
    rule = "two executions differ when the essence, the options, the placement of input and output, or the file differ"
    assumptions = ["compressed essence is whole streams of whole units",
                   "GSF files given to extract hold video, audio and empty grains; every grain's segment is declared in "
                   "the file, or in another of the files concatenated with it",
                   "the local time of reading (creation timestamps) is not part of what the probe must reproduce"]
    case_timeout = 120.0

    # -- enumeration --------------------------------------------------------------------------------------------------
    def cases(self):
        t = self.thorough
        small = [("U8_444", 1, 1), ("UYVY", 2, 1), ("S16_422_10BIT", 2, 1), ("v210", 6, 1)]
        for fmt, w, h in small:
            unit = F.components(fmt, w, h)[1]
            lengths = (range(0, 3 * unit + 2) if unit < 20 else
                       [0, 1, unit - 1, unit, unit + 1, 2 * unit, 3 * unit - 1])
            for n in lengths:
                for a in range(len(PLACEMENTS)):
                    for b in (range(len(PLACEMENTS)) if t else [(a + 1) % len(PLACEMENTS)]):
                        yield "video", {"format": fmt, "size": [w, h], "n": n, "rate": 25, "start": None, "ids": 3,
                                        "wrap": a, "extract": b}
        for fmt in list(F.PLANAR) + list(F.PACKED):
            for (w, h) in ((2, 2), (48, 2), (6, 4)):
                unit = F.components(fmt, w, h)[1]
                for n in ((unit, 2 * unit, 2 * unit + 1) if t else (2 * unit + 1,)):
                    for a in (range(len(PLACEMENTS)) if t else [(w + h + n) % len(PLACEMENTS)]):
                        yield "video", {"format": fmt, "size": [w, h], "n": n, "rate": 25, "start": None, "ids": 3,
                                        "wrap": a, "extract": (a + 3) % len(PLACEMENTS)}
        for rate in (1, 24, 25, 30, 50, 60, 120, 1000):
            for start in (None, "0:0", "10:0", "1500000000:40000000", "-2:0", "1:500000000"):
                for ids in range(4):
                    yield "video", {"format": "UYVY", "size": [2, 2], "n": 8 * 5, "rate": rate, "start": start,
                                    "ids": ids, "wrap": ids % 6, "extract": 0}
        yield "video", {"format": None, "size": None, "n": 1920 * 1080 * 4 + 7, "rate": None, "start": None, "ids": 3,
                        "wrap": 3, "extract": 3}
        for fmt in F.COMPRESSED:
            if fmt not in ("H264", "AVCI"):
                for n in (0, 1, 1000):
                    yield "other", {"format": fmt, "n": n}
        for fmt in F.AUDIO:
            for ch, samples in ((1, 1), (2, 3), (3, 2)) if not t else itertools.product((1, 2, 3, 8), (1, 2, 3, 48)):
                unit = F.audio_size(fmt, ch, samples)
                for n in (0, 1, unit - 1, unit, unit + 1, 2 * unit, 3 * unit - 1):
                    yield "audio", {"format": fmt, "channels": ch, "samples": samples, "sample_rate": 48000, "n": n,
                                    "start": None, "ids": 3, "wrap": (n + ch) % 6, "extract": (n + 2 * ch) % 6}
        for sr in (48000, 44100, 96000, 32000, 8000, 1, 192000):
            for samples in (1, 1920, 1601, 1024, 480):
                for start in (None, "10:0", "1500000000:0", "1:123456789"):
                    yield "audio", {"format": "S16_INTERLEAVED", "channels": 2, "samples": samples, "sample_rate": sr,
                                    "n": 4 * samples * 4, "start": start, "ids": samples % 4, "wrap": samples % 6,
                                    "extract": 0}
        for d in ("channels", "samples", "sample_rate", "format", "all"):
            c = {"format": "S32_PLANES", "channels": 3, "samples": 100, "sample_rate": 44100, "n": 40000, "start": None,
                 "ids": 3, "wrap": 2, "extract": 1}
            for k in (["channels", "samples", "sample_rate", "format"] if d == "all" else [d]):
                c[k] = None
            yield "audio", c
        for seq in itertools.chain.from_iterable(itertools.product((0, 1, 3), repeat=r) for r in range(1, 4)):
            for a in range(len(PLACEMENTS)):
                yield "aac", {"seq": list(seq), "freq": 3 + len(seq), "options": {}, "wrap": a,
                              "extract": (a + len(seq)) % 6}
        for options in ({"samples-per-grain": 1024}, {"channels": 2}, {"sample-rate": 48000},
                        {"channels": 2, "sample-rate": 48000, "samples-per-grain": 1024}, {"start-ts": "10:0"}):
            yield "aac", {"seq": [3, 1, 2], "freq": 3, "options": options, "wrap": 0, "extract": 0}
        kinds = ["I", "P", "B", "Pm", "Ia", "Pa", "D", "R", "F", "Pe"]
        for seq in itertools.product(kinds, repeat=2):
            for fmt in ("H264", "AVCI") if seq[0] == "I" else ("H264",):
                a = (kinds.index(seq[0]) + kinds.index(seq[1])) % 6
                for a in (range(6) if t else [a]):
                    yield "h264", {"format": fmt, "units": ["I"] + list(seq), "wrap": a, "extract": (a + 2) % 6}
        # extraction of chosen segments
        ids = [1, 2, 65535]
        for history in itertools.chain.from_iterable(itertools.product(range(3), repeat=r)
                                                     for r in range(5 if not t else 6)):
            for only in ([], [1], [2], [2, 1], [1, 2, 65535], [7], [1, 7], [0]):
                k = (len(history) + sum(history)) % 6
                yield "only", {"ids": [ids[i] for i in history], "only": only, "place": k}
        for kinds in itertools.product(("video", "audio", "coded_video", "coded_audio", "empty"), repeat=2):
            for a in range(6):
                yield "kinds", {"kinds": list(kinds), "place": a}
        # the probe
        for kind in D.TYPES:
            for dev in D.deviations(kind, 1 if not t else 2):
                if self.probed(kind, dev):
                    for major in ((8, 7, 9) if not t or len(dev) < 2 else (8,)):
                        yield "probe", {"grains": [[kind, dev, 1, 0]], "version": major, "flags": ["-a", "-g"],
                                        "head": 0, "in": "file"}
                    if len(dev) < 2:
                        yield "probe", {"grains": [[kind, dev, 1, 0]] * 2, "version": 8, "flags": [], "head": 0,
                                        "in": "pipe"}
        for history in itertools.chain.from_iterable(itertools.product(range(4), repeat=r) for r in range(4)):
            for flags in ([], ["-a"], ["-g"], ["-a", "-g"]):
                for head in range(4):
                    c = {"grains": [[["video", "audio", "event", "coded_video"][k], {}, [1, 2, 1, 65535][k],
                                     [5, 3, 7, 0][(k + i) % 4]] for i, k in enumerate(history)],
                         "version": 8, "flags": flags, "head": head, "in": INS[(len(flags) + head) % 3]}
                    yield "probe", c
                    if head == 0:
                        yield "probe", dict(c, unlisted=True)
        for k in range(8):
            yield "concatenated", {"k": k}
        for pieces in ([12], [1] * 12, [5, 7], [3] * 4, [11, 1], []):
            for first in range(len(OPERATIONS)):
                yield "stream", {"pieces": pieces, "first": first, "depth": 3 if not t else 4}
        for k in range(10 if not t else 24):
            yield "process", {"k": k}

    def probed(self, kind, dev):
        g = D.abstract(kind, dev)
        return Fraction(*g["rate"]) >= 0

    def run(self, kind, case):
        self.dir = tempfile.mkdtemp(prefix="c22-")
        try:
            return getattr(self, kind)(case)
        finally:
            shutil.rmtree(self.dir)

    # -- running a tool -----------------------------------------------------------------------------------------------
    def tool(self, name, args, data, into, outof):
        """Run a tool on input given as a file, or through stdin; the bytes it wrote to its output."""
        self.stats.transitions += 1
        fin, fout = os.path.join(self.dir, "in"), os.path.join(self.dir, "out")
        argv = [name]
        stdin = Std(io.BytesIO(b""))
        if into == "file":
            with open(fin, "wb") as f:
                f.write(data)
            argv.append(fin)
        else:
            raw = Pieces([data] if into == "pipe" else [data[i:i + 5] for i in range(0, len(data), 5)] if len(data) < 5000
                         else [data[i:i + 4096] for i in range(0, len(data), 4096)])
            stdin = Std(raw)
            argv.append("-")
        sink = Sink()
        stdout = Std(io.BufferedWriter(sink)) if outof else io.StringIO()
        if outof:
            argv.append(fout if outof == "file" else "-")
        keep = sys.argv, sys.stdin, sys.stdout, sys.stderr
        sys.argv, sys.stdin, sys.stdout, sys.stderr = argv + list(args), stdin, stdout, io.StringIO()
        try:
            try:
                getattr(tools, name)()
            except SystemExit as e:
                if e.code not in (None, 0):
                    raise Violation("%s ended with %r: %s" % (argv + list(args), e.code, sys.stderr.getvalue()[-300:]))
        finally:
            sys.argv, sys.stdin, sys.stdout, sys.stderr = keep
        if not outof:
            return stdout.getvalue()
        if outof == "file":
            with open(fout, "rb") as f:
                out = f.read()
            os.unlink(fout)
            stdout.buffer.flush()
            if sink.b:
                raise Violation("%s wrote %d bytes to its standard output" % (argv, len(sink.b)))
            return out
        stdout.buffer.flush()
        return bytes(sink.b)

    def round(self, name, args, data, case):
        """Wrap, read the file independently, and extract it again."""
        gsf = self.tool(name, args, data, *PLACEMENTS[case["wrap"]])
        try:
            f = R.parse(gsf)
        except R.Bad as e:
            raise Violation("%s %s of %d bytes does not give a GSF file: %s" % (name, args, len(data), e))
        held = b"".join(g["data"] for g in f["grains"])
        if held != data:
            raise Violation("%s %s: the grains hold %d bytes %r, given %d bytes %r"
                            % (name, args, len(held), held[:40], len(data), data[:40]))
        if len(f["segments"]) != 1 or any(g["local_id"] != f["segments"][0]["local_id"] for g in f["grains"]):
            raise Violation("segments %r" % (f["segments"],))
        back = self.tool("extract_gsf_essence", [], gsf, *PLACEMENTS[case["extract"]])
        if back != data:
            raise Violation("%s %s (%s to %s) and extract (%s to %s) of %d bytes give back %d: %r for %r"
                            % ((name, args) + PLACEMENTS[case["wrap"]] + PLACEMENTS[case["extract"]] +
                               (len(data), len(back), back[:40], data[:40])))
        return f

    def ids(self, f, case):
        flows = {g["flow_id"] for g in f["grains"]}
        sources = {g["source_id"] for g in f["grains"]}
        if f["grains"] and (len(flows) > 1 or len(sources) > 1 or flows != {f["segments"][0]["id"]}):
            raise Violation("flows %r, sources %r in the segment of %r" % (flows, sources, f["segments"][0]["id"]))
        made = set()
        if not case["ids"] & 1:
            made.add(f["segments"][0]["id"])
        if not case["ids"] & 2:
            made |= sources
        if UUID(int=0) in made or made & MADE:
            raise Violation("identifiers %r generated" % (made,))
        MADE.update(made)
        if case["ids"] & 1 and f["segments"][0]["id"] != FLOW:
            raise Violation("flow id %s, told %s" % (f["segments"][0]["id"], FLOW))
        if case["ids"] & 2 and sources - {SRC}:
            raise Violation("source ids %s, told %s" % (sources, SRC))

    def options(self, case):
        args = []
        if case["ids"] & 1:
            args += ["--flow-id", str(FLOW)]
        if case["ids"] & 2:
            args += ["--source-id", str(SRC)]
        if case["start"] is not None:
            args += ["--start-ts=" + case["start"]]
        return args

    def data(self, n):
        if n > 100000:
            return bytes(range(256)) * (n // 256) + bytes(range(n % 256))
        return bytes((i * 31 + (i >> 8) * 7 + 1) & 255 for i in range(n))

    # -- essence ------------------------------------------------------------------------------------------------------
    def video(self, case):
        args = self.options(case)
        if case["size"]:
            args += ["--size", "%dx%d" % tuple(case["size"])]
        if case["format"]:
            args += ["--format", case["format"]]
        if case["rate"]:
            args += ["--rate", str(case["rate"])]
        w, h = case["size"] or (1920, 1080)
        name, rate = case["format"] or "S16_422_10BIT", Fraction(case["rate"] or 25)
        data = self.data(case["n"])
        f = self.round("wrap_video_in_gsf", args, data, case)
        self.ids(f, case)
        comps, unit = F.components(name, w, h)
        self.cut(f, data, unit)
        start = Timestamp.from_str(case["start"] or "0:0")
        first = D.to_ts(f["grains"][0]["ots"]).to_count(rate) if f["grains"] else 0
        for i, g in enumerate(f["grains"]):
            want = Timestamp.from_count(first + i, rate)
            if D.to_ts(g["ots"]) != want or D.to_ts(g["sts"]) != want:
                raise Violation("grain %d at %r (sync %r), expected %s" % (i, g["ots"], g["sts"], want))
            if g["type"] != "video" or (g["hdr"]["width"], g["hdr"]["height"], g["hdr"]["format"]) != \
                    (w, h, R.DOC_FRAME[name]):
                raise Violation("grain is %s %r" % (g["type"], g["hdr"]))
            if g["hdr"]["components"] != [(cw, ch, st, ln) for (_, st, cw, ch, ln) in comps]:
                raise Violation("components %r" % (g["hdr"]["components"],))
            if Fraction(*g["rate"]) != rate or Fraction(*g["duration"]) != 1 / rate:
                raise Violation("rate %r duration %r" % (g["rate"], g["duration"]))
        if f["grains"] and abs(Timestamp.from_count(first, rate) - start) >= TimeOffset.from_count(1, rate):
            raise Violation("starts at %r, told %s" % (f["grains"][0]["ots"], start))
        return case, tuple(g["ots"] for g in f["grains"])

    def cut(self, f, data, unit):
        want = [data[i:i + unit] for i in range(0, len(data), unit)]
        got = [g["data"] for g in f["grains"]]
        if got != want:
            raise Violation("%d bytes are cut into %r, the units have %d" % (len(data), [len(x) for x in got], unit))

    def other(self, case):
        data = self.data(case["n"])
        f = self.round("wrap_video_in_gsf", ["--format", case["format"], "--size", "16x16"], data,
                       {"wrap": case["n"] % 6, "extract": 0})
        return case, len(f["grains"])

    def audio(self, case):
        args = self.options(case)
        for k, opt in (("channels", "channels"), ("samples", "samples-per-grain"), ("format", "format"),
                       ("sample_rate", "sample-rate")):
            if case[k] is not None:
                args += ["--" + opt, str(case[k])]
        name, ch = case["format"] or "S16_PLANES", case["channels"] or 2
        samples, sr = case["samples"] or 1920, case["sample_rate"] or 48000
        data = self.data(case["n"])
        f = self.round("wrap_audio_in_gsf", args, data, case)
        self.ids(f, case)
        self.cut(f, data, F.audio_size(name, ch, samples))
        start = Timestamp.from_str(case["start"] or "0:0")
        first = D.to_ts(f["grains"][0]["ots"]).to_count(sr) if f["grains"] else 0
        for i, g in enumerate(f["grains"]):
            want = Timestamp.from_count(first + i * samples, sr)
            if D.to_ts(g["ots"]) != want or D.to_ts(g["sts"]) != want:
                raise Violation("grain %d at %r (sync %r), expected %s" % (i, g["ots"], g["sts"], want))
            h = g["hdr"]
            if g["type"] != "audio" or (h["format"], h["channels"], h["samples"], h["sample_rate"]) != \
                    (R.DOC_AUDIO[name], ch, samples, sr):
                raise Violation("grain is %s %r" % (g["type"], h))
            if Fraction(*g["rate"]) != Fraction(sr, samples) or Fraction(*g["duration"]) != Fraction(samples, sr):
                raise Violation("rate %r duration %r" % (g["rate"], g["duration"]))
        if f["grains"] and abs(Timestamp.from_count(first, sr) - start) >= TimeOffset.from_count(1, sr):
            raise Violation("starts at %r, told %s" % (f["grains"][0]["ots"], start))
        return case, tuple(g["ots"] for g in f["grains"])

    def aac(self, case):
        frames = [adts((bytes([0xFF, 0xF1, 0x4C + i]) * 3)[:n], case["freq"], 2) for i, n in enumerate(case["seq"])]
        data = b"".join(frames)
        args = ["--format", "AAC", "--flow-id", str(FLOW), "--source-id", str(SRC)]
        for k, v in case["options"].items():
            args += ["--" + k, str(v)]
        f = self.round("wrap_audio_in_gsf", args, data, case)
        self.ids(f, {"ids": 3})
        if [g["data"] for g in f["grains"]] != frames:
            raise Violation("%d frames make grains of %r bytes" % (len(frames), [len(g["data"]) for g in f["grains"]]))
        if any(g["type"] != "coded_audio" or g["hdr"]["format"] != R.DOC_AUDIO["AAC"] for g in f["grains"]):
            raise Violation("grains are %r" % ([(g["type"], g["hdr"]) for g in f["grains"]],))
        return case, tuple((g["ots"], g["rate"]) for g in f["grains"])

    def h264(self, case):
        w = Writer("fields" if "F" in case["units"] else "base", "redundant")
        for u in case["units"]:
            w.unit(u)
        data, at = H.stream(w.units, 4)
        args = ["--format", case["format"], "--flow-id", str(FLOW), "--source-id", str(SRC)]
        f = self.round("wrap_video_in_gsf", args, data, case)
        self.ids(f, {"ids": 3})
        want = [data[a:b] for a, b in zip(at, at[1:] + [len(data)])]
        if [g["data"] for g in f["grains"]] != want:
            raise Violation("access units of %r bytes make grains of %r" % ([len(x) for x in want],
                                                                          [len(g["data"]) for g in f["grains"]]))
        if any(g["type"] != "coded_video" or g["hdr"]["format"] != R.DOC_FRAME[case["format"]] for g in f["grains"]):
            raise Violation("grains are %r" % ([(g["type"], g["hdr"]) for g in f["grains"]],))
        return case, tuple(at)

    # -- files --------------------------------------------------------------------------------------------------------
    def gsf(self, grains, version=8, segments=None, created=(2023, 4, 5, 6, 7, 8), tags=(), fid=D.U1, terminator=True):
        if segments is None:
            segments = [(i, []) for i in sorted({g["local_id"] for g in grains})]
        f = {"version": (version, 0), "id": fid, "created": created, "tags": list(tags), "terminator": terminator,
             "segments": [{"local_id": i, "id": UUID(int=1000 + i), "count": sum(g["local_id"] == i for g in grains),
                           "tags": list(t)} for i, t in segments],
             "grains": [R_form(g) for g in grains]}
        return R.encode(f)

    def only(self, case):
        grains = []
        for i, k in enumerate(case["ids"]):
            g = D.abstract(["video", "audio", "coded_video"][i % 3], {})
            g.update(local_id=k, ots=(1, i, 0), data=bytes([65 + i]) * (i + 1))
            grains.append(g)
        args = []
        for k in case["only"]:
            args += ["--only-id", str(k)]
        out = self.tool("extract_gsf_essence", args, self.gsf(grains, segments=[(1, []), (2, []), (65535, [])]),
                        *PLACEMENTS[case["place"]])
        want = b"".join(g["data"] for g in grains if not case["only"] or g["local_id"] in case["only"])
        if out != want:
            raise Violation("grains of segments %r, --only-id %r: %r extracted, expected %r"
                            % (case["ids"], case["only"], out, want))
        return out

    def kinds(self, case):
        grains = []
        for i, k in enumerate(case["kinds"] + ["video"]):
            g = D.abstract(k, {})
            g["ots"] = (1, i, 0)
            if k != "empty":
                g["data"] = bytes([97 + i]) * 3
            grains.append(g)
        out = self.tool("extract_gsf_essence", [], self.gsf(grains), *PLACEMENTS[case["place"]])
        want = b"".join(g["data"] for g in grains)
        if out != want:
            raise Violation("grains %r: %r extracted, expected %r" % (case["kinds"], out, want))
        return out

    HEADS = [((2023, 4, 5, 6, 7, 8), [], D.U1), ((1, 1, 1, 0, 0, 0), [("k", "v")], D.U0),
             ((9999, 12, 31, 23, 59, 59), [("k", "v"), ("k", "w"), ("\u00e9", "\u4e2d\U0001f600\"\\")], D.UF),
             ((2024, 2, 29, 0, 0, 0), [("", "")], D.U2)]

    def probe(self, case):
        grains = []
        for i, (kind, dev, local, sec) in enumerate(case["grains"]):
            g = D.abstract(kind, dev)
            g["local_id"] = local if "local_id" not in dev else g["local_id"]
            if len(case["grains"]) > 1 and not dev:
                g["ots"] = (1, 100 + sec, i)
            if not D.representable(g, case["version"]):
                return None
            grains.append(g)
        created, tags, fid = self.HEADS[case["head"]]
        segments = [(i, self.HEADS[-1 - case["head"]][1]) for i in sorted({g["local_id"] for g in grains} | {9})]
        listed = [s for s in segments if not case.get("unlisted") or s[0] == 9]
        gsf = self.gsf(grains, case["version"], listed, created, tags, fid, terminator=case["head"] != 3)
        said = self.probe_tool(gsf, case["flags"], case["in"])
        self.check_head(said, fid, created, tags)
        if set(said["segments"]) != {str(i) for i, _ in segments}:
            raise Violation("segments %r, the file has %r" % (sorted(said["segments"]), segments))
        for i, t in segments:
            s = said["segments"][str(i)]
            mine = [g for g in grains if g["local_id"] == i]
            if (i, t) not in listed:
                # its grains are in a segment which the head does not list
                if s["local_id"] != i:
                    raise Violation("segment %d is said to be %r" % (i, s["local_id"]))
                self.check_grains(i, s, mine, case["flags"])
                continue
            if (s["local_id"], s["id"], s["count"], s["tags"]) != (i, str(UUID(int=1000 + i)), len(mine),
                                                                   [list(x) for x in t]):
                raise Violation("segment %d is said to be %r" % (i, {k: s[k] for k in ("local_id", "id", "count", "tags")}))
            self.check_grains(i, s, mine, case["flags"])
        return case

    def probe_tool(self, gsf, flags, into):
        text = self.tool("gsf_probe", flags, gsf, into, None)
        try:
            return json.loads(text)
        except ValueError as e:
            raise Violation("what the probe says is not JSON: %s: %r" % (e, text[:200]))

    def check_head(self, said, fid, created, tags):
        if said["id"] != str(fid):
            raise Violation("id %r, the file has %s" % (said["id"], fid))
        try:
            got = datetime.fromisoformat(said["created"])
        except ValueError:
            raise Violation("created %r" % (said["created"],))
        if (got.astimezone(timezone.utc) if got.tzinfo else got.replace(tzinfo=timezone.utc)) != created_of(created):
            raise Violation("created %r, the file has %r" % (said["created"], created))
        if said["tags"] != [list(t) for t in tags]:
            raise Violation("tags %r, the file has %r" % (said["tags"], tags))

    def check_grains(self, i, s, mine, flags):
        if not mine:
            if s.get("timerange") not in (None, "()") or s.get("grain_data") not in (None, []) or \
                    s.get("grain_timestamps") not in (None, []):
                raise Violation("segment %d has no grains, and is said to be %r" % (i, s))
            return
        data = s["grain_data"] if "-g" in flags else [s["grain_data"]]
        want = [grain_json(g) for g in (mine if "-g" in flags else mine[:1])]
        if len(data) != len(want):
            raise Violation("segment %d: %d grains of %d" % (i, len(data), len(want)))
        for n, (a, b) in enumerate(zip(data, want)):
            d = D.diff(normal(a), b)
            if d:
                raise Violation("segment %d grain %d%s" % (i, n, d))
        if not any(g["type"] in ("audio", "coded_audio") and not g["hdr"]["samples"] for g in mine):
            a, b = span(mine)
            text = "[%s]" % stamp(D.from_ts(a)) if a == b else "[%s_%s]" % (stamp(D.from_ts(a)), stamp(D.from_ts(b)))
            if s["timerange"] != text:
                raise Violation("segment %d: timerange %s, its grains have %s" % (i, s["timerange"], text))
        if "-a" in flags:
            got = [(x["origin_timestamp"], x["sync_timestamp"]) for x in s["grain_timestamps"]]
            if got != [(stamp(g["ots"]), stamp(g["sts"])) for g in mine]:
                raise Violation("segment %d: timestamps %r" % (i, got))
        elif "grain_timestamps" in s:
            raise Violation("timestamps without being asked")

    def stream(self, case):
        """What the tools read standard input through, against the same bytes in memory, after every history."""
        data = self.data(sum(case["pieces"]))
        cuts = list(itertools.accumulate([0] + case["pieces"]))
        out = []
        for history in itertools.product(range(len(OPERATIONS)), repeat=case["depth"] - 1):
            history = (case["first"],) + history
            keep = sys.stdin
            sys.stdin = Std(Pieces([data[a:b] for a, b in zip(cuts, cuts[1:])]))
            try:
                with tools.file_or_pipe("-", "rb") as f:
                    model = io.BytesIO(data)
                    for i, k in enumerate(history):
                        name, *args = OPERATIONS[k]
                        self.stats.transitions += 1
                        what = "%s of %d bytes in pieces of %r" % ([OPERATIONS[j] for j in history[:i + 1]], len(data),
                                                                   case["pieces"])
                        was = model.tell()
                        back = name == "seek" and (args[1:] == [2] or args[1:] in ([], [0]) and args[0] < was or
                                                   args[1:] == [1] and args[0] < 0)
                        try:
                            got = getattr(f, name)(*args)
                        except NotImplementedError:
                            got = "refused"
                        want = "refused" if back else getattr(model, name)(*args)
                        if got != want:
                            raise Violation("%s gives %r, expected %r" % (what, got, want))
                        if f.tell() != model.tell():
                            raise Violation("%s leaves the position at %r, expected %r" % (what, f.tell(), model.tell()))
                        out.append(got)
            finally:
                sys.stdin = keep
        return case, tuple(out)

    def concatenated(self, case):
        """Two files, one after the other, are read as one."""
        k = case["k"]
        second = 2 if k & 1 else 1
        a = D.abstract("video", {})
        a.update(local_id=1, ots=(1, 5, 0))
        b = D.abstract("audio", {})
        b.update(local_id=second, ots=(1, 9, 0))
        gsf = self.gsf([a], terminator=not k & 4) + self.gsf([b])
        flags = ["-a", "-g"]
        said = self.probe_tool(gsf, flags, "file" if k & 2 else "pipe")
        self.check_head(said, D.U1, (2023, 4, 5, 6, 7, 8), [])
        for i in {1, second}:
            self.check_grains(i, said["segments"][str(i)], [g for g in (a, b) if g["local_id"] == i], flags)
        out = self.tool("extract_gsf_essence", [], gsf, "file" if k & 2 else "pipe", "pipe")
        if out != a["data"] + b["data"]:
            raise Violation("extracted %r from two files" % (out,))
        return case

    # -- processes ----------------------------------------------------------------------------------------------------
    def process(self, case):
        """Real processes with real pipes and files."""
        k = case["k"]
        prog = PROGRAM % (env.VERIF, env.REPO)
        py = [sys.executable, "-B", "-c", prog]
        n = [0, 7, 16, 17, 70000, 200001][k % 6]
        data = self.data(n)
        essence = ["--size", "8x2", "--format", "U8_422"] if k % 2 else ["--channels", "2", "--format", "S24_PAIRS",
                                                                          "--samples-per-grain", "480"]
        wrap = py + ["wrap_video_in_gsf" if k % 2 else "wrap_audio_in_gsf"]
        path = os.path.join(self.dir, "f.gsf")
        mode = k % 4
        self.stats.transitions += 2

        def call(argv, **kw):
            p = subprocess.run(argv, stderr=subprocess.PIPE, timeout=100, **kw)
            if p.returncode:
                raise Violation("%s ended with %d: %s" % (argv[4:], p.returncode, p.stderr.decode()[-400:]))
            return p.stdout
        if mode == 0:      # pipe to pipe
            w = subprocess.Popen(wrap + ["-", "-"] + essence, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL)
            x = subprocess.Popen(py + ["extract_gsf_essence", "-", "-"], stdin=w.stdout, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL)
            w.stdout.close()
            import threading

            def feed():
                for i in range(0, len(data), 1009):
                    w.stdin.write(data[i:i + 1009])
                    w.stdin.flush()
                w.stdin.close()
            t = threading.Thread(target=feed)
            t.start()
            out = x.communicate(timeout=100)[0]
            t.join()
            codes = (w.wait(100), x.returncode)
            if codes != (0, 0):
                raise Violation("wrap | extract ended with %r" % (codes,))
        elif mode == 1:    # output to a file as standard output
            with open(path, "wb") as f:
                call(wrap + ["-", "-"] + essence, input=data, stdout=f)
            out = call(py + ["extract_gsf_essence", path, "-"], stdout=subprocess.PIPE)
        elif mode == 2:
            src, dst = os.path.join(self.dir, "src"), os.path.join(self.dir, "dst")
            with open(src, "wb") as f:
                f.write(data)
            call(wrap + [src, path] + essence, stdout=subprocess.PIPE)
            call(py + ["extract_gsf_essence", path, dst], stdout=subprocess.PIPE)
            with open(dst, "rb") as f:
                out = f.read()
        else:              # a file as standard input
            src = os.path.join(self.dir, "src")
            with open(src, "wb") as f:
                f.write(data)
            with open(src, "rb") as f:
                call(wrap + ["-", path] + essence, stdin=f, stdout=subprocess.PIPE)
            with open(path, "rb") as f:
                out = call(py + ["extract_gsf_essence", "-", "-"], stdin=f, stdout=subprocess.PIPE)
        if out != data:
            raise Violation("mode %d: %d bytes came back as %d" % (mode, len(data), len(out)))
        if mode:
            said = json.loads(call(py + ["gsf_probe", path], stdout=subprocess.PIPE))
            with open(path, "rb") as f:
                g = R.parse(f.read())
            s = said["segments"][str(g["segments"][0]["local_id"])]
            if s["count"] != len(g["grains"]):
                raise Violation("count %r of %d grains" % (s["count"], len(g["grains"])))
        return k, n


def R_form(g):
    return D.ref_of(g)


CHECK = C22
