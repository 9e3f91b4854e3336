"""C25: cached data is never older than its source, and only old reports are deleted."""
import os
import ocelot
import ocelot.io as ocelot_io
from harness.vfs import VirtualFS, ROOT
from ocelot import filesystem
from ocelot.errors import OutputDirectoryError
from ocelot.io import extract_directory
from ocelot.io.cleanup import cleanup_data_directory
from ocelot.results import SaveStrategy

INFO = dict(
    bounds="source directories with up to 4 entries (some hidden), with and without cache; output directories with up to 4 "
           "files and directories; all modification and creation times arbitrary reals up to 1e12; save strategies with "
           "numbers up to 6 and any function index up to 60; every combination of missing permissions",
    outside="what pickle stores; changes of files that do not change modification times",
    assumptions=["the file system is replaced by a model: os.stat, listdir, makedirs, access, open, shutil.rmtree, pickle.dump and "
                 "load, time.time"])
LABELS = ["fresh cache used", "stale cache not used", "cache written", "cache kept apart", "old reports deleted",
          "everything else kept", "saved at the right functions", "invalid strategies rejected", "output directory made",
          "unusable output directory rejected", "cache freshness"]
SRC, DATA, OUT = ROOT + "/source", ROOT + "/data", ROOT + "/out"
WEEK = 7 * 24 * 60 * 60


def source(S, fs):
    """The source directory; returns the times that count."""
    c = S.case
    times = [S.real("dir")]
    fs.put(SRC, True, times[0], 0)
    for i, name in enumerate(c["files"]):
        t = S.real("t%d" % i)
        fs.put(SRC + "/" + name.rstrip("/"), name.endswith("/"), t, 0)
        if not name.startswith("."):
            times.append(t)
    return times


def cache(S):
    c = S.case
    fs = VirtualFS()
    times = source(S, fs)
    mp = S.bool("mp")
    calls = []

    def extract(path, use_mp=True):
        calls.append((path, use_mp))
        return ["extracted"]
    old = ocelot_io.extract_ecospold2_directory
    with fs.installed(XDG_DATA_HOME=DATA, OCELOT_OUTPUT=None):
        file = filesystem.get_cache_filepath_for_data_path(SRC)
        other = filesystem.get_cache_filepath_for_data_path(ROOT + "/source2")
        S.check("cache kept apart", file != other and fs.mine(file))
        newest = S.real("cache")
        for f in [other] + [file] * c["cached"]:
            fs.put(f, False, newest, newest)
            fs.content[f] = ["cached " + f]
        fs.put(file + ".tmp", False, newest, newest)
        ocelot_io.extract_ecospold2_directory = extract
        try:
            if c.get("only"):
                got = filesystem.check_cache_directory(c.get("path", SRC))
            else:
                data = extract_directory(c.get("path", SRC), c["use"], mp)
        finally:
            ocelot_io.extract_ecospold2_directory = old
    fresh = S.all_of([c["cached"]] + [newest > t for t in times])
    if c.get("only"):
        S.iff("cache freshness", got, fresh)
        S.check("everything else kept", not fs.written and not fs.deleted)
        return
    used = data == ["cached " + file]
    if not used:
        S.check("stale cache not used", data == ["extracted"] and calls == [(SRC, mp)], str(calls))
        S.check("fresh cache used", S.any_of([not c["use"], neg(S, fresh)]))
        S.check("cache written", fs.written == ([file] if c["use"] else []) and (not c["use"] or fs.content[file] == ["extracted"]))
    else:
        S.check("stale cache not used", S.all_of([c["use"], fresh]))
        S.check("cache written", not fs.written and not calls)
    S.check("everything else kept", fs.content[other] == ["cached " + other] and not fs.deleted)


def again(S):
    """Two runs after another: the second sees what the cache and the source then say."""
    fs = VirtualFS()
    fs.put(SRC, True, 1, 0)
    fs.put(SRC + "/a.spold", False, 2, 0)
    calls = []

    def extract(path, use_mp=True):
        calls.append(path)
        return ["extracted %d" % len(calls)]
    old = ocelot_io.extract_ecospold2_directory
    ocelot_io.extract_ecospold2_directory = extract
    try:
        with fs.installed(XDG_DATA_HOME=DATA, OCELOT_OUTPUT=None):
            file = filesystem.get_cache_filepath_for_data_path(SRC)
            first, second, changed = S.real("first", 0), S.real("second", 0), S.real("changed", 0)
            fs.put(file, False, first, first)
            fs.content[file] = ["cached"]
            a = extract_directory(SRC, True, False)
            fs.put(SRC + "/a.spold", False, changed, 0)
            fs.put(file, False, second, second)
            fs.content[file] = ["cached again"]
            b = extract_directory(SRC, True, False)
    finally:
        ocelot_io.extract_ecospold2_directory = old
    S.iff("fresh cache used", a == ["cached"], first > 2)
    S.check("stale cache not used", a in (["cached"], ["extracted 1"]) and b in (["cached again"], ["extracted %d" % len(calls)]))
    S.iff("fresh cache used", b == ["cached again"], S.all_of([second > 1, second > changed]))


def neg(S, c):
    return not c if isinstance(c, bool) else ~c


def apart(S):
    """Caches of different directories are different, of the same directory the same."""
    fs = VirtualFS()
    a, b = (S.choice(n, [ROOT + "/a", ROOT + "/b", ROOT + "/a/../a", ROOT + "/a/b", ROOT + "/ab", ROOT + "/A", ROOT + "/b/a", ROOT + "/a ", ROOT + "/é", ROOT + "/ü"]) for n in "ab")
    old = [(m, m.__io_version__) for m in (ocelot, filesystem) if hasattr(m, "__io_version__")]
    release = S.choice("release", [old[0][1], "another"])
    try:
        with fs.installed(XDG_DATA_HOME=DATA):
            x = filesystem.get_cache_filepath_for_data_path(a)
            for m, _ in old:
                m.__io_version__ = release
            y = filesystem.get_cache_filepath_for_data_path(b)
    finally:
        for m, v in old:
            m.__io_version__ = v
    S.check("cache kept apart", (x == y) == (os.path.normpath(a) == os.path.normpath(b) and release == old[0][1]))


def cleanup(S):
    c = S.case
    now = S.real("now") if "free" not in c else 1e9
    fs = VirtualFS(now)
    fs.put(OUT, True, 0, 0)
    born = {}
    for i, (name, isdir) in enumerate(c["entries"]):
        t = S.real("c%d" % i) if i < c.get("free", 4) else now - WEEK * (1 + i)
        if isdir == "?":
            isdir = S.bool("d%d" % i)
        fs.put(OUT + "/" + name, bool(isdir), S.real("m%d" % i) if i < c.get("free", 4) else t, t)
        born[OUT + "/" + name] = (bool(isdir), t)
        if isdir:
            fs.put(OUT + "/" + name + "/report.log.json", False, now, now)
            fs.put(OUT + "/" + name + "/report.html", False, *((S.real("r%d" % i), S.real("rc%d" % i)) if i < c.get("free", 4) else (t, t)))
    fs.put(ROOT + "/elsewhere", True, now - 100 * WEEK, now - 100 * WEEK)
    with fs.installed(OCELOT_OUTPUT=OUT, XDG_DATA_HOME=DATA):
        cleanup_data_directory()
    S.check("everything else kept", len(set(fs.deleted)) == len(fs.deleted) and set(fs.deleted) <= set(born) and not fs.written,
            str(fs.deleted))
    for path, (isdir, t) in born.items():
        gone = path in fs.deleted
        S.iff("old reports deleted" if gone else "everything else kept", gone, S.all_of([isdir, t < now - WEEK]))


def strategy(S):
    c = S.case
    i = S.int("i", 0, 60)
    a = S.int("a", *c.get("a", (1, 6)))
    a = int(a)
    if c["kind"] == "int":
        arg, want = (str(a) if S.bool("text") else a), S.all_of([i % a == 0])
    else:
        b = int(S.int("b", 0, 6))
        arg, step = "%d:%d" % (a, b), 1
        if c["kind"] == "step":
            step = int(S.int("c", 1, 4))
            arg += ":%d" % step
        want = S.all_of([i >= a, i <= b, (i - a) % step == 0])
    S.iff("saved at the right functions", SaveStrategy(arg)(i), want)


def invalid(S):
    arg = S.choice("arg", [0, -1, "0", "-3", "x", "1.5", "", "1:", ":2", "1:x", "a:b:c", "1,2", None])
    try:
        s = SaveStrategy(arg)
        done = True
    except ValueError:
        done = False
    S.check("invalid strategies rejected", done == (arg is None))
    if done:
        S.check("saved at the right functions", bool(s(0)))


def output(S):
    c = S.case
    fs = VirtualFS()
    cant, ro = S.symbool("cant"), S.symbool("ro")
    where = OUT if c["given"] or c["env"] else DATA
    at = lambda p: p.startswith(where) and p.count("/") >= (3 if c["deep"] else 2)
    fs.uncreatable = lambda p: at(p) and bool(cant)
    fs.unwritable = lambda p: bool(ro)
    if not c["deep"]:
        S.assume(neg(S, cant))
    fs.put(where, True, 0, 0)
    with fs.installed(OCELOT_OUTPUT=OUT if c["env"] else None, XDG_DATA_HOME=DATA):
        try:
            made = filesystem.OutputDir(OUT if c["given"] else None, follow=c["follow"])
            again = filesystem.OutputDir(OUT if c["given"] else None, follow=c["follow"])
            done = True
        except OutputDirectoryError:
            done = False
        except OSError:
            S.check("unusable output directory rejected", not (c["given"] or c["env"]))
            return
    S.iff("output directory made" if done else "unusable output directory rejected", done, neg(S, S.any_of([cant, ro])))
    if not done:
        return
    parent = where if c["given"] or c["env"] else None
    for m in (made, again):
        S.check("output directory made", fs.nodes.get(m.directory, (None,))[0] is True)
        S.check("output directory made", os.path.basename(m.directory) == m.report_id)
        S.check("output directory made", parent is None and m.directory.startswith(DATA) or os.path.dirname(m.directory) == parent)
        S.check("output directory made", ((m.directory + "/follow") in fs.nodes) == bool(c["follow"]))
    S.check("output directory made", made.directory != again.directory)


HARNESSES = dict(again=again, cache=cache, apart=apart, cleanup=cleanup, strategy=strategy, invalid=invalid, output=output)


def cases(tier):
    lists = [["a.spold", "b.spold"], ["a.spold", ".hidden", "c.txt"], [], [".x"], ["sub/"], ["_a.spold", "(b).xml", "é"]]
    out = [dict(h="cache", files=f, cached=k, use=True) for f in lists for k in (True, False)]
    out += [dict(h="cache", files=lists[0], cached=k, use=False) for k in (True, False)]
    out += [dict(h="cache", files=f, cached=True, use=True, only=True) for f in lists]
    out += [dict(h="cache", files=lists[0], cached=True, use=True, path=SRC + "/../source"), dict(h="apart")]
    out += [dict(h="cleanup", entries=e) for e in ([], [["a", True]], [["a", "?"], ["b", "?"]], [["a", True], ["b", True], ["c", "?"]])]
    out += [dict(h="cleanup", entries=[[".a", True], ["a.b", True], ["report.html", True], ["x"*32, "?"]]),
            dict(h="cleanup", entries=[["r%d" % i, True] for i in range(130)], free=1), dict(h="again")]
    out += [dict(h="strategy", kind="int"), dict(h="strategy", kind="pair", a=(0, 6)), dict(h="strategy", kind="step", a=(0, 5)),
            dict(h="invalid")]
    out += [dict(h="output", given=g, env=e, follow=f, deep=d) for g in (True, False) for e in (True, False) for f in (True, False)
            for d in (True, False)]
    if tier == "thorough":
        out += [dict(h="cleanup", entries=[[n, "?"] for n in "abcd"]), dict(h="cache", files=["a", "b", "c", ".d"], cached=True, use=True),
                dict(h="strategy", kind="int", a=(1, 40))]
    return out
