"""C33: the command line does what was asked, and validation reports every invalid file."""
import contextlib
import importlib
import inspect
import io
import os
import sys
import docopt as docopt_module
import ocelot
import ocelot.io.validate_ecospold2 as validation
from ocelot.bin import ocelot_cli
from ocelot.io import dataset_schema
from voluptuous import Invalid
from harness.c29 import built, clean, described

INFO = dict(
    bounds="every command with every combination of its options, parsed from the command line (fixed words) and with symbolic "
           "arguments; directories of up to 3 extracted datasets of which each is valid or invalid in one of 4 ways, with symbolic "
           "amounts; directories of up to 3 files, each valid or not against the schema, with 4 kinds of names",
    outside="the words printed besides file names and whether there are errors; which dataset is shown for errors with the same message",
    assumptions=["system_model, cleanup_data_directory and the validation functions are replaced by recorders for the command line; "
                 "the extracted datasets of a directory are given"])
LABELS = ["command carried out", "arguments passed on", "interruption ends with status 1", "valid directories reported valid",
          "errors written to the log", "files against the schema"]
COMMANDS = ["system_model", "validate_directory", "validate_directory_against_xsd", "cleanup_data_directory"]


@contextlib.contextmanager
def recorded(S, calls, parse=None, interrupt=False):
    """The command line program with every command replaced by a recorder."""
    old = {n: getattr(ocelot, n) for n in COMMANDS}
    old_parse, argv = docopt_module.docopt, sys.argv

    def recorder(name):
        sig = inspect.signature(old[name])

        def f(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            calls.append((name, dict(b.arguments)))
            if interrupt:
                raise KeyboardInterrupt
            return None
        return f
    try:
        for n in COMMANDS:
            setattr(ocelot, n, recorder(n))
        if parse is not None:
            docopt_module.docopt = parse
        with contextlib.redirect_stdout(io.StringIO()):
            importlib.reload(ocelot_cli)
            yield
    finally:
        for n in COMMANDS:
            setattr(ocelot, n, old[n])
        docopt_module.docopt, sys.argv = old_parse, argv
        importlib.reload(ocelot_cli)


def run(interrupt):
    try:
        ocelot_cli.main()
        return 0
    except SystemExit as e:
        return e.code


def judge(S, calls, code, command, expected, interrupt):
    name = {"run": COMMANDS[0], "validate": COMMANDS[1], "xsd": COMMANDS[2], "cleanup": COMMANDS[3]}[command]
    S.check("command carried out", [c[0] for c in calls] == [name], str([c[0] for c in calls]))
    if interrupt:
        S.check("interruption ends with status 1", code == 1, str(code))
    else:
        S.check("command carried out", not code)
    got = calls[0][1]
    for k, v in expected.items():
        if v is None:
            S.check("arguments passed on", not got[k], k)
        else:
            S.eq("arguments passed on", got[k], v, k)
    if command == "run":
        S.check("arguments passed on", got["use_cache"] is True)


def default_schema():
    return os.path.join(ocelot.data_dir, "EcoSpold02.xsd")


def parsed(S):
    """Arguments as the parser returns them."""
    command = S.choice("command", ["run", "validate", "xsd", "cleanup"])
    text = lambda n, there: S.text(n, ["a", "ab", "b"]) if there else None
    has = {k: S.bool("has " + k) for k in ("config", "save", "follow", "schema")}
    args = {c: c == command for c in ("run", "validate", "xsd", "cleanup")}
    args.update({"--list": False, "-l": False, "--help": False, "-h": False, "--version": False})
    args["<dirpath>"] = text("dir", command != "cleanup")
    args["<config>"] = text("config", command == "run" and has["config"])
    args["<schema>"] = text("schema", command == "xsd" and has["schema"])
    args["--save"] = text("save", command == "run" and has["save"])
    args["--follow"] = text("follow", command == "run" and has["follow"])
    args["--noshow"] = S.bool("noshow") if command == "run" else False
    interrupt = S.bool("interrupt")
    calls = []
    with recorded(S, calls, lambda *a, **k: dict(args), interrupt):
        code = run(interrupt)
    expected = {"run": {"data_path": args["<dirpath>"], "config": args["<config>"], "show": not args["--noshow"],
                        "save_strategy": args["--save"], "follow": args["--follow"]},
                "validate": {"dirpath": args["<dirpath>"]},
                "xsd": {"dirpath": args["<dirpath>"], "schema": args["<schema>"] or default_schema()},
                "cleanup": {}}[command]
    judge(S, calls, code, command, expected, interrupt)


def words(S):
    """Whole command lines."""
    command = S.choice("command", ["run", "validate", "xsd", "cleanup"])
    has = {k: S.bool("has " + k) for k in ("config", "save", "follow", "noshow", "first")} if command == "run" else {}
    schema = command == "xsd" and S.bool("has schema")
    opts = []
    if command == "run":
        opts += ["--noshow"] * has["noshow"] + ["--save=every"] * has["save"] + ["--follow=tea.spold"] * has["follow"]
    argv = [command] + ["/tmp/in"] * (command != "cleanup") + ["other"] * bool(has.get("config") or schema)
    argv = argv[:1] + opts + argv[1:] if has.get("first") else argv + opts
    calls = []
    with recorded(S, calls):
        sys.argv = ["ocelot-cli"] + argv
        code = run(False)
    expected = {"run": {"data_path": "/tmp/in", "config": "other" if has.get("config") else None, "show": not has.get("noshow"),
                        "save_strategy": "every" if has.get("save") else None, "follow": "tea.spold" if has.get("follow") else None},
                "validate": {"dirpath": "/tmp/in"}, "xsd": {"dirpath": "/tmp/in", "schema": "other" if schema else default_schema()},
                "cleanup": {}}[command]
    judge(S, calls, code, command, expected, False)


@contextlib.contextmanager
def scratch():
    """An empty working directory that exists only here."""
    import shutil
    import tempfile
    old, d = os.getcwd(), tempfile.mkdtemp(prefix="c33")
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def quiet(f, *args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        f(*args)
    return out.getvalue()


def internal(S):
    """``validate_directory`` with the real schema."""
    hows, data, asked = [], [], []
    for i in range(S.case["n"]):
        how = S.choice("how%d" % i, ["valid", "type", "missing", "word", "gone"])
        d = built(S, described("normal", True), "", {})
        d["name"] = "dataset %d" % i
        d["access restricted"] = S.choice("access", ["public", "licensees", "results only", "restricted"]) if i == 0 else "restricted"
        if how == "type":
            d["exchanges"][0]["amount"] = "many"
        elif how == "missing":
            del d["exchanges"][0]["unit"]
        elif how == "word":
            d["type"] = "shop"
        elif how == "gone":
            del d["type"]
        hows.append(how)
        data.append(clean(d))

    sig = inspect.signature(validation.extract_directory)

    def extract(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        asked.append((b.arguments["data_path"], bool(b.arguments["use_cache"])))
        return data
    old = validation.extract_directory
    validation.extract_directory = extract
    try:
        with scratch() as d:
            out = quiet(validation.validate_directory, "/virtual/in")
            log = "".join(open(f, encoding="utf-8").read() for f in os.listdir(d))
    finally:
        validation.extract_directory = old
    S.check("command carried out", asked == [("/virtual/in", False)])
    valid = all(b == "valid" for b in hows)
    S.check("valid directories reported valid", ("No errors found" in out) == valid, str(hows))
    S.check("errors written to the log", bool(log) == (not valid), str(hows))
    for d in data:
        try:
            dataset_schema(d)
        except Invalid as e:
            S.check("errors written to the log", e.msg in log, e.msg)
    shown = [i for i in range(len(hows)) if "dataset %d" % i in log]
    S.check("errors written to the log", all(hows[i] != "valid" for i in shown) and bool(shown) == (not valid), "%s %s" % (hows, shown))


XSD = """<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="%s" type="xs:integer"/></xs:schema>"""


def files(S):
    """``validate_directory_against_xsd`` on files made for it."""
    names = [S.choice("n%d" % i, ["a.spold", "b.SPOLD", "ab.spold", "d.xml", "spold"]) for i in range(S.case["n"])]
    for i in range(len(names)):
        S.assume(names[i] not in names[:i])
    roots = [S.choice("root%d" % i, ["one", "two"]) for i in range(len(names))]
    wanted = S.choice("schema", ["one", "two"])
    with scratch() as d:
        os.mkdir("in")
        for n, r in zip(names, roots):
            with open(os.path.join("in", n), "w") as f:
                f.write("<%s>1</%s>" % (r, r))
        for r in ("one", "two"):
            with open(r + ".xsd", "w") as f:
                f.write(XSD % r)
        out = quiet(validation.validate_directory_against_xsd, os.path.join(d, "in"), os.path.join(d, wanted + ".xsd"))
    bad = [n for n, r in zip(names, roots) if n.lower().endswith(".spold") and r != wanted]
    S.check("files against the schema", ("All files valid" in out) == (not bad), out)
    for n in names:
        S.check("files against the schema", ("'%s'" % n in out) == (n in bad), "%s %s" % (n, out))


HARNESSES = {"parsed": parsed, "words": words, "internal": internal, "files": files}


def cases(tier):
    out = [dict(h="parsed"), dict(h="words"), dict(h="internal", n=0), dict(h="internal", n=1), dict(h="internal", n=3), dict(h="files", n=2), dict(h="files", n=0)]
    return out + [dict(h="internal", n=4), dict(h="files", n=3)] * (tier == "thorough")
