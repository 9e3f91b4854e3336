"""C13: activity (hard) links lead to the product they name."""
from harness.gen import dataset, snapshot, lazy, product_cond, neg, TYPES, CLASSES
from harness.c06 import kinded
from harness.c30 import ds as activity, inp, market, out as made
from ocelot.configuration import cutoff_config, cutoff_config_ecoinvent_row, consequential_config
from ocelot.errors import UnresolvableActivityLink
from ocelot.transformations.activity_links import (check_activity_link_validity, update_activity_link_parent_child,
                                                   fix_35_activity_links)
from ocelot.transformations.locations.linking import actualize_activity_links

INFO = dict(
    bounds="up to 4 datasets with up to 4 exchanges; link targets, names, types and classifications of exchanges are symbolic "
           "finite-domain strings; amounts are arbitrary reals up to 1e12; a database of five "
           "activities and markets that goes through the system models",
    outside="datasets that share an id before allocation (rejected by C29)",
    assumptions=["ids are unique before allocation"])
LABELS = ["unresolvable link rejected", "resolvable links accepted", "everything else kept", "link moved to child",
          "other links kept", "known bad link removed", "link has the code of its target", "ambiguous link left alone"]
BAD = "25edb027-d7c0-4756-a051-cab82e4f6248"


def validity(S):
    """Raises iff some link does not lead to exactly one product of its target."""
    c = S.case
    target = dataset("t", [lazy(S, "t%d" % i, c["types"], CLASSES[:2], name=S.text("tn%d" % i, ["A", c.get("like", "AB")]))
                           for i in range(c["m"])])
    other = dataset("o", [kinded(S, "o", "r", name="A")])
    links = []
    for i in range(c["links"]):
        e = lazy(S, "l%d" % i, ("from technosphere", "byproduct"), CLASSES[1:], name=S.text("ln%d" % i, ["A", c.get("like", "AB"), "B"]))
        if S.bool("has%d" % i):
            e["activity link"] = S.text("to%d" % i, ["ds-t", "ds-o", "nowhere", "ds-s", ""])
        links.append(e)
    source = dataset("s", links + [kinded(S, "s", "r", name="C")])
    dss = [source, target, other]
    if c.get("rev"):
        dss.reverse()

    def good(e):
        """Condition: the link leads to exactly one product."""
        options = [e["activity link"] == ""]
        for d in dss:
            ms = [S.all_of([product_cond(S, x), x["name"] == e["name"]]) for x in d["exchanges"]]
            one = S.any_of([S.all_of([m] + [neg(S, o) for k, o in enumerate(ms) if k != i]) for i, m in enumerate(ms)])
            options.append(S.all_of([e["activity link"] == d["id"], one]))
        return S.any_of(options)
    fine = S.all_of([good(e) for e in links if "activity link" in e])
    before = snapshot(dss)
    try:
        out, raised = check_activity_link_validity(dss), False
    except UnresolvableActivityLink:
        out, raised = dss, True
    S.iff("unresolvable link rejected" if raised else "resolvable links accepted", raised, neg(S, fine))
    S.same("everything else kept", out, before)


def parent(S):
    dss = []
    for j in range(2):
        excs = []
        for i in range(S.case["m"] if j == 0 else 1):
            p = "x%d%d" % (j, i)
            e = lazy(S, p, TYPES if i == 0 else TYPES[:4:3], CLASSES[:2])
            if S.bool("h" + p):
                e["activity link"] = S.text("l" + p, ["parent0", "parent1", ""])
            excs.append(e)
        dss.append(dataset("d%d" % j, excs, parent=S.text("p%d" % j, ["parent%d" % j, ""])))
    before = snapshot(dss)
    out = update_activity_link_parent_child(dss)
    S.check("everything else kept", len(out) == 2)
    for ds, old in zip(out, before):
        for e, f in zip(ds["exchanges"], old["exchanges"]):
            if "activity link" not in f:
                continue
            moved = S.all_of([old["parent"] != "", f["activity link"] == old["parent"], neg(S, product_cond(S, f))])
            S.iff("link moved to child", e["activity link"] == ds["id"], moved)
            S.check("other links kept", S.any_of([moved, e["activity link"] == f["activity link"]]))
            e["activity link"] = f["activity link"]
    S.same("everything else kept", out, before)


def known_bad(S):
    dss = []
    for j in range(2):
        excs = []
        for i in range(2):
            p = "x%d%d" % (j, i)
            e = lazy(S, p)
            if S.bool("h" + p):
                e["activity link"] = S.text("l" + p, [BAD, "other", ""])
            excs.append(e)
        dss.append(dataset("d%d" % j, excs))
    before = snapshot(dss)
    out = fix_35_activity_links(dss)
    S.check("everything else kept", len(out) == 2)
    for ds, old in zip(out, before):
        for e, f in zip(ds["exchanges"], old["exchanges"]):
            if "activity link" in f:
                S.iff("known bad link removed", "activity link" not in e, f["activity link"] == BAD)
                e["activity link"] = f["activity link"]
    S.same("everything else kept", out, before)


def actualize(S):
    """After allocation: the code of the one dataset with the target id that makes the product."""
    c = S.case
    targets = []
    for j in range(c["targets"]):
        targets.append(dataset("t%d" % j, [kinded(S, "t%d" % j, "r")],
                               **{"id": "TU"[j] if j < 2 else S.text("id%d" % j, ["T", "U"]), "code": "code%d" % j,
                                  "reference product": S.text("rp%d" % j, ["A", c.get("like", "AB")])}))
    links = []
    for i in range(c["links"]):
        e = lazy(S, "l%d" % i, name=S.text("ln%d" % i, ["A", c.get("like", "B")]))
        if S.bool("has%d" % i):
            e["activity link"] = S.text("to%d" % i, ["T", "U"])
        links.append(e)
    source = dataset("s", links, **{"reference product": "C", "code": "source"})
    dss = targets + [source]
    if c.get("rev"):
        dss.reverse()
    before = snapshot(dss)
    out = actualize_activity_links(dss)
    S.check("everything else kept", len(out) == len(before))
    for ds, old in zip(out, before):
        for e, f in zip(ds["exchanges"], old["exchanges"]):
            code = e.pop("code", None)
            if "activity link" not in f:
                S.check("everything else kept", code is None)
                continue
            ms = [S.all_of([t["id"] == f["activity link"], t["reference product"] == f["name"]]) for t in before]
            for i, t in enumerate(before):
                only = S.all_of([ms[i]] + [neg(S, m) for k, m in enumerate(ms) if k != i])
                S.iff("link has the code of its target" if code == t["code"] else "ambiguous link left alone",
                      code == t["code"], only)
    S.same("everything else kept", out, before)


def configured(S):
    """The system models keep the links, too."""
    c = S.case["config"]
    config = dict(cutoff=cutoff_config, row=cutoff_config_ecoinvent_row, consequential=consequential_config)[c]
    a, b, g = S.nonzero("a"), S.nonzero("b"), S.nonzero("g")
    ins = [inp(S, "f", "steel", amount=a, **{"activity link": "mill"}), inp(S, "h", "steel", amount=g)]
    if c != "consequential":
        ins += [inp(S, "g", "steel", amount=b, **{"activity link": BAD})]
    db = [activity("plant", [made(S, "e", "power", amount=1.0, pv=5.0)] + ins), market(S, "power"), market(S, "steel"),
          activity("mill", [made(S, "s", "steel", amount=1.0, pv=S.pos("v"))]),
          activity("other mill", [made(S, "o", "steel", amount=1.0, pv=3.0)])]
    final = {d["name"]: d for d in config(db[::-1] if S.bool("rev") else db)}
    got = [(e["code"], e["amount"]) for e in final["plant"]["exchanges"] if e["type"] == "from technosphere"]
    code = {final[n]["code"]: n for n in ("mill", "market for steel")}
    S.check("link has the code of its target", all(x in code for x, _ in got))
    total = {n: sum(v for x, v in got if code.get(x) == n) for n in code.values()}
    S.eq("link has the code of its target", total["mill"], a)
    S.eq("known bad link removed" if c != "consequential" else "everything else kept", total["market for steel"],
         g + (b if c != "consequential" else 0))


HARNESSES = dict(configured=configured, validity=validity, parent=parent, known_bad=known_bad, actualize=actualize)


def cases(tier):
    P = TYPES[:2]
    out = [dict(h="validity", m=2, links=1, types=TYPES[:4]), dict(h="validity", m=3, links=1, types=P, rev=True),
           dict(h="validity", m=1, links=2, types=TYPES[:4]), dict(h="parent", m=2), dict(h="known_bad"),
           dict(h="actualize", targets=3, links=1), dict(h="actualize", targets=2, links=2, rev=True),
           dict(h="actualize", targets=2, links=1, like="a"), dict(h="validity", m=2, links=1, types=TYPES[:2], like="a")]
    out += [dict(h="configured", config=m) for m in ("cutoff", "row", "consequential")]
    if tier == "thorough":
        out += [dict(h="validity", m=3, links=2, types=P), dict(h="parent", m=3), dict(h="actualize", targets=4, links=2)]
    return out
