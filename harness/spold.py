"""Ecospold2 documents: as XML for the real parser, as symbolic elements otherwise."""
import contextlib
import os
import tempfile
from xml.sax.saxutils import escape, quoteattr

NS = "http://www.EcoInvent.org/EcoSpold02"


class NumText(str):
    """The text of a symbolic number."""

    def __new__(cls, num):
        self = super().__new__(cls, "1234.5")
        self.symnum = num
        return self

    def strip(self, *a):
        return self

    lstrip = rstrip = strip

    def __deepcopy__(self, memo):
        return self


class N:
    """An element: tag, attributes (without value: missing), text and children."""

    def __init__(self, tag, attrs=None, text=None, children=()):
        self.tag, self.text = tag, text
        self.attrs = {k: v for k, v in (attrs or {}).items() if v is not None}
        self.children = [c for c in children if c is not None]

    def xml(self):
        val = lambda v: v if isinstance(v, str) else repr(float(v)) if not isinstance(v, int) else str(v)
        head = "<%s%s%s>" % (self.tag, "" if self.tag != "ecoSpold" else ' xmlns="%s"' % NS,
                             "".join(" %s=%s" % (k, quoteattr(val(v))) for k, v in self.attrs.items()))
        return head + escape(self.text or "") + "".join(c.xml() for c in self.children) + "</%s>" % self.tag


class Element:
    """What lxml.objectify makes of it."""

    def __init__(self, S, node, parent=None):
        self.__dict__.update(_S=S, _node=node, _parent=parent, tag="{%s}%s" % (NS, node.tag), text=node.text,
                             _kids=[Element(S, c, self) for c in node.children])

    def _val(self, v):
        return NumText(v) if self._S.isnum(v) else v

    @property
    def attrib(self):
        return {k: self._val(v) for k, v in self._node.attrs.items()}

    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def keys(self):
        return list(self._node.attrs)

    def values(self):
        return list(self.attrib.values())

    def items(self):
        return list(self.attrib.items())

    def iterchildren(self, tag=None, *tags, **k):
        tags = [t for t in (tag,) + tags if t is not None]
        return iter([c for c in self._kids if not tags or any(t in ("*", "{*}" + c._node.tag, c.tag, "{%s}*" % NS) for t in tags)])

    def getchildren(self):
        return list(self._kids)

    def countchildren(self):
        return len(self._kids)

    def getparent(self):
        return self._parent

    def findall(self, path):
        out = [self]
        for part in path.replace("{%s}" % NS, "").split("/"):
            out = [c for e in out for c in e._kids if c._node.tag == part or part == "*"]
        return out

    def find(self, path):
        return next(iter(self.findall(path)), None)

    def findtext(self, path, default=None):
        e = self.find(path)
        return default if e is None else e.text or ""

    def _siblings(self):
        return [e for e in self._parent._kids if e._node.tag == self._node.tag] if self._parent else [self]

    def __iter__(self):
        return iter(self._siblings())

    def __len__(self):
        return len(self._siblings())

    def __bool__(self):
        return True

    def __getitem__(self, i):
        return self._siblings()[i] if not isinstance(i, str) else getattr(self, i)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        for c in self._kids:
            if c._node.tag == name:
                return c
        raise AttributeError("no such child: {%s}%s" % (NS, name))


@contextlib.contextmanager
def document(S, root):
    """The path of a file with this content."""
    if S.symbolic:
        from lxml import objectify
        import ocelot.io.extract_ecospold2 as module
        old = objectify.parse
        tree = type("Tree", (), {"getroot": lambda self: Element(S, root)})()
        places = [(m, n) for m in (objectify, module) for n in vars(m) if vars(m)[n] is old]
        for m, n in places:
            setattr(m, n, lambda f, *a, **k: tree)
        try:
            yield os.devnull
        finally:
            for m, n in places:
                setattr(m, n, old)
    else:
        with tempfile.TemporaryDirectory(prefix="c28") as d:
            path = os.path.join(d, "x.spold")
            with open(path, "w", encoding="utf8") as f:
                f.write('<?xml version="1.0" encoding="utf-8"?>\n' + root.xml())
            yield path
