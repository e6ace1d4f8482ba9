"""C23: XML writing against two XML parsers and a model of the file's history."""
import codecs
import json
import os
import xml.dom.minidom
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from vh import gyprun
from vh.core import Campaign, Violation, fresh_dir

ID = "C23"
LEVEL = "exploration"
RULE = ("a tree is non-trivial when it is nested and holds text or attributes with characters that need escaping or are "
        "not ASCII; a history when it holds both a write that changes the file and one that does not")

NAMES = ["a", "Project", "ItemGroup", "x-y", "n.1", "_u", "ns"]
PIECES = ["a", "b c", "<", ">", "&", '"', "'", "\n", "\r", "\t", "]]>", "&amp;", "&#10;", "<!--", "--", "é", "日", "\u2028",
          "\x85", "😀", " ", "", "%2B", "$(x)", "\\", "\ufffd", "\r\n", "\ue000", "=", "/", "<a/>", "{0}", "\u0080"]
text = st.lists(st.sampled_from(PIECES), max_size=5).map("".join)


@st.composite
def tree(draw, depth=0):
    t = [draw(st.sampled_from(NAMES))]
    if draw(st.booleans()):
        t.append(draw(st.dictionaries(st.sampled_from(NAMES + ["Include", "Condition", "Z", "B"]), text, max_size=4)))
    kind = draw(st.integers(0, 5))
    if kind == 0:
        pass
    elif kind <= 2 or depth >= 3:
        t += draw(st.lists(text, min_size=1, max_size=2))
    elif kind == 5:     # mixed
        t += draw(st.lists(st.one_of(text, tree(depth + 1)), min_size=1, max_size=4))
    else:
        t += draw(st.lists(tree(depth + 1), min_size=1, max_size=4))
    return t


def model(t, pretty):
    """(name, attributes, [children or text]) with adjacent text joined"""
    name, rest = t[0], t[1:]
    attrs = {}
    if rest and isinstance(rest[0], dict):
        attrs, rest = rest[0], rest[1:]
    kids, mixed = [], any(not isinstance(x, str) for x in rest)
    for x in rest:
        if isinstance(x, str):
            if kids and isinstance(kids[-1], str):
                kids[-1] += x
            else:
                kids.append(x)
        else:
            kids.append(model(x, pretty))
    if mixed and pretty:   # whitespace may be added around the text next to elements
        kids = [x.strip() if isinstance(x, str) else x for x in kids]
    return (name, attrs, [x for x in kids if x != ""])


def from_dom(n, pretty):
    kids = []
    for c in n.childNodes:
        if c.nodeType in (c.TEXT_NODE, c.CDATA_SECTION_NODE):
            if kids and isinstance(kids[-1], str):
                kids[-1] += c.data
            else:
                kids.append(c.data)
        elif c.nodeType == c.ELEMENT_NODE:
            kids.append(from_dom(c, pretty))
        else:
            raise Violation("an unexpected node %r" % c)
    mixed = any(not isinstance(x, str) for x in kids)
    if mixed and pretty:
        kids = [x.strip() if isinstance(x, str) else x for x in kids]
    return (n.tagName, {k: v for k, v in n.attributes.items()}, [x for x in kids if x != ""])


def order(s, start, name):
    return s.index(name, start)


def has_special(t):
    s = json.dumps(t)
    return any(c in s for c in "<>&'\\") or '\\"' in s


def nested(t):
    return any(isinstance(x, list) for x in t)


ENC = ["utf-8", "utf-8", "Windows-1252", "us-ascii"]


@st.composite
def tree_cases(draw):
    return {"t": draw(tree()), "pretty": draw(st.booleans()), "enc": draw(st.sampled_from(ENC)), "win": draw(st.booleans())}


def check_bytes(data, case):
    j = json.dumps(case)
    try:
        doc = xml.dom.minidom.parseString(data)
    except Exception as e:
        raise Violation("the file does not parse: %s\n%r\n%s" % (e, data[:1500], j))
    got = from_dom(doc.documentElement, case["pretty"])
    want = model(case["t"], case["pretty"])
    if got != want:
        raise Violation("parsed back as\n%r\ninstead of\n%r\n%r\n%s" % (got, want, data[:1000], j))
    if doc.encoding is None or codecs.lookup(doc.encoding) != codecs.lookup(case["enc"]):
        raise Violation("the declared encoding is %s\n%s" % (doc.encoding, j))
    ET.fromstring(data)


def attr_order(t):
    r = []
    if len(t) > 1 and isinstance(t[1], dict):
        r.append(list(sorted(t[1])))
    else:
        r.append([])
    for x in t[1:]:
        if isinstance(x, list):
            r += attr_order(x)
    return r


def check_tree(case):
    from gyp import easy_xml as X
    t = case["t"]
    before = json.dumps(t)
    s = X.XmlToString(t, case["enc"], case["pretty"])
    if json.dumps(t) != before:
        raise Violation("writing changed the tree")
    if s != X.XmlToString(json.loads(before), case["enc"], case["pretty"]):
        raise Violation("two writes of the same tree differ")
    # the order of a dictionary's items does not show
    rev = json.loads(before, object_pairs_hook=lambda p: dict(reversed(p)))
    if s != X.XmlToString(rev, case["enc"], case["pretty"]):
        raise Violation("the order in which attributes were added shows: %s" % before)
    if not case["pretty"] and "\n" in s:
        raise Violation("line breaks in compact output %r" % s)
    d = fresh_dir("xml")
    p = os.path.join(d, "f.xml")
    X.WriteXmlIfChanged(t, p, case["enc"], case["pretty"], win32=case["win"])
    with open(p, "rb") as f:
        data = f.read()
    check_bytes(data, case)
    if case["win"]:
        if b"\n" in data.replace(b"\r\n", b""):
            raise Violation("not all lines end in CRLF: %r" % data)
    elif b"\r" in data:
        raise Violation("a carriage return in %r" % data)
    return {"nontrivial": nested(t) and has_special(t), "labels": [case["enc"], "pretty" if case["pretty"] else "compact"]}


@st.composite
def history_cases(draw):
    trees = draw(st.lists(tree(), min_size=1, max_size=3))
    steps = []
    for _ in range(draw(st.integers(2, 7))):
        k = draw(st.integers(0, 9))
        if k < 7:
            steps.append(["write", draw(st.integers(0, len(trees) - 1)), draw(st.sampled_from(ENC[1:3])),
                          draw(st.booleans()), draw(st.booleans())])
        else:
            steps.append([draw(st.sampled_from(["delete", "append", "garble", "crlf", "empty"]))])
    return {"trees": trees, "steps": steps}


def check_history(case):
    from gyp import easy_xml as X
    d = fresh_dir("xml")
    p = os.path.join(d, "f.xml")
    seen = set()
    tick = 1_000_000_000
    j = json.dumps(case)
    for st_ in case["steps"]:
        old = None
        if os.path.exists(p):
            old = open(p, "rb").read()
        if st_[0] == "write":
            _, i, enc, pretty, win = st_
            if old is not None:
                os.utime(p, (tick, tick))
                ino = os.stat(p)
            X.WriteXmlIfChanged(case["trees"][i], p, enc, pretty, win32=win)
            new = open(p, "rb").read()
            ref = os.path.join(d, "ref.xml")
            if os.path.exists(ref):
                os.unlink(ref)
            X.WriteXmlIfChanged(case["trees"][i], ref, enc, pretty, win32=win)
            want = open(ref, "rb").read()
            if new != want:
                raise Violation("the file holds %r instead of %r\n%s" % (new, want, j))
            if old is not None:
                now = os.stat(p)
                touched = (now.st_mtime, now.st_ino) != (ino.st_mtime, ino.st_ino)
                if touched != (old != new):
                    raise Violation("the content %s but the file was %swritten\n%s" %
                                    ("changed" if old != new else "did not change", "" if touched else "not ", j))
                seen.add("same" if old == new else "changed")
        elif st_[0] == "delete":
            if old is not None:
                os.unlink(p)
        else:
            data = {"append": (old or b"") + b" ", "garble": b"\xff\xfe<", "empty": b"",
                    "crlf": (old or b"").replace(b"\r\n", b"\n")}[st_[0]]
            with open(p, "wb") as f:
                f.write(data)
        if sorted(x for x in os.listdir(d) if x != "ref.xml") not in ([], ["f.xml"]):
            raise Violation("other files were left: %s" % os.listdir(d))
    return {"nontrivial": len(seen) == 2, "labels": sorted(seen)}


CAMPAIGNS = [Campaign("tree", tree_cases, check_tree, quick=5000),
             Campaign("history", history_cases, check_history, quick=2500)]
ASSUMPTIONS = ["text without the control characters XML 1.0 cannot hold; names are ASCII"]


def setup():
    gyprun.load()
