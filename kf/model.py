"""Reading what the specification and the code say."""
import json
import random

KINDS = {
    "C07": {"MultiInit"},
    "C08": {"DuplicateExtension", "DuplicateTable", "DuplicateColumn", "DuplicateAttribute", "DuplicateIndex",
            "DuplicateAction", "DuplicateParam"},
    "C09": {"ColumnNotFound", "TableNotFound"},
    "C10": {"AttributeNotAllow"},
    "C11": {"ActionNotFound", "ExtensionNotFound"},
    "C12": {"VariableNotFound", "DuplicateVariable"},
    "C13": {"ActionVisibilityAlreadySet", "ActionMutabilityAlreadySet", "ActionAuxiliaryAlreadySet", "DupFKAction"},
    "C14": {"stmt"},
    "C15": {"syntax"},
}


def listof(x):
    return x if isinstance(x, list) else []


def normal(js):
    """The JSON artifact with every list present and absent values empty."""
    s = json.loads(js)
    g = lambda d, k: d.get(k, "")      # noqa
    return dict(
        owner=g(s, "owner"), name=g(s, "name"),
        tables=[dict(name=g(t, "name"),
                     columns=[dict(name=g(c, "name"), type=g(c, "type"),
                                   attributes=[dict(type=g(a, "type"), value=value(a)) for a in listof(c.get("attributes"))])
                              for c in listof(t.get("columns"))],
                     indexes=[dict(name=g(x, "name"), columns=listof(x.get("columns")), type=g(x, "type"))
                              for x in listof(t.get("indexes"))],
                     foreign_keys=[dict(child_keys=listof(f.get("child_keys")), parent_keys=listof(f.get("parent_keys")),
                                        parent_table=g(f, "parent_table"),
                                        actions=[dict(on=g(a, "on"), do=g(a, "do")) for a in listof(f.get("actions"))])
                                   for f in listof(t.get("foreign_keys"))])
                for t in listof(s.get("tables"))],
        actions=[dict(name=g(a, "name"), annotations=listof(a.get("annotations")), inputs=listof(a.get("inputs")),
                      public=a.get("public"), mutability=g(a, "mutability"), auxiliaries=listof(a.get("auxiliaries")),
                      statements=listof(a.get("statements")))
                 for a in listof(s.get("actions"))],
        extensions=[dict(name=g(e, "name"), alias=g(e, "alias"),
                         config=[dict(argument=g(c, "argument"), value=c.get("value")) for c in listof(e.get("config"))])
                    for e in listof(s.get("extensions"))])


def value(a):
    v = a.get("value", "")
    return v if isinstance(v, str) else "<%s>" % json.dumps(v)


def text(st):
    """A statement of the specification as it must be stored."""
    return "".join(x["t"] + (" " if x["s"] == 2 else "") for x in st)


def expected(sch):
    """The schema of the specification in the shape of normal()."""
    s = dict(sch)
    s["actions"] = [dict(a, statements=[text(st) for st in a["statements"]]) for a in s["actions"]]
    return s


def part(prop, s):
    """What a property says about a schema."""
    if prop == "C01":
        return [[t["name"], t["columns"]] for t in s["tables"]]
    if prop == "C02":
        return [[t["name"], t["indexes"], t["foreign_keys"]] for t in s["tables"]]
    if prop == "C03":
        return [[a["name"], a["inputs"], a["public"], a["mutability"], a["auxiliaries"]] for a in s["actions"]]
    if prop == "C04":
        return [[a["name"], a["statements"]] for a in s["actions"]]
    if prop == "C05":
        return s["extensions"]
    if prop == "C06":
        return [[a["name"], a["annotations"]] for a in s["actions"]]
    if prop == "C07":
        return [[t["name"] for t in s["tables"]], s["extensions"], s["actions"]]
    return s


LAYOUTS = [" ", "  ", "\t", "\n", "\r\n", "\r", " /* c */ ", "/**/", "// x\n", "\n\n", " // ; }\r\n", "/* ' */", "/***/",
           "/**@n(a=1)*/", "//@n(a=1)\n", "/* owner view */", "/*, x int*/", "/* } */ ", "//*/\n"]


BULK = (66000, 132000, 264000, 530000, 1060000)


def padding(rng):
    """Layout of any size, ended by a line break, and the number of its lines."""
    n = rng.choice(BULK)
    return rng.choice([("\n" * n, n), (" " * n + "\n", 1), ("/* " + "x; " * (n // 3) + "*/\n", 1), ("// '{ \u00e9\n" * (n // 8), n // 8)])


def relay(toks, seed, bulk=False):
    """Another layout of the same tokens, [[text, separation]...]; bulk: with a very long gap."""
    rng = random.Random(seed)
    style = rng.randrange(4)
    gaps = [i for i, (_, sep) in enumerate(toks) if sep != 0]
    far = rng.choice(gaps) if bulk and gaps else None
    out = [rng.choice(LAYOUTS) if style else ""]
    for i, (t, sep) in enumerate(toks):
        out.append(t)
        if sep == 0:
            continue
        if i == far:
            out.append(" " + padding(rng)[0])
        if t.endswith("/"):      # a comment here would swallow the slash
            out.append(" ")
        if style == 0:
            out.append(" " if sep == 2 else "")
        elif style == 1:
            out.append(rng.choice(["\n", "\t"]))
        elif style == 2:
            out.append(rng.choice(LAYOUTS) if sep == 2 or rng.random() < 0.6 else "")
        else:
            out.append("".join(rng.choice(LAYOUTS) for _ in range(rng.randint(sep - 1, 3))))
    # the separation behind the last token: anything
    return "".join(out)


def describe(r):
    if r.get("hang"):
        return "no answer (hang)"
    if r.get("panic"):
        return "panic: " + r["panic"][:300]
    if r.get("ok"):
        return "accepted: " + (r.get("json") or "(no schema)")[:700]
    e = r.get("err") or {}
    return "rejected: %s %s" % (e.get("cls"), e.get("msg", "")[:300])
