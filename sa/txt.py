"""Canonical text of expressions."""


def txt(e, env=None):
    """canonical text of an expression (for designator equality), parameters substituted by env"""
    if e is None:
        return "_"
    k = e["k"]
    if k == "var":
        if env and e.get("d") in env:
            return env[e["d"]]
        return "%s#%s" % (e["n"], e.get("d", ""))
    if k == "this":
        return "this"
    if k == "mem":
        return txt(e["b"], env) + "." + e["n"]
    if k == "cast":
        return txt(e["e"], env) if e.get("e") else k
    if k == "ctor" and len(e.get("a", [])) == 1:
        return txt(e["a"][0], env)
    if k in ("int", "bool", "float"):
        return str(e.get("v"))
    if k == "call":
        return "%s%s(%s)" % (txt(e["o"], env) + "." if e.get("o") else "", e.get("f", e.get("op")),
                             ",".join(txt(a, env) for a in e.get("a", [])))
    if k in ("bin", "un"):
        return "%s(%s)" % (e["op"], ",".join(txt(e[x], env) for x in ("a", "b", "e") if isinstance(e.get(x), dict)))
    return "%s(%s)" % (k, ",".join(txt(v, env) for v in e.values() if isinstance(v, dict) and "k" in v))
