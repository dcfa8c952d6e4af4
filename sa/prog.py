"""Merged program database: functions by USR, class hierarchy, override resolution, types."""
import re
from collections import defaultdict
from .extract import load_units, AnalysisError

_tmpl = re.compile(r"<[^<>]*>")
_strip_cache = {}


def strip_t(name):
    """qualified name without template arguments (operator< etc. preserved)"""
    if name in _strip_cache:
        return _strip_cache[name]
    orig = name
    # isolate a trailing operator name
    tail = ""
    m = re.search(r"(operator\s*[^A-Za-z_\s].*)$", name)
    if m:
        tail = m.group(1)
        name = name[: m.start()]
        # 'operator=<...>' template args on the operator itself
        mm = re.match(r"(operator\s*(?:<<=|>>=|<<|>>|<=|>=|->\*|->|<|>|\(\)|\[\]|[^A-Za-z_<>]+))", tail)
        if mm:
            tail = mm.group(1)
    prev = None
    while prev != name:
        prev = name
        name = _tmpl.sub("", name)
    r = name + tail
    _strip_cache[orig] = r
    return r


def children(n):
    """all child nodes (expressions and statements)"""
    for k, v in n.items():
        if isinstance(v, dict):
            if "k" in v or "e" in v:
                yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(n):
    if n is None:
        return
    st = [n]
    while st:
        x = st.pop()
        yield x
        ch = list(children(x))
        st.extend(reversed(ch))


class Program:
    def __init__(self, units):
        self.units = units
        self.types = []
        self.funcs = {}
        self.records = {}
        self.globals = {}
        self.freedecls = []
        for uname in sorted(units):
            u = units[uname]
            off = len(self.types)
            for t in u["types"]:
                if "ta" in t:
                    t["ta"] = [x + off if isinstance(x, int) else x for x in t["ta"]]
                self.types.append(t)
            for rn, r in u["records"].items():
                for f in r["fields"]:
                    if "t" in f:
                        f["t"] += off
                    if "init" in f:
                        self._shift(f["init"], off)
                if rn not in self.records:
                    self.records[rn] = r
                else:
                    # definedness may differ per unit
                    have = {m["usr"]: m for m in self.records[rn]["methods"]}
                    for m in r["methods"]:
                        if m["usr"] in have and m.get("def"):
                            have[m["usr"]]["def"] = True
            for k, f in u["functions"].items():
                if k in self.funcs:
                    continue
                if "ret" in f:
                    f["ret"] += off
                for p in f["p"]:
                    self._shift(p, off)
                for i in f.get("inits", []):
                    if i.get("e"):
                        self._shift(i["e"], off)
                if f.get("body"):
                    self._shift(f["body"], off)
                f["usr"] = k
                f["unit"] = uname
                self.funcs[k] = f
            for g in u["globals"]:
                g["t"] += off
                if "init" in g:
                    self._shift(g["init"], off)
                key = (g["n"], g["file"], g["l"])
                if key not in self.globals or (g.get("def") and not self.globals[key].get("def")):
                    self.globals[key] = g
            self.freedecls.extend(u["freedecls"])
        self.by_name = defaultdict(list)
        for k, f in self.funcs.items():
            f["q"] = strip_t(f["f"])
            self.by_name[f["q"]].append(f)
        self.methods_of = defaultdict(list)
        for k, f in self.funcs.items():
            if f.get("cls"):
                self.methods_of[f["cls"]].append(f)
        self._ovtrans = {}
        self.fields_of = {}
        self.sub = defaultdict(set)
        for rn, r in self.records.items():
            for b in r["bases"]:
                self.sub[b].add(rn)

    def _shift(self, n, off):
        st = [n]
        while st:
            x = st.pop()
            for key in ("t", "to", "ty"):
                if isinstance(x.get(key), int) and x[key] >= 0:
                    x[key] += off
            for v in x.values():
                if isinstance(v, dict):
                    st.append(v)
                elif isinstance(v, list):
                    for y in v:
                        if isinstance(y, dict):
                            st.append(y)

    def type(self, n):
        i = n.get("t", -1) if isinstance(n, dict) else n
        return self.types[i] if isinstance(i, int) and i >= 0 else {}

    def bases(self, cls):
        """cls and its bases, most derived first"""
        out = []
        q = [cls]
        while q:
            c = q.pop(0)
            if c in out:
                continue
            out.append(c)
            r = self.records.get(c)
            if r:
                q.extend(r["bases"])
        return out

    def subclasses(self, cls):
        out = {cls}
        q = [cls]
        while q:
            c = q.pop()
            for s in self.sub.get(c, ()):
                if s not in out:
                    out.add(s)
                    q.append(s)
        return out

    def overrides(self, usr):
        """all methods (usr) that `usr` overrides, transitively"""
        if usr in self._ovtrans:
            return self._ovtrans[usr]
        s = set()
        self._ovtrans[usr] = s
        f = self.funcs.get(usr)
        if f:
            for o in f.get("ov", []):
                s.add(o)
                s |= self.overrides(o)
        return s

    def resolve_virtual(self, usr, cls):
        for c in self.bases(cls):
            for f in self.methods_of.get(c, ()):
                if f["usr"] == usr or usr in self.overrides(f["usr"]):
                    return f
        return self.funcs.get(usr)

    def all_fields(self, cls):
        """[(owner, field)] of cls including bases"""
        if cls in self.fields_of:
            return self.fields_of[cls]
        out = []
        for c in self.bases(cls):
            r = self.records.get(c)
            if r:
                for f in r["fields"]:
                    out.append((c, f))
        self.fields_of[cls] = out
        return out

    def find(self, qname, nargs=None, const=None, pred=None):
        fs = [f for f in self.by_name.get(qname, []) if f.get("body") is not None or f.get("inits")]
        if nargs is not None:
            fs = [f for f in fs if len(f["p"]) == nargs]
        if const is not None:
            fs = [f for f in fs if bool(f.get("const")) == const]
        if pred:
            fs = [f for f in fs if pred(f)]
        return fs

    def one(self, qname, **kw):
        fs = self.find(qname, **kw)
        if len(fs) != 1:
            raise AnalysisError("anchor %s: %d definitions found" % (qname, len(fs)))
        return fs[0]

    def constant(self, qname):
        """value of a constant with static storage, or None"""
        for (n, _, _), g in self.globals.items():
            if n == qname:
                e = g.get("init")
                while e is not None:
                    if "cv" in e:
                        return e["cv"]
                    if e["k"] in ("int", "bool"):
                        return e["v"]
                    e = e.get("e")
        return None

    def loc(self, f, n=None):
        return "%s:%s" % (f["file"], (n or f).get("l", f["l"]))


_prog = None


def program(extra=()):
    global _prog
    if extra:
        return Program(load_units(extra))
    if _prog is None:
        _prog = Program(load_units())
    return _prog
