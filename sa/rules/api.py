"""P01: everything the public headers declare exists and can be used."""
import os
import subprocess
import tempfile
import concurrent.futures as cf
from ..extract import headers, flags, REPO, AnalysisError

# public templates a user instantiates; every member of each must compile (explicit instantiation)
INST = [
    "template class stateObservation::IndexedMatrixT<stateObservation::Matrix, false>;",
    "template class stateObservation::IndexedMatrixT<stateObservation::Vector, false>;",
    "template class stateObservation::IndexedMatrixT<stateObservation::Matrix3, true>;",
    "template class stateObservation::IndexedMatrixArrayT<stateObservation::Matrix, std::allocator<stateObservation::Matrix>>;",
    "template class stateObservation::IndexedMatrixArrayT<stateObservation::Vector, std::allocator<stateObservation::Vector>>;",
    "template class stateObservation::CheckedItem<stateObservation::Vector3, false, true, true, true>;",
    "template class stateObservation::CheckedItem<stateObservation::Matrix3, false, false, true, true>;",
    "template class stateObservation::CheckedItem<double, true, true, true, true>;",
]
LOGGED = ["double", "int", "stateObservation::Vector", "stateObservation::Matrix", "bool", "float"]


def compile_ok(src, td, name):
    p = os.path.join(td, name + ".cpp")
    open(p, "w").write(src)
    r = subprocess.run(["clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++", "-fsyntax-only"] + flags() + [p],
                       capture_output=True, text=True)
    return r.returncode == 0, r.stderr


def first_error(err):
    for l in err.splitlines():
        if "error:" in l:
            return l[:300]
    return err[:300]


def run(prog, rep, tier):
    rep.rule("Rule 1: every public or protected function, constructor and free function declared in a public header (not "
             "pure, not deleted) has a definition with that exact signature in some library unit or header.")
    rep.rule("Rule 2: every public header type-checks when included alone. Rule 3: every member of the public class "
             "templates instantiates. Rule 4: a non-template function defined in a header is inline, so two users can link.")
    pub = "include/state-observation/"
    defined = {u for u, f in prog.funcs.items() if f.get("body") is not None or f.get("defaulted")}
    for d in prog.freedecls:
        if d.get("def") or d.get("thisdef"):
            defined.add(d["usr"])
    seen = set()
    for rn, r in sorted(prog.records.items()):
        if not r["file"].startswith(pub):
            continue
        if "<" in rn and "<dep>" not in rn:
            continue
        for m in r["methods"]:
            if m.get("pure") or m.get("del") or m.get("implicit") or m.get("acc") == "private" or m["usr"] in seen:
                continue
            seen.add(m["usr"])
            rep.count("declared_members")
            if m.get("tmpl") and any(f.get("body") is not None for f in prog.by_name.get(
                    r["q"] + "::" + m["n"], ())):
                continue            # primary template left undefined, specialisations defined
            if not (m.get("def") or m["usr"] in defined or m.get("defaulted")):
                key = "undefined %s::%s %s" % (rn.replace("<dep>", ""), m["n"], m["sig"])
                rep.bad(key, "%s:%s" % (m["file"], m["l"]), "declared in a public header but defined nowhere: any use fails to link")
    for d in prog.freedecls:
        if not d["file"].startswith(pub) or d["usr"] in seen:
            continue
        seen.add(d["usr"])
        rep.count("declared_free_functions")
        if d["usr"] not in defined:
            rep.bad("undefined %s %s" % (d["n"], d["sig"]), "%s:%s" % (d["file"], d["l"]),
                    "declared in a public header but defined nowhere: any use fails to link")
    for f in prog.funcs.values():
        if f["file"].startswith(pub) and f.get("body") is not None and not f.get("inst") and not f.get("implicit"):
            rep.count("header_definitions")
            if f.get("noinline"):
                rep.bad("multiply-defined " + f["f"], prog.loc(f), "non-inline function defined in a public header: duplicate symbols as soon as two units include it")
    gd = {}
    for g in prog.globals.values():
        if g.get("local"):
            continue
        e = gd.setdefault(g["n"], [False, g])
        e[0] = e[0] or g.get("def")
    for n, (d, g) in sorted(gd.items()):
        if not g["file"].startswith(pub) or "<" in n:
            continue
        rep.count("declared_constants")
        if not d and not g.get("cv") and "cv" not in g and not g.get("init"):
            rep.bad("undefined constant " + n, "%s:%s" % (g["file"], g["l"]), "declared but never defined")
    with tempfile.TemporaryDirectory(prefix="sa_api_") as td:
        jobs = []
        for h in headers():
            rel = os.path.relpath(h, REPO)
            jobs.append(("header not self-contained " + rel, rel, '#include "%s"\n' % h, "h%d" % len(jobs)))
        alls = "".join('#include "%s"\n' % h for h in headers())
        defs = '#include "%s/include/state-observation/tools/definitions.hpp"\n' % REPO
        lg = '#include "%s/include/state-observation/tools/logger.hpp"\n' % REPO
        for i in INST:
            jobs.append(("template does not instantiate: " + i, "include/state-observation/tools/definitions.hpp", defs + i + "\n", "i%d" % len(jobs)))
        for t in LOGGED:
            for form in ("const %s * p; l.record(p);", "const %s * p; l.record(p, std::string(\"n\"));", "l.push();", "const %s v; l.push(v);", "const %s * p; l.push(p);"):
                body = form.replace("%s", t).replace("const " + t + " v;", "const %s v{};" % t).replace("* p;", "* p = nullptr;")
                src = lg + "void f(stateObservation::tools::Logger & l){ %s }\n" % body
                jobs.append(("logger call does not compile: " + body, "include/state-observation/tools/logger.hpp", src, "l%d" % len(jobs)))
        ctl, _ = compile_ok(defs + "int ok;\n", td, "control")
        if not ctl:
            raise AnalysisError("definitions.hpp does not type-check at all")
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(lambda j: compile_ok(j[2], td, j[3]), jobs))
        for (key, where, _, nm), (ok, err) in zip(jobs, res):
            rep.count("compile_obligations")
            if not ok:
                msg = first_error(err).replace(td + "/", "")
                rep.bad(key, where, msg)
    rep.need("declared_members", 250)
    rep.need("declared_free_functions", 30)
    rep.need("compile_obligations", 30)
