"""Which harness decides which property, and how much of it runs in each tier."""
import os
REPO = os.environ.get("VERIF_REPO", "/repo")
def snd(*variants, **kw):
    return dict(harness=["p_sound.cpp", "engine.cpp", "pplx.cpp"], variants=list(variants), **kw)

def ex(*variants, **kw):
    return dict(harness=["p_exact.cpp", "engine.cpp", "pplx.cpp"], variants=list(variants), **kw)

BINS = {
    "sound-box": snd(("box", "MPQ"), ("box", "D"), ("box", "MPFR")),
    "sound-oct": snd(("oct", "MPQ"), ("oct", "D")),
    "sound-pk": snd(("pk", "MPQ"), ("pk", "Rll")),
    "sound-ppl": snd(("pk", "MPQ"), ppl=True, pkgrid=True),
    "sound-all": snd(("box", "MPQ"), ("box", "D"), ("box", "MPFR"), ("oct", "MPQ"), ("oct", "D"), ("pk", "MPQ"), ("pk", "Rll"), ppl=True, pkgrid=True),
    "sound-t1p": snd(("t1p", "MPQ"), ("t1p", "D"), ("t1p", "MPFR"), ("box", "MPQ"), ("box", "D"), ("box", "MPFR"), ("pk", "MPQ")),
    "sound-avo": snd(("avo", "MPQ"), ("avo", "D")),
    "sound-fpp": snd(("fpp", "D"), ("fpp", "Dl")),
    "exact-box": ex(("box", "MPQ"), ("box", "D"), ("box", "MPFR")),
    "exact-oct": ex(("oct", "MPQ"), ("oct", "D")),
    "exact-pk": ex(("pk", "MPQ"), ("pk", "Rll"), ppl=True),
    "data": dict(harness=["p_data.cpp", "engine.cpp"], variants=[], nums=["MPQ", "D", "MPFR"]),
    "eval": dict(harness=["p_eval.cpp", "engine.cpp", "pplx.cpp"], variants=[("box", "MPQ"), ("box", "D"), ("box", "MPFR"), ("oct", "MPQ"), ("pk", "MPQ")]),
    "laws": dict(harness=["p_laws.cpp", "engine.cpp", "pplx.cpp"], variants=[("box", "MPQ"), ("box", "D"), ("box", "MPFR"), ("oct", "MPQ"), ("oct", "D"), ("pk", "MPQ"), ("pk", "Rll")], ppl=True, pkgrid=True),
    "inv": dict(harness=["p_inv.cpp", "engine.cpp", "pplx.cpp"], variants=[("box", "MPQ"), ("box", "D"), ("oct", "MPQ"), ("oct", "D"), ("pk", "MPQ")], ppl=True, pkgrid=True),
    "l1": dict(harness=["p_l1.cpp", "engine.cpp", "pplx.cpp"], variants=[("pk", "MPQ")], ppl=True),
    "cxx": dict(harness=["p_cxx.cpp", "engine.cpp", "pplx.cpp", REPO + "/apronxx/apronxx.cc"], variants=[("box", "MPQ"), ("oct", "MPQ"), ("oct", "D"), ("pk", "MPQ")], extra_incs=["-I" + REPO + "/apronxx"]),
    "cxxd": dict(harness=["p_cxxd.cpp", "engine.cpp", REPO + "/apronxx/apronxx.cc"], variants=[("box", "MPQ")], extra_incs=["-I" + REPO + "/apronxx"]),
    "java": dict(harness=["p_java.cpp", "p_javad.cpp", "engine.cpp", "pplx.cpp"], variants=[("box", "D"), ("oct", "D"), ("pk", "MPQ")], ppl=True, pkgrid=True, nums=["MPQ", "D", "MPFR"], java=True),
    "num": dict(harness=["p_num.cpp", "engine.cpp"], variants=[], shims=["num_shim.c"]),
    "env": dict(harness=["p_env.cpp", "engine.cpp"], variants=[], nums=["MPQ", "D", "MPFR"]),
}

PROPS = {
    "C01": [dict(bin="sound-box", prop="box", quick=120000, thorough=4000000)],
    "C02": [dict(bin="sound-oct", prop="oct", quick=60000, thorough=2000000)],
    "C03": [dict(bin="sound-pk", prop="pk", quick=60000, thorough=2000000)],
    "C04": [dict(bin="sound-pk", prop="pkeq", quick=60000, thorough=2000000)],
    "C05": [dict(bin="sound-ppl", prop="ppl", quick=60000, thorough=2000000)],
    "C06": [dict(bin="sound-ppl", prop="pkgrid", quick=40000, thorough=1500000)],
    "C07": [dict(bin="sound-t1p", prop="t1p", quick=60000, thorough=200000)],
    "C21": [dict(bin="env", prop="env", quick=1000000, thorough=40000000)],
    "C11": [dict(bin="exact-box", prop="box", quick=100000, thorough=3000000)],
    "C12": [dict(bin="exact-oct", prop="oct", quick=60000, thorough=2000000)],
    "C13": [dict(bin="exact-pk", prop="pk", quick=60000, thorough=2000000), dict(bin="exact-pk", prop="ppl", quick=40000, thorough=1500000)],
    "C14": [dict(bin="exact-pk", prop="pkeq", quick=60000, thorough=2000000)],
    "C15": [dict(bin="laws", prop="order", quick=400000, thorough=6000000)],
    "C16": [dict(bin="laws", prop="widen", quick=300000, thorough=5000000)],
    "C17": [dict(bin="laws", prop="pure", quick=350000, thorough=8000000)],
    "C19": [dict(bin="inv", prop="inv0", quick=60000, thorough=2000000), dict(bin="inv", prop="inv1", quick=100000, thorough=4000000)],
    "C18": [dict(bin=b, prop=p, mode=m, memonly=True, name="%s-%s" % (p, m), quick=int(q * (1 if m == "asan" else 3)), thorough=int(q * (40 if m == "asan" else 150)))
            for m in ("asan", "leak") for b, p, q in (("sound-all", "box", 3000), ("sound-all", "oct", 3000), ("sound-all", "pk", 5000), ("sound-all", "pkeq", 4000), ("sound-all", "ppl", 3000), ("sound-all", "pkgrid", 3000),
                                                      ("data", "expr", 20000), ("data", "scalar", 20000), ("env", "env", 30000), ("eval", "eval", 10000), ("l1", "l1", 5000), ("num", "num", 30000), ("inv", "inv0", 1500), ("inv", "inv1", 10000), ("cxx", "cxx0", 2000), ("cxx", "cxx1", 2000), ("cxxd", "cxxd", 8000))],
    "C20": [dict(bin="laws", prop="trip", quick=400000, thorough=5000000)],
    "C22": [dict(bin="l1", prop="l1", quick=150000, thorough=4000000)],
    "C23": [dict(bin="data", prop="expr", quick=800000, thorough=30000000)],
    "C25": [dict(bin="data", prop="scalar", quick=1500000, thorough=60000000)],
    "C26": [dict(bin="eval", prop="eval", quick=500000, thorough=15000000)],
    "C27": [dict(bin="num", prop="num", quick=1500000, thorough=60000000)],
    "C28": [dict(bin="cxx", prop="cxx0", quick=100000, thorough=3000000), dict(bin="cxx", prop="cxx1", quick=100000, thorough=3000000), dict(bin="cxxd", prop="cxxd", quick=1000000, thorough=30000000)],
    "C29": [dict(bin="java", prop="java0", quick=60000, thorough=600000), dict(bin="java", prop="javad", quick=300000, thorough=3000000)],
}
