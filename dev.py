#!/usr/bin/env python3
# development: builds one harness binary into /verif/build/dev
import sys, os
sys.path.insert(0, "/verif/lib")
import build
mode = "rel"
if len(sys.argv) > 2: mode = sys.argv[2]
what = sys.argv[1]
V = {"sound": dict(harness=["p_sound.cpp", "engine.cpp", "pplx.cpp"],
     variants=[("box","MPQ"),("box","D"),("box","MPFR"),("oct","MPQ"),("oct","D"),("pk","MPQ"),("pk","Rll"),("t1p","MPQ"),("t1p","D"),("t1p","MPFR"),("avo","MPQ"),("avo","D"),("fpp","D"),("fpp","Dl")], ppl=True, pkgrid=True)}
sys.path.insert(0, "/verif/lib")
import props
if what not in V: V[what] = dict(props.BINS[what])
out = "/verif/build/dev-%s-%s" % (what, mode)
b = build.Builder(out, mode)
b.build(out + "/exe", **V[what])
print(out + "/exe")
