# Which harness, in which build configuration, decides which property.
_D = ["-O0", "-DUSE_DYNAMIC_ASSERTIONS", "-DUSE_VIRTUAL_FUNCTIONS", "-DNDEBUG"]
_ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-g1"]
CONFIGS = {
  "cd": dict(flags=_D + ["-DUSE_COMPLEX_MATH", "-DCOOLDIFF_SCALAR_TYPE=2"]),
  "rd": dict(flags=_D + ["-DCOOLDIFF_SCALAR_TYPE=2"]),
  "rf": dict(flags=_D + ["-DCOOLDIFF_SCALAR_TYPE=1"]),
  "cda": dict(flags=_D + _ASAN + ["-DUSE_COMPLEX_MATH", "-DCOOLDIFF_SCALAR_TYPE=2"], ld=["-fsanitize=address"], env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1"}),
  "rda": dict(flags=_D + _ASAN + ["-DCOOLDIFF_SCALAR_TYPE=2"], ld=["-fsanitize=address"], env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1"}),
}
_O = ["-O1"] + _D[1:]
CONFIGS["cdo"] = dict(flags=_O + ["-DUSE_COMPLEX_MATH", "-DCOOLDIFF_SCALAR_TYPE=2"])
CONFIGS["rfo"] = dict(flags=_O + ["-DCOOLDIFF_SCALAR_TYPE=1"])
CONFIGS["rdo"] = dict(flags=_O + ["-DCOOLDIFF_SCALAR_TYPE=2"])
def _mat(*parts, main="mat_ops.cpp", args=()): return dict(args=list(args), srcs=[("mat_build.cpp", ["-DPART=%d" % i]) for i in sorted(parts, key=lambda i: (i not in (8, 7, 12, 13, 11), i))] + [(main, [])])
HARNESS = {
  "sops": dict(srcs=[("scalar_ops.cpp", ["-DPART=%d" % i]) for i in (3, 4, 7, 0, 1, 2, 5, 6)] + [("scalar_dyn.cpp", [])]),
  "mlin": _mat(0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 14, 15),
  "mcomp": _mat(0, 3, 5, 7, 8, 9, 13, 14, 15),
  "mconv": _mat(0, 1, 2, 3, 6, 7, 9),
  "mscal": _mat(0, 1, 2, 3, 7, 9, 10, 11, 12),
  "mhist": _mat(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, main="mat_hist.cpp", args=["--chunk", 3]),
  "sophist": dict(srcs=[("scalar_opshist.cpp", ["-DPART=%d" % i]) for i in (2, 1, 0, 3, 4)]),
  "mdirect": dict(srcs=[("mat_direct.cpp", [])]),
  "sasm": dict(srcs=[("scalar_asm.cpp", [])]),
  "shist": dict(srcs=[("scalar_hist.cpp", [])]),
}
_3 = [("sops", "cd"), ("sops", "rd"), ("sops", "rf")]
_2 = [("sops", "cd"), ("sops", "rd")]
CHECKS = {
  "S01": dict(quick=_3, thorough=_3),
  "S02": dict(quick=_3, thorough=_3),
  "S03": dict(quick=_3, thorough=_3),
  "S04": dict(quick=_2, thorough=_3),
  "S05": dict(quick=[("shist", "cdo"), ("sophist", "cd"), ("sophist", "rd")], thorough=[("shist", "cdo"), ("shist", "rfo"), ("sophist", "cdo"), ("sophist", "rdo"), ("sophist", "rf")]),
  "S06": dict(quick=[("shist", "cdo"), ("sophist", "cd"), ("sophist", "rd")], thorough=[("shist", "cdo"), ("shist", "rfo"), ("sophist", "cdo"), ("sophist", "rdo"), ("sophist", "rf")]),
  "S07": dict(quick=[("shist", "cdo"), ("sophist", "cd"), ("sophist", "rd")], thorough=[("shist", "cdo"), ("shist", "rfo"), ("sophist", "cdo"), ("sophist", "rdo"), ("sophist", "rf")]),
}
for _p, _h in (("M01", "mlin"), ("M02", "mlin"), ("M03", "mlin"), ("M10", "mcomp"), ("M11", "mconv"), ("M12", "mscal")):
    CHECKS[_p] = dict(quick=[(_h, "cd"), (_h, "rd")], thorough=[(_h, "cd"), (_h, "rd"), (_h, "rf")])
for _p in ("M04", "M07"):
    CHECKS[_p] = dict(quick=[("mdirect", "cdo"), ("mdirect", "rdo")], thorough=[("mdirect", "cdo"), ("mdirect", "rdo"), ("mdirect", "rfo")])
for _p in ("M05", "M06", "M09"):
    CHECKS[_p] = dict(quick=[("mhist", "cdo")] if _p == "M06" else [("mhist", "cdo"), ("mhist", "rdo")], thorough=[("mhist", "cdo"), ("mhist", "rdo"), ("mhist", "rfo")])
CHECKS["S09"] = dict(quick=[("sasm", "cdo"), ("sasm", "rdo")], thorough=[("sasm", "cdo"), ("sasm", "rdo"), ("sasm", "rfo")])
HARNESS["mvalue"] = dict(srcs=[("mat_value.cpp", [])], args=["--chunk", 12])
CHECKS["M08"] = dict(quick=[("mvalue", "cdo"), ("mvalue", "rda")], thorough=[("mvalue", "cdo"), ("mvalue", "rdo"), ("mvalue", "rfo"), ("mvalue", "cda"), ("mvalue", "rda")])
HARNESS["smixed"] = dict(srcs=[("scalar_mixed.cpp", ["-DPART=%d" % i]) for i in (3, 1, 0, 2, 4)])
CHECKS["S08"] = dict(quick=[("smixed", "cd"), ("smixed", "rf")], thorough=[("smixed", "cd"), ("smixed", "rd"), ("smixed", "rf"), ("smixed", "cdo")])
# threads: every access and synchronisation operation of library and harness lands in sched_rt.cpp
for _c, _f in (("cdt", ["-DUSE_COMPLEX_MATH", "-DCOOLDIFF_SCALAR_TYPE=2"]), ("rdt", ["-DCOOLDIFF_SCALAR_TYPE=2"]), ("rft", ["-DCOOLDIFF_SCALAR_TYPE=1"])):
    CONFIGS[_c] = dict(flags=_O + ["-fsanitize=thread"] + _f, ld=["-rdynamic"])
HARNESS["mthreads"] = dict(srcs=[("mat_threads.cpp", [])], plain=["sched_rt.cpp"])
CHECKS["T01"] = dict(quick=[("mthreads", "cdt"), ("mthreads", "rdt")], thorough=[("mthreads", "cdt"), ("mthreads", "rdt"), ("mthreads", "rft")])
# parallel loops: the build with ENABLE_STL_PARALLEL_EXECUTION, its back end replaced by one that announces the iterations
for _c, _f in (("cdp", ["-DUSE_COMPLEX_MATH", "-DCOOLDIFF_SCALAR_TYPE=2"]), ("rdp", ["-DCOOLDIFF_SCALAR_TYPE=2"])):
    CONFIGS[_c] = dict(flags=_O + ["-fsanitize=thread", "-DFW_PAR", "-DUSE_CXX_PARALLEL_POLICY", "-D_GLIBCXX_USE_TBB_PAR_BACKEND=0", "-include", "par_backend.hpp"] + _f, ld=["-rdynamic"], plain=["par_rt.cpp"])
HARNESS["mpar"] = _mat(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15)
CHECKS["T02"] = dict(quick=[("mdirect", "rdp"), ("sasm", "rdp"), ("mpar", "rdp")], thorough=[("mdirect", "cdp"), ("mdirect", "rdp"), ("sasm", "cdp"), ("sasm", "rdp"), ("mpar", "cdp"), ("mpar", "rdp")])
HARNESS["mseries"] = _mat(0, 3, 7, main="mat_series.cpp")
for _t in ("quick", "thorough"): CHECKS["M10"][_t] = CHECKS["M10"][_t] + [("mseries", c) for c in (("rd",) if _t == "quick" else ("cd", "rd", "rf"))]
# memory safety: the enumerations of the other properties under AddressSanitizer
HARNESS["sdyn"] = dict(srcs=[("scalar_dyn.cpp", ["-DDYNONLY"])])
CHECKS["G01"] = dict(mem=True, quick=[("sdyn", "rda", "S03"), ("sdyn", "rda", "S04"), ("shist", "rda", "S05"), ("shist", "rda", "S06"), ("shist", "rda", "S07"), ("mdirect", "rda", "M07"), ("mlin", "rda", "M02"), ("mlin", "rda", "M03"), ("mhist", "rda", "M09"), ("mhist", "rda", "M05")],
  thorough=[(h, c, p) for c in ("rda", "cda") for h, p in (("sops", "S03"), ("sops", "S04"), ("smixed", "S08"), ("sasm", "S09"), ("shist", "S05"), ("shist", "S06"), ("shist", "S07"), ("sophist", "S05"), ("sophist", "S06"), ("sophist", "S07"), ("mlin", "M02"), ("mlin", "M03"), ("mcomp", "M10"), ("mconv", "M11"), ("mscal", "M12"), ("mdirect", "M04"), ("mdirect", "M07"), ("mvalue", "M08"), ("mhist", "M05"), ("mhist", "M06"), ("mhist", "M09"), ("mseries", "M10"))])
# the build options of the library's own build files that this sandbox's build leaves out: the moving hash map, assertions off
_R = ["-DUSE_ROBIN_HOOD_MAP", "-I" + __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "harness", "robin")]
CONFIGS["cdh"] = dict(flags=[f for f in _O if "ASSERTIONS" not in f] + _R + ["-DUSE_COMPLEX_MATH", "-DCOOLDIFF_SCALAR_TYPE=2"])
CONFIGS["rdh"] = dict(flags=[f for f in _O if "ASSERTIONS" not in f] + _R + ["-DCOOLDIFF_SCALAR_TYPE=2"])
_CO = [("sdyn", "S01"), ("sdyn", "S02"), ("sdyn", "S03"), ("sdyn", "S04"), ("shist", "S05"), ("shist", "S06"), ("shist", "S07"), ("sasm", "S09"), ("mhist", "M05"), ("mhist", "M09"), ("mvalue", "M08"), ("mdirect", "M04"), ("mdirect", "M07")]
CHECKS["C01"] = dict(reduced=True, quick=[(h, c, p) for h, p in _CO for c in (("rdh",) if h[0] == "m" else ("cdh",))], thorough=[(h, c, p) for c in ("cdh", "rdh") for h, p in _CO])
