"""What each check explores: TLC jobs over the modules of spec/."""


def strs(*a):
    return "{" + ", ".join('"%s"' % x for x in a) + "}"


ELEM = ["loadM", "loadW", "addM", "addassignM", "subM", "subassignM", "negM", "mulsM", "mulsUM", "divsM", "lmulsM",
        "zeroM", "oneM", "iszeroM", "eqM", "addW", "addassignW", "subW", "subassignW", "negW", "mulsW", "divsW",
        "lmulsW", "zeroW", "iszeroW", "eqW", "readM", "readW"]
PROD = ["loadM", "loadW", "mulMM", "mulMM", "mulMV", "mulVM", "addM", "addW", "oneM", "readM", "readW", "mulWW"]


def sim(mod, num, depth, **kw):
    d = dict(mod=mod, mode="sim", num=num, depth=depth)
    d.update(kw)
    return d


def bfs(mod, **kw):
    d = dict(mod=mod, mode="bfs")
    d.update(kw)
    return d


CHECKS = {
    "C01": dict(jobs=[
        sim("MatAlg", 480, 40, shards=6, const=dict(OPS=strs(*ELEM), NS="{2,3,4,5,6}", HI="9")),
        bfs("MatBasis", const=dict(NS="{2,3,4,5,6}", KINDS=strs("elem", "vv"))),
    ]),
    "C02": dict(jobs=[
        sim("MatAlg", 480, 40, shards=6, const=dict(OPS=strs(*PROD), NS="{2,3,4,5,6}", HI="9")),
        bfs("MatBasis", const=dict(NS="{2,3,4,5,6}", KINDS=strs("mm", "mv", "vm"))),
    ]),
    "C03": dict(jobs=[
        sim("MatStruct", 300, 31, shards=6, const=dict(NS="{2,3,4,5,6}", HI="99")),
    ]),
    "C04": dict(jobs=[
        sim("MatDet", 360, 30, shards=6, const=dict(NS="{2,3,4,5,6}", HI="99")),
        bfs("MatBasis", const=dict(NS="{2,3,4,5,6}", KINDS=strs("perm"))),
    ]),
    "C05": dict(jobs=[
        sim("MatInv", 360, 40, shards=6, const=dict(NS="{2,3,4,5,6}")),
        bfs("MatBasis", const=dict(NS="{2,3,4,5,6}", KINDS=strs("perm"))),
    ]),
    "C07": dict(jobs=[
        sim("MatQR", 300, 40, shards=6, const=dict(NS="{2,3,4,5,6}")),
    ]),
    "C09": dict(jobs=[
        sim("QuatAlg", 480, 40, shards=6, const=dict(HI="9")),
        bfs("QuatBasis"),
    ]),
    "C10": dict(jobs=[
        sim("RotWalk", 360, 30, shards=6, const=dict(LIM="0")),
        bfs("RotWalk", const=dict(LIM="2"), tier="quick"),
        bfs("RotWalk", const=dict(LIM="4"), tier="thorough"),
    ]),
    "C11": dict(jobs=[
        sim("AxisAngle", 240, 30, shards=6, const=dict(LIM="0", AL="0")),
        bfs("AxisAngle", const=dict(LIM="1", AL="2"), tier="quick"),
        bfs("AxisAngle", const=dict(LIM="2", AL="4"), tier="thorough"),
    ]),
    "C12": dict(jobs=[
        sim("Euler", 240, 30, shards=6, const=dict(AL="0")),
        bfs("Euler", const=dict(AL="1"), tier="quick"),
        bfs("Euler", const=dict(AL="2"), tier="thorough"),
    ]),
    "C13": dict(jobs=[
        sim("Slerp", 360, 30, shards=6, const=dict(LIM="0")),
        bfs("Slerp", const=dict(LIM="2"), tier="quick"),
        bfs("Slerp", const=dict(LIM="4"), tier="thorough"),
    ]),
    "C14": dict(jobs=[
        sim("QuatFn", 360, 30, shards=6, const=dict(LIM="0")),
        bfs("QuatFn", const=dict(LIM="2"), tier="quick"),
        bfs("QuatFn", const=dict(LIM="3"), tier="thorough"),
    ]),
    "C15": dict(jobs=[
        sim("Flags", 480, 60, shards=6),
    ]),
    "C06": dict(jobs=[
        sim("LuGen", 300, 31, shards=6, const=dict(NS="{2,3,4,5,6}"), validate=bfs("LuCheck")),
        bfs("LuExh", const=dict(NS="{2,3,4,5}", ENT="2"), validate=bfs("LuCheck"), tier="quick"),
        bfs("LuExh", const=dict(NS="{2,3,4,5,6}", ENT="4"), validate=bfs("LuCheck"), tier="thorough"),
    ]),
    "C08": dict(jobs=[
        sim("Vec", 360, 40, shards=6, const=dict(LIM="0")),
        bfs("Vec", const=dict(LIM="2"), tier="quick"),
        bfs("Vec", const=dict(LIM="4"), tier="thorough"),
    ]),
    "C16": dict(jobs=[
        sim("Rigid", 360, 40, shards=6),
    ]),
    "C18": dict(jobs=[
        sim("DualAlg", 480, 40, shards=6, const=dict(HI="9")),
        bfs("DualBasis"),
    ]),
    "C19": dict(jobs=[
        sim("Motion", 360, 40, shards=6),
    ]),
    "C20": dict(jobs=[
        sim("Screw", 240, 30, shards=6, const=dict(LIM="0")),
        bfs("Screw", const=dict(LIM="2"), tier="quick"),
        bfs("Screw", const=dict(LIM="4"), tier="thorough"),
    ]),
    "C17": dict(jobs=[
        sim("ExpLog", 240, 30, shards=6, const=dict(LIM="0")),
        bfs("ExpLog", const=dict(LIM="2"), tier="quick"),
        bfs("ExpLog", const=dict(LIM="5"), tier="thorough"),
    ]),
    "C21": dict(jobs=[
        sim("Eigen", 480, 60, shards=4, const=dict(LIM="0")),
        bfs("Eigen", const=dict(LIM="4"), tier="quick"),
        bfs("Eigen", const=dict(LIM="8"), tier="thorough"),
    ]),
    "C22": dict(jobs=[
        sim("Compare", 360, 30, shards=6, const=dict(LIM="0")),
        bfs("Compare", const=dict(LIM="4"), tier="quick"),
        bfs("Compare", const=dict(LIM="12"), tier="thorough"),
    ]),
    "C23": dict(jobs=[
        sim("Text", 240, 30, shards=4, const=dict(NS="{2,3,4,5,6}")),
        bfs("Text", const=dict(NS="{2,3,4,5,6}")),
    ]),
}

# angles next to the identity, a half turn and gimbal lock
for _p, _k in (("C10", "conv"), ("C11", "aa"), ("C12", "euler"), ("C13", "slerp"), ("C14", "qfn"), ("C16", "rigid"), ("C17", "explog"), ("C19", "dual"), ("C20", "screw")):
    CHECKS[_p]["jobs"] += [
        bfs("Tiny", const=dict(KINDS=strs(_k), KS="{8, 11, 14, 16, 20, 23, 26, 30, 35, 40, 45, 48, 50}"), tier="quick"),
        bfs("Tiny", const=dict(KINDS=strs(_k), KS="{%s}" % ", ".join(map(str, range(6, 51)))), tier="thorough"),
    ]

# values next to the special ones, and of mixed magnitude
for _p, _k in (("C01", "elem"), ("C02", "prod"), ("C04", "det"), ("C05", "inv"), ("C06", "lu"), ("C07", "qr"), ("C08", "vec"), ("C09", "qalg"),
               ("C11", "aa"), ("C14", "qfn"), ("C15", "flag"), ("C17", "so3"), ("C19", "rt"), ("C18", "dalg"), ("C21", "eig")):
    CHECKS[_p]["jobs"] += [
        sim("Near", 160 if _k in ("flag", "so3") else 320, 20, shards=4, const=dict(KIND='"%s"' % _k, NS="{2}" if _k in ("vec", "qalg", "dalg", "eig", "flag", "qfn", "aa", "so3", "rt") else "{2, 3, 4, 5, 6}",
                                                  KS="{4, 6, 8, 9, 10, 12, 15, 18, 20}" if _k == "eig" else "{8, 9, 10, 11, 12, 13, 15, 18, 22, 25, 27, 30, 33, 36, 40, 43, 45, 48, 50}")),
    ]

# matrices with structure
for _p, _k in (("C02", "prod"), ("C04", "det"), ("C05", "inv"), ("C07", "qr")):
    CHECKS[_p]["jobs"].append(sim("Special", 480, 20, shards=4, const=dict(KIND='"%s"' % _k, NS="{2, 3, 4, 5, 6}")))

# operands that have something in common, and operands with a pattern
for _p, _k in (("C01", "mat"), ("C02", "mat"), ("C08", "vec"), ("C09", "quat"), ("C10", "rot"), ("C16", "hom"), ("C18", "dual"), ("C19", "dq")):
    CHECKS[_p]["jobs"].append(sim("Coin", 400, 20, shards=4, const=dict(KIND='"%s"' % _k, NS="{2, 3, 4, 5, 6}" if _k in ("mat", "vec") else "{2}")))

# arguments of any size and with full mantissas
for _p, _k in (("C11", "aa"), ("C12", "euler"), ("C13", "slerp"), ("C14", "qfn"), ("C16", "planar"), ("C17", "se3"), ("C20", "screw")):
    CHECKS[_p]["jobs"].append(sim("Reach", 240, 15, shards=4, const=dict(KIND='"%s"' % _k, US="{1, 2, 3}" if _k in ("planar", "se3", "screw") else "{1}")))

# scalars of limited range
for _p, _k in (("C01", "elem"), ("C02", "prod"), ("C08", "vec"), ("C09", "quat"), ("C18", "dual")):
    CHECKS[_p]["jobs"].append(sim("Narrow", 200, 15, shards=2, const=dict(KIND='"%s"' % _k, NS="{2, 3, 4, 5, 6}" if _k in ("elem", "prod", "vec") else "{2}")))
