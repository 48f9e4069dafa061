"""What is run for each property: parts = families of calls (spec/Scenario.tla
KIND) with the trace specification that judges them and how many behaviours
are drawn in the (quick, thorough) tier; design = design specifications that
are checked exhaustively with TLC."""

COM = dict(kind="com", spec="ComTrace")
ZERO = dict(kind="zero", spec="ZeroTrace")
EE = dict(kind="ee", spec="EETrace", shard=12)
WP = dict(kind="wp", spec="WpTrace", shard=20)
QP = dict(kind="qp", spec="QPTrace")
ABS = dict(kind="abs", spec="AbsTrace")
TIME = dict(kind="time", spec="TimeTrace")
PRE = dict(kind="pre", spec="PreTrace")

ERRF = dict(kind="errf", spec="ErrTrace", exhaustive=True, shard=16)
ERRO = dict(kind="erro", spec="ErrTrace", exhaustive=True, shard=64)
ERRA = dict(kind="erra", spec="ErrTrace", shard=200)
HIST = dict(kind="hist", spec="HistTrace", shard=60)
CONC = dict(kind="conc", spec="ConcTrace", shard=40)
DUEL = dict(kind="duel", spec="ConcTrace", shard=8)
SYS = dict(kind="sys", spec="SysTrace", shard=60)
EXPR = dict(kind="expr", spec="ExprTrace", gen="ExprGen", shard=60)
EXPRMC = dict(cfg="ExprMC", module="ExprMC", workers=2)
PY = dict(kind="py", spec="PyTrace", gen="BindGen", shard=40)
BINDMC = dict(cfg="BindMC", module="BindMC", workers=2)
# every problem of spec/SmallQP.tla in the thorough tier, a sample in the quick one
QPX = dict(kind="qpx", spec="QPTrace", exhaustive="thorough", shard=1500)
ABSX = dict(kind="absx", spec="AbsTrace", exhaustive="thorough", shard=1500)
ACTIVESET = dict(cfg="ActiveSet", module="ActiveSet", workers=3)
PLANNER = dict(cfg="Planner", module="Planner", workers=2)
CONCMC = dict(cfg="ConcMC", module="ConcMC", workers=2)
SESSION = dict(cfg="SessionMC", module="SessionMC", workers=1)
# the laws by which the specification's own operators hang together
THEORY = dict(cfg="Theory", module="Theory", workers=2, overrides=True)
# exact arithmetic: the TLA+ definitions, and their Java overrides, on the same claims
ARITH = [dict(cfg="RationalTest", module="RationalTest", workers=1, overrides=o) for o in (True, False)]
# the drivers that each kind of scenario needs
SOURCES = dict(com=["com"], zero=["com"], sys=["com"], ee=["ee", "com"], wp=["wp", "com"], qp=["qp"], abs=["qp"], qpx=["qp"], absx=["qp"], time=["misc"], pre=["misc"], expr=["expr"],
               errf=["err", "ee", "com"], erro=["err", "ee", "com"], erra=["err", "ee", "com"],
               hist=["hist", "com", "ee", "wp", "qp", "misc", "err"], py=["py", "com"],
               conc=["conc", "hist", "com", "ee", "wp", "qp", "misc", "err"],
               duel=["conc", "hist", "com", "ee", "wp", "qp", "misc", "err"])


def part(p, q, t, **kw):
    return dict(p, n=(q, t), **kw)


PLAN = {
    "C01": dict(parts=[part(COM, 1200, 20000)], design=[THEORY, PLANNER] + ARITH),
    "C02": dict(parts=[part(COM, 1200, 20000)], design=[THEORY, PLANNER]),
    "C03": dict(parts=[part(COM, 1200, 20000)], design=[THEORY, PLANNER]),
    "C04": dict(parts=[part(COM, 1200, 20000)], design=[THEORY, PLANNER]),
    "C05": dict(parts=[part(COM, 1000, 16000)], design=[THEORY, PLANNER]),
    "C06": dict(parts=[part(COM, 700, 9000)], design=[THEORY, PLANNER]),
    "C07": dict(parts=[part(COM, 700, 9000)], design=[THEORY, PLANNER]),
    "C08": dict(parts=[part(COM, 1000, 16000)], design=[THEORY]),
    "C09": dict(parts=[part(QP, 2400, 60000, shard=400), part(QPX, 600, 0)], design=[ACTIVESET]),
    "C10": dict(parts=[part(ABS, 2000, 40000, shard=400), part(ABSX, 600, 0)]),
    "C11": dict(parts=[part(ZERO, 800, 12000)], design=[THEORY]),
    "C12": dict(parts=[part(ZERO, 800, 12000)], design=[THEORY]),
    "C13": dict(parts=[part(EE, 90, 1000)], design=[THEORY]),
    "C14": dict(parts=[part(WP, 160, 2000)], design=[THEORY]),
    "C15": dict(parts=[part(TIME, 1500, 20000, shard=300)], design=[THEORY, PLANNER]),
    "C16": dict(parts=[part(ERRF, 0, 0), part(ERRO, 0, 0), part(ERRA, 800, 8000)], design=[PLANNER]),
    "C17": dict(parts=[part(HIST, 240, 4000), part(COM, 100, 2000), part(ZERO, 40, 500), part(EE, 24, 300)], design=[SESSION]),
    "C18": dict(parts=[part(WP, 160, 2000)], design=[THEORY]),
    "C19": dict(parts=[part(PY, 240, 3000)], design=[BINDMC]),
    "C20": dict(parts=[part(PRE, 1500, 20000, shard=300), part(SYS, 240, 4000), part(EXPR, 240, 6000)], design=ARITH + [EXPRMC]),
    "C21": dict(parts=[part(CONC, 180, 3000), part(DUEL, 64, 1600)], design=[CONCMC]),
}
