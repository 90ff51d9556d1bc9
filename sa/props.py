"""Per-property settings of the analyser."""
from . import contracts as C
from . import effects

SPECS = {}

TECHNIQUE = "abstract interpretation of compiler MIR (linear forms, relational facts, trace partitioning)"
NOTE = ("Every claim of the property is discharged from the abstract state for all inputs when the evidence lists its root as proved; "
        "roots not proved are listed with the loop bound or the construct that stopped them. Trusts rustc's MIR, the models of std "
        "functions in sa/models.py and the statement of the claims in harness/.")


def spec(p, **kw):
    SPECS[p] = kw


spec("P10", opts=dict(contracts=C.CRC))
for p in ("P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18"):
    spec(p, opts=dict(contracts=C.TABLES))

spec("P12", opts=dict(contracts=C.TABLES), general=dict(apart=0))
for p in ("P13", "P14", "P15"):
    spec(p, opts=dict(contracts=C.TABLES), general=dict(unroll=1))
spec("P17", opts=dict(contracts=C.TABLES, unroll=4))
spec("P23", opts=dict(contracts=C.TEXT, unroll=3), general=dict(unroll=1))
spec("P24", opts=dict(contracts=C.TEXT, unroll=8))
spec("P41", opts=dict(unroll=8))
spec("P42", opts=dict(contracts=C.TABLES, unroll=600, width=1000, steps=60000))
spec("P43", opts=dict(contracts=C.CRC, unroll=4))
spec("P26", opts=dict(unroll=4))
spec("P21", opts=dict(contracts=C.TABLES, unroll=5))
spec("P30", opts=dict(contracts=C.TABLES, unroll=60, width=1000, steps=60000), deep=())
spec("P34", opts=dict(unroll=4))
spec("P37", opts=dict(unroll=4), deep=())
spec("P38", opts=dict(unroll=4))
spec("P32", opts=dict(steps=20000))
spec("P33", opts=dict(unroll=100, steps=20000))
spec("P35", opts=dict(unroll=200, steps=60000))
spec("P44", places=True, opts=dict(contracts=C.TABLES), general=dict(unroll=1), deep=(),
     per={"root_ub_desc_" + t: dict(contracts=C.TEXT, unroll=1) for t in "09 0a 0e 40 41 43 44 48 4d 4e 52 58 5a 83 other".split()})
spec("P19", opts=dict(unroll=8), general=dict(unroll=1))
spec("P20", opts=dict(contracts=C.CRC, unroll=26))

spec("P45", query=effects.query, technique="effect analysis over the MIR of every function of the crate; type-level witnesses for the compiler",
     level_note="Looks at every function, closure and static of the crate as compiled. Trusts rustc's MIR and auto traits, and that the functions of "
                "std not listed in sa/effects.py keep no state that shows.",
     rule="no function mentions a static that can change or a function that reads anything but its arguments; every witness type is Send and Sync",
     explanation="every static and function mentioned in the MIR of each function of the crate is classified; witnesses are compiled against the crate")


def get(p):
    return SPECS.get(p, {})
