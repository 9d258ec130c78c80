"""Registry of the property checks."""
TRUSTED = ["rustc's MIR of the code under analysis and of the std functions without a model",
           "engine/interp.py and engine/models.py (abstract semantics of MIR and of modelled library functions)",
           "engine/num.py, engine/lp.c (exact rational emptiness test of the polyhedral domain)",
           "the specification in engine/props"]
TABLE = ["leap-second table: sorted by time, positive 32-bit timestamps, each entry changes the total by at most one second; table sizes as listed in the notes",
         "zoneinfo files are present and parse (libtzfile is trusted to return what the file says)"]


AI = "abstract interpretation of MIR (trace partitioning, linear inequalities, bit fields, finite summaries)"


class Prop:
    def __init__(self, jobs, rule, level="other", trusted=None, assumptions=None, technique=AI, note=None):
        self.jobs = jobs
        self.rule = rule
        self.level = level
        self.trusted = trusted or TRUSTED
        self.assumptions = assumptions or []
        self.technique = technique
        self.note = note or ("Sound over-approximation of every execution of the analysed functions for all inputs: an obligation counts as "
                             "discharged only if it holds in every abstract state. Quick uses leap-second tables with two entries (one for month "
                             "arithmetic), thorough zero to three, contents unrestricted within the stated assumptions. Trusts rustc's MIR, the models "
                             "of std functions and the analyser. Undecided obligations are listed in the evidence and do not raise an alarm.")


REG = {}


def get(pid):
    from . import dt, gnd, ints, leap, builder, variants, equal, effects, load, texts, copies
    return REG[pid]
