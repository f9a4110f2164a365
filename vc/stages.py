"""The proof stages of the checks: each returns the results of its units."""
from . import check, units
from .units import Result, WF


def ownership(ctx):
    """every reduction, every discarded symbol and every destructor keeps and gives up ownership as its contract says"""
    facts, wf = check.infer(ctx)
    T, G = ctx.T, ctx.G
    us = []
    for R in G.rules:
        if R.num:
            us.append((f"reduction {R}", units.reduce_unit(T, G, R, facts, wf, units.ownership_finish(T, G, R, facts, wf)), {"prods": [(R.lhs, tuple(R.rhs))]}))
    for n, f in units.destruct_units(T, G, facts, wf):
        s = n.split()[-1]
        us.append((n, f, {"prods": [(R.lhs, tuple(R.rhs)) for R in G.rules if s in R.rhs][:6]}))

    def withwf(f):
        def run(E):
            E.wf_hook = wf.assume
            return f(E)
        return run
    for n, f in units.dtor_units(T):
        us.append((n, withwf(f)))
    return check.run_units(ctx, us)


DISCRIMINATORS = {"file_type", "csv_option", "import_export_options", "opt_import_export_options", "column_constraint", "column_constraints", "opt_column_constraints", "column_def", "extended_literal"}
PARTS = {"C12": ({"params"}, {"param_expr", "input"}), "C13": ({"slices"}, {"input", "statement_list", "statement"}), "C14": ({"errors"}, DISCRIMINATORS), "C20": ({"errors"}, DISCRIMINATORS)}


def functional(prop):
    """the reductions of the property's productions compute the specified value"""
    def stage(ctx):
        from . import func, bounded
        facts, wf = check.infer(ctx)
        T, G, S = ctx.T, ctx.G, ctx.S
        parts, values = PARTS.get(prop, ({"value"}, None))
        lhs = None if prop in PARTS else {R.lhs for R in G.rules if {"IDENTIFIER", "STRING"} & set(R.rhs)} if prop == "C05" else bounded.PRODS[prop]
        us = []
        for R in G.rules:
            if prop == "C05" and not {"IDENTIFIER", "STRING"} & set(R.rhs):
                continue        # names and strings are passed on as they are
            if R.num and (lhs is None or R.lhs in lhs or not any(p.lhs == R.lhs for p in S.prods)):
                p = set(parts) | ({"value"} if values is not None and R.lhs in values else set())
                us.append((f"meaning of {R}" if "value" in p else f"effects of {R}", units.reduce_unit(T, G, R, facts, wf, func.finish(T, G, S, R, frozenset(p))), {"prods": [(R.lhs, tuple(R.rhs))]}))
        return check.run_units(ctx, us)
    stage.__name__ = "functional"
    return stage
