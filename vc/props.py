"""Per property: proof stages, level, trusted base."""
from . import stages, lexer, result, glue, outcome, printing, values, frames, lr

TOOLS = ["bison 3.8.2 and its LALR(1) parser skeleton (stack handling between reductions, error loop)", "flex 2.6.4 and its scanner skeleton (table-driven matching loop, buffer handling)",
         "clang 18 front end at -O1 without optimization passes: the verified LLVM IR is the program", "z3 5.x", "the symbolic executor in /verif/vc"]
LIB = ["operator new/malloc/strdup return fresh memory and never fail", "std::vector, std::unordered_set, std::string, std::sort semantics", "strcasecmp/strlen/sscanf/atof/strtoll semantics of ISO C and POSIX"]
ASSUME = ["allocation never fails and no exception is thrown", "the input is shorter than 2^31 bytes", "at most 200 parser stack entries (beyond: memory exhausted error of the skeleton)", "the call stack is large enough for recursive destructors"]


def P(stages_, level="proof", trusted=(), assumptions=(), **kw):
    return dict(stages=list(stages_), level=level, trusted=TOOLS + LIB + list(trusted), assumptions=ASSUME + list(assumptions), **kw)


PROPS = {
    "C01": P([stages.ownership, lexer.stage("C01"), result.stage("C01"), glue.stage("C01")]),
    "C02": P([result.stage("C02")]),
    "C03": P([outcome.stage, glue.stage("C03")]),
    "C16": P([printing.stage]),
    "C19": P([values.stage]),
    "C17": P([frames.stage, lexer.stage("C17")]),
    "C20": P([lr.stage, lexer.stage("C20"), stages.functional("C20"), glue.stage("C20")]),
    "C18": P([glue.stage("C18")]),
    "C04": P([lexer.stage("C04"), glue.stage("C04")]),
    "C05": P([lexer.stage("C05"), stages.functional("C05")]),
    "C15": P([lexer.stage("C15"), glue.stage("C15")]),
    "C06": P([stages.functional("C06"), lexer.stage("C06"), glue.stage("frame")]),
    "C07": P([stages.functional("C07"), lr.expressions, glue.stage("frame")]),
    "C08": P([stages.functional("C08"), glue.stage("frame")]),
    "C09": P([stages.functional("C09"), glue.stage("frame")]),
    "C10": P([stages.functional("C10"), glue.stage("frame")]),
    "C11": P([stages.functional("C11"), glue.stage("frame")]),
    "C12": P([stages.functional("C12"), result.stage("C12"), glue.stage("C12")]),
    "C13": P([stages.functional("C13"), lexer.stage("C13"), glue.stage("frame")]),
    "C14": P([stages.functional("C14")]),
}
for i in range(2, 21):
    PROPS.setdefault(f"C{i:02d}", P([], "exploration"))
