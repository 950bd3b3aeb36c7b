"""property id -> (rule, one-line explanation of what the evidence counts)"""
from . import rules_coder, rules_header, rules_frame, rules_obu, rules_syntax, rules_coeff, rules_tables, rules_cli, rules_tile, rules_mode, rules_mv, rules_lr, rules_group, rules_effects

EXPLAIN = ("Static decision on the MIR of /repo's current tree: value graphs of every analysed function are compared with the "
           "definition the property gives; counts are obligations (one comparison of two normal forms each), functions and "
           "instances visited in this run. Undecided obligations are listed and never reported as violations.")


EFFECTS = ("Static decision on the MIR and syntax tree of /repo's current tree: every function of the program and the library is "
           "analysed; counts are functions, call sites and statics visited in this run. A function counts as held when nothing in it breaks the rule.")


def get(p):
    if p in rules_effects.RULES:
        return rules_effects.RULES[p], EFFECTS
    for m in (rules_coder, rules_header, rules_frame, rules_obu, rules_syntax, rules_coeff, rules_tables, rules_cli, rules_tile, rules_mode, rules_mv, rules_lr, rules_group, rules_effects):
        if p in m.RULES:
            return m.RULES[p], EXPLAIN
    raise SystemExit("unknown property " + p)
