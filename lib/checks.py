"""Property id -> check function."""
TABLE = {}


def check(pid):
    def deco(f):
        TABLE[pid] = f
        return f
    return deco


import rules_core  # noqa
import rules_writer  # noqa
import rules_seek  # noqa
import rules_derive  # noqa
import rules_impls  # noqa
import rules_num  # noqa
import rules_entry  # noqa
import rules_reject  # noqa
import rules_conv  # noqa
