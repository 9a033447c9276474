"""Contracts of functions that only pass their arguments on to foreign ones.

Foreign functions are verified in their own language; what is said here is that calls
in Pen are calls of those with the same arguments in the same order.
"""


def wrappers(module, symbols, functions):
    """Contracts of functions that are foreign ones, of sorts by their names."""
    contracts = {}
    for name, foreign in functions.items():
        sorts = symbols["f." + foreign].split()
        arguments = " ".join("$%d" % i for i in range(len(sorts) - 1))
        call = "(f.%s %s)" % (foreign, arguments) if arguments else "f." + foreign
        contracts["%s:%s" % (module, name)] = {
            "signature": " ".join(sorts),
            "ensures": [("it is what %s gives" % foreign, "(= $%d %s)" % (len(sorts) - 1, call))],
        }
    return contracts


def symbols(prefix, names):
    return {"f." + prefix + name: sorts for name, sorts in names.items()}
