"""L01: bounded evaluation only (see oracle/L01.py)."""

LEVEL = 'other'
BOUNDED_ONLY = True
ORACLE_BUDGET = {'quick': 40}
EXPLANATION = ('the written contract is evaluated on the real functions with '
               'generated files and objects; file access and third-party '
               'libraries are outside the reach of the verifier')


def contracts():
    return []
