"""Which model checks and which conformance suites decide which property.

Every property has an id (properties.jsonl) and a slug; the clauses of the
trace specifications are called <slug with _>_<Clause>.
"""
import chan, hyd, morph, corerun, outdom, loaddom, picdom, swandom, clidom, heardom

DOMAINS = [chan, hyd, morph, corerun, outdom, loaddom, picdom, swandom, clidom, heardom]
ASSUMPTIONS = [
    'The operations are exercised through the public functions of hapuamod (and, where a suite says so, through '
    'core.main) with inputs generated from the specification and a seed; inputs outside the stated domain are not judged.',
    'TLC evaluates the specification with IEEE binary64 arithmetic (java/hapua/Real64.java); results are compared with '
    'relative and absolute tolerance 1e-9 unless the clause says otherwise.',
]
SUITES, MC, PROPS = {}, {}, {}
for d in DOMAINS:
    SUITES.update(d.SUITES)
    MC.update(d.MC)
    for k, v in d.PROPS.items():
        PROPS[k] = dict(v, id=k)
SLUG = {v['slug']: k for k, v in PROPS.items()}
PROPS.update({s: PROPS[k] for s, k in SLUG.items()})


def q(tier, quick, thorough):
    return quick if tier == 'quick' else thorough
