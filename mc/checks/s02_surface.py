"""S02: surface files, write then read."""

from mc import stations

PROPERTY = 'S02'
LEVEL = 'model_checking'
RULE = (
    'A case is one operation history on a real SurfaceFile (additions, replacements, rejected '
    'additions, writes); each is checked after every write through an independent parser and '
    'through GempakSurface against a dictionary model. Non-trivial: distinct history.'
)


def plan(tier):
    return stations.plan('sfc', tier)


run_unit = stations.run_unit


def run_case(case, rec):
    stations.replay(case, rec)
