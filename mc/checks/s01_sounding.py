"""S01: sounding files, write then read."""

from mc import stations

PROPERTY = 'S01'
LEVEL = 'model_checking'
RULE = (
    'A case is one operation history on a real SoundingFile (additions, replacements, rejected '
    'additions, writes); each is checked after every write through an independent parser and '
    'through GempakSounding against a dictionary model. Non-trivial: distinct history.'
)


def plan(tier):
    return stations.plan('snd', tier)


run_unit = stations.run_unit


def run_case(case, rec):
    stations.replay(case, rec)
