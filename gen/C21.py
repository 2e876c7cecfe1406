from gen.img import c21 as cases, sum_replay as replay  # noqa

MODELS = [
    {"module": "MC_Sum.tla", "cfg": "MC_Sum_a.cfg", "workers": 3, "min_states": 5150, "replay": "replay"},
    {"module": "MC_Sum.tla", "cfg": "MC_Sum_b.cfg", "workers": 3, "min_states": 14302, "replay": "replay"},
    {"module": "MC_Sum.tla", "cfg": "MC_Sum_c.cfg", "workers": 4, "min_states": 91000, "replay": "replay", "thorough": True},
]
