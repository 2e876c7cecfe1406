from gen.img import c25 as cases, rich_replay as replay  # noqa

MODELS = [
    {"module": "MC_Rich.tla", "cfg": "MC_Rich_a.cfg", "workers": 3, "min_states": 19000, "replay": "replay"},
    {"module": "MC_Rich.tla", "cfg": "MC_Rich_b.cfg", "workers": 3, "min_states": 24000, "replay": "replay"},
    {"module": "MC_Rich.tla", "cfg": "MC_Rich_c.cfg", "workers": 4, "min_states": 50000, "replay": "replay", "thorough": True},
]
