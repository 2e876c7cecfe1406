from gen.res import c16 as cases, man_replay as replay  # noqa

MODELS = [
    {"module": "MC_Man.tla", "cfg": "MC_Man_a.cfg", "workers": 3, "min_states": 13000, "replay": "replay"},
    {"module": "MC_Man.tla", "cfg": "MC_Man_b.cfg", "workers": 3, "min_states": 4000, "replay": "replay"},
    {"module": "MC_Man.tla", "cfg": "MC_Man_c.cfg", "workers": 4, "min_states": 40000, "replay": "replay", "thorough": True},
]
