from gen.dirs import c08 as cases, expimp_replay as replay  # noqa

MODELS = [
    {"module": "MC_Exp.tla", "cfg": "MC_Exp_a.cfg", "workers": 3, "min_states": 10000, "replay": "replay"},
    {"module": "MC_Exp.tla", "cfg": "MC_Exp_deep.cfg", "workers": 4, "min_states": 1900, "replay": "replay"},
    {"module": "MC_Exp.tla", "cfg": "MC_Exp_full.cfg", "workers": 4, "min_states": 34000, "replay": "replay", "thorough": True},
]
