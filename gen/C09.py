from gen.dirs import c09 as cases, expimp_replay as replay  # noqa

MODELS = [
    {"module": "MC_Imp.tla", "cfg": "MC_Imp_a.cfg", "workers": 3, "min_states": 9700, "replay": "replay"},
    {"module": "MC_Imp.tla", "cfg": "MC_Imp_deep.cfg", "workers": 4, "min_states": 2100, "replay": "replay"},
    {"module": "MC_Imp.tla", "cfg": "MC_Imp_full.cfg", "workers": 4, "min_states": 22000, "replay": "replay", "thorough": True},
]
