from gen.refuse import c24 as cases, refuse_replay as replay  # noqa

MODELS = [
    {"module": "MC_Refuse.tla", "cfg": "MC_Refuse_a.cfg", "workers": 3, "min_states": 10000, "replay": "replay"},
    {"module": "MC_Refuse.tla", "cfg": "MC_Refuse_b.cfg", "workers": 3, "min_states": 10000, "replay": "replay"},
    {"module": "MC_Refuse.tla", "cfg": "MC_Refuse_c.cfg", "workers": 3, "min_states": 22000, "replay": "replay"},
]
