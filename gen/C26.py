from gen.img import c26 as cases, entropy_replay as replay  # noqa

MODELS = [
    {"module": "MC_Entropy.tla", "cfg": "MC_Entropy_a.cfg", "workers": 3, "min_states": 2071, "replay": "replay"},
    {"module": "MC_Entropy.tla", "cfg": "MC_Entropy_b.cfg", "workers": 3, "min_states": 529, "replay": "replay"},
    {"module": "MC_Entropy.tla", "cfg": "MC_Entropy_c.cfg", "workers": 4, "min_states": 16000, "replay": "replay", "thorough": True},
]
