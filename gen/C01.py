from gen.img import c01 as cases, load_replay as replay

MODELS = [
    {"module": "MC_Load.tla", "cfg": "MC_Load_a32.cfg", "workers": 2, "min_states": 1300, "replay": "replay"},
    {"module": "MC_Load.tla", "cfg": "MC_Load_a64.cfg", "workers": 2, "min_states": 1300, "replay": "replay"},
    {"module": "MC_Load.tla", "cfg": "MC_Load_b32.cfg", "workers": 3, "min_states": 20000, "replay": "replay"},
    {"module": "MC_Load.tla", "cfg": "MC_Load_b64.cfg", "workers": 3, "min_states": 20000, "replay": "replay", "thorough": True},
    {"module": "MC_Load.tla", "cfg": "MC_Load_m32.cfg", "workers": 3, "min_states": 20000, "replay": "replay", "thorough": True},
]
