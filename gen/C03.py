from gen.img import c03 as cases, layout_replay as replay

MODELS = [
    {"module": "MC_Layout.tla", "cfg": "MC_Layout_a.cfg", "workers": 2, "min_states": 5000, "replay": "replay"},
    {"module": "MC_Layout.tla", "cfg": "MC_Layout_c.cfg", "workers": 2, "min_states": 5000, "replay": "replay"},
    {"module": "MC_Layout.tla", "cfg": "MC_Layout_b.cfg", "workers": 3, "min_states": 50000, "replay": "replay", "thorough": True},
    {"module": "MC_Layout.tla", "cfg": "MC_Layout_deep.cfg", "workers": 6, "min_states": 100000, "replay": "replay", "thorough": True, "mem": "8g"},
]
