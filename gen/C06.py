from gen.img import c06 as cases, addr_replay as replay

MODELS = [
    {"module": "MC_Addr.tla", "cfg": "MC_Addr_a.cfg", "workers": 2, "min_states": 3000, "replay": "replay"},
    {"module": "MC_Addr.tla", "cfg": "MC_Addr_b.cfg", "workers": 2, "min_states": 40000, "replay": "replay", "thorough": True},
    {"module": "MC_Addr.tla", "cfg": "MC_Addr_c.cfg", "workers": 3, "min_states": 100000, "replay": "replay", "thorough": True, "mem": "8g"},
]
