from gen.img import c04 as cases, write_replay as replay

MODELS = [
    {"module": "MC_Write.tla", "cfg": "MC_Write_a.cfg", "workers": 3, "min_states": 6000, "replay": "replay"},
    {"module": "MC_Write.tla", "cfg": "MC_Write_b.cfg", "workers": 3, "min_states": 13000, "replay": "replay"},
    {"module": "MC_Write.tla", "cfg": "MC_Write_deep.cfg", "workers": 2, "min_states": 270, "replay": "replay"},
    {"module": "MC_Write.tla", "cfg": "MC_Write_full.cfg", "workers": 4, "min_states": 148000, "replay": "replay", "thorough": True, "mem": "6g"},
]
