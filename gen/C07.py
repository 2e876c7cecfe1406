from gen.img import c07 as cases, dirtab_replay as replay  # noqa

MODELS = [
    {"module": "MC_DirTab.tla", "cfg": "MC_DirTab_a.cfg", "workers": 3, "min_states": 11700, "replay": "replay"},
    {"module": "MC_DirTab.tla", "cfg": "MC_DirTab_b.cfg", "workers": 3, "min_states": 4188, "replay": "replay"},
    {"module": "MC_DirTab.tla", "cfg": "MC_DirTab_c.cfg", "workers": 4, "min_states": 27000, "replay": "replay", "thorough": True},
]
