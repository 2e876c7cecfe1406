from gen.dirs import c14 as cases, dirs_replay as replay  # noqa

MODELS = [
    {"module": "MC_Dirs.tla", "cfg": "MC_Dirs_a.cfg", "workers": 3, "min_states": 2200, "replay": "replay"},
    {"module": "MC_Dirs.tla", "cfg": "MC_Dirs_b.cfg", "workers": 3, "min_states": 1700, "replay": "replay"},
    {"module": "MC_Dirs.tla", "cfg": "MC_Dirs_c.cfg", "workers": 4, "min_states": 4700, "replay": "replay", "thorough": True},
]
