from gen.dirs import c11 as cases, dirs_replay as replay, rebase_replay  # noqa

MODELS = [
    {"module": "MC_Rebase.tla", "cfg": "MC_Rebase_a.cfg", "workers": 3, "min_states": 1300, "replay": "rebase_replay"},
    {"module": "MC_Rebase.tla", "cfg": "MC_Rebase_b.cfg", "workers": 3, "min_states": 1300, "replay": "rebase_replay"},
    {"module": "MC_Rebase.tla", "cfg": "MC_Rebase_c.cfg", "workers": 4, "min_states": 30000, "replay": "rebase_replay", "thorough": True},
    {"module": "MC_Dirs.tla", "cfg": "MC_Dirs_a.cfg", "workers": 3, "min_states": 2200, "replay": "replay"},
    {"module": "MC_Dirs.tla", "cfg": "MC_Dirs_b.cfg", "workers": 3, "min_states": 1700, "replay": "replay", "thorough": True},
    {"module": "MC_Dirs.tla", "cfg": "MC_Dirs_c.cfg", "workers": 4, "min_states": 4700, "replay": "replay", "thorough": True},
]
