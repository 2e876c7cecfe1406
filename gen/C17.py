from gen.icons import c17 as cases, icons_replay as replay  # noqa

MODELS = [
    {"module": "MC_Icons.tla", "cfg": "MC_Icons_a.cfg", "workers": 3, "min_states": 5900, "replay": "replay"},
    {"module": "MC_Icons.tla", "cfg": "MC_Icons_b.cfg", "workers": 3, "min_states": 2300, "replay": "replay"},
    {"module": "MC_Icons.tla", "cfg": "MC_Icons_c.cfg", "workers": 4, "min_states": 15900, "replay": "replay", "thorough": True},
]
