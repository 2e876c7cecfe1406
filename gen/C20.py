from gen.dbg import c20 as cases, dbg_replay as replay  # noqa

MODELS = [
    {"module": "MC_Debug.tla", "cfg": "MC_Debug_a.cfg", "workers": 3, "min_states": 3200, "replay": "replay"},
    {"module": "MC_Debug.tla", "cfg": "MC_Debug_b.cfg", "workers": 3, "min_states": 3300, "replay": "replay"},
    {"module": "MC_Debug.tla", "cfg": "MC_Debug_c.cfg", "workers": 2, "min_states": 1200, "replay": "replay"},
    {"module": "MC_Debug.tla", "cfg": "MC_Debug_d.cfg", "workers": 2, "min_states": 1900, "replay": "replay"},
    {"module": "MC_Debug.tla", "cfg": "MC_Debug_dmgq.cfg", "workers": 4, "min_states": 5800, "replay": "replay"},
    {"module": "MC_Debug.tla", "cfg": "MC_Debug_dmg.cfg", "workers": 4, "min_states": 25000, "replay": "replay", "thorough": True},
]
