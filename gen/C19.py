from gen.tab import c19 as cases, tab_replay as replay, hurt_replay as damaged  # noqa

MODELS = [
    {"module": "MC_Tables.tla", "cfg": "MC_Tables_a.cfg", "workers": 2, "min_states": 240, "replay": "replay"},
    {"module": "MC_Tables.tla", "cfg": "MC_Tables_b.cfg", "workers": 2, "min_states": 130, "replay": "replay"},
    {"module": "MC_Tables.tla", "cfg": "MC_Tables_c.cfg", "workers": 2, "min_states": 380, "replay": "replay"},
    {"module": "MC_Tables.tla", "cfg": "MC_Tables_dmg.cfg", "workers": 2, "min_states": 150, "replay": "damaged"},
    {"module": "MC_Tables.tla", "cfg": "MC_Tables_deep.cfg", "workers": 2, "min_states": 740, "replay": "replay", "thorough": True},
]
