from gen.ver import c18 as cases, ver_replay as replay, damage_replay as damaged  # noqa

MODELS = [
    {"module": "MC_Version.tla", "cfg": "MC_Version_a.cfg", "workers": 2, "min_states": 1300, "replay": "replay"},
    {"module": "MC_Version.tla", "cfg": "MC_Version_b.cfg", "workers": 2, "min_states": 3700, "replay": "replay"},
    {"module": "MC_Version.tla", "cfg": "MC_Version_c.cfg", "workers": 2, "min_states": 1200, "replay": "replay"},
    {"module": "MC_Version.tla", "cfg": "MC_Version_dmg.cfg", "workers": 2, "min_states": 37, "replay": "damaged"},
]
