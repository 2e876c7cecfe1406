from gen.val import c23 as cases, replay, replay_records

MODELS = [
    {"module": "MC_Values.tla", "cfg": "MC_Values_a.cfg", "workers": 2, "min_states": 5000, "replay": "replay"},
    {"module": "MC_Values.tla", "cfg": "MC_Values_b.cfg", "workers": 6, "min_states": 100000, "replay": "replay", "thorough": True, "mem": "8g"},
    {"module": "MC_Records.tla", "cfg": "MC_Records_a.cfg", "workers": 2, "min_states": 1500, "replay": "replay_records"},
    {"module": "MC_Records.tla", "cfg": "MC_Records_b.cfg", "workers": 4, "min_states": 50000, "replay": "replay_records", "thorough": True, "mem": "4g"},
]
