from gen.ro import c22 as cases, stream_replay, views_replay  # noqa

MODELS = [
    {"module": "MC_Stream.tla", "cfg": "MC_Stream_a.cfg", "workers": 3, "min_states": 48000, "replay": "stream_replay"},
    {"module": "MC_Stream.tla", "cfg": "MC_Stream_c.cfg", "workers": 3, "min_states": 57000, "replay": "stream_replay"},
    {"module": "MC_Stream.tla", "cfg": "MC_Stream_b.cfg", "workers": 4, "min_states": 320000, "replay": "stream_replay", "thorough": True},
    {"module": "MC_Views.tla", "cfg": "MC_Views_a.cfg", "workers": 2, "min_states": 21000, "replay": "views_replay"},
    {"module": "MC_Views.tla", "cfg": "MC_Views_b.cfg", "workers": 2, "min_states": 60000, "replay": "views_replay"},
    {"module": "MC_Views.tla", "cfg": "MC_Views_c.cfg", "workers": 2, "min_states": 48000, "replay": "views_replay"},
]
