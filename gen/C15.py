from gen.res import c15 as cases, tree_replay as replay  # noqa

MODELS = [
    {"module": "MC_Tree.tla", "cfg": "MC_Tree_a.cfg", "workers": 3, "min_states": 5900, "replay": "replay"},
    {"module": "MC_Tree.tla", "cfg": "MC_Tree_b.cfg", "workers": 2, "min_states": 2100, "replay": "replay"},
    {"module": "MC_Tree.tla", "cfg": "MC_Tree_deep.cfg", "workers": 3, "min_states": 450, "replay": "replay"},
    {"module": "MC_Tree.tla", "cfg": "MC_Tree_full.cfg", "workers": 4, "min_states": 58000, "replay": "replay", "thorough": True},
    {"module": "MC_Tree.tla", "cfg": "MC_Tree_deep3.cfg", "workers": 4, "min_states": 4500, "replay": "replay", "thorough": True},
]
