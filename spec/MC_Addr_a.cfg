SPECIFICATION Spec
CONSTANTS Al = 4 NSec = 2 VSs = {0,1,5} RSs = {0,1,4,6} Ptrs = {4,8,14} Sohs = {4,6} Top = 32
INVARIANT Unique RvaBack OffBack ByOffset RawInside Beh
