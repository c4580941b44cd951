"""Functions whose loops over layers carry contracts (pyvc/loops.py)."""

ML = "openamundsen.modules.snow.multilayermodel:"
CUT = {ML + "_melt", ML + "_sublimation", ML + "_runoff",
       "openamundsen.tridiag:solve_tridiag", "openamundsen.tridiag:solve_tridiag_array",
       "openamundsen.heatconduction:temp_change", "openamundsen.heatconduction:temp_change_array",
       "openamundsen.interpolation:_idw",
       "openamundsen.modules.snow.snow:_compaction_anderson", "openamundsen.modules.snow.snow:_compaction_empirical"}
