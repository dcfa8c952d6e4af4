RULES = {
    "P01": {"module": "api", "level": "other", "technique": "declaration/definition matching over the type-checked program"},
    "P02": {"module": "debugrel", "level": "other", "technique": "transitive effect analysis of assertion conditions and AST comparison of the two build configurations"},
    "P03": {"module": "isolation", "level": "other", "technique": "static-storage and self-reference escape analysis over the resolved program"},
    "P04": {"module": "queries", "level": "other", "technique": "interprocedural write/read effect analysis of queries against every other public operation"},
    "P05": {"module": "history", "level": "other", "technique": "interprocedural read-before-write effect analysis of model evaluations with validation of keyed memos"},
    "P06": {"module": "steps", "level": "other", "technique": "interprocedural upward-exposed-read / must-write effect analysis of the filter steps"},
    "P07": {"module": "initialised", "level": "other", "technique": "definite-assignment dataflow over locals and constructor/operation pairs"},
    "P08": {"module": "orientation", "level": "other", "technique": "typestate and frame-type abstract interpretation of the orientation class over all representation combinations"},
    "P09": {"module": "kinematics", "level": "other", "technique": "availability typestate and provenance dataflow (abstract interpretation) of the kinematics operations over all combinations of set quantities"},
    "P10": {"module": "rigid", "level": "other", "technique": "provenance and frame-type dataflow (abstract interpretation) of the rigid-body helper functions"},
    "P11": {"module": "kalman", "level": "other", "technique": "matrix value numbering (abstract interpretation) of the filter steps against the Kalman equations"},
    "P12": {"module": "models", "level": "other", "technique": "cell-wise value numbering (abstract interpretation) of the sensor and motion models against rigid-body mechanics"},
    "P13": {"module": "dcm", "level": "other", "technique": "cell-wise value numbering (abstract interpretation) of call sequences on the DCM estimators against their Kalman filter"},
    "P14": {"module": "kinetics", "run": "run_cov", "level": "other", "technique": "cell-wise value numbering (abstract interpretation) of call sequences on the kinetics observer, covariance blocks"},
    "P15": {"module": "kinetics", "run": "run_meas", "level": "other", "technique": "cell-wise value numbering (abstract interpretation) of call sequences on the kinetics observer, measurements and contacts"},
    "P16": {"module": "kinetics", "run": "run_models", "level": "other", "technique": "cell-wise value numbering (abstract interpretation) of call sequences on the kinetics observer, models and estimation step"},
    "P17": {"module": "kinetics", "run": "run_access", "level": "other", "technique": "cell-wise value numbering (abstract interpretation) of call sequences on the kinetics observer, state access and arithmetics"},
    "P18": {"module": "times", "level": "other", "technique": "value numbering (abstract interpretation) of the operations from every arrangement of a time-indexed container, observer or simulator against a model"},
    "P19": {"module": "rotations", "level": "other", "technique": "cell-wise value numbering and intervals (abstract interpretation) of the conversions between rotation representations"},
    "P20": {"module": "misuse", "level": "other", "technique": "value numbering (abstract interpretation) of right and wrong uses from every arrangement: refused iff no path passes the assertions"},
    "P21": {"module": "lifetimes", "level": "other", "technique": "access-path alias, lifetime and read-after-overwrite dataflow over the resolved program with interprocedural summaries"},
}
