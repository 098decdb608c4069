"""Which specifications are checked for which property."""

MC = "model_checking"
CHECKS = {
    "C01": {"level": MC, "models": ["MC_Simulation", "MC_Scheme", "MC_Energy"]},
    "C02": {"level": MC, "models": ["MC_Energy"]},
    "C03": {"level": MC, "models": ["MC_Simulation", "MC_Scheme"]},
    "C04": {"level": MC, "models": ["MC_Fem"]},
    "C05": {"level": MC, "models": ["MC_Simulation", "MC_Scheme"]},
    "C06": {"level": MC, "models": ["MC_Energy", "MC_Material"]},
    "C07": {"level": MC, "models": ["MC_Energy", "MC_Material"]},
    "C08": {"level": MC, "models": ["MC_Energy", "MC_Fem"]},
    "C09": {"level": MC, "models": ["MC_StepObj"]},
    "C10": {"level": MC, "models": ["MC_Mesh"]},
    "C11": {"level": MC, "models": ["MC_Mesh"]},
    "C12": {"level": MC, "models": ["MC_Refine"]},
    "C13": {"level": MC, "models": ["MC_Refine"]},
    "C14": {"level": MC, "models": ["MC_Mesh"]},
    "C15": {"level": MC, "models": ["MC_Append", "MC_Equality"]},
    "C16": {"level": MC, "models": ["MC_Curves"]},
    "C17": {"level": MC, "models": ["MC_Fem"]},
    "C18": {"level": MC, "models": ["MC_Fem"]},
    "C19": {"level": MC, "models": ["MC_Refine", "MC_Fem"]},
    "C20": {"level": MC, "models": ["MC_Fem"]},
    "C21": {"level": MC, "models": ["MC_Tensor", "MC_Rat"]},
    "C22": {"level": MC, "models": ["MC_Material", "MC_Rat"]},
    "C23": {"level": MC, "models": ["MC_Material", "MC_Rat"]},
    "C24": {"level": MC, "models": ["MC_Params"]},
    "C25": {"level": MC, "models": ["MC_Fem"]},
    "C26": {"level": MC, "models": ["MC_Views"]},
    "C27": {"level": MC, "models": ["MC_Many", "MC_Meshes"]},
    "C28": {"level": MC, "models": ["MC_Drawing"]},
}
