BINS = {
    "c01": (["c01_cache.cpp"], "san", []),
    "c02": (["c02_conf.cpp"], "san", ["ConfParser"]),
    "c03": (["c03_sqlite.cpp"], "san", []),
    "c04": (["c04_levels.cpp"], "san", ["QuantumDefect"]),
    "c05": (["c05_history.cpp"], "san", ["QuantumDefect"]),
    "c07": (["c07_wigner.cpp"], "san", ["WignerD"]),
    "c08": (["c08_green.cpp"], "san", ["GreenTensor"]),
    "c06": (["c06_radial.cpp"], "san", ["QuantumDefect", "Wavefunction"]),
    "c09": (["c09_states.cpp"], "san", CACHE_),
    "c10": (["c10_basis.cpp"], "san", ["Basisnames", "ConfParser", "StateOld", "QuantumDefect"]),
    "c11": (["c11_matrix.cpp"], "san", ["Hamiltonianmatrix", "Basisnames", "ConfParser", "StateOld", "QuantumDefect"]),
    "c12": (["c12_files.cpp"], "san", ["Hamiltonianmatrix", "Basisnames", "ConfParser", "StateOld", "QuantumDefect"]),
    "c14": (["c14_elements.cpp"], "opt", FULL),
    "c15_mxcache": (["c15_mxcache.cpp"], "opt", FULL),
    "c27_utils": (["c27_utils.cpp"], "san", []),
    "c16_one": (["c16_one.cpp"], "opt", SYSTEM),
    "c19_pair": (["c19_pair.cpp"], "opt", SYSTEM),
    "c17_transform": (["c17_transform.cpp"], "opt", SYSTEM),
    "c18_symmetry": (["c18_symmetry.cpp"], "opt", SYSTEM),
    "c20_history": (["c20_history.cpp"], "opt", SYSTEM),
    "c13_archive": (["c13_archive.cpp"], "opt", SYSTEM),
    "c21_perturbative": (["c21_perturbative.cpp"], "opt", SYSTEM),
    "pipeline_driver": (["pipeline_driver.cpp"], "opt", FULL),
    "c22_pipeline": (["c22_pipeline.cpp"], "opt", SYSTEM + ["Hamiltonianmatrix", "Basisnames", "ConfParser"]),
    "c23_faults": (["c23_faults.cpp"], "opt", SYSTEM + ["Hamiltonianmatrix", "Basisnames", "ConfParser"]),
}
MODULES = {"c31_npmod.so": "c31_npmod.cpp"}
CHECKS = {
    "C01": ["bin:c01"],
    "C02": ["bin:c02"],
    "C03": ["bin:c03"],
    "C04": ["bin:c04"],
    "C05": ["bin:c05"],
    "C07": ["bin:c07"],
    "C08": ["bin:c08"],
    "C06": ["bin:c06"],
    "C09": ["bin:c09"],
    "C10": ["bin:c10"],
    "C11": ["bin:c11"],
    "C12": ["bin:c12", "py:c12_reader.py"],
    "C14": ["bin:c14"],
    "C15": ["bin:c15_mxcache"],
    "C27": ["bin:c27_utils"],
    "C28": ["py:c28_driver.py"],
    "C29": ["py:c29_window.py"],
    "C30": ["py:c30_atoms.py"],
    "C31": ["dep:c31_npmod.so", "py:c31_numpy.py"],
    "C32": ["dep:pipeline_driver", "py:c32_program.py"],
    "C24": ["py:c24_config.py"],
    "C25": ["py:c25_utils.py"],
    "C26": ["py:c26_reader.py"],
    "C16": ["bin:c16_one"],
    "C19": ["bin:c19_pair"],
    "C17": ["bin:c17_transform"],
    "C18": ["bin:c18_symmetry"],
    "C20": ["bin:c20_history"],
    "C13": ["bin:c13_archive"],
    "C21": ["bin:c21_perturbative"],
    "C22": ["dep:pipeline_driver", "bin:c22_pipeline"],
    "C23": ["dep:pipeline_driver", "bin:c23_faults"],
}
