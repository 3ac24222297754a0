"""The build configurations compared by C15: name -> (features, cargo profile)."""
CONFIGS = {
    "default": (("arkworks",), "release"),
    "default-checked": (("arkworks",), "checked"),
    "none": ((), "release"),
    "none-checked": ((), "checked"),
    "none-dev": ((), "dev"),
    "alloc": (("alloc",), "release"),
    "alloc-u32": (("alloc", "u32_backend"), "release"),
    "std": (("std",), "release"),
    "std-checked": (("std",), "checked"),
    "u32": (("u32_backend",), "release"),
    "u32-checked": (("u32_backend",), "checked"),
    "std-u32": (("std", "u32_backend"), "release"),
    "arkworks-u32": (("arkworks", "u32_backend"), "release"),
    "parallel": (("arkworks", "parallel"), "release"),
    "parallel-alone": (("parallel",), "release"),
    "r1cs": (("r1cs",), "release"),
    "r1cs-dev": (("r1cs",), "dev"),
    "r1cs-u32": (("r1cs", "u32_backend"), "release"),
    "all": (("r1cs", "parallel", "u32_backend", "std", "alloc", "arkworks"), "release"),
    "all-checked": (("r1cs", "parallel", "u32_backend", "std", "alloc", "arkworks"), "checked"),
}
