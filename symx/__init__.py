"""symx: symbolic execution of the real stcal code (Python/numpy, Cython, C via LLVM IR)."""
