"Symbolic execution of the real strong_typing source with an SMT solver."
