# abstract package: its submodules are declared separately
