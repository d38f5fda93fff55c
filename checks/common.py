TB = ['clang 18 front end (C++ to LLVM IR)', '/verif/vlib (IR parser, symbolic executor, polynomial normal forms)', 'Python big integers',
      'gcc code generation of the shipped binary is not modelled (the bounded stand-in runs it)']
ASSUME = ['exception landing pads are not followed; allocation never fails', 'globals hold the values produced by the real initialisation (dumped on this run)']
