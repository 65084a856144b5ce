import os
APPS = ['EVPFFT', 'LS-EVPFFT', 'LS-EVPFFT-J2', 'LSNP-EVPFFT']
CLI = ['apps/micromechanics/%s/src/command_line_args.cpp' % a for a in APPS] + ['apps/micromechanics/%s/src/command_line_args.h' % a for a in APPS]
XD = ['apps/micromechanics/%s/src/XdmfUniformGridWriter.cpp' % a for a in APPS] + ['apps/micromechanics/%s/src/XdmfUniformGridWriter.h' % a for a in APPS]
CORE = ['apps/micromechanics/%s/src/%s.cpp' % (a, f) for a in APPS for f in ('evpfft', 'evolve', 'write_macro_state', 'write_micro_state', 'vpsc_input', 'output_file_manager') if os.path.exists('/repo/apps/micromechanics/%s/src/%s.cpp' % (a, f))]
AI = 'path-sensitive abstract interpretation of the program sources (AST facts)'
NOTE = 'Decided for each of the four EVPFFT programs on its own sources, on every abstract path; '


def d(id, title, statement, over, qt, why, mech, tech, note='', files=CLI):
    return dict(id=id, title=title, statement=statement, over=over, qt=qt, why=why, files=files, mech=mech, tech=tech, note=NOTE + note)


P = [
d('E01', 'Each EVPFFT command-line option stores its argument in its own setting',
  'In every EVPFFT program each of the options infile, micro-filetype, euler-angles, feature-ids, phase-ids and euler-unit is accepted with its argument in its long form and its short form (-f -m -e -g -p -u), and stores exactly that argument, or the number it holds, in the setting of that option. No option changes any other setting, the last use of an option counts, and every option of the command line is read.',
  ['inputs'], 'every command line: all options, both spellings, any order and any repetition', 'The stable tests never run the command line of an EVPFFT program.',
  [('options', 'command_line_args.cpp: CommandLineArgs::parse_command_line')], AI + '; option table against the effect of one symbolic turn of the loop, per option value', 'trusts getopt_long.'),
d('E02', 'Incomplete or unknown EVPFFT command lines end with the usage text',
  'An unknown option, an option without its argument, a command line without an input file, and microstructure type 1 without all three dataset paths and the unit print the usage text and end the program with a non-zero exit code; parsing returns only with a complete command line. A complete command line is never refused, and without options no file, path or unit is set and the microstructure type is 0.',
  ['inputs'], 'every command line', 'The stable tests never run the command line of an EVPFFT program.',
  [('validation', 'command_line_args.cpp: CommandLineArgs::check_cmd_args, print_help')], AI + '; reachability of return and exit under every combination of settings', 'trusts getopt_long.'),
d('E03', 'The EVPFFT usage text lists exactly the options that are accepted',
  'The usage text names every option the program accepts, with the short letter that means the same and with an argument exactly when the option takes one, and names no other option; the examples use accepted options only. After printing it the program ends.',
  ['inputs'], 'every option of the table and every line of the usage text', 'No test reads the usage text.',
  [('usage', 'command_line_args.cpp: CommandLineArgs::print_help')], 'table consistency: option table and usage text extracted from the syntax tree'),
d('E04', 'XDMF files written by EVPFFT are well-formed and describe the grid',
  'Header, any number of attributes and footer together are one well-formed XML document with one grid of N1+1, N2+1, N3+1 points, in which every attribute lies and has N1, N2, N3 cell values. Grid name and the name, type, number type, precision and location of each attribute are written whole, each in its own place (for texts without XML markup characters).',
  ['inputs'], 'every grid size, every text and every number of attributes', 'The stable tests only compile this writer.',
  [('writer', 'XdmfUniformGridWriter.cpp')], AI + '; the document put together from the constant format texts is parsed as XML and its slots are traced to the values', '', XD),
d('E05', 'XDMF files are opened once, failures reported, and closed exactly once',
  'Opening creates exactly the named file and keeps its handle; when it cannot be opened an exception is raised before anything is written. Closing closes exactly that file, does nothing when none is open, and may be repeated.',
  ['histories', 'fault_sequences'], 'every order of open and close, open failures', 'The stable tests only compile this writer.',
  [('file', 'XdmfUniformGridWriter.cpp: open_file, close_file')], AI + '; typestate of the file handle', '', XD),
d('E06', 'XDMF number type and precision match the element type of the data',
  'The number type and precision deduced for an attribute are those of its elements: Int 4 for int, Float 4 for float and Float 8 for double. Both are always set, and an element type without a known counterpart is refused with an exception instead of being described wrongly.',
  ['inputs'], 'every element type', 'No test instantiates the deduction.',
  [('deduction', 'XdmfUniformGridWriter.h: deduce_attribute_number_type')], AI + ' of each instance of the template', '', XD),
]
IOF = ['apps/micromechanics/%s/src/%s' % (a, f) for a in APPS for f in ('manager_mpi_io.h', 'micro_output_writer.h', 'hdf5_io_functions.h', 'hdf5_io_functions.cpp')]
STUB = 'The MPI and HDF5 calls are read against their declarations in stubs/inc; their contracts (who makes, frees, transfers what) are stated in checks/eio.py.'
P += [
d('E07', 'MPI and HDF5 objects are released exactly once and never used after',
  'Over the life of an output writer or MPI-IO manager (construction, any method, destruction) and through every free I/O function, each MPI datatype, info object and file, HDF5 file, dataspace, dataset and property list, and each array is released exactly once, with the function of its kind, on every path that returns. None is used afterwards, and no datatype is used for a transfer before it is committed.',
  ['histories', 'inputs'], 'every path of every method, element type int, float, double, long double, both layouts', 'No test runs the I/O layer: neither MPI nor HDF5 is linked into the tests.',
  [('ownership', 'manager_mpi_io.h, micro_output_writer.h, hdf5_io_functions.*')], AI + '; typestate ledger of handles over construction, method, destruction', STUB, IOF),
d('E08', 'All ranks make the same collective calls in the I/O layer',
  'Whatever a rank number, the local block or the local data are, every rank makes the same collective MPI and HDF5 calls in the same order on the same communicator, so that no rank waits for a call another never makes.',
  ['schedules', 'inputs'], 'every pair of paths that only rank-dependent values tell apart', 'No test runs the I/O layer on several ranks.',
  [('collectives', 'manager_mpi_io.h, micro_output_writer.h, hdf5_io_functions.*')], AI + '; comparison of the collective call sequences of paths that part at rank-dependent conditions', STUB, IOF),
d('E09', 'HDF5 output places the block of a rank at its place in the global array',
  'A file space has the global extents and selects exactly the start, stride and local extents it is given; a memory space is the local block with its ghost cells and selects the block inside them. The output writer uses its own extents, in order for C layout and reversed for Fortran layout, with stride 1 if none is given, and truncates and opens the named file on its communicator.',
  ['inputs'], 'every extent, start, stride and ghost width in 1 to 3 dimensions', 'No test runs the HDF5 layer.',
  [('placement', 'hdf5_io_functions.cpp, micro_output_writer.h')], AI + '; symbolic contents of the argument arrays, cell by cell', STUB, IOF),
d('E10', 'HDF5 datasets carry the name, type and data they were given',
  'A dataset is written under the given name in the file of the writer or the given group, with the HDF5 type of its elements, the file space of the rank and exactly the given data, collectively; reading opens the named dataset and fills the given buffer in the same way. An element type without counterpart is refused.',
  ['inputs'], 'every instance of the transfer functions', 'No test runs the HDF5 layer.',
  [('transfer', 'hdf5_io_functions.h, micro_output_writer.h: write')], AI + ' of each template instance; arguments traced to the parameters', STUB, IOF),
d('E11', 'Binary MPI-IO moves exactly the block of a rank, or reports the file',
  'Binary writing and reading open the named file and raise an exception, before any data are moved, when that fails. Otherwise they move exactly the inner block of the local array (without ghost cells) to or from the block of the rank in the global array behind the given offset, with the element type and memory layout of the manager, so that what was written is read back.',
  ['inputs', 'fault_sequences'], 'every block, ghost width, offset, element type and layout', 'No test runs MPI-IO.',
  [('binary', 'manager_mpi_io.h: write_binary, read_binary, constructor')], AI + '; datatype arguments traced to the constructor, cell by cell', STUB, IOF),
d('E12', 'ASCII MPI-IO writes the header once and each number in its own line',
  'Rank 0 alone writes the header at the start of the file, and the lines of all ranks follow right behind it, each line at the place of its element in the global array. Every local number is formatted to a text of one fixed length (for exponents of two digits) that ends its line, inside the bounds of the buffer; files that cannot be opened are reported.',
  ['inputs', 'fault_sequences'], 'every header, block, ghost width, element type and layout', 'No test runs MPI-IO.',
  [('ascii', 'manager_mpi_io.h: write_ascii, constructor')], AI + '; symbolic buffer bounds and datatype arguments', STUB, IOF),
d('E16', 'Every column of the EVPFFT history files holds the quantity it is named for',
  'The heading of vm.out, str_str.out, err.out and conv.out is one line of distinct column names. Every line written later has exactly those columns, each holding the value of the named quantity at that moment, and is completed; a step adds exactly one line to vm.out and to str_str.out. Only rank 0, which opened the files, writes to them.',
  ['inputs', 'histories'], 'every path of one step and of the iterations in it', 'No test runs a simulation or looks at a history file.',
  [('columns', 'output_file_manager.*, write_macro_state.cpp, evpfft.cpp: evolve')], AI + '; format pieces of each line matched column by column with the heading', 'the meaning of a column is fixed by a table of names (EVM, SVM, E11, ...).', CORE),
d('E17', 'The VTU and PVTU files of a time step are consistent and hold the named fields',
  'Each rank writes one well-formed VTU file: every declared array has one data block at its declared offset, whose announced and real sizes follow from type, components and counts, and whose values are those of the named field with the first direction running fastest. Corners, offsets and types describe the hexahedra of the local grid. Rank 0 alone writes the PVTU file, which lists the same arrays and the file of every rank, after the directory exists.',
  ['inputs', 'schedules'], 'every grid size, rank count and field, on every path', 'No test writes a VTK file.',
  [('vtk', 'write_micro_state.cpp: write_micro_state_pvtu')], AI + '; the byte stream of each file is rebuilt symbolically (loops as polynomial multiplicities) and parsed back', 'the values of derived fields are named by the function that computes them; point coordinates are not derived.', CORE),
d('E18', 'The HDF5 datasets of a time step are complete and described by its XDMF file',
  'Every rank writes the same datasets in the same order into one group of the time step, which is made before and closed after: the six components of strain, stress and both strain rates, and the scalar fields, each holding the whole field of its name. Rank 0 alone writes the XDMF file of the step: header, for every dataset one entry with its name, its number type, the file and its path, and footer, on the global grid.',
  ['inputs', 'schedules'], 'every grid, step and rank, on every path', 'No test writes a time step.',
  [('step', 'write_micro_state.cpp: write_micro_state(_xdmf)')], AI + '; recorded writer calls with symbolic texts, copies traced element by element', 'the meaning of a dataset is fixed by a table of names.', CORE),
d('E19', 'Inconsistent boundary conditions stop an EVPFFT program with a message',
  'check_iudot accepts exactly the prescriptions whose number of prescribed diagonal velocity-gradient components is not two and that prescribe at least one of each off-diagonal pair. check_mixed_bc accepts exactly those where for each of the six components either the strain rate or the stress is prescribed. Everything else ends the program with a message and a failure status.',
  ['inputs'], 'all 2^15 prescriptions, on every path', 'No test reads a boundary condition.',
  [('boundary', 'vpsc_input*.cpp: check_iudot, check_mixed_bc')], AI + '; path conditions tabulated over all assignments', '', CORE),
d('E13', 'A file that cannot be opened is reported, never read or written',
  'In the EVPFFT programs every reading or writing of a file happens only after a test that opening it succeeded. When a file cannot be opened the program throws an exception or stops instead of running on with missing input or lost output.',
  ['inputs', 'faults'], 'every file name and every outcome of every open, on every path', 'No test opens one of the input or output files of a run, none makes an open fail.',
  [('opening', 'vpsc_input.cpp, data_crystal*.cpp, data_grain.cpp, output_file_manager.cpp, write_*.cpp, utilities.cpp: check_that_file_is_open')], AI + '; typestate of every file handle (opened, tested, used)', 'files opened through MPI and HDF5 belong to E07 and E12.', CORE),
d('E20', 'Every documented build option compiles, and NO_OUTPUT builds write nothing',
  'Each EVPFFT program type-checks under every combination of the build options its CMake file offers. With ABSOLUTE_NO_OUTPUT no function the solver reaches creates, opens or writes a file.',
  ['configurations'], 'all combinations of options of each program; every function reachable from the solver', 'Tests compile two files of each program in a single configuration.',
  [('options', 'apps/micromechanics/*/src/CMakeLists.txt; every source it lists')], 'type checking of every configuration; call-graph reachability over the typed AST', 'external libraries are represented by declarations in /verif/stubs.', CORE),
d('E23', 'All ranks reach the same collective MPI calls, on the given communicator',
  'In the EVPFFT programs no collective operation is controlled by a value that may differ between ranks, so ranks never wait for each other in different places. Every collective operation and every rank-dependent file uses a communicator derived from the one handed to the program.',
  ['schedules', 'inputs'], 'every number of ranks, every input and every path', 'No test starts more than one rank.',
  [('collectives', 'every MPI_*, H5*(mpio) and heFFTe call of apps/micromechanics')], 'interprocedural rank-divergence (taint) analysis over the typed AST with control dependence', 'ranks reading one input file are taken to read the same text.', CORE),
d('E24', 'Run history values are the same whichever rank would print them',
  'Every value the EVPFFT programs print to a history file or the console from one rank, and every value deciding when iterations stop, is identical on all ranks: partial sums are reduced over all ranks first.',
  ['schedules', 'inputs'], 'every number of ranks and every decomposition of the grid', 'No test runs the solver or starts more than one rank.',
  [('histories', 'evpal.cpp, get_smacro.cpp, step*.cpp, write_macro_state.cpp, evpfft.cpp')], 'interprocedural rank-divergence (taint) analysis over the typed AST with control dependence', 'values equal up to rounding of the reduction.', CORE),
]
N = []
