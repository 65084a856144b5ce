IN = 'apps/multiphysics/src/input/'
INC = 'apps/multiphysics/src/common/include/'
FILES = [IN + f for f in ('parse_tools.cpp', 'parse_dynamic_inputs.cpp', 'parse_output_options.cpp', 'parse_mesh_inputs.cpp', 'parse_solver_inputs.cpp',
                          'parse_bdy_conds_inputs.cpp', 'parse_regions.cpp', 'parse_material_inputs.cpp')] + \
        [INC + f for f in ('dynamic_options.hpp', 'output_options.hpp', 'mesh_inputs.hpp', 'solver_inputs.hpp', 'boundary_conditions.hpp', 'region.hpp', 'material.hpp', 'initial_conditions.hpp')]
import os
FILES = [f for f in FILES if os.path.exists('/repo/' + f)]
AI = 'path-sensitive abstract interpretation of the parsers (AST facts) on blocks whose entries are known and whose values are unknown'
NOTE = 'Decided on every abstract path of the parser for each listed block; values of entries are symbols, so the result holds for every value. Trusts Yaml::Node as decided by the Y family and models MATAR arrays (declared in stubs/mp) as maps from indices to values; '


def d(id, title, statement, over, qt, why, mech, tech, note='', files=FILES):
    return dict(id=id, title=title, statement=statement, over=over, qt=qt, why=why, files=files, mech=mech, tech=tech, note=NOTE + note)


WHY = 'The stable tests never run the input parsers of the multiphysics application.'
P = [
d('M01', 'Input blocks that lack a required entry are refused',
  'A dynamic_options block without time_final or cycle_stop, a mesh_options block without source or num_dims, a solver without method or id, a boundary condition without solver_id or surface, a material without id, a region without material_id or volume, and a region volume without type make the parser throw. This holds whatever other entries the block has.',
  ['inputs'], 'every block without one of its required entries, with any values', WHY,
  [('validation', 'parse_tools.cpp: validate_inputs'), ('tables', '*_required_inps in common/include')], AI + '; no path returns', 'checked with the remaining required entries alone and with every other entry.'),
d('M02', 'Input blocks with an unknown entry are refused',
  'An entry that is no keyword of its block (dynamic, output, mesh, solver, boundary condition and its surface, material, multimaterial, region and its volume, velocity and scalar field blocks) makes the parser throw. Misspelled keywords are never ignored and never taken for another keyword.',
  ['inputs'], 'every block with an entry that is no keyword; words checked: an arbitrary one and every keyword shortened or lengthened by a letter', WHY,
  [('dispatch', 'parse_*.cpp: the chains of comparisons of a_word')], AI + '; no path returns', 'the words tried are an arbitrary one and two neighbours of each keyword.'),
d('M03', 'Each entry of an input block sets its own field to its value and nothing else',
  'Every keyword with a number, file name, point or list is accepted, and the field of that meaning becomes the value given, unscaled and not narrowed from real to integer; component j comes from part j, and list lengths are recorded. Blocks of a list land under their own number or identifier. No other output of the parser changes because of the entry, and neither the order of entries nor other entries matter.',
  ['inputs'], 'every value of every entry, alone, with all others in either order, and in two blocks', WHY,
  [('dispatch', 'parse_*.cpp: parse_dynamic_options, parse_mesh_inputs, parse_solver_input, parse_bcs, parse_regions, parse_materials, parse_multimaterial_options')], AI + '; stores of accepted paths compared with the documented field of each entry and with the block without it (frame condition)', 'the host and the device copy of an array are one array here.'),
d('M04', 'Each option text of an input block selects its own model',
  'Every option text (formats, output fields, mesh types, solver methods, boundary condition models and surfaces, equations of state, strength, dissipation, erosion, level set and equilibration models, region shapes and distributions) that is accepted sets the enumerator and the model functions of that option, in the field of its entry and no other. Boundary conditions with a model are listed with their solver. A text that is no option of its entry makes the parser throw.',
  ['inputs'], 'every option text of every entry; other texts: an arbitrary one and two neighbours of an option', WHY,
  [('maps', '*_map in common/include'), ('dispatch', 'parse_*.cpp: switches over the map values')], AI + '; enumerators and function addresses stored on accepted paths compared with the documented option table', 'distributions that the scalar field parsers know but refuse may stay refused.'),
d('M05', 'Identifiers of solvers and materials are unique, dense and in range',
  'The solver and material blocks of an input carry the identifiers 0 to n-1 in any order; a repeated, negative or too large one makes the parser throw. A boundary condition or region that names a solver there is not makes the parser throw before anything is stored under that number.',
  ['inputs'], 'identifiers of up to three blocks, up to two solvers', WHY,
  [('ids', 'parse_solver_inputs.cpp, parse_material_inputs.cpp, parse_bdy_conds_inputs.cpp, parse_regions.cpp: checks of ids')], AI + '; which identifier tuples have an accepted path', 'decided for up to three blocks.'),
d('M06', 'Every block of an input is parsed once, into its own part of the simulation',
  'Parsing an input calls the mesh, dynamic, output, solver, boundary condition, region, material and multimaterial parsers once each on the whole document, each filling the member of the simulation it describes. Boundary conditions and regions get the number of solvers just read, materials the number of dimensions just read.',
  ['inputs'], 'every input', WHY, [('driver', 'parse_yaml.cpp: parse_yaml')], 'abstract interpretation of parse_yaml with the parsers opaque; calls on every path compared with the table of parts', '', [IN + 'parse_yaml.cpp']),
]
