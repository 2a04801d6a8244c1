#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
F = 'PyNite/FEModel3D.py'; A = 'PyNite/Analysis.py'; M = 'PyNite/Member3D.py'; PM = 'PyNite/PhysMember.py'
BZ = 'PyNite/BeamSegZ.py'; BY = 'PyNite/BeamSegY.py'; FE = 'PyNite/FixedEndReactions.py'; PL = 'PyNite/Plate3D.py'
QD = 'PyNite/Quad3D.py'; ME = 'PyNite/Mesh.py'; SP = 'PyNite/Spring3D.py'; ND = 'PyNite/Node3D.py'
SE = 'PyNite/Section.py'; LC = 'PyNite/LoadCombo.py'; RE = 'PyNite/Reporting.py'; RD = 'PyNite/Rendering.py'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

prop('C01', 'Reactions balance the applied loads, globally and node by node',
 'After any successful analysis and for every load combination, the reported reactions together with all factored loads (nodal, member point/distributed/self-weight, plate and quad pressure) have zero net force and zero net moment about any point. At every node the loads, the reaction and the end forces of all attached members, springs, plates and quads balance; a direction that has neither a support, a spring support nor an enforced displacement reports no reaction.',
 ['inputs', 'configurations'], 'all stable models mixing members, springs, plates, quads, rigid and spring supports, all load types and combinations, and every analysis method',
 'Tests check reactions of a handful of textbook structures in one orientation; equilibrium must hold for every geometry, load type, support kind and combination.',
 [A, F, M, PM, PL, QD, SP, FE], [('reaction recovery', A + ':_calc_reactions'), ('fixed end reactions', FE), ('global load vectors', F + ':FER/P'), ('element end forces', 'f()/F() of each element')],
 observe=['node.RxnFX..RxnMZ', 'member/spring/plate/quad F()'])
prop('C02', 'Frame results equal an independent direct-stiffness solution',
 'For any stable linear frame of members and two-node springs (any orientation, auxiliary nodes, end releases, supports, spring supports, settlements, every load type and direction) the reported nodal displacements, reactions and member end forces are those of linear elastic space-frame theory (Euler-Bernoulli bending, St. Venant torsion) for the defined geometry, properties and factored loads.',
 ['inputs'], 'all stable linear frames expressible through the modelling API',
 'The ~20 frame tests compare single numbers from textbooks; they do not reach arbitrary orientations, asymmetric properties, release and load combinations.',
 [F, A, M, PM, FE, SP], [('member stiffness, condensation and transformation', M + ':k/_partition/T'), ('assembly and partition', F + ':K; ' + A + ':_partition'), ('fixed end reactions', FE + '; ' + M + ':fer')])
prop('C03', 'Load combinations superpose linearly',
 'With linear behaviour, every result of a load combination (displacements, reactions, member forces/diagrams/deflections, plate and quad results) equals the factor-weighted sum of the results of its load cases taken one at a time. Cases a combination does not mention contribute nothing, the order of combinations and factors is irrelevant, and loads given no case name act in the default case.',
 ['inputs', 'configurations'], 'all linear models, load cases, factor sets (including zero, negative, shared and missing cases)',
 'Tests use one or two combinations with factor 1 and never compare combined results with their cases across all result types and load kinds.',
 [F, A, M, PM, PL, QD, LC], [('combo factors applied per load type', F + ':P/FER; ' + M + ':fer/_segment_member; ' + PL + ':fer; ' + QD + ':fer'), ('default combo', A + ':_prepare_model')])
prop('C04', 'All solvers and solver options give the same answer',
 'On a model with only linear behaviour, the general, linear and (when there are no axial forces) P-Delta analyses, each with the sparse or dense solver, stability checking, statics checking and logging on or off, produce the same displacements, reactions and member results. Re-running any of them changes nothing.',
 ['configurations', 'inputs'], 'all models times all analysis-method/option combinations',
 'Tests choose one solver option per example; option/model cross products are not sampled (some option combinations are never executed).',
 [A, F], [('three analysis drivers', F + ':analyze/analyze_linear/analyze_PDelta'), ('sparse and dense assembly', F + ':K/Kg'), ('displacement storage', A + ':_store_displacements')])
prop('C05', 'Results depend only on the current model, not on its history',
 'After any sequence of edits and analyses, analysing the model gives exactly the results of a freshly built model with the same final definition analysed the same way: nothing is remembered from earlier analyses, load combinations, activation states or cached diagrams. Analysing does not change the definition of the model or any argument object the user passed in.',
 ['histories'], 'all interleavings of edits (loads, supports, releases, properties, nodes, elements, combinations), analyses of every kind, and result queries',
 'A single reanalysis test changes one thing once; stale caches and flags only show after particular edit/analyse/query sequences.',
 [F, A, M, PM, ND, ME], [('reset before analysis', A + ':_prepare_model'), ('segment cache', M + ':_solved_combo'), ('solution flag', F + ':solution'), ('subdivision', PM + ':descritize')],
 state=[('solution', 'which analysis produced the stored results'), ('_solved_combo', 'combo the cached member segments belong to'), ('active', 'per combo activation of one-way elements')])
prop('C06', 'Results are independent of the global axes and origin',
 'Rigidly moving or turning a whole model with its supports and loads (including relabelling the vertical axis) moves and turns displacements and reactions with it and leaves every local result unchanged: member end forces, diagrams, deflections and spring, plate and quad local results. In particular no member or plate direction (vertical, horizontal, reversed, skew) is treated wrongly.',
 ['inputs'], 'all models and all rigid motions that the supports can express (axis permutations/flips for supported models, arbitrary rotations for models supported in all directions at a node)',
 'Tests place structures in one or two axis-aligned positions; the special-cased orientations are only reached by particular coordinates.',
 [M, PM, PL, QD, SP, F], [('member transformation incl. vertical/horizontal branches and auxiliary node', M + ':T'), ('spring transformation', SP + ':T'), ('plate and quad transformation', PL + ':T; ' + QD + ':T/_local_coords'), ('global load projection', M + ':_segment_member/fer')])
prop('C07', 'Member diagrams satisfy statics and beam theory everywhere',
 'For every analysed member and load combination, axial, shear, moment and torque at any position equal what equilibrium of the cut-off part of the member requires given its end forces and its loads (after a P-Delta analysis with the axial force acting at the reported deflection). Deflections meet the end displacements, their curvature matches the moment diagram divided by the bending stiffness and their axial stretch the axial force, and relative deflections are the deflections less the chord. This holds for point, distributed and self-weight loads in local or global directions at any load position.',
 ['inputs'], 'all members, loads, positions along the member, combinations',
 'Tests read a few maxima or end values; diagrams are piecewise functions whose pieces depend on load positions that tests do not vary.',
 [M, PM, BZ, BY], [('segmentation of a member at load discontinuities', M + ':_segment_member'), ('segment functions', BZ + '; ' + BY), ('position lookup', M + ':shear/moment/axial/torque/deflection')])
prop('C08', 'Maxima, minima and result arrays agree with pointwise results',
 'For every member, the reported maximum and minimum of axial force, shear, moment, torque and deflection bound the value at every position and are attained at some position (for deflections and second-order moments: up to the fineness with which they are sampled); the arrays returned for plotting contain the pointwise values at the requested or evenly spaced positions. For every mesh, the reported maximum and minimum shear and moment equal the extreme over the corners and centres of its elements, for one combination or all.',
 ['inputs', 'configurations'], 'all members/meshes, load sets, combinations, positions, array sizes, orders of queries',
 'Tests check a maximum at a known critical point; whether an extreme is interior, at a discontinuity or in a particular sub-member depends on inputs not sampled.',
 [M, PM, BZ, BY, ME], [('extremes per segment', BZ + ':max_*/min_*'), ('extremes per member', M + ':max_*/min_*; ' + PM + ':max_*/min_*'), ('arrays', M + ':*_array; ' + PM), ('mesh extremes', ME + ':Mesh.max_*/min_*')])
prop('C09', 'A node along a member changes nothing but continuity with it',
 'A member passing through intermediate nodes behaves exactly like the chain of separate members between those nodes with the same section, loads and end releases, whatever the number, order and spacing of intermediate nodes and the location of loads on the member. All results queried by position along the whole member equal those of the part containing that position, and adding an unattached node on the member does not change any result.',
 ['inputs'], 'all members, intermediate node sets, load positions/extents (including spanning several parts or landing on nodes) and releases',
 'Tests include one or two physical members with nodes at convenient points; the chopping of loads over several parts and lookups at part boundaries are not varied.',
 [PM, M, A], [('subdivision and load chopping', PM + ':descritize'), ('position lookup', PM + ':find_member'), ('loads and stiffness assembled per part', F + ':K/FER')])
prop('C10', 'Released member ends carry no force and leave the rest intact',
 'For any admissible set of end releases the released force or moment component is zero at that member end for every load and analysis, and the structure deforms as if the member were joined to the node through a frictionless hinge or slider at that end, all other components still satisfying equilibrium and compatibility, including deflections along the member. Setting releases back to fixed restores the unreleased results.',
 ['inputs', 'configurations'], 'all combinations of the twelve releases that leave the member stable, all loads, orientations, first and second order',
 'Tests release end rotations on a few simple beams; 4096 release patterns interact with load condensation.',
 [M, PM, F], [('static condensation of stiffness and fixed end forces', M + ':k/fer/kg/_partition'), ('end displacements at released ends', M + ':d'), ('release pass-down', PM + ':descritize')])
prop('C11', 'Equivalent ways to describe a load give identical results',
 'Statically identical load descriptions give identical reactions, displacements and member results: local versus global directions, a load split into pieces or several cases, a full-length default extent versus explicit positions, self-weight versus the equal line load, a point load at an end versus a nodal load, and a section definition versus explicit section properties. Unknown load directions, point-load positions off the member, and unknown names are refused without changing the model, rather than ignored.',
 ['inputs'], 'all loads, directions, positions, members (incl. global loads on skew members) and splits',
 'Each load type is exercised alone on an axis-aligned beam; equality between descriptions is never tested.',
 [F, M, PM, FE, SE], [('load entry', F + ':add_*_load/add_member_self_weight'), ('direction resolution', M + ':fer/_segment_member'), ('fixed end reactions', FE)])
prop('C12', 'Supports and enforced displacements are honoured exactly',
 'Every supported direction has zero displacement, every enforced displacement (with or without a support in its direction) is attained exactly in every combination and analysis, and spring supports respond with minus stiffness times displacement. A support movement compatible with rigid-body motion of a structure produces that motion everywhere and no internal forces, and enforcing the displacement that a structure takes on by itself changes nothing.',
 ['inputs', 'configurations'], 'all models, support patterns, enforced displacement values (including zero and negative), spring stiffness values and directions',
 'Tests include one settlement example and one spring-support example.',
 [F, A, ND], [('known/unknown partition', A + ':_partition_D/_partition'), ('displacement expansion', A + ':_store_displacements'), ('support springs', F + ':K'), ('spring reactions', A + ':_calc_reactions')])
prop('C13', 'One-way members, springs and supports act only their own way',
 'In every converged analysis, no active tension-only element is in compression, no active compression-only element is in tension, a deactivated element carries no force, and one-way spring supports push only in their own direction. The converged result equals that of an ordinary linear model from which the inactive elements are removed, separately for each combination and independent of earlier analyses; failure to converge is reported as an error.',
 ['inputs', 'histories'], 'all models with one-way members, springs and supports, all combinations and their order',
 'Two small examples are tested; complementarity per combination, independence of combinations and convergence reporting are not.',
 [A, F, M, SP, ND], [('activation update', A + ':_check_TC_convergence'), ('iteration', F + ':analyze; ' + A + ':_PDelta_step'), ('activation in assembly', F + ':K/Kg')],
 state=[('active', 'per combo element activation'), ('node.spring_*', 'stiffness, direction, activation of support springs')])
prop('C14', 'P-Delta results satisfy second-order equilibrium',
 'The P-Delta analysis returns displacements in equilibrium with the elastic plus geometric stiffness for the axial forces of the members: compression softens and tension stiffens, results tend to first-order results as axial loads vanish, agree with beam-column theory when members are finely divided, and follow the same orientation, sparse/dense and release independence as first-order analysis. Reactions and member end forces are in equilibrium in the second-order sense.',
 ['inputs'], 'all frames with axial loads below the critical load, all orientations, subdivisions, options and combinations',
 'Two AISC benchmark columns with one orientation and load level are tested.',
 [A, F, M, PM, BZ], [('P-Delta iteration', A + ':_PDelta_step'), ('geometric stiffness', F + ':Kg; ' + M + ':kg'), ('second order end forces', M + ':f')])
prop('C15', 'Elastic behaviour: reciprocity, symmetry, energy, rigid-body freedom',
 'For every linear model the displacement at A due to a unit load at B equals that at B due to a unit load at A, the work of any load on its own displacement is non-negative, and doubling loads doubles results. The stiffness of every element and of the model is symmetric and positive semidefinite; rigid-body motions of unsupported parts produce no force in members and springs, nor in plates and quads except rotation about their own normal.',
 ['inputs'], 'all models built of members, springs, plates (with stiffness modifiers) and quads, all pairs of load points/directions',
 'No test looks at reciprocity, symmetry or energy.',
 [M, PL, QD, SP, F], [('element stiffness matrices', 'k()/K() of Member3D, Spring3D, Plate3D, Quad3D'), ('assembly', F + ':K')])
prop('C16', 'Plates and quads reproduce constant stress and curvature exactly',
 'For any mesh of plates or convex quads under boundary displacements corresponding to a constant membrane strain, constant curvature or constant twist, the computed displacements are exact in the interior and the reported membrane stresses, moments and shears equal the theoretical values at every point of every element, in the sign convention of the element kind; for every state the stress results agree with the nodal forces by virtual work. Results do not depend on which corner an element is listed from or on the mesh position in space.',
 ['inputs'], 'all patch geometries, materials, thicknesses, stiffness modifiers, strain states, orientations, node numberings',
 'Tests examine a few rectangular meshes with tabulated maxima; patch behaviour for distorted quads, Poisson effects and sign agreement is not tested.',
 [PL, QD, F], [('plate stiffness and stress recovery', PL), ('quad stiffness and stress recovery', QD), ('assembly', F + ':K')])
prop('C17', 'Surface pressure and slab solutions are right and converge',
 'A uniform pressure on any plate, quad or mesh applies a total force of pressure times true area normal to the surface with the correct resultant moment, scaled by combination factors and accumulating over repeated loads. Deflections and moments of loaded slabs, walls and cylindrical tanks converge under refinement to plate and shell theory for their edge conditions, stress resultants across any cut balance the load beyond it, and plates and quads converge to the same values.',
 ['inputs'], 'all element shapes, orientations, pressures, cases, aspect ratios, materials, edge conditions and refinements',
 'Tests use a few slab and tank examples at one mesh size with wide tolerances.',
 [PL, QD, ME, F], [('equivalent nodal loads', PL + ':fer; ' + QD + ':fer'), ('stress recovery', PL + ':moment/shear; ' + QD + ':moment/shear')])
prop('C18', 'Mesh generators produce the specified geometry, conforming and complete',
 'A generated rectangle (with openings and control points), annulus, frustum or cylinder mesh covers exactly the specified surface: nodes lie on it at the given origin, plane or axis, elements tile its area without gaps or overlaps, openings are empty, control lines carry nodes, elements are no larger than the mesh size (rectangles) or than twice it (round meshes), and all elements carry the requested thickness, material and modifiers. Every element uses nodes of the model, names are unique and continue after existing ones without overwriting anything, and neighbouring elements share nodes.',
 ['inputs', 'configurations'], 'all generator parameters: sizes, radii, origins, planes/axes, openings, control points, element types, start names, several meshes per model',
 'Tests generate a few meshes at the default origin and plane and only look at analysis results.',
 [ME, F], [('generators', ME), ('mesh registration', F + ':add_rectangle_mesh/add_annulus_mesh/add_frustrum_mesh/add_cylinder_mesh')])
prop('C19', 'Model editing keeps the model consistent and does what it says',
 'Through any sequence of add, delete, merge and rename operations every element refers to nodes that are in the model under their own names, names are unique per kind, deleting a node removes all elements attached to it, merging joins exactly the nodes within tolerance and keeps supports and loads, renaming preserves the structure, and orphaned nodes and load cases are listed exactly. Adding with a used name or referring to an unknown name is refused without changing the model.',
 ['histories'], 'all operation sequences on models with members, springs, plates, quads, meshes, loads and auxiliary nodes',
 'Tests merge once and delete once; name collisions, permuted names and chained operations are not reached.',
 [F, ME, ND], [('editing operations', F + ':add_*/delete_*/merge_duplicate_nodes/rename/orphaned_nodes/unique_name/load_cases')])
prop('C20', 'Unstable structures are reported, stable ones are solved',
 'When loads act on a mechanism left by the supports, releases and members, or a direction is connected to nothing, every analysis with default settings reports an error instead of returning displacements; it never returns non-numeric or meaningless results silently. A stable structure is never reported unstable because of its units, numbering, orientation or solver.',
 ['inputs', 'configurations'], 'all mechanisms (missing supports, hinges in line, unrestrained parts, unattached nodes, too many releases), all solvers, stable counterparts one restraint away',
 'Two instability tests exist, one of a single kind.',
 [A, F], [('nodal stability check', A + ':_check_stability'), ('solver errors', F + ':analyze*; ' + A + ':_PDelta_step')])
prop('C21', 'Combination tags and reporting options select without altering',
 'Analysing with tags produces results exactly for the combinations carrying one of the tags, equal to those of a full analysis, and leaves other combinations without results. The statics check prints for each analysed combination the sums of applied loads and reactions, equal in size and opposite in sign, and logging and checking options never change results.',
 ['configurations', 'inputs'], 'all tag sets, untagged combinations, analysis methods, check_statics/log settings',
 'No test exercises tags together with the options.',
 [A, F, LC], [('combo selection', A + ':_identify_combos'), ('statics table', A + ':_check_statics')])
prop('C22', 'The generated report states the model and its results truthfully',
 'Each selected section of the report has, for every node, member, plate or quad it is about, one row with the defined data, or one row per analysed load combination with the displacements, reactions, member end forces and extremes, and the shears, moments and membrane stresses of plates and quads at their corners and centre, equal to what the model returns for that item and combination, to the displayed digits. Sections switched off are absent and the others unaffected; the model is not changed.',
 ['inputs', 'configurations'], 'all models and all section switches',
 'No test generates a report.',
 [RE, 'PyNite/Report_Template.html'], [('template rendering', RE + ':create_report')])
prop('C23', 'Drawings show the model and its results where and as they are',
 'A rendered scene (VTK or pyvista) places every node, support, member, spring, plate and quad at its model position, the deformed shape at position plus scale times displacement, and colours contours with the stress values the model returns; labels and load symbols, sized by the factored loads, appear for each item of the selected combination or case and for nothing else, also when a drawing is updated. Member diagrams plot the arrays the member returns. Rendering never changes the model or its results.',
 ['inputs', 'configurations'], 'all models, scale factors, combinations, cases, contour choices, switches',
 'Rendering tests only check that nothing raises.',
 [RD, 'PyNite/Visualization.py'], [('scene construction', RD + ':Renderer.update; ' + 'PyNite/Visualization.py')])
prop('C25', 'Results scale with units',
 'Expressing the same model in other consistent units of length and force gives the same results after conversion, for displacements, reactions, member and plate results, and P-Delta, and stable models stay stable; results never depend on absolute magnitudes of the numbers used.',
 ['inputs'], 'all models and unit changes of several orders of magnitude (mm to km, N to MN)',
 'Every test uses one unit system; hidden absolute tolerances show only under scaling.',
 [A, F, M, PM, PL, QD], [('absolute tolerances', 'isclose/round calls in Analysis, Member3D, PhysMember, Quad3D'), ('segment lookup', M + ':_segment_member')])
prop('C26', 'Names and order of definition do not matter',
 'Renaming nodes, elements, materials, cases and combinations, and adding nodes, elements, loads and combinations in a different order, changes no result of any item. Listing a member or spring with its ends swapped gives the same structure, with local results mirrored accordingly.',
 ['inputs', 'configurations'], 'all models, all permutations and renamings, end swaps',
 'Tests build each model in exactly one order with one naming scheme.',
 [F, A, PM, M], [('numbering', A + ':_renumber'), ('assembly by internal number', F + ':K/P/FER'), ('lookup by name', F)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
