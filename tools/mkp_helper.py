import os,pprint
def P(id,title,statement,over,text,why,files,mech,state=(),observe=(),technique='',level_note='',na=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None),
      technique=technique,level_note=level_note)
    if na: d['na']=na
    with open(f'/verif/tools/props/{id}.py','w') as f: f.write('P = '+pprint.pformat(d,width=118,sort_dicts=False)+'\n')
TV='TLA+ specification model-checked with TLC; traces of the real code validated by TLC against it'
P('C01','Overlap capacitance: each directly facing pair of nets once, by area',
 'In 2.5D capacitance extraction, two nets on two layers get an overlap capacitance equal to the coefficient of that layer pair times the area in which their shapes lie vertically above one another with no other conductor in between, the substrate VSUBS being the lowest layer, present everywhere and seen with the area coefficient of the upper layer. Shapes of the same net never couple, and no other overlap entry is reported. A layer that has no row in a table contributes nothing for that table, still shields, and leaves all other entries as they are. The result does not depend on how the shapes are drawn (order, splitting into polygons, position).',
 ['inputs'],'all layouts of polygons on the metal layers, all coefficient tables',
 'The unit tests only sum hand-made tables; the layout tests need a KLayout executable and compare a handful of golden layouts. The guarantee is over all stackings, partial shields, nets on several layers and coefficient tables.',
 ['klayout_pex/rcx25/c/overlap_extractor.py','klayout_pex/rcx25/extractor.py','klayout_pex/tech_info.py'],
 [('polygons look upwards, a growing shield hides higher layers','klayout_pex/rcx25/c/overlap_extractor.py: neighbors'),('substrate area coefficient becomes an overlap coefficient to VSUBS','klayout_pex/tech_info.py: overlap_cap_by_layer_names')],
 [('overlap_table','capacitances by (top layer, net, bottom layer, net)','klayout_pex/rcx25/extraction_results.py')],
 ['RCX25Extractor.extract() results'],TV+' (random and enumerated layouts through the real extractor)',
 'Exhaustive for the algorithm on small stacks; on the code: every 4-layer column of 2 nets plus seeded random layouts (boxes, L/U/ring shapes, 45 degree corners, uneven grids), compared exactly with integer coefficients. Trusts KLayout geometry.')
P('C02','Sidewall capacitance: only to the nearest other shape of the same layer',
 'For rectilinear layouts, the sidewall capacitance of two nets on a layer is the sum over both nets\' edges of half of length x coefficient / (distance + offset), where each stretch of edge sees only the nearest other polygon on the same layer within the halo, and contributes nothing if that polygon is of the same net. No sidewall capacitance is reported between other nets or layers, and it does not depend on what lies on other layers.',
 ['inputs'],'all rectilinear layouts, halos, coefficients and offsets',
 'Golden layout tests cannot run without KLayout executables and cover about five sidewall patterns; shielding by same-net shapes, edges split between several neighbours, holes and halo limits are not covered.',
 ['klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py','klayout_pex/rcx25/c/polygon_utils.py'],
 [('nearest polygon per edge interval','klayout_pex/rcx25/c/polygon_utils.py: find_polygon_with_nearest_edge'),('half contribution per side','klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py: emit_sidewall')],
 [('sidewall_table','capacitances by (layer, net, net)','klayout_pex/rcx25/extraction_results.py')],
 ['RCX25Extractor.extract() results'],TV+' (rectilinear layouts through the real extractor)',
 'Exact rational comparison per layer and net pair (5e-5 relative) on enumerated strips and seeded random rectilinear layouts with uneven grids; non-rectilinear shapes are outside the property (the code documents a bounding box approximation).')
P('C03','Fringe capacitance: ends on the nearest conductor, cut by shields and halo',
 'For rectilinear layouts, each stretch of a net\'s edge contributes a fringe capacitance to every piece of another net (or the substrate) that lies beside it within the halo: length x side-overlap coefficient x (profile(far) - profile(near)), profile(d) = 2/pi atan(overlap coefficient x 0.02 x d), divided by profile(halo) when scaling is enabled. A piece is seen only if no conductor of any net lies on a layer in between above or below it and no shape on the edge\'s own layer is nearer; contributions up to 0.0001 fF may be dropped. Pieces of the same net get nothing, and no other fringe entry is reported.',
 ['inputs','configurations'],'all rectilinear layouts, halos, coefficient tables, with and without halo scaling',
 'The arctangent profile, lateral and vertical shields interact; golden layouts sample a few combinations and need a KLayout executable that is not present in the unit test environment.',
 ['klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py','klayout_pex/tech_info.py'],
 [('lateral shield and per-layer shields','klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py: on_edge'),('profile and scaling','klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py: fringe_cap')],
 [('sideoverlap_table','capacitances by (inside layer, net, outside layer, net)','klayout_pex/rcx25/extraction_results.py')],
 ['RCX25Extractor.extract() results'],TV+' (rectilinear layouts through the real extractor)',
 'Visibility decided by TLC on the grid; the arctangent profile is tabulated by the harness from the formula in the statement (TLA+ has no reals). Tolerance: rounding plus the two database units the code searches beyond the halo.')
P('C04','Resistor networks: one per net, between its pins, terminals and vias',
 'In modes R and RC, for nets drawn as straight wires joined by vias, the extraction returns for every net, named or not, one network carrying the net\'s name, whose nodes are the pin labels on the net, the device terminals on it and two ends for each via or contact, on the two layers that it joins. Its resistors are one for each pair of neighbouring nodes of a wire, sheet resistance of the layer x centre distance / wire width (none within diffusion), and one for each via, resistance per cut x (nominal cut width squared) / drawn area, and no others. Pin and terminal nodes carry the name of the net, via ends carry names that no other node or net has.',
 ['inputs','configurations'],'all layouts of straight wires, vias, contacts, pins and transistors on the layers of sky130A and ihp_sg13g2, all resistance tables',
 'There is one resistance unit test of the device table; the extraction needs pin layers, labels, LVS layer names and technology tables to agree for every layer and via of both processes.',
 ['klayout_pex/rcx25/r/r_extractor.py','klayout_pex/klayout/rex_core.py','klayout_pex/klayout/lvsdb_extractor.py','klayout_pex/klayout/shapes_pb2_converter.py','klayout_pex/tech_info.py','cxx/gen_tech_pb/pdk/sky130A.cpp'],
 [('technology for the resistor extractor','klayout_pex/rcx25/r/r_extractor.py: prepare_r_extractor_tech_pb'),('nets, pins and terminals of the request','klayout_pex/rcx25/r/r_extractor.py: prepare_request'),('nodes and resistors of the result','klayout_pex/rcx25/r/r_extractor.py: extract'),('pins and device terminals','klayout_pex/klayout/lvsdb_extractor.py: pins_pb2_by_layer, devices_by_name')],
 [('networks','nodes and elements by net','r_extraction_result of CellExtractionResults')],
 ['RCX25Extractor.extract() results'],TV+' (wire meshes with vias, pins and transistors through the real extractor)',
 'The specification builds networks port by port and is model checked against its declarative form; layouts are seeded random meshes on both processes, values compared to 1 mOhm. Bends and junctions of wires are decided by KLayout and not compared.')
P('C05','Modes and options of the 2.5D engine mean the same in every combination',
 'Capacitances are extracted in modes CC and RC only, resistances in R and RC only, the default mode is CC, and RC gives the same capacitances as CC and the same resistances as R under the same options. --halo replaces the side halo of the technology and nothing else, --scale defaults to true, and neither changes resistances. A run gives the same results in whatever order runs follow one another in a process, and the command line gives those of the engine called with the same settings.',
 ['configurations','histories'],'all combinations and sequences of --mode, --halo, --scale and --blackbox on all layouts',
 'Options are plumbed through argparse, the technology object and three extractors; tests call single functions with one setting.',
 ['klayout_pex/kpex_cli.py','klayout_pex/rcx25/extractor.py','klayout_pex/rcx25/pex_mode.py'],
 [('mode gates','klayout_pex/rcx25/pex_mode.py: need_capacitance, need_resistance'),('halo override and dispatch','klayout_pex/kpex_cli.py: main, run_kpex_2_5d_engine')],
 [('summary of a run','capacitances and resistances by net pair','KpexCLI.rcx25_extraction_results')],
 ['RCX25Extractor.extract() and KpexCLI.main() results'],TV+' (one trace is a sequence of runs on one layout)',
 'The specification treats what is extracted as an unknown function of (layout, halo, scale) and checks all option combinations; on the code, sequences of 13 runs per layout (command line and engine) on seeded layouts of two processes.')
P('C06','The summary adds up all parts of a net pair, whatever their order',
 'The summary of an extraction holds each unordered pair of nets that has any extracted element exactly once: its capacitance is the sum of all overlap, sidewall and fringe entries of the pair over all layers and cells, and its resistance the parallel combination of all resistors between the two nets. Merging summaries, in any order and grouping, gives what one summary of all elements gives.',
 ['inputs'],'all result tables of all cells, and all orders of merging them',
 'The unit tests merge two hand-made tables; the guarantee concerns all combinations of tables, swapped net names and groupings.',
 ['klayout_pex/rcx25/extraction_results.py'],
 [('normalised net pairs','klayout_pex/rcx25/extraction_results.py: NetCoupleKey.normed'),('adding and merging','klayout_pex/rcx25/extraction_results.py: summarize, ExtractionSummary.merged')],
 [('ExtractionSummary','capacitances and resistances by net pair','klayout_pex/rcx25/extraction_results.py')],
 ['ExtractionResults.summarize(), ExtractionSummary.merged()'],TV,
 'Model checked: the incremental summary equals the declarative one on all small tables and merge trees. On the code: thousands of seeded tables with shuffled, split and merged variants.')
P('C07','2.5D netlist and CSV hold exactly the summary, in SI units, around the input',
 'The expanded netlist of the 2.5D engine holds for each entry of the summary one capacitor in farad or resistor in ohm between the nets of those names, with a name of its own, and no other parasitic device. Pins, nets and devices of the extracted top circuit are kept, except that its capacitor devices are left out unless devices are blackboxed, nets are added only for names of the summary, VSUBS and FC_GND, and the netlist passed in is not modified. The CSV file lists the same entries, C1, C2, ... and R1, R2, ..., in fF and ohm rounded to 3 decimals.',
 ['inputs','configurations'],'all extracted netlists, summaries and modes',
 'The expander test compares one hand-made netlist; there is no test of units, net name collisions, white/blackbox filtering or CSV content.',
 ['klayout_pex/rcx25/netlist_expander.py','klayout_pex/kpex_cli.py'],
 [('summary entries become devices','klayout_pex/rcx25/netlist_expander.py: expand'),('CSV and SPICE files','klayout_pex/kpex_cli.py: run_kpex_2_5d_engine')],
 [('expanded netlist','devices of the top circuit','klayout_pex/rcx25/netlist_expander.py')],
 ['RCX25NetlistExpander.expand(), *_k25d_pex_netlist.csv and .spice'],TV+' (netlists and files written by the real code)',
 'On the code: seeded command line runs on layouts of two processes and seeded netlists with ten device classes; every device, pin and net of input and output compared. The CSV value must agree with the summary to 0.001.')
P('C08','A run works on an LVS result of the layout as it is, never on an older one',
 'A run with --gds that succeeds has worked on an LVS result for its cell made from the GDS file as it was at some time of the run, or taken from the LVSDB cache while the file has not been modified since that LVS run began; files, cells, PDKs and cache directories are kept apart. LVS is always called with --cache-lvs false and whenever no such cache entry exists, and is not called again while one exists. A failed, incomplete or missing LVS result, or an interrupted write to the cache, makes that run fail and never makes a later run fail or use a wrong result.',
 ['histories','crash points','configurations'],'all histories of edits and runs over several files, cells, output and cache directories, with LVS failures, edits while LVS runs, and write errors at any time',
 'No test runs LVS twice; freshness depends on time stamps, on what earlier runs left in output and cache directories, and on failures of the external tool at particular points.',
 ['klayout_pex/kpex_cli.py','klayout_pex/klayout/lvs_runner.py'],
 [('cache lookup, stale results removed, atomic cache entry','klayout_pex/kpex_cli.py: create_lvsdb'),('time of reading the layout','klayout_pex/kpex_cli.py: validate_args')],
 [('LVSDB cache','<cache dir>/<pdk>/<gds path>/<cell>.lvsdb.gz','klayout_pex/kpex_cli.py: create_lvsdb'),('LVSDB of the run','<run dir>/<cell>.lvsdb.gz','klayout_pex/kpex_cli.py: create_lvsdb')],
 ['results of KpexCLI.main() and calls of the LVS executable'],'TLC model checking of the cache mechanism (interleavings, crashes, clock resolution) and of all short histories, and replay of TLC-simulated histories into the real command line with a stand-in for KLayout, validated by TLC',
 'Mechanism: two runs sharing a cache, all interleavings of 3-4 runs. On the code: simulated histories of 6 events (9 thorough) over up to 2 files, cells, output and cache directories. Edits set a new modification time (a file replaced by one with an older time stamp is not covered). Trusts os.replace.')
P('C09','Results come from tools called in this run, and a failing tool fails the run',
 'A run calls the tools its engines need (MAGIC for --magic; then KLayout LVS, then FasterCap, then FastCap2, for the others), found where the KPEX_*_EXE variables say or else in PATH, once each and in this order, and ends with an error, calling no further tool, at the first that is missing, is killed, exits with failure (except LVS, where only a missing result counts) or delivers no complete result. After a successful run all result files of the requested engines (FasterCap and FastCap2 matrices and netlists, 2.5D netlists, MAGIC netlist and report) hold what the tools delivered in this run, and of several iterations of a solver the last. After a failed run the files kpex itself writes from a tool that failed or was not called are as before or absent, and no run touches result files of engines it was not asked for.',
 ['histories','crash points','configurations'],'all sequences of runs of all combinations of engines in one output directory, with every tool failing in every way',
 'No test runs an external tool; what is found in the output directory depends on earlier runs, and tools such as MAGIC report success without having done anything.',
 ['klayout_pex/kpex_cli.py','klayout_pex/env.py','klayout_pex/magic/magic_runner.py','klayout_pex/fastercap/fastercap_runner.py','klayout_pex/fastcap/fastcap_runner.py','klayout_pex/klayout/lvs_runner.py'],
 [('order of engines','klayout_pex/kpex_cli.py: main'),('exit status of tools','klayout_pex/fastercap/fastercap_runner.py: run_fastercap, klayout_pex/magic/magic_runner.py: run_magic'),('stale MAGIC results are removed','klayout_pex/kpex_cli.py: run_magic_extraction'),('last matrix of the log','klayout_pex/fastercap/fastercap_runner.py: fastercap_parse_capacitance_matrix')],
 [('run directory','result files by engine','klayout_pex/kpex_cli.py')],
 ['KpexCLI.main() with stand-ins for the tools, result files after each run'],'TLC model checking of the run procedure against the contract, and '+TV+' (histories of runs with stand-ins for KLayout, FasterCap, FastCap2 and MAGIC)',
 'Model: all pairs (thorough: triples) of runs. On the code: seeded histories of 6 runs; each result file is tagged by the run whose tool output it holds. The stand-in for FastCap2 names its conductors so that they are accepted (see C12).')
P('C10','A command line is rejected before any tool runs, or selects the right cell',
 'A command line is rejected before any external tool is called (exit status 2 for malformed options, else 1) if no engine is selected, neither --gds nor --lvsdb is given, MAGIC is selected without --gds or a magicrc, the KLayout executable or a file given does not exist, the cell is not in the GDS, or none is given and there is not exactly one top cell, or the log level or --diel pattern is invalid. Every other one is accepted: LVS and MAGIC get a layout whose only top cell is the chosen cell (--cell or the top cell), with all cells below it unchanged, and LVS gets the schematic given, or a dummy one with a subcircuit of that name. --gds takes precedence over --lvsdb, whose own top cell is used, and the results go to the directory <out_dir>/<GDS or LVSDB file name up to the first dot>__<cell>.',
 ['inputs','configurations'],'all command lines over all layouts (cell hierarchies)',
 'The CLI tests run two accepted command lines; which combinations are rejected, and what the tools get for a sub cell, is not tested.',
 ['klayout_pex/kpex_cli.py','klayout_pex/env.py','klayout_pex/util/argparse_helpers.py','klayout_pex/klayout/lvs_runner.py'],
 [('validation and choice of the cell','klayout_pex/kpex_cli.py: validate_args'),('executables from the environment','klayout_pex/env.py: Env')],
 [('effective layout, cell and schematic','attributes of the parsed arguments','klayout_pex/kpex_cli.py')],
 ['exit status, calls of the stand-in tools and the files given to them, directories made'],'TLC model checking of the validation procedure, and '+TV+' (command lines with stand-ins for all tools)',
 'Model: 300k invocations over 5 layouts, all orders of the examination. On the code: 800 (thorough 7200) seeded command lines with 0-2 slips over random hierarchies of up to 4 cells. Trusts the argparse module.')
P('C11','The last complete matrix of a solver log is read exactly, else none',
 'From a FasterCap or FastCap2 log the names, order and values of the last capacitance matrix are read, divided by 1e6 as geometries are in micrometres (FastCap2 values as picofarad, whatever unit the log states). A log without a matrix, or whose last matrix is incomplete, raises an error. Averaging replaces each pair of off-diagonal elements by their mean, keeps the rest and the original matrix, and a matrix written to CSV reads back the same to 12 digits.',
 ['inputs','histories'],'all logs: any number of iterations, conductors, spacings, number formats, ends at any line',
 'The two parser tests read one log each and compare the dimensions and names only.',
 ['klayout_pex/common/capacitance_matrix.py','klayout_pex/fastercap/fastercap_runner.py','klayout_pex/fastcap/fastcap_runner.py'],
 [('parsing','klayout_pex/fastercap/fastercap_runner.py and klayout_pex/fastcap/fastcap_runner.py: fastcap_parse_capacitance_matrix'),('averaging and CSV','klayout_pex/common/capacitance_matrix.py')],
 [('matrix','conductor_names, rows','klayout_pex/common/capacitance_matrix.py: CapacitanceMatrix')],
 ['fastercap_parse_capacitance_matrix(), fastcap_parse_capacitance_matrix(), CapacitanceMatrix'],'TLC model checking of a solver writing its log up to any line, and '+TV+' (exact decimal arithmetic)',
 'Model: 2 matrices of up to 2 conductors, ended at every line. On the code: seeded logs with 0-3 matrices of 1-12 conductors, in all FastCap2 units. A line cut off within a number is not covered.')
P('C13','Netlist reduction preserves electrical behaviour and drops only small capacitors',
 'The reduced netlist is electrically equivalent to the one given, as seen from its pins and from all other devices: capacitances and resistances between them are unchanged, resistors of 0 ohm still join their nets, transistors keep their total width per terminals and length, all other devices and the pins stay. No two capacitors are in parallel, and of the merged capacitors exactly those below the threshold (0.05 fF unless given) are removed. The netlist given is not modified.',
 ['inputs'],'all netlists of capacitors, resistors, transistors and other devices between any nets',
 'The only test of the reducer runs it on one netlist without looking at the result.',
 ['klayout_pex/klayout/netlist_reducer.py'],
 [('merging of devices and the threshold','klayout_pex/klayout/netlist_reducer.py: NetlistReducer.reduce')],
 [('reduced netlist','devices, nets, pins','klayout_pex/klayout/netlist_reducer.py')],
 ['NetlistReducer.reduce()'],'TLC model checking that merging and star-mesh elimination agree, and '+TV+' (port admittances in exact rational arithmetic)',
 'Model: all networks of up to 3 (thorough 4) elements over 4 nets. On the code: 2500 (thorough 25000) seeded netlists of up to 7 nets. Netlists for which KLayout mixes up its device classes are the known finding.')
P('C12','The expanded netlist holds exactly the capacitances of the FasterCap matrix',
 'For a symmetric matrix with conductors g<n>_<net> the expanded netlist has a capacitor of -m[i,j] between the nets of each pair of conductors and one of the sum of the row from each conductor but the first (the substrate) to the first, wherever positive, and no other, while FC_GND and VSUBS are tied to GND by resistors of 0 ohm (all three nets are created if missing). Devices of the top circuit are kept or removed as the blackbox option says, pins, other nets and circuits are kept, the netlist given is not modified, and a conductor that is no net (unnamed nets are called $n) raises an error. The CSV lists exactly these capacitors with the names of their nets and fF rounded to 2 decimals, and a run of kpex gives these results for the averaged matrix of the log.',
 ['inputs'],'all matrices (signs, sizes, scales), names of nets, devices, circuits',
 'The only test of the expander runs it on one matrix and looks at no value of the result.',
 ['klayout_pex/klayout/netlist_expander.py','klayout_pex/klayout/netlist_csv.py','klayout_pex/kpex_cli.py'],
 [('capacitors, resistors and removal of devices','klayout_pex/klayout/netlist_expander.py: NetlistExpander.expand'),('CSV','klayout_pex/klayout/netlist_csv.py: NetlistCSVWriter.write_csv')],
 [('expanded netlist','devices, nets','klayout_pex/klayout/netlist_expander.py')],
 ['NetlistExpander.expand(), NetlistCSVWriter.write_csv(), result files of KpexCLI.main() with a stand-in for FasterCap'],'TLC model checking that the capacitors give back the structure whose Maxwell matrix is read, and '+TV,
 'Model: all structures of 3 (thorough 4) conductors with capacitances 0..3 (0..2). On the code: 2000 (thorough 16000) seeded matrices of up to 8 conductors, 46 (383) runs of kpex. FastCap2 is the known finding.')
P('C14','FasterCap model: each face between two bodies once, with the right two sides',
 'From conductors and dielectrics given as layers (shapes, base, height, in whole database units), the model builder makes a list file in which space belongs to the conductor added first, else to the dielectric declared first, among those whose layers hold it, else to the void. Every face between two different owners is covered exactly once by triangles of a line with the permittivities of the two sides (or net and permittivity), the reference points lying on the side of the first one; no other triangle exists. Walls of edges not parallel to an axis may be off by rounding; conductors of different nets do not touch.',
 ['inputs'],'all sets of layers of conductors and dielectrics, of any heights, overlapping or not, all triangulation parameters',
 'No test looks at the model generated; a face missing, doubled or with sides swapped shifts the capacitances of some layouts a little.',
 ['klayout_pex/fastercap/fastercap_model_generator.py'],
 [('layers, heights and shapes open at each height','klayout_pex/fastercap/fastercap_model_generator.py: FasterCapModelBuilder.generate'),('faces between bodies','klayout_pex/fastercap/fastercap_model_generator.py: FasterCapModelGenerator.add_in, add_out, finish_z'),('list and geometry files','klayout_pex/fastercap/fastercap_model_generator.py: write_fastcap')],
 [('faces by (net or material, outside)','diel_data, diel_vdata, cond_data, cond_vdata','klayout_pex/fastercap/fastercap_model_generator.py')],
 ['files written by FasterCapModelGenerator.write_fastcap()'],'TLC model checking of the sweep over heights against the definition of faces, and '+TV+' (triangles of the written files located on all faces of a grid)',
 'Model: all sets of 2 (thorough 3) layers of 3 bodies. On the code: 1000 (thorough 30000) seeded solids on grids of up to 3x3 rectangles cut by diagonals, up to 3 nets and 4 materials; every possible face is tested at a point, and areas are compared exactly (2.5% with diagonals). Runs in which KLayout itself gives up triangulating are left out.')
P('C15','FasterCap files: one conductor per net, whatever its name; STL closed surfaces',
 'In the list file written for FasterCap each net is one conductor: the geometry files of its faces are collated, use one conductor number of their own, and the last one (only) renames it to the name of the net, whatever this is (including path separators, names longer than a file name may be, and long names that differ only in their end). No geometry file is listed twice. The STL file of each body holds its closed surface, all facets facing outwards.',
 ['inputs'],'all models and all net names',
 'No test writes a list file; long names or hierarchical names do not occur in test layouts.',
 ['klayout_pex/fastercap/fastercap_model_generator.py'],
 [('list and geometry files','klayout_pex/fastercap/fastercap_model_generator.py: write_fastcap, _write_fastercap_geo'),('STL files','klayout_pex/fastercap/fastercap_model_generator.py: dump_stl')],
 [('list file','<prefix>.lst and the .geo files it names','klayout_pex/fastercap/fastercap_model_generator.py')],
 ['files written by write_fastcap() and dump_stl()'],'TLC model checking of the sweep over heights against the definition of faces, and '+TV+' (list, geometry and STL files read back)',
 'As C14, 600 (thorough 16000) models with names such as a/b, 260 equal characters with different ends, 150 two-byte characters.')
P('C16','FasterCap model of a layout: every layer at the height of the process stack',
 'In the model a run with --fastercap writes, each metal shape of a net is a conductor of that net from the z of its layer up by its thickness, each via or contact stands on the metal below with the thickness of the contact, diffusions reach from 0 to 0.1 um and their contacts start at 0; VSUBS lies at the depth of the substrate within 8 um around the layout, except within 1 um of diffusions, and field oxide from 0 to the gate. Around the shapes of a metal (where it has any) come the sidewall and conformal dielectrics that refer to it, then those that refer to these, each wider by its width and higher by its height (a sidewall without height: that of the metal; the first conformal one: metal thickness plus its thickness), a conformal one also lying on the previous where there is no metal; the simple dielectric above the metal fills up to the next metal. Dielectrics not selected by --diel (all with -name, none with +name, in any order), and those referring to them, are left out; --k_void surrounds the model.',
 ['inputs','configurations'],'all layouts of boxes on the layers of sky130A and ihp_sg13g2, all stacks of dielectrics, all selections of dielectrics',
 'No test builds a model of a layout; a layer at a wrong height or a missing dielectric only changes some capacitances by some percent.',
 ['klayout_pex/fastercap/fastercap_input_builder.py','klayout_pex/tech_info.py','klayout_pex/util/multiple_choice.py','cxx/gen_tech_pb/pdk/sky130A.cpp','cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp','klayout_pex/klayout/lvsdb_extractor.py'],
 [('conductors, substrate and dielectrics','klayout_pex/fastercap/fastercap_input_builder.py: FasterCapInputBuilder.build'),('chains of dielectrics','klayout_pex/tech_info.py: sidewall_dielectric_layer, simple_dielectric_above_metal'),('selection of dielectrics','klayout_pex/util/multiple_choice.py: MultipleChoicePattern')],
 [('model','conductors and dielectrics with base and height','klayout_pex/fastercap/fastercap_model_generator.py')],
 ['list and geometry files of FasterCapInputBuilder.build() and of KpexCLI.main() with a stand-in for FasterCap'],'TLC model checking of the stack against a step-by-step process of deposition, and '+TV+' (vertical probes into the written files)',
 'Model: all chains of 2 (thorough 3) dielectrics. On the code: 400 (thorough 12000) seeded layouts with 30 probes each, on the shipped stacks and on ones with other heights and dielectrics. The stack itself is read from the generated technology; shapes are boxes; sizes that binary fractions round down are left out, as are nets that touch without being connected.')
P('C17','External tools get the settings of the options, for all file and cell names',
 'MAGIC runs in batch with the magicrc (--magicrc, else that of PDKPATH and PDK) a Tcl script that reads the layout, flattens the chosen cell under its name, extracts it into the run directory with --magic_halo (200 units per um) and writes the netlist file of the run as subcircuit for ngspice: capacitances with cthresh in modes CC and RC only, resistances (extresist with tolerance, rthresh) in R and RC only, with the short and merge modes. FasterCap gets -a, -d, -m and -f of --tolerance, --d_coeff, --mesh and --ooc, -ap unless switched off, -g and -pj if asked for, --threads as OMP_NUM_THREADS and the list file of the run; FastCap2 runs in the directory of the list file, with permittivity factor 1 and its own order, tolerance and partitioning. KLayout gets the LVS script of the PDK, absolute paths of layout, schematic and report, --lvs-verbose, deep mode, net names and top-level pins, with nothing scaled, combined, purged or simplified; options left out have the documented defaults, and blanks, $, brackets, quotes and the like in file and cell names make no difference.',
 ['inputs','configurations'],'all combinations of options, PDKs, file and cell names',
 'No test calls an external tool; a swapped or dropped option shows only in the results of the tool.',
 ['klayout_pex/magic/magic_runner.py','klayout_pex/fastercap/fastercap_runner.py','klayout_pex/fastcap/fastcap_runner.py','klayout_pex/klayout/lvs_runner.py','klayout_pex/kpex_cli.py'],
 [('MAGIC script','klayout_pex/magic/magic_runner.py: prepare_magic_script, run_magic'),('FasterCap and FastCap2','klayout_pex/fastercap/fastercap_runner.py: run_fastercap, klayout_pex/fastcap/fastcap_runner.py: run_fastcap'),('LVS','klayout_pex/klayout/lvs_runner.py: LVSRunner.run_klayout_lvs')],
 [('command lines','arguments, working directory and environment of the tools','klayout_pex/kpex_cli.py')],
 ['arguments and files that stand-ins for the tools are given; the MAGIC script is interpreted by tclsh'],'TLC model checking of a MAGIC session executing the script (each command necessary, each option decisive), and '+TV,
 'Model: 432 (thorough 648) choices of options, with any one command left out. On the code: 640 (thorough 7200) seeded command lines of 15 cell names, 6 file names, 7 directories. The tools themselves are stand-ins.')
P('C18','The shipped technologies agree with themselves, and lookups find their entries',
 'In the technology files of sky130A and ihp_sg13g2, metals are stacked without overlap, each contact or via reaches from its layer just to the metal above it and has one resistance, each metal is one routing layer with its own GDS pairs for pins and labels, a sheet resistance that does not rise from metal to metal (aluminium from the first metal up), a substrate, sidewall, overlap (per pair) and side overlap capacitance (per ordered pair), all positive. Overlap and substrate capacitances per area are those of parallel plates with the stack between them (within 0.5% for ihp_sg13g2, -17.5 to +4.5% for sky130A), they and the side overlap ones fall with the distance, and those to wells equal those to the substrate. For any technology, the lookups of TechInfo give the entry with the name or GDS pair asked for, if any, overlap and side overlap including the substrate as VSUBS, dielectrics as filtered, and contact resistances times the area of a contact.',
 ['inputs','configurations'],'all layers, pairs of layers and vias of both technologies; all technologies for the lookups',
 'No test reads the numbers of a technology; a typing error in one of 250 numbers shifts the results of some layouts only.',
 ['cxx/gen_tech_pb/pdk/sky130A.cpp','cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp','cxx/gen_tech_pb/protobuf.cpp','klayout_pex/tech_info.py'],
 [('tables','cxx/gen_tech_pb/pdk/sky130A.cpp and cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp'),('lookups','klayout_pex/tech_info.py: TechInfo')],
 [('technology','messages of kpex.tech.Technology','klayout_pex_protobuf/sky130A_tech.pb.json')],
 ['the generated technology files and the properties of TechInfo'],'TLC model checking that each loss, doubling, exchange or gross change of an entry contradicts the others, and '+TV,
 'Model: stacks of 4 (thorough 5) metals, any one row lost, doubled, changed, any two exchanged (exceptions are listed in TechModel.tla). On the code: both shipped technologies as a whole, 200 (thorough 4000) altered ones for the lookups. What the tables do not determine twice (sidewall offsets, single side overlap values within the order of their neighbours) is not checked.')
P('C19','Shapes, pins and device terminals carry the net they belong to',
 'From an LVS database the extraction context lists each LVS layer under the GDS pair of the technology (several may share one, unknown ones appear as unnamed layers, and with --blackbox the device-only capacitor and resistor layers are dropped). Two shapes carry the same net name exactly if they are electrically connected in the flattened layout (metals and vias across the hierarchy, equal labels of the top cell, global nets), and a labelled net of the top cell has the name of its label. Shapes of a net, pins (label on a pin shape: label, net, position) and terminals of devices carry that same net, whatever the hierarchy, and the bounding box encloses all shapes. Converting shapes to protobuf and back keeps their nets and areas.',
 ['inputs','configurations'],'all layouts with cells placed at several places and turned, all connections between levels of the hierarchy, both technologies',
 'The tests read two stored LVS databases without placed cells; a shape with the net of another cell or placement changes the results of hierarchical layouts only.',
 ['klayout_pex/klayout/lvsdb_extractor.py','klayout_pex/klayout/shapes_pb2_converter.py'],
 [('layers, nets, pins and devices of the LVSDB','klayout_pex/klayout/lvsdb_extractor.py: KLayoutExtractionContext.prepare_extraction'),('conversion of shapes','klayout_pex/klayout/shapes_pb2_converter.py: ShapesConverter')],
 [('context','extracted_layers, unnamed_layers, annotated layout, pins and devices by name','klayout_pex/klayout/lvsdb_extractor.py')],
 ['KLayoutExtractionContext.prepare_extraction() on LVS databases made of generated layouts, ShapesConverter'],'TLC model checking that clusters found cell by cell and joined upwards are the nets of the flattened layout, and '+TV,
 'Model: 5184 (thorough 55296) layouts of two cells. On the code: 320 (thorough 6000) seeded layouts of up to 4 cells in sky130A and ihp_sg13g2, 150 (3000) conversions. Nets of placed cells without any connection upwards keep the names KLayout gives (known finding for equal names), corner contacts are left out.')
P('C20','The report of a MAGIC run shows all that its extraction files say',
 'In the report of a MAGIC run (KLayout report database made from the *.ext and *.res.ext files of a directory) each port, node, substrate, device, resistor node and resistor line of each cell appears once, under its cell and its category (label: net and layer, type and model, node name, or number, ends and value of the resistor), at its place in nm whatever the database unit; names may hold any characters but quotes (a_1_2#, VDD!, out[0], x1/n0), numbers any form %g prints. A resistor is marked at all nodes of its two names. Other lines show nothing, a directory without ext files is refused, and the report is the same after saving and loading.',
 ['inputs'],'all contents of ext files: names, numbers, coordinates, order and mix of lines, several cells',
 'The tests parse two stored files; names and numbers in forms that do not occur there are dropped without a message.',
 ['klayout_pex/magic/magic_ext_file_parser.py','klayout_pex/magic/magic_log_analyzer.py','klayout_pex/magic/magic_ext_data_structures.py'],
 [('lines to records','klayout_pex/magic/magic_ext_file_parser.py'),('records to markers','klayout_pex/magic/magic_log_analyzer.py: MagicLogAnalyzer')],
 [('records','ports, nodes, devices, resistor nodes, resistors per cell','klayout_pex/magic/magic_ext_data_structures.py')],
 ['parse_magic_pex_run(), MagicLogAnalyzer.analyze(), main() of magic_log_analyzer and the report file'],'TLC model checking of the scanner (character by character) against what was written, and '+TV,
 'Model: all names of up to 2 characters, 48 forms of numbers, 5 kinds of lines and those that say nothing. On the code: 1500 (thorough 20000) seeded directories of 1 to 3 cells.')

P('C21','The report of a 2.5D extraction shows each element once, at its place',
 'The report file of a 2.5D extraction shows each capacitance of the results once, under its kind, layers and nets, numbered from 1 and with its value in fF: an overlap with the two polygons and the area where they face each other (all of it, nothing twice), a sidewall with the two facing edges and their distance and length, a fringe with the edge and the part of the target it reaches (and the lateral shield, if any). Value, length and distance fit the geometry shown, in um for any database unit. Of a resistance extraction it shows every pin, terminal and wire of the request, and each node and resistor of the networks with its names, layers, value and place. At the log level DEBUG, which changes no result, it also shows what each edge of a conductor sees: the parts of every layer within the halo in front of it.',
 ['inputs'],'all rectilinear layouts, technologies and database units; all networks',
 'No test reads a report: the tests compare summed capacitances.',
 ['klayout_pex/rcx25/extraction_reporter.py','klayout_pex/rcx25/c/geometry_restorer.py','klayout_pex/klayout/shapes_pb2_converter.py'],
 [('markers','klayout_pex/rcx25/extraction_reporter.py: ExtractionReporter'),('edges back in place','klayout_pex/rcx25/c/geometry_restorer.py')],
 [('elements','overlap, sidewall and fringe tables, resistor networks','klayout_pex/rcx25/extraction_results.py')],
 ['the report file and the results of RCX25Extractor.extract()'],'TLC model checking of filing elements under numbers, and '+TV,
 'Model: elements in any order under 2 (3) keys. On the code: 160 (thorough 1600) layouts of 2 to 7 layers, database units of 1 and 5 nm, 120 (1200) resistor layouts of two PDKs.')
P('C22','The drawing of a netlist is the circuit asked for, nothing lost or joined',
 'The JSON that netlist svg writes for netlistsvg is the circuit: each port once; each resistor and capacitor once, under C or R and its name, with its two nets and its value (fF or Ohm, three decimals); each instance of a subcircuit once, with its model and for each pin its number and net; one ground symbol for each of the nets VSUBS and GND, none for others. Each net is one bit, different nets are different bits. The command draws the cell asked for with --cell (any upper or lower case), else the only top cell, calls netlistsvg once with that JSON, the analog skin and the output path (--output, else beside the JSON under the name of the netlist), keeps its output in a log, opens the SVG only with --preview, and ends with an error if the netlist, the tool or the cell is not there, the cell is not determined or the tool fails.',
 ['inputs','configurations'],'all netlists of resistors, capacitors and subcircuits, all command lines',
 'No test covers the drawing; a net torn apart or a lost instance shows only in the picture.',
 ['klayout_pex/netlistsvg/netlist_json.py','klayout_pex/netlistsvg/netlistsvg_runner.py','klayout_pex/netlist/netlist_cli.py'],
 [('circuit to JSON','klayout_pex/netlistsvg/netlist_json.py: NetlistJSONWriter'),('choice of the cell','klayout_pex/netlist/netlist_cli.py: NetlistCLI.run_netlistsvg'),('call','klayout_pex/netlistsvg/netlistsvg_runner.py: run_netlistsvg')],
 [('drawing','ports and cells of the JSON module','klayout_pex/netlistsvg/netlist_json.py')],
 ['NetlistJSONWriter.netlist_json_dict() and write_json(), NetlistCLI.main() with a stand-in for netlistsvg'],'TLC model checking of a writer visiting the parts in any order, and of a run with its errors, and '+TV,
 'Model: all circuits of 2 nets, up to 2 ports, devices, instances; 1254 runs. On the code: 600 (thorough 8000) seeded circuits read from SPICE or made by hand, 160 (2000) runs. Other devices (transistors) are refused by the code.')
P('C23','A repaired marker database can be loaded and holds every item as before',
 'The repair of a marker database whose items refer to categories that are missing writes FILE.repair.xml, which KLayout loads: every item is there in order with its cell, values and comment under the category path it had, the categories are those present before (with their descriptions) and those on the way to an item, each once, everything else is the same, and FILE itself (plain or compressed) is unchanged. Category paths are read as KLayout writes them, whatever characters the names hold (dots, quotes, backslashes, line breaks, other scripts, empty names).',
 ['inputs'],'all databases with any categories missing, all category names',
 'No test covers the repair, which runs only after KLayout wrote a database it cannot read.',
 ['klayout_pex/klayout/repair_rdb.py'],
 [('paths','klayout_pex/klayout/repair_rdb.py: parse_category_path'),('missing categories','klayout_pex/klayout/repair_rdb.py: repair_rdb_xml')],
 [('category tree','categories element of the XML file','klayout_pex/klayout/repair_rdb.py')],
 ['repair_rdb(), parse_category_path(), loaded back by KLayout'],'TLC model checking of reading back each written path, and of inserting missing names, and '+TV,
 'Model: all paths of 2 names of 2 characters, or 1 of 3 (thorough 4), from 6 (10) representative characters; all category trees over 2 names, depth 2, 2 (3) items. On the code: 400 (thorough 6000) seeded databases. Control characters other than tab and line feed are left out (KLayout cannot store them).')
P('C24','Reducing a resistor network keeps what the remaining nodes see',
 'In a ResistorNetwork one point is one node with an id of its own (never given again), resistors between the same two nodes add up as conductances, both directions and the star lists of nodes agree, and check() reports 0 errors, whatever sequence of adding, removing, eliminating and connecting nodes led there. Eliminating nodes leaves for all potentials the currents at the other nodes as they were, whatever the order, and eliminate_all ends with the precious nodes only; connecting two nodes is the same as giving them one potential. Texts, nodes on an edge and nodes within a polygon show that state, Conductance adds in parallel and in series without changing other operands than the one named, and an obtuse triangle is split into two that cover it.',
 ['inputs','histories'],'all networks and all sequences of operations on them',
 'No test touches the class; it is not used by the extractor at this commit, yet public.',
 ['klayout_pex/rcx25/r/resistor_network.py','klayout_pex/rcx25/r/conductance.py'],
 [('network','klayout_pex/rcx25/r/resistor_network.py: ResistorNetwork'),('conductance','klayout_pex/rcx25/r/conductance.py: Conductance')],
 [('network','nodes, locations, s, node_to_s','klayout_pex/rcx25/r/resistor_network.py')],
 ['public methods and tables of ResistorNetwork, Conductance'],'TLC model checking with exact rationals (Kirchhoff currents for unit potentials, confluence), and '+TV,
 'Model: all networks of 4 (thorough 5) nodes with conductances 0 to 2 (3). On the code: 400 (thorough 6000) seeded programs over 2 to 9 nodes, 60 (1000) calculations, 300 (4000) triangles. Conductances below 1e-10 count as none in the code and are left out; nodes that never had a resistor stay.')
P('C25','Runs at the same time go on as if alone, and log what their own tools print',
 'Runs for different run directories that go on at the same time, also in one output directory, with one LVSDB cache, and while others fail or are killed, each end as they would alone: with the same exit status, the same tools called (LVS unless an earlier result for the same layout and cell is in the cache by then) and the same result files. Each run whose run directory is known when its arguments have been examined has a kpex.log and a kpex_plain.log there, those of earlier runs being kept as *.bak.log. They hold every line that its tools print, once, in order and (if it is text) verbatim, if --log_level is subprocess or lower (all, debug), else none, and nothing that other runs print, in the same process or not; the log file of each tool holds all its lines, and no name, path or line of output ends a run because it is logged.',
 ['schedules','histories','crash points'],'all interleavings of runs, all output of tools',
 'Tests run one command at a time and do not look at logs; two runs meet only if they examine their arguments at the same moment.',
 ['klayout_pex/kpex_cli.py','klayout_pex/log/logger.py','klayout_pex/klayout/lvs_runner.py','klayout_pex/fastercap/fastercap_runner.py','klayout_pex/fastcap/fastcap_runner.py','klayout_pex/magic/magic_runner.py'],
 [('log files of a run','klayout_pex/kpex_cli.py: KpexCLI.setup_logging'),('messages','klayout_pex/log/logger.py'),('output of tools','klayout_pex/fastercap/fastercap_runner.py: run_fastercap')],
 [('log files','preliminary files, log files and backups, handlers of the logger','klayout_pex/kpex_cli.py')],
 ['KpexCLI.main() in several processes, driven from barrier to barrier: reading of the layout, calls of MAGIC, LVS, FasterCap, FastCap2, end; files in the run directories'],'TLC model checking of the log files as names and inodes under all interleavings, and of the same as refinement of what each run has to do, and '+TV,
 'Model: 2 (thorough 3) runs, 2 directories, accepted, refused with and without a directory, in one or several processes. On the code: 120 (1500) seeded schedules of 2 to 4 runs with 3 to 6 steps each. Interleavings within these steps (examining arguments, moving log files) are covered by the model only.')
