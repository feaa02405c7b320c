From 3aee0efcf535412bc29743ae9fbb6b6e42d1c986 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 01/54] fix: same-net conductors shield the overlap to layers
 above them

A polygon of the bottom net on an intermediate layer was skipped without being added to
the shield, so the area was coupled once from the lower and once more from the upper shape.
---
 klayout_pex/rcx25/c/overlap_extractor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klayout_pex/rcx25/c/overlap_extractor.py b/klayout_pex/rcx25/c/overlap_extractor.py
index 4c1cec5..3fe420d 100644
--- a/klayout_pex/rcx25/c/overlap_extractor.py
+++ b/klayout_pex/rcx25/c/overlap_extractor.py
@@ -111,6 +111,7 @@ class OverlapExtractor:
                     net_top = polygon_above.property('net')
 
                     if net_top == net_bot:
+                        shielded_region.insert(polygon_above)
                         continue
 
                     top_layer_name = self.layer_names[other_layer_index]
-- 
2.43.0


From afc94d2f347813198a326b396890b42470bf5abb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 02/54] fix: sky130A LVS layer table: metal labels shadowed the
 pin layers, via1 had no via resistance

---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index 45b1ef1..6832b67 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -94,7 +94,7 @@ void buildLVSComputedLayers(kpex::tech::Technology *tech) {
     addComputedLayer(tech, CONT,    KREG, "licon_psd_con",  66, 4402,  "licon1", "Computed layer for contact from psdm to li1");
     addComputedLayer(tech, CONT,    KREG, "licon_poly_con", 66, 4403,  "licon1", "Computed layer for contact from poly to li1");
     addComputedLayer(tech, VIA,     KREG, "mcon_con",  67, 44,  "mcon",       "Computed layer for contact between li1 and met1");
-    addComputedLayer(tech, VIA,     KREG, "via1_con",  68, 44,  "via1",       "Computed layer for contact between met1 and met2");
+    addComputedLayer(tech, VIA,     KREG, "via1_con",  68, 44,  "via",        "Computed layer for contact between met1 and met2");
     addComputedLayer(tech, VIA,     KREG, "via2_con",  69, 44,  "via2",       "Computed layer for contact between met2 and met3");
     addComputedLayer(tech, VIA,     KREG, "via3_ncap", 70, 144, "via3",       "Computed layer for via3 (no MIM cap)");
     addComputedLayer(tech, VIA,     KREG, "via4_ncap", 71, 144, "via4",       "Computed layer for via4 (no MIM cap)");
@@ -130,11 +130,11 @@ void buildLVSComputedLayers(kpex::tech::Technology *tech) {
 
     addComputedLayer(tech, METAL,   KLBL, "poly_label",   66, 5,  "poly.label", "Poly label");
     addComputedLayer(tech, METAL,   KLBL, "li_label",     67, 5,  "li1.label",  "li1 label");
-    addComputedLayer(tech, METAL,   KLBL, "met1_pin_con", 68, 5,  "met1.label", "met1 label");
-    addComputedLayer(tech, METAL,   KLBL, "met2_pin_con", 69, 5,  "met2.label", "met2 label");
-    addComputedLayer(tech, METAL,   KLBL, "met3_pin_con", 70, 5,  "met3.label", "met3 label");
-    addComputedLayer(tech, METAL,   KLBL, "met4_pin_con", 71, 5,  "met4.label", "met4 label");
-    addComputedLayer(tech, METAL,   KLBL, "met5_pin_con", 72, 5,  "met5.label", "met5 label");
+    addComputedLayer(tech, METAL,   KLBL, "met1_label",   68, 5,  "met1.label", "met1 label");
+    addComputedLayer(tech, METAL,   KLBL, "met2_label",   69, 5,  "met2.label", "met2 label");
+    addComputedLayer(tech, METAL,   KLBL, "met3_label",   70, 5,  "met3.label", "met3 label");
+    addComputedLayer(tech, METAL,   KLBL, "met4_label",   71, 5,  "met4.label", "met4 label");
+    addComputedLayer(tech, METAL,   KLBL, "met5_label",   72, 5,  "met5.label", "met5 label");
 }
 
 void buildProcessStackInfo(kpex::tech::ProcessStackInfo *psi) {
-- 
2.43.0


From 7a7ab7414f6f23e8b7f4af04ba63a1543e09ede0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 03/54] fix: internal nodes of different resistor networks
 shared their net names

---
 klayout_pex/rcx25/r/r_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index b80f0f1..105dbc3 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -365,7 +365,8 @@ class RExtractor:
                         r_node.net_name = polygon_port_device_terminals[rn.layer()][port_idx].net_name
                         r_node.location.box.net = r_node.net_name
                     case _:
-                        r_node.net_name = r_node.node_name
+                        # NOTE: KLayout node names are only unique within the network of a net
+                        r_node.net_name = f"{net_extraction_request.net_name}.{r_node.node_name}"
                         r_node.location.box.net = r_node.net_name
 
                 node_by_node_id[r_node.node_id] = r_node
-- 
2.43.0


From 68245f02700e98bb5cfc2a8bd196f9629be38e58 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 04/54] fix: resistors between the same two nets are parallel,
 their values must not be added

---
 klayout_pex/rcx25/extraction_results.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/rcx25/extraction_results.py b/klayout_pex/rcx25/extraction_results.py
index c3caad0..2785f7f 100644
--- a/klayout_pex/rcx25/extraction_results.py
+++ b/klayout_pex/rcx25/extraction_results.py
@@ -134,6 +134,14 @@ class NetCoupleKey:
             return NetCoupleKey(self.net2, self.net1)
 
 
+def parallel_resistance(r1: Optional[float], r2: float) -> float:
+    if r1 is None:
+        return r2
+    if r1 == 0.0 or r2 == 0.0:
+        return 0.0
+    return r1 * r2 / (r1 + r2)
+
+
 @dataclass
 class ExtractionSummary:
     capacitances: Dict[NetCoupleKey, float]
@@ -142,12 +150,13 @@ class ExtractionSummary:
     @classmethod
     def merged(cls, summaries: List[ExtractionSummary]) -> ExtractionSummary:
         merged_capacitances = defaultdict(float)
-        merged_resistances = defaultdict(float)
+        merged_resistances: Dict[NetCoupleKey, float] = {}
         for s in summaries:
             for couple_key, cap in s.capacitances.items():
                 merged_capacitances[couple_key.normed()] += cap
             for couple_key, res in s.resistances.items():
-                merged_resistances[couple_key.normed()] += res
+                normed_key = couple_key.normed()
+                merged_resistances[normed_key] = parallel_resistance(merged_resistances.get(normed_key), res)
         return ExtractionSummary(capacitances=merged_capacitances,
                                  resistances=merged_resistances)
 
@@ -193,7 +202,8 @@ class CellExtractionResults:
         sideoverlap_summary = ExtractionSummary(capacitances=normalized_sideoverlap_table,
                                                 resistances={})
 
-        normalized_resistance_table: Dict[NetCoupleKey, float] = defaultdict(float)
+        # NOTE: resistors between the same pair of nets are connected in parallel
+        normalized_resistance_table: Dict[NetCoupleKey, float] = {}
 
         for network in self.r_extraction_result.networks:
             node_by_id: Dict[int, r_network_pb2.RNode] = {n.node_id: n for n in network.nodes}
@@ -202,8 +212,9 @@ class CellExtractionResults:
                 node_b = node_by_id[element.node_b.node_id]
                 resistance = element.resistance
                 normalized_key = NetCoupleKey(node_a.net_name, node_b.net_name).normed()
-                normalized_resistance_table[normalized_key] += resistance
-                
+                normalized_resistance_table[normalized_key] = \
+                    parallel_resistance(normalized_resistance_table.get(normalized_key), resistance)
+
         resistance_summary = ExtractionSummary(capacitances={},
                                                resistances=normalized_resistance_table)
 
-- 
2.43.0


From 188f2461736ae02a162f66444d01e8985b4a5aee Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:24 +0000
Subject: [PATCH 05/54] fix: capacitors in the 2.5D SPICE netlist had
 femtofarad values written as farads

---
 klayout_pex/rcx25/netlist_expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 596a157..9222902 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -110,7 +110,7 @@ class RCX25NetlistExpander:
             c: kdb.Device = top_circuit.create_device(cap, f"ext_{idx+1}")
             c.connect_terminal('A', net1)
             c.connect_terminal('B', net2)
-            c.set_parameter('C', cap_value)
+            c.set_parameter('C', cap_value * 1e-15)  # summary is in fF, KLayout devices in F
             if net1 == net2:
                 warning(f"Invalid attempt to create cap {c.name} between "
                         f"same net {net1} with value {'%.12g' % cap_value}")
-- 
2.43.0


From a31a819d9a187eaf14bce3b5209f577fe4a07566 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:24 +0000
Subject: [PATCH 06/54] fix: a layout net named VSUBS was split from the
 substrate net in expanded netlists

---
 klayout_pex/klayout/netlist_expander.py | 5 +++--
 klayout_pex/rcx25/netlist_expander.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index 53d07c2..afe7073 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -56,8 +56,9 @@ class NetlistExpander:
         cap.description = "Extracted by kpex/FasterCap PEX"
         expanded_netlist.add(cap)
 
-        fc_gnd_net = top_circuit.create_net('FC_GND')  # create GROUND net
-        vsubs_net = top_circuit.create_net("VSUBS")
+        # NOTE: the layout can have nets of the same names
+        fc_gnd_net = top_circuit.net_by_name('FC_GND') or top_circuit.create_net('FC_GND')  # create GROUND net
+        vsubs_net = top_circuit.net_by_name('VSUBS') or top_circuit.create_net('VSUBS')
         nets: List[kdb.Net] = []
 
         # build table: name -> net
diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 9222902..08261a8 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -80,8 +80,9 @@ class RCX25NetlistExpander:
         res.description = "Extracted by KPEX/2.5D"
         expanded_netlist.add(res)
 
-        fc_gnd_net = top_circuit.create_net('FC_GND')  # create GROUND net
-        vsubs_net = top_circuit.create_net("VSUBS")
+        # NOTE: the layout can have nets of the same names
+        fc_gnd_net = top_circuit.net_by_name('FC_GND') or top_circuit.create_net('FC_GND')  # create GROUND net
+        vsubs_net = top_circuit.net_by_name('VSUBS') or top_circuit.create_net('VSUBS')
 
         summary = extraction_results.summarize()
         cap_items = sorted(summary.capacitances.items())
-- 
2.43.0


From 47259d8b177870175046825b9e449f8521923c8f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 07/54] fix: nets without a name were left out of the 3D model
 and of R extraction

---
 klayout_pex/klayout/lvsdb_extractor.py | 4 ++--
 klayout_pex/rcx25/r/r_extractor.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index c2ea97c..86cf647 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -270,7 +270,7 @@ class KLayoutExtractionContext:
         shapes = kdb.Region()
         shapes.enable_properties()
 
-        requested_net_name = net.name if isinstance(net, kdb.Net) else net
+        requested_net_name = net.expanded_name() if isinstance(net, kdb.Net) else net
 
         def add_shapes_from_region(source_region: kdb.Region):
             iter, transform = source_region.begin_shapes_rec()
@@ -397,7 +397,7 @@ class KLayoutExtractionContext:
                     terminal.device_id = d.id
                     terminal.terminal_id = td.id()
                     terminal.name = td.name
-                    terminal.net_name = n.name
+                    terminal.net_name = n.expanded_name()
 
                     for idx, shapes in shapes_by_lyr_idx.items():
                         lyr_idx = self.layer_index_map[idx]
diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index 105dbc3..cfdaf4a 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -267,7 +267,7 @@ class RExtractor:
                             r = self.pex_context.shapes_of_net(lyr.gds_pair, net)
                             if not r:
                                 continue
-                            l2r = get_or_create_net_request(net.name).region_by_layer.add()
+                            l2r = get_or_create_net_request(net.expanded_name()).region_by_layer.add()
                             l2r.layer.id = self.pex_context.annotated_layout.layer(*lvs_gds_pair)
                             l2r.layer.canonical_layer_name = self.pex_context.tech.canonical_layer_name_by_gds_pair[lvs_gds_pair]
                             l2r.layer.lvs_layer_name = lyr.lvs_layer_name
-- 
2.43.0


From f82b31bf2f1daca9c85c7d1d358658aecf7d6e6e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:28 +0000
Subject: [PATCH 08/54] fix: on a cache hit the LVSDB of the output directory
 was read, not the cached one

---
 klayout_pex/kpex_cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index ba88909..5c29354 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -818,6 +818,7 @@ class KpexCLI:
                         warning(f"Cache hit: Reusing cached LVSDB")
                         subproc(lvsdb_cache_path)
                         lvs_needed = False
+                        lvsdb_path = lvsdb_cache_path
 
                 if lvs_needed:
                     lvs_runner = LVSRunner()
-- 
2.43.0


From 33a53aa0f1371abf38da6f709ef72161c86b00af Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:28 +0000
Subject: [PATCH 09/54] fix: after a failed LVS run the LVSDB of an earlier run
 was used and cached

---
 klayout_pex/kpex_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 5c29354..e57e7f3 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -821,6 +821,10 @@ class KpexCLI:
                         lvsdb_path = lvsdb_cache_path
 
                 if lvs_needed:
+                    # NOTE: if LVS fails, the LVSDB of an earlier run must not be mistaken for its result
+                    if os.path.exists(lvsdb_path):
+                        os.remove(lvsdb_path)
+
                     lvs_runner = LVSRunner()
                     lvs_runner.run_klayout_lvs(exe_path=args.klayout_exe_path,
                                                lvs_script=args.lvs_script_path,
-- 
2.43.0


From f2085fa2ad2f1f2bf974f4fb47b5e3d31474d4da Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 10/54] fix: an LVSDB cached while the GDS changed, or
 incompletely, was taken for a valid one

---
 klayout_pex/kpex_cli.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index e57e7f3..c5eafe1 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -38,6 +38,7 @@ from rich_argparse import RichHelpFormatter
 import shlex
 import shutil
 import sys
+import time
 from typing import *
 
 import klayout.db as kdb
@@ -367,6 +368,7 @@ class KpexCLI:
                 error(f"Can't read GDS file (LVS input) at path {args.gds_path}")
                 found_errors = True
             else:
+                args.gds_read_time = time.time()
                 args.layout = kdb.Layout()
                 args.layout.read(args.gds_path)
 
@@ -833,13 +835,17 @@ class KpexCLI:
                                                log_path=lvs_log_path,
                                                lvsdb_path=lvsdb_path,
                                                verbose=args.klayout_lvs_verbose)
-                    if args.cache_lvs:
-                        cache_dir_path = os.path.dirname(lvsdb_cache_path)
-                        if not os.path.exists(cache_dir_path):
-                            os.makedirs(cache_dir_path, exist_ok=True)
-                        shutil.copy(lvsdb_path, lvsdb_cache_path)
-
                 lvsdb.read(lvsdb_path)
+
+                # NOTE: only a readable LVSDB gets cached, under its final name only once it's complete.
+                #       It is as old as the begin of this run, the GDS could have been changed since
+                if lvs_needed and args.cache_lvs:
+                    cache_dir_path = os.path.dirname(lvsdb_cache_path)
+                    os.makedirs(cache_dir_path, exist_ok=True)
+                    tmp_path = f"{lvsdb_cache_path}.{os.getpid()}.tmp"
+                    shutil.copy(lvsdb_path, tmp_path)
+                    os.utime(tmp_path, (args.gds_read_time, args.gds_read_time))
+                    os.replace(tmp_path, lvsdb_cache_path)
         return lvsdb
 
     def main(self, argv: List[str]):
-- 
2.43.0


From 810e851e0ec34fe71ce33e4183f78f9d7343f6ff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 11/54] fix: --cell with an unknown cell ended in an
 AttributeError instead of the argument error

---
 klayout_pex/kpex_cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index c5eafe1..9311605 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -387,7 +387,9 @@ class KpexCLI:
                         found_errors = True
 
                     is_only_top_cell = len(top_cells) == 1 and top_cells[0].name == args.cell_name
-                    if is_only_top_cell:
+                    if not found_cell:
+                        pass
+                    elif is_only_top_cell:
                         info(f"Found cell {args.cell_name} in GDS {args.gds_path} (only top cell)")
                     else:  # there are other cells => extract the top cell to a tmp layout
                         run_dir_id = f"{input_file_stem(args.gds_path)}__{args.effective_cell_name}"
-- 
2.43.0


From fde4a50025bbbd2a88fbfa8dee7862cae989d1fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 12/54] fix: the error message about an invalid --diel argument
 could not be formatted

---
 klayout_pex/kpex_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 9311605..05f990b 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -467,7 +467,7 @@ class KpexCLI:
             pattern_string: str = args.dielectric_filter
             args.dielectric_filter = MultipleChoicePattern(pattern=pattern_string)
         except ValueError as e:
-            error("Failed to parse --diel arg", e)
+            error(f"Failed to parse --diel arg: {e}")
             found_errors = True
 
         if args.cache_dir_path is None:
-- 
2.43.0


From 61bfce60c139b2e23fad4af79d82616427efae9d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:22 +0000
Subject: [PATCH 13/54] fix: a device terminal without a net ended in an
 AttributeError in devices_by_name

---
 klayout_pex/klayout/lvsdb_extractor.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index 86cf647..5cf41f7 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -375,12 +375,8 @@ class KLayoutExtractionContext:
             for td in d_kly.device_class().terminal_definitions():
                 n: kdb.Net = d_kly.net_for_terminal(td.id())
                 if n is None:
-                    warning(f"Skipping terminal {td.name} of device {d.name} ({d.device_class}) "
+                    warning(f"Skipping terminal {td.name} of device {d.device_name} ({d.device_class_name}), "
                             f"is not connected to any net")
-                    terminal = d.terminals.add()
-                    terminal.id = td.id()
-                    terminal.name = td.name
-                    terminal.net_name = ''  # TODO
                     continue
 
                 for nt in n.each_terminal():
-- 
2.43.0


From 6b9fcce89ecd6d138e514a661bd9b652658f00f6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:03 +0000
Subject: [PATCH 14/54] fix: holes of polygons were filled when shapes were
 passed to R extraction and reports

---
 klayout_pex/klayout/shapes_pb2_converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/shapes_pb2_converter.py b/klayout_pex/klayout/shapes_pb2_converter.py
index c69c81b..a732c88 100644
--- a/klayout_pex/klayout/shapes_pb2_converter.py
+++ b/klayout_pex/klayout/shapes_pb2_converter.py
@@ -68,7 +68,8 @@ class ShapesConverter:
         net_name = polygon_kly.property('net')
         if net_name:
             polygon_pb.net = net_name
-        for p_kly in polygon_kly.each_point_hull():
+        # NOTE: the message has a hull only, so holes are connected to it by cut lines
+        for p_kly in polygon_kly.resolved_holes().each_point_hull():
             self.klayout_point_to_pb(p_kly, polygon_pb.hull_points.add())
 
     def klayout_region_to_pb(self,
-- 
2.43.0


From d47a13527c77c26e034d00cf52de389e93b9408f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:48 +0000
Subject: [PATCH 15/54] fix: an LVSDB without any circuit, left by an aborted
 LVS run, was cached as a valid one

---
 klayout_pex/kpex_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 05f990b..93ed213 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -838,6 +838,8 @@ class KpexCLI:
                                                lvsdb_path=lvsdb_path,
                                                verbose=args.klayout_lvs_verbose)
                 lvsdb.read(lvsdb_path)
+                if not any(lvsdb.netlist().each_circuit()):
+                    raise Exception(f"LVS result is incomplete, it contains no circuit: {lvsdb_path}")
 
                 # NOTE: only a readable LVSDB gets cached, under its final name only once it's complete.
                 #       It is as old as the begin of this run, the GDS could have been changed since
-- 
2.43.0


From 8c55fe17ec18863520de8f1333242b9f32fcfd9f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:21 +0000
Subject: [PATCH 16/54] fix: results of an earlier MAGIC run were taken for
 those of a run that wrote none

---
 klayout_pex/kpex_cli.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 93ed213..0990ba8 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -607,6 +607,11 @@ class KpexCLI:
                              short_mode=args.magic_short_mode,
                              merge_mode=args.magic_merge_mode)
 
+        # NOTE: MAGIC ends with exit status 0 even if the script failed,
+        #       so the files of an earlier run must not be mistaken for its results
+        for stale_path in (*Path(magic_run_dir).glob('*.ext'), Path(output_netlist_path)):
+            stale_path.unlink(missing_ok=True)
+
         run_magic(exe_path=args.magic_exe_path,
                   magicrc_path=args.magicrc_path,
                   script_path=magic_script_path,
-- 
2.43.0


From 996f346ec73021c6dc6a5844111d1f209be2c23f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:21 +0000
Subject: [PATCH 17/54] fix: --fastcap changed the working directory, relative
 paths used later in the run were wrong

---
 klayout_pex/fastcap/fastcap_runner.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 2d7caf7..04d6ca0 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -48,13 +48,11 @@ def run_fastcap(exe_path: str,
                 iterative_tolerance: float = 0.01):
     work_dir = os.path.dirname(lst_file_path)
 
-    # we have to chdir into the directory containing the lst file,
+    # FastCap2 has to run in the directory containing the lst file,
     # so make all paths absolute, and the lst_file relative
     log_path = os.path.abspath(log_path)
     lst_file_path = os.path.basename(lst_file_path)
 
-    info(f"Chdir to {work_dir}")
-    os.chdir(work_dir)
     args = [
         exe_path,
         f"-o{expansion_order}",
@@ -78,6 +76,7 @@ def run_fastcap(exe_path: str,
     start = time.time()
 
     proc = subprocess.Popen(args,
+                            cwd=work_dir or None,
                             stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
-- 
2.43.0


From 2ebdfe9dacfecd68b50b71b588a75b37e266962e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:26 +0000
Subject: [PATCH 18/54] fix: every command line crashed if PDKPATH was set, but
 PDK was not

---
 klayout_pex/kpex_cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 0990ba8..429105c 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -253,9 +253,10 @@ class KpexCLI:
                                      help="FasterCap -pj Use Jacobi preconditioner (default is %(default)s)")
 
         PDKPATH = os.environ.get('PDKPATH', None)
+        PDK_NAME = os.environ.get('PDK', None)
         default_magicrc_path = \
-            None if PDKPATH is None \
-            else os.path.abspath(f"{PDKPATH}/libs.tech/magic/{os.environ['PDK']}.magicrc")
+            None if PDKPATH is None or PDK_NAME is None \
+            else os.path.abspath(f"{PDKPATH}/libs.tech/magic/{PDK_NAME}.magicrc")
         group_magic = main_parser.add_argument_group("MAGIC options")
         group_magic.add_argument('--magicrc', dest='magicrc_path', default=default_magicrc_path,
                                   help=f"Path to magicrc configuration file (default is '%(default)s')")
-- 
2.43.0


From 4306cbaaf6c74c53e93599b09783143f0e339b38 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:26 +0000
Subject: [PATCH 19/54] fix: 1 and 0 were not accepted as values of yes/no
 options

---
 klayout_pex/util/argparse_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/util/argparse_helpers.py b/klayout_pex/util/argparse_helpers.py
index 20082be..a26f9b5 100644
--- a/klayout_pex/util/argparse_helpers.py
+++ b/klayout_pex/util/argparse_helpers.py
@@ -61,9 +61,9 @@ def true_or_false(arg) -> bool:
         return arg
 
     match str(arg).lower():
-        case 'yes' | 'true' | 't' | 'y' | 1:
+        case 'yes' | 'true' | 't' | 'y' | '1':
             return True
-        case 'no' | 'false' | 'f' | 'n' | 0:
+        case 'no' | 'false' | 'f' | 'n' | '0':
             return False
         case _:
             raise argparse.ArgumentTypeError('Boolean value expected.')
-- 
2.43.0


From 72fdcbe53e3a5db45251f6a137aaee282d27e63d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:26 +0000
Subject: [PATCH 20/54] fix: a missing magicrc was only noticed when MAGIC was
 about to be called, by a TypeError

---
 klayout_pex/kpex_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 429105c..5b3a4a2 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -336,6 +336,10 @@ class KpexCLI:
             error(f"Can't locate LVS script path at {args.lvs_script_path}")
             found_errors = True
 
+        if args.run_magic and not args.magicrc_path:
+            error("Running PEX engine MAGIC requires --magicrc (or the environmental variables PDKPATH and PDK)")
+            found_errors = True
+
         rule('Input Layout')
 
         # check engines VS input possiblities
-- 
2.43.0


From 4ff0d7561140d1508dc67e4766c136e8971a8334 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:26 +0000
Subject: [PATCH 21/54] fix: an empty --gds path was taken for a given one, the
 run crashed

---
 klayout_pex/kpex_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 5b3a4a2..b7771de 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -344,7 +344,7 @@ class KpexCLI:
 
         # check engines VS input possiblities
         match (args.run_magic, args.run_fastcap, args.run_fastercap, args.run_2_5D,
-               args.gds_path, args.lvsdb_path):
+               args.gds_path or None, args.lvsdb_path):
             case (True, _, _, _, None, _):
                 error(f"Running PEX engine MAGIC requires --gds (--lvsdb not possible)")
                 found_errors = True
-- 
2.43.0


From e0233be0beb6222846d1099b10e9c05cf38fe582 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:35 +0000
Subject: [PATCH 22/54] fix: FastCap2 matrix rows with padded conductor names
 were shifted by their index

---
 klayout_pex/fastcap/fastcap_runner.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 04d6ca0..0896848 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -127,12 +127,10 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                 conductor_names: List[str] = []
                 rows: List[List[float]] = []
                 for i in reversed(range(idx-1-dim, idx-1)):
-                    line = rlines[i].strip()
-                    cells = [cell.strip() for cell in line.split(' ')]
+                    cells = rlines[i].split()
                     if cells[1] != str(i):
                         warning(f"Expected capacitor matrix row to have index {i}, but obtained {cells[1]}")
                     cells.pop(1)
-                    cells = list(filter(lambda c: len(c) >= 1, cells))
                     conductor_names.append(cells[0])
                     row = [float(cell)/1e6 for cell in cells[1:]]
                     rows.append(row)
-- 
2.43.0


From 123b7906d6c5098b3480639b3086eb1b335b2586 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:35 +0000
Subject: [PATCH 23/54] fix: the unit of a FastCap2 matrix was ignored, all
 were taken for picofarads

---
 klayout_pex/fastcap/fastcap_runner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 0896848..7be14f5 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -120,6 +120,11 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                 if not section_m:
                     raise Exception(f"Could not parse capacitor unit")
                 unit_str = section_m.group(1)
+                unit_exponents = {'atto': -6, 'femto': -3, 'pico': 0, 'nano': 3, 'micro': 6, 'milli': 9, '': 12}
+                unit_exponent = unit_exponents.get(unit_str.removesuffix('farads'))
+                if unit_exponent is None:
+                    raise Exception(f"Unknown capacitor unit {unit_str}")
+                scale = 10.0 ** (6 - unit_exponent)  # NOTE: relative to picofarads
 
                 dimension_line = rlines[idx-1].strip()
                 dimensions = dimension_line.split()  # remove whitespace
@@ -132,7 +137,7 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                         warning(f"Expected capacitor matrix row to have index {i}, but obtained {cells[1]}")
                     cells.pop(1)
                     conductor_names.append(cells[0])
-                    row = [float(cell)/1e6 for cell in cells[1:]]
+                    row = [float(cell)/scale for cell in cells[1:]]
                     rows.append(row)
                 cm = CapacitanceMatrix(conductor_names=conductor_names, rows=rows)
                 return cm
-- 
2.43.0


From c1c525a1c1ce6db5d897e37cf6533c8606928908 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:28 +0000
Subject: [PATCH 24/54] fix: a FastCap2 log that ends after the header of the
 matrix was read as an empty matrix

---
 klayout_pex/fastcap/fastcap_runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 7be14f5..853bc33 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -129,6 +129,8 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                 dimension_line = rlines[idx-1].strip()
                 dimensions = dimension_line.split()  # remove whitespace
                 dim = len(dimensions)
+                if dim == 0 or idx - 1 < dim:
+                    raise Exception(f"Capacitance matrix is incomplete in FastCap2 log file {log_path}")
                 conductor_names: List[str] = []
                 rows: List[List[float]] = []
                 for i in reversed(range(idx-1-dim, idx-1)):
-- 
2.43.0


From 6990746d8faa859bb01588f568c06da6960af467 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:32 +0000
Subject: [PATCH 25/54] fix: whiteboxing a circuit with several devices crashed
 KLayout (devices were removed while iterating over them)

---
 klayout_pex/klayout/netlist_expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index afe7073..a87050e 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -45,7 +45,7 @@ class NetlistExpander:
         top_circuit: kdb.Circuit = expanded_netlist.circuit_by_name(top_cell_name)
 
         if not blackbox_devices:
-            for d in top_circuit.each_device():
+            for d in list(top_circuit.each_device()):
                 name = d.name or d.expanded_name()
                 info(f"Removing whiteboxed device {name}")
                 top_circuit.remove_device(d)
-- 
2.43.0


From 839b67c3699635444c86797465ad10975533aac9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:32 +0000
Subject: [PATCH 26/54] fix: unnamed nets were left out of the CSV of an
 expanded netlist

---
 klayout_pex/klayout/netlist_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/netlist_csv.py b/klayout_pex/klayout/netlist_csv.py
index c30e145..288a584 100644
--- a/klayout_pex/klayout/netlist_csv.py
+++ b/klayout_pex/klayout/netlist_csv.py
@@ -56,4 +56,4 @@ class NetlistCSVWriter:
                     net2 = d.net_for_terminal('B')
                     cap = params['C']
                     cap_femto = round(cap * 1e15, 2)
-                    f.write(f"{dn};{net1.name};{net2.name};{cap_femto}\n")
+                    f.write(f"{dn};{net1.expanded_name()};{net2.expanded_name()};{cap_femto}\n")
-- 
2.43.0


From 3b8a970970ea24f88cca6d81ce493ff5ab774191 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:42 +0000
Subject: [PATCH 27/54] fix: whiteboxing several capacitors could crash KLayout
 in the 2.5D engine (devices were removed while iterating over them)

---
 klayout_pex/rcx25/netlist_expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 08261a8..a7ed591 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -49,7 +49,7 @@ class RCX25NetlistExpander:
             #       because we only want to replace resistor / capacitor devices
             #       and for example not transitors
 
-            for d in top_circuit.each_device():
+            for d in list(top_circuit.each_device()):
                 name = d.name or d.expanded_name()
                 match d.device_class().__class__:
                     case kdb.DeviceClassResistor | kdb.DeviceClassResistorWithBulk:
-- 
2.43.0


From 8379f6b7eeb86e394f1121a84a51b3eb285f14a3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:40 +0000
Subject: [PATCH 28/54] fix: a model of a single body lost all faces but its
 bottom

---
 klayout_pex/fastercap/fastercap_model_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index f0a1d2c..473a973 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -459,7 +459,7 @@ class FasterCapModelGenerator:
         debug(f"All conductor region out: {all_cout}")
 
         # check whether states are separated
-        a = reduce(lambda x, y: x+y, self.state.values())
+        a = reduce(lambda x, y: x+y, self.state.values(), kdb.Region())
         for k, s in self.state.items():
             r: kdb.Region = s - a
             if not r.is_empty():
-- 
2.43.0


From 94eb741fbebc87370cc2f7f72c620bd67c588807 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:40 +0000
Subject: [PATCH 29/54] fix: walls along sloped edges were misplaced and had
 the wrong length

---
 klayout_pex/fastercap/fastercap_model_generator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 473a973..db91787 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -608,13 +608,14 @@ class FasterCapModelGenerator:
         de = kdb.DVector(edge.d().x / el, edge.d().y / el)
         ne = kdb.DVector(edge.d().y / el, -edge.d().x / el)
         p0 = ne * ne.sprod(kdb.DPoint(edge.p1) - kdb.DPoint()) + kdb.DPoint()
-        x1 = (edge.p1 - p0).sprod(de)
-        x2 = (edge.p2 - p0).sprod(de)
+        # NOTE: with a kdb.Point in place of a kdb.DPoint, p0 and de would be rounded to integers
+        x1 = (kdb.DPoint(edge.p1) - p0).sprod(de)
+        x2 = (kdb.DPoint(edge.p2) - p0).sprod(de)
 
         key = VKey(kk, p0, de)
-        surface = kdb.Box(x1,
+        surface = kdb.Box(math.floor(x1 + 0.5),
                           math.floor(self.z / self.dbu + 0.5),
-                          x2,
+                          math.floor(x2 + 0.5),
                           math.floor(self.zz / self.dbu + 0.5))
         return key, surface
 
-- 
2.43.0


From 2a951d2d25d009e9c97775cd4897169af656c52e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:09 +0000
Subject: [PATCH 30/54] fix: faces were doubled where one dielectric replaces
 another and a third one continues below both

---
 .../fastercap/fastercap_model_generator.py    | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index db91787..72f1e3a 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -413,7 +413,6 @@ class FasterCapModelGenerator:
                 # compute merged events
                 if mk not in self.current:
                     self.current[mk] = []
-                current_before = self.current[mk][0].dup() if len(self.current[mk]) >= 1 else kdb.Region()
                 lin, lout, current = self._merge_events(pyra=self.current[mk],
                                                         lin=self.layers_in.get(mk, None),
                                                         lout=self.layers_out.get(mk, None))
@@ -425,19 +424,11 @@ class FasterCapModelGenerator:
                 if mk not in self.state:
                     self.state[mk] = kdb.Region()
 
-                # legalize in and out events
-                lin_org = lin.dup()
-                lout_org = lout.dup()
-                lout &= self.state[mk]
-                lin -= all
-                lout += current & all_in
-                lin += current_before & all_out
-                lin -= lout_org
-                lout -= lin_org
-
-                # tracks the legalized horizontal cuts
-                self.state[mk] += lin
-                self.state[mk] -= lout
+                # legalize in and out events: what is covered, unless a body that comes first is there
+                state_before = self.state[mk]
+                self.state[mk] = current - all
+                lin = self.state[mk] - state_before
+                lout = state_before - self.state[mk]
 
                 din[mk] = lin
                 dout[mk] = lout
-- 
2.43.0


From fee574f679b697af07b414569bf0b084b3e557c6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:04 +0000
Subject: [PATCH 31/54] fix: FasterCap geometry files could not be written for
 nets with long names or path separators

---
 .../fastercap/fastercap_model_generator.py    | 48 +++++++++++++------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 72f1e3a..e3eb6d4 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -728,12 +728,6 @@ class FasterCapModelGenerator:
         self.diel_data = dk
 
     def write_fastcap(self, output_dir_path: str, prefix: str) -> str:
-        max_filename_length: Optional[int] = None
-        try:
-            max_filename_length = os.pathconf(output_dir_path, 'PC_NAME_MAX')
-        except AttributeError:
-            pass  # NOTE: windows does not support the os.pathconf attribute
-
         lst_fn = os.path.join(output_dir_path, f"{prefix}.lst")
         file_num = 0
         lst_file: List[str] = [f"* k_void={'%.12g' % self.k_void}"]
@@ -792,14 +786,10 @@ class FasterCapModelGenerator:
 
                 outside = outside or '(void)'
                 # lst_file.append(f"* Conductor interface: outside={outside}, net={nn}")
-                fn = f"{prefix}{file_num}_outside={outside}_net={nn}.geo"
-                if max_filename_length is not None and len(fn) > max_filename_length:
-                    warning(f"Unusual long net name detected: {nn}")
-                    d = hashlib.md5(nn.encode('utf-8')).digest()
-                    h = base64.urlsafe_b64encode(d).decode('utf-8').rstrip('=')
-                    remaining_len = len(f"{prefix}_{file_num}_outside={outside}_net=.geo")
-                    short_nn = nn[0: (max_filename_length - remaining_len - len(h) - 1)] + f"_{h}"
-                    fn = f"{prefix}{file_num}_outside={outside}_net={short_nn}.geo"
+                fn = self._net_file_name(output_dir_path=output_dir_path,
+                                         head=f"{prefix}{file_num}_outside={outside}_net=",
+                                         net_name=nn,
+                                         tail='.geo')
                 output_path = os.path.join(output_dir_path, fn)
                 self._write_fastercap_geo(output_path=output_path,
                                           data=data,
@@ -816,6 +806,33 @@ class FasterCapModelGenerator:
 
         return lst_fn
 
+    @staticmethod
+    def _net_file_name(output_dir_path: str,
+                       head: str,
+                       net_name: str,
+                       tail: str) -> str:
+        """File name for a net, whose name can be too long (bytes count) or contain path separators"""
+        max_filename_length: Optional[int] = None
+        try:
+            max_filename_length = os.pathconf(output_dir_path, 'PC_NAME_MAX')
+        except AttributeError:
+            pass  # NOTE: windows does not support the os.pathconf attribute
+
+        def is_too_long(fn: str) -> bool:
+            return max_filename_length is not None and len(os.fsencode(fn)) > max_filename_length
+
+        fn = f"{head}{net_name}{tail}"
+        short_nn = net_name.replace('/', '_').replace(os.sep, '_')
+        if short_nn != net_name or is_too_long(fn):
+            warning(f"Unusual net name detected: {net_name}")
+            d = hashlib.md5(net_name.encode('utf-8')).digest()
+            h = base64.urlsafe_b64encode(d).decode('utf-8').rstrip('=')
+            fn = f"{head}{short_nn}_{h}{tail}"
+            while short_nn and is_too_long(fn):
+                short_nn = short_nn[:-1]
+                fn = f"{head}{short_nn}_{h}{tail}"
+        return fn
+
     @staticmethod
     def _write_fastercap_geo(output_path: str,
                              data: List[Triangle],
@@ -963,7 +980,8 @@ class FasterCapModelGenerator:
 
         for nn in self.net_names:
             tris = self._collect_cond_tris(nn)
-            output_path = os.path.join(output_dir_path, f"{prefix}cond_{nn}.stl")
+            fn = self._net_file_name(output_dir_path=output_dir_path, head=f"{prefix}cond_", net_name=nn, tail='.stl')
+            output_path = os.path.join(output_dir_path, fn)
             self._write_as_stl(output_path, tris)
 
     @staticmethod
-- 
2.43.0


From 214106c839b7adae05e4d349e742ff08e301aabe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:28 +0000
Subject: [PATCH 32/54] fix: conformal dielectrics on top of each other counted
 the metal thickness twice, and overlapped where there is no metal

---
 .../fastercap/fastercap_input_builder.py        | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_input_builder.py b/klayout_pex/fastercap/fastercap_input_builder.py
index c746e51..c1b6b87 100644
--- a/klayout_pex/fastercap/fastercap_input_builder.py
+++ b/klayout_pex/fastercap/fastercap_input_builder.py
@@ -250,6 +250,7 @@ class FasterCapInputBuilder:
 
             no_metal_region: Optional[kdb.Region] = None
             no_metal_height = 0
+            is_conformal_present = False
 
             #
             # add sidewall dielectrics
@@ -281,7 +282,12 @@ class FasterCapInputBuilder:
                             conf_diel = sidewall.conformal_dielectric_layer
                             d = math.floor(conf_diel.thickness_sidewall / self.dbu)
                             sidewall_region = sidewall_region.sized(d)
-                            h_delta = metal_layer.thickness + conf_diel.thickness_over_metal
+                            h_delta = conf_diel.thickness_over_metal
+                            if not is_conformal_present:
+                                # NOTE: further conformal dielectrics in the chain lie on top of the first one,
+                                #       so the metal thickness must be only counted once
+                                h_delta += metal_layer.thickness
+                            is_conformal_present = True
                             sidewall_height += h_delta
                             info(f"Conformal dielectric (sidewall) {sidewall.name}: "
                                  f"z={metal_layer.z}, height={sidewall_height}")
@@ -294,13 +300,14 @@ class FasterCapInputBuilder:
                                 no_metal_region = kdb.Region()
                                 no_metal_region.insert(no_metal_block)
                                 no_metal_region -= sidewall_region
-                                no_metal_height = conf_diel.thickness_where_no_metal
+                                no_metal_z = metal_layer.z + no_metal_height
                                 info(f"Conformal dielectric (where no metal) {sidewall.name}: "
-                                     f"z={metal_layer.z}, height={no_metal_height}")
+                                     f"z={no_metal_z}, height={conf_diel.thickness_where_no_metal}")
                                 model_builder.add_dielectric(material_name=sidewall.name,
                                                              layer=no_metal_region,
-                                                             z=metal_layer.z,
-                                                             height=no_metal_height)
+                                                             z=no_metal_z,
+                                                             height=conf_diel.thickness_where_no_metal)
+                                no_metal_height += conf_diel.thickness_where_no_metal
 
                     sidewallee = sidewall.name
 
-- 
2.43.0


From 46cee6523abc1d699e3216772eaff00bd3998cc3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:51 +0000
Subject: [PATCH 33/54] fix: quote file and cell names in the Tcl script for
 MAGIC

---
 klayout_pex/magic/magic_runner.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/magic/magic_runner.py b/klayout_pex/magic/magic_runner.py
index 28eb703..6ec2e0f 100644
--- a/klayout_pex/magic/magic_runner.py
+++ b/klayout_pex/magic/magic_runner.py
@@ -26,6 +26,7 @@ import time
 from typing import *
 
 import os
+import re
 import subprocess
 
 from ..log import (
@@ -58,6 +59,11 @@ class MagicMergeMode(StrEnum):
     DEFAULT = NONE
 
 
+def tcl_word(text: str) -> str:
+    # characters that mean something to Tcl have to be escaped, e.g. '$' of cell names like nmos$1
+    return re.sub(r'([^\w./:+-])', r'\\\1', text)
+
+
 def prepare_magic_script(gds_path: str,
                          cell_name: str,
                          run_dir_path: str,
@@ -70,9 +76,10 @@ def prepare_magic_script(gds_path: str,
                          halo: Optional[float],
                          short_mode: MagicShortMode,
                          merge_mode: MagicMergeMode):
-    gds_path = os.path.abspath(gds_path)
-    run_dir_path = os.path.abspath(run_dir_path)
-    output_netlist_path = os.path.abspath(output_netlist_path)
+    gds_path = tcl_word(os.path.abspath(gds_path))
+    cell_name = tcl_word(cell_name)
+    run_dir_path = tcl_word(os.path.abspath(run_dir_path))
+    output_netlist_path = tcl_word(os.path.abspath(output_netlist_path))
 
     halo_scale = 200.0
     halo_decl = '' if halo is None else f"\nextract halo {round(halo * halo_scale)}"
-- 
2.43.0


From c96f593265b755923d8f12b99e4a8d527d7eb6cd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 34/54] fix: IHP SG13G2 Metal2 is 0.49 um thick, as the
 capacitance tables and Metal3-5 have it

With 0.36 um all layers from Metal3 up were 0.13 um too low in FasterCap models.
---
 cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp b/cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp
index 23e0788..5e5e815 100644
--- a/cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp
+++ b/cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp
@@ -162,7 +162,7 @@ void buildProcessStackInfo(kpex::tech::ProcessStackInfo *psi) {
     
     auto poly_thickness = 0.16;
     auto met1_thickness = 0.42;
-    auto met2_thickness = 0.36;
+    auto met2_thickness = 0.49;
     auto met3_thickness = 0.49;
     auto met4_thickness = 0.49;
     auto met5_thickness = 0.49;
-- 
2.43.0


From 0935d0195589dc6b2653cb2256b2310f28314d55 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 35/54] fix: side overlap capacitances of layers without a
 substrate capacitance

The lookup raised KeyError for them, while that of overlap capacitances does not.
---
 klayout_pex/tech_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/tech_info.py b/klayout_pex/tech_info.py
index ade462c..bd27d93 100644
--- a/klayout_pex/tech_info.py
+++ b/klayout_pex/tech_info.py
@@ -395,7 +395,7 @@ class TechInfo:
 
         for k1, ve in d2.items():
             for k2, v in ve.items():
-                d[k1][k2] = v
+                d.setdefault(k1, {})[k2] = v
 
         return d
 
-- 
2.43.0


From 0d36decd8941f68792e3db98dcf899a1ab006ec0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:19 +0000
Subject: [PATCH 36/54] fix: device terminals on layers that are not part of
 the annotated layout

With --blackbox, the terminals of MiM capacitors are on layers left out of
the layout: preparing the R extraction raised KeyError.
---
 klayout_pex/klayout/lvsdb_extractor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index 5cf41f7..5c5da55 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -396,7 +396,9 @@ class KLayoutExtractionContext:
                     terminal.net_name = n.expanded_name()
 
                     for idx, shapes in shapes_by_lyr_idx.items():
-                        lyr_idx = self.layer_index_map[idx]
+                        lyr_idx = self.layer_index_map.get(idx, None)
+                        if lyr_idx is None:  # not part of the annotated layout (e.g. blackboxed, or no GDS pair)
+                            continue
                         lyr_info: kdb.LayerInfo = self.annotated_layout.layer_infos()[lyr_idx]
 
                         region_by_layer = terminal.region_by_layer.add()
-- 
2.43.0


From ac41f81aada9a5a49810bd842a6af53d03d35deb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:38 +0000
Subject: [PATCH 37/54] fix: C extraction with layers that have no capacitances
 (plates of MiM capacitors)

The fringe and sidewall rules raised KeyError, and the overlap rule forgot
all conductors above the first one without a specification.
---
 klayout_pex/rcx25/c/overlap_extractor.py      |  6 ++++--
 .../rcx25/c/sidewall_and_fringe_extractor.py  | 20 ++++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/klayout_pex/rcx25/c/overlap_extractor.py b/klayout_pex/rcx25/c/overlap_extractor.py
index 3fe420d..4974b2d 100644
--- a/klayout_pex/rcx25/c/overlap_extractor.py
+++ b/klayout_pex/rcx25/c/overlap_extractor.py
@@ -119,11 +119,13 @@ class OverlapExtractor:
                     top_overlap_specs = self.tech_info.overlap_cap_by_layer_names.get(top_layer_name, None)
                     if not top_overlap_specs:
                         warning(f"No overlap cap specified for layer top={top_layer_name}")
-                        return
+                        shielded_region.insert(polygon_above)
+                        continue
                     overlap_cap_spec = top_overlap_specs.get(bot_layer_name, None)
                     if not overlap_cap_spec:
                         warning(f"No overlap cap specified for layer bottom={bot_layer_name}")
-                        return
+                        shielded_region.insert(polygon_above)
+                        continue
 
                     top_region = kdb.Region(polygon_above)
 
diff --git a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
index 89d238c..fa2606e 100644
--- a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
+++ b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
@@ -265,7 +265,10 @@ class SidewallAndFringeExtractor:
             if net1 == net2:
                 return
 
-            sidewall_cap_spec = self.tech_info.sidewall_cap_by_layer_name[layer_name]
+            sidewall_cap_spec = self.tech_info.sidewall_cap_by_layer_name.get(layer_name, None)
+            if not sidewall_cap_spec:
+                warning(f"No sidewall cap specified for layer {layer_name}")
+                return
 
             # TODO!
 
@@ -377,14 +380,17 @@ class SidewallAndFringeExtractor:
             ]
 
             # NOTE: overlap_cap_by_layer_names is top/bot (dict is not symmetric)
-            overlap_cap_spec = self.tech_info.overlap_cap_by_layer_names[inside_layer_name].get(outside_layer_name,
-                                                                                                None)
+            overlap_cap_specs = self.tech_info.overlap_cap_by_layer_names
+            overlap_cap_spec = overlap_cap_specs.get(inside_layer_name, {}).get(outside_layer_name, None)
             if not overlap_cap_spec:
-                overlap_cap_spec = self.tech_info.overlap_cap_by_layer_names[outside_layer_name][inside_layer_name]
+                overlap_cap_spec = overlap_cap_specs.get(outside_layer_name, {}).get(inside_layer_name, None)
+
+            sideoverlap_cap_spec = self.tech_info.side_overlap_cap_by_layer_names.get(inside_layer_name, {}).get(
+                outside_layer_name, None)
 
-            substrate_cap_spec = self.tech_info.substrate_cap_by_layer_name[inside_layer_name]
-            sideoverlap_cap_spec = self.tech_info.side_overlap_cap_by_layer_names[inside_layer_name][
-                outside_layer_name]
+            if not overlap_cap_spec or not sideoverlap_cap_spec:
+                warning(f"No side overlap cap specified for layers {inside_layer_name}, {outside_layer_name}")
+                return
 
             polygons_by_net: Dict[NetName, List[kdb.PolygonWithProperties]] = defaultdict(list)
 
-- 
2.43.0


From fa127f954af862a6080b4c4fdcba51951c35dd75 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:19 +0000
Subject: [PATCH 38/54] fix: lines of MAGIC ext files with names such as
 a_1_2#, VDD! or out[0], or numbers such as 0.0541 or 1.2e+06, were left out

---
 .../magic/magic_ext_data_structures.py        |  8 ++---
 klayout_pex/magic/magic_ext_file_parser.py    | 33 +++++++++++++------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/klayout_pex/magic/magic_ext_data_structures.py b/klayout_pex/magic/magic_ext_data_structures.py
index 7083809..ce8096a 100644
--- a/klayout_pex/magic/magic_ext_data_structures.py
+++ b/klayout_pex/magic/magic_ext_data_structures.py
@@ -47,8 +47,8 @@ class Port:
 @dataclass
 class Node:
     net: str
-    int_r: int
-    fin_c: int
+    int_r: int | float
+    fin_c: int | float
     x_bot: int
     y_bot: int
     layer: str
@@ -93,8 +93,8 @@ class ExtData:
 @dataclass
 class ResNode:
     name: str
-    int_r: int
-    fin_c: int
+    int_r: int | float
+    fin_c: int | float
     x_bot: int
     y_bot: int
 
diff --git a/klayout_pex/magic/magic_ext_file_parser.py b/klayout_pex/magic/magic_ext_file_parser.py
index e64bf0e..6359b79 100644
--- a/klayout_pex/magic/magic_ext_file_parser.py
+++ b/klayout_pex/magic/magic_ext_file_parser.py
@@ -41,6 +41,19 @@ from .magic_ext_data_structures import (
 )
 
 
+# NOTE: names can be e.g. a_113_n1#, VDD!, out[0] or x1/net.n0,
+#       capacitances and resistances are printed as %g / %lg (e.g. 0.0541, 1.2e+06)
+NAME = r'[^"]+'
+NUMBER = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'
+
+
+def parse_number(text: str) -> int | float:
+    try:
+        return int(text)
+    except ValueError:
+        return float(text)
+
+
 def parse_magic_pex_run(run_dir: Path) -> MagicPEXRun:
     # search for <cell>.ext files (C related)
     # search for <cell>.res.ext files (R related)
@@ -52,7 +65,7 @@ def parse_magic_pex_run(run_dir: Path) -> MagicPEXRun:
 
     regex = r'(?P<cell>.*?)(?P<res>\.res)?\.ext'
     for ef in ext_files:
-        m = re.match(regex, ef.name)
+        m = re.fullmatch(regex, ef.name)
         if not m:
             continue
 
@@ -90,7 +103,7 @@ def parse_magic_ext_file(path: Path) -> ExtData:
             # port "VDD" 2 -600 800 500 1000 m1
             # port "VSS" 3 -600 500 500 700 m1
             m = re.match(
-                r'^port "(?P<net>\w+)" (?P<nr>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) (?P<layer>\w+)$',
+                rf'^port "(?P<net>{NAME})" (?P<nr>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) (?P<layer>\S+)$',
                 line.strip())
             if m:
                 ports.append(Port(net=m.group('net'),
@@ -101,18 +114,18 @@ def parse_magic_ext_file(path: Path) -> ExtData:
                                   layer=m.group('layer')))
 
             m = re.match(
-                r'^(node|substrate) "(?P<net>\w+)" (?P<int_r>\d+) (?P<fin_c>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
+                rf'^(node|substrate) "(?P<net>{NAME})" (?P<int_r>{NUMBER}) (?P<fin_c>{NUMBER}) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\S+)( .*)?$',
                 line.strip())
             if m:
                 nodes.append(Node(net=m.group('net'),
-                                  int_r=int(m.group('int_r')),
-                                  fin_c=int(m.group('fin_c')),
+                                  int_r=parse_number(m.group('int_r')),
+                                  fin_c=parse_number(m.group('fin_c')),
                                   x_bot=int(m.group('x_bot')),
                                   y_bot=int(m.group('y_bot')),
                                   layer=m.group('layer')))
 
             m = re.match(
-                r'^device (?P<type>\w+) (?P<model>\w+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) .*$',
+                r'^device (?P<type>\w+) (?P<model>\S+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+)( .*)?$',
                 line.strip())
             if m:
                 t = m.group('type')
@@ -133,17 +146,17 @@ def parse_magic_res_ext_file(path: Path) -> ResExtData:
     with open(path, 'r') as f:
         for line in f.readlines():
             m = re.match(
-                r'^rnode "(?P<name>[\w\\.]+)" (?P<int_r>-?\d+) (?P<fin_c>-?\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
+                rf'^rnode "(?P<name>{NAME})" (?P<int_r>{NUMBER}) (?P<fin_c>{NUMBER}) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
                 line.strip())
             if m:
                 rnodes.append(ResNode(name=m.group('name'),
-                                      int_r=int(m.group('int_r')),  # NOTE: R is always 0!
-                                      fin_c=int(m.group('fin_c')),
+                                      int_r=parse_number(m.group('int_r')),  # NOTE: R is always 0!
+                                      fin_c=parse_number(m.group('fin_c')),
                                       x_bot=int(m.group('x_bot')),
                                       y_bot=int(m.group('y_bot'))))
 
             m = re.match(
-                r'^resist "(?P<node1>[\w\\.]+)" "(?P<node2>[\w\\.]+)" (?P<value>-?[\d\\.]+)$',
+                rf'^resist "(?P<node1>{NAME})" "(?P<node2>{NAME})" (?P<value>{NUMBER})$',
                 line.strip())
             if m:
                 resistors.append(Resistor(node1=m.group('node1'),
-- 
2.43.0


From dcf8d0f585edef2801254bfeeb0444125ac52d1f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:19 +0000
Subject: [PATCH 39/54] fix: markers of the MAGIC report were off by one
 database unit (coordinates truncated)

---
 klayout_pex/magic/magic_log_analyzer.py | 34 ++++++++++++++-----------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/klayout_pex/magic/magic_log_analyzer.py b/klayout_pex/magic/magic_log_analyzer.py
index bd943a5..b5bfcb1 100755
--- a/klayout_pex/magic/magic_log_analyzer.py
+++ b/klayout_pex/magic/magic_log_analyzer.py
@@ -67,24 +67,28 @@ class MagicLogAnalyzer:
 
         dbu_to_um = 200.0
 
-        def box_for_point_dbu(x: float, y: float) -> kdb.Box:
+        def to_dbu(coordinate: int) -> int:
+            # NOTE: kdb.Box would truncate values such as 14.999999999999998
+            return round(coordinate / dbu_to_um / self.dbu)
+
+        def box_for_point_dbu(x: int, y: int) -> kdb.Box:
             return kdb.Box(x, y, x + 20, y + 20)
 
         for p in cell_data.ext_data.ports:
             port_cat = self.report.create_category(parent=ports_cat, name=f"{p.net} ({p.layer})")
             shapes = kdb.Shapes()
-            shapes.insert(kdb.Box(p.x_bot / dbu_to_um / self.dbu,
-                                  p.y_bot / dbu_to_um / self.dbu,
-                                  p.x_top / dbu_to_um / self.dbu,
-                                  p.y_top / dbu_to_um / self.dbu))
+            shapes.insert(kdb.Box(to_dbu(p.x_bot),
+                                  to_dbu(p.y_bot),
+                                  to_dbu(p.x_top),
+                                  to_dbu(p.y_top)))
             self.report.create_items(cell_id=rdb_cell.rdb_id(), category_id=port_cat.rdb_id(),
                                      trans=kdb.CplxTrans(mag=self.dbu), shapes=shapes)
 
         for n in cell_data.ext_data.nodes:
             node_cat = self.report.create_category(parent=nodes_cat, name=f"{n.net} ({n.layer})")
             shapes = kdb.Shapes()
-            shapes.insert(box_for_point_dbu(n.x_bot / dbu_to_um / self.dbu,
-                                            n.y_bot / dbu_to_um / self.dbu))
+            shapes.insert(box_for_point_dbu(to_dbu(n.x_bot),
+                                            to_dbu(n.y_bot)))
             self.report.create_items(cell_id=rdb_cell.rdb_id(), category_id=node_cat.rdb_id(),
                                      trans=kdb.CplxTrans(mag=self.dbu), shapes=shapes)
 
@@ -92,10 +96,10 @@ class MagicLogAnalyzer:
             device_cat = self.report.create_category(parent=devices_cat,
                                                      name=f"Type={d.device_type} Model={d.model}")
             shapes = kdb.Shapes()
-            shapes.insert(kdb.Box(d.x_bot / dbu_to_um / self.dbu,
-                                  d.y_bot / dbu_to_um / self.dbu,
-                                  d.x_top / dbu_to_um / self.dbu,
-                                  d.y_top / dbu_to_um / self.dbu))
+            shapes.insert(kdb.Box(to_dbu(d.x_bot),
+                                  to_dbu(d.y_bot),
+                                  to_dbu(d.x_top),
+                                  to_dbu(d.y_top)))
             self.report.create_items(cell_id=rdb_cell.rdb_id(), category_id=device_cat.rdb_id(),
                                      trans=kdb.CplxTrans(mag=self.dbu), shapes=shapes)
 
@@ -104,8 +108,8 @@ class MagicLogAnalyzer:
                 rnode_cat = self.report.create_category(parent=rnodes_cat,
                                                         name=n.name)
                 shapes = kdb.Shapes()
-                shapes.insert(box_for_point_dbu(n.x_bot / dbu_to_um / self.dbu,
-                                                n.y_bot / dbu_to_um / self.dbu))
+                shapes.insert(box_for_point_dbu(to_dbu(n.x_bot),
+                                                to_dbu(n.y_bot)))
                 self.report.create_items(cell_id=rdb_cell.rdb_id(), category_id=rnode_cat.rdb_id(),
                                          trans=kdb.CplxTrans(mag=self.dbu), shapes=shapes)
 
@@ -115,8 +119,8 @@ class MagicLogAnalyzer:
                 shapes = kdb.Shapes()
                 for n in cell_data.res_ext_data.rnodes_by_name(r.node1) + \
                          cell_data.res_ext_data.rnodes_by_name(r.node2):
-                    box = box_for_point_dbu(n.x_bot / dbu_to_um / self.dbu,
-                                            n.y_bot / dbu_to_um / self.dbu)
+                    box = box_for_point_dbu(to_dbu(n.x_bot),
+                                            to_dbu(n.y_bot))
                     shapes.insert(box)
                 self.report.create_items(cell_id=rdb_cell.rdb_id(), category_id=res_cat.rdb_id(),
                                          trans=kdb.CplxTrans(mag=self.dbu), shapes=shapes)
-- 
2.43.0


From 1aabb503b4e2a2aa2e60624c60ceecf1358ac274 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:20 +0000
Subject: [PATCH 40/54] fix: magic_log_analyzer without --out failed, the
 default path was not used

---
 klayout_pex/magic/magic_log_analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/magic/magic_log_analyzer.py b/klayout_pex/magic/magic_log_analyzer.py
index b5bfcb1..646fc73 100755
--- a/klayout_pex/magic/magic_log_analyzer.py
+++ b/klayout_pex/magic/magic_log_analyzer.py
@@ -152,7 +152,7 @@ def _parse_args(arg_list: List[str] = None) -> argparse.Namespace:
         raise ArgumentValidationError(f"Intput magic log directory does not exist at '{args.magic_log_dir_path}'")
 
     if args.output_rdb_path is None:
-        os.path.join(args.magic_log_dir_path, 'report.rdb.gz')
+        args.output_rdb_path = os.path.join(args.magic_log_dir_path, 'report.rdb.gz')
 
     return args
 
-- 
2.43.0


From 046008210e6187e78514c67aaa86958aa7f4d3e0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:45 +0000
Subject: [PATCH 41/54] fix: extraction failed if a placed cell has no
 connection to its parent cell (several top cells in the LVS database)

---
 klayout_pex/klayout/lvsdb_extractor.py | 11 +++++++----
 klayout_pex/rcx25/extractor.py         |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index 5c5da55..2bce55c 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -135,6 +135,7 @@ class KLayoutExtractionContext:
         extracted_layers, unnamed_layers = cls.nonempty_extracted_layers(lvsdb=lvsdb,
                                                                          tech=tech,
                                                                          annotated_layout=annotated_layout,
+                                                                         annotated_top_cell=top_cell,
                                                                          layer_index_map=layer_index_map,
                                                                          blackbox_devices=blackbox_devices)
 
@@ -198,6 +199,7 @@ class KLayoutExtractionContext:
     def nonempty_extracted_layers(lvsdb: kdb.LayoutToNetlist,
                                   tech: TechInfo,
                                   annotated_layout: kdb.Layout,
+                                  annotated_top_cell: kdb.Cell,
                                   layer_index_map: LayerIndexMap,
                                   blackbox_devices: bool) -> Tuple[Dict[GDSPair, KLayoutMergedExtractedLayerInfo], List[KLayoutExtractedLayerInfo]]:
         # https://www.klayout.de/doc-qt5/code/class_LayoutToNetlist.html#method18
@@ -210,7 +212,7 @@ class KLayoutExtractionContext:
             if li not in layer_index_map:
                 continue
             li = layer_index_map[li]
-            layer = kdb.Region(annotated_layout.top_cell().begin_shapes_rec(li))
+            layer = kdb.Region(annotated_top_cell.begin_shapes_rec(li))
             layer.enable_properties()
             if layer.count() >= 1:
                 computed_layer_info = tech.computed_layer_info_by_name.get(ln, None)
@@ -255,8 +257,8 @@ class KLayoutExtractionContext:
         return nonempty_layers, unnamed_layers
 
     def top_cell_bbox(self) -> kdb.Box:
-        b1: kdb.Box = self.annotated_layout.top_cell().bbox()
-        b2: kdb.Box = self.lvsdb.internal_layout().top_cell().bbox()
+        b1: kdb.Box = self.annotated_top_cell.bbox()
+        b2: kdb.Box = self.lvsdb.internal_top_cell().bbox()
         if b1.area() > b2.area():
             return b1
         else:
@@ -348,7 +350,8 @@ class KLayoutExtractionContext:
 
     @cached_property
     def top_circuit(self) -> kdb.Circuit:
-        return self.lvsdb.netlist().top_circuit()
+        # NOTE: circuits without connections to their parent circuit are top circuits too
+        return self.lvsdb.netlist().circuit_by_cell_index(self.lvsdb.internal_top_cell().cell_index())
 
     @cached_property
     def devices_by_name(self) -> Dict[str, device_pb2.Device]:
diff --git a/klayout_pex/rcx25/extractor.py b/klayout_pex/rcx25/extractor.py
index 8e6e5ef..f02fb6a 100644
--- a/klayout_pex/rcx25/extractor.py
+++ b/klayout_pex/rcx25/extractor.py
@@ -192,7 +192,7 @@ class RCX25Extractor:
 
         # ------------------------------------------------------------------------
         if self.pex_mode.need_resistance():
-            c: kdb.Circuit = netlist.top_circuit()
+            c: kdb.Circuit = self.pex_context.top_circuit
             info(f"LVSDB: found {c.pin_count()}pins")
 
             # FIXME:
-- 
2.43.0


From 75b881399c52115a4da9dcf7e4135c93763485fa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:15 +0000
Subject: [PATCH 42/54] fix: netlist drawing kept only one instance per
 subcircuit (the JSON key named the circuit, not the instance)

---
 klayout_pex/netlistsvg/netlist_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/netlistsvg/netlist_json.py b/klayout_pex/netlistsvg/netlist_json.py
index b04c89e..e64c3cd 100644
--- a/klayout_pex/netlistsvg/netlist_json.py
+++ b/klayout_pex/netlistsvg/netlist_json.py
@@ -86,7 +86,7 @@ class NetlistJSONWriter:
                 port_directions[pin_text] = 'input'
                 connections[pin_text] = [self._get_or_create_id(net)]
 
-            cells_dict[f"{subcircuit.name}{subcircuit.cell_index}"] = {
+            cells_dict[f"X{sc.expanded_name()}"] = {
                 'hide_name': 1,
                 'type': f"${subcircuit.name}",
                 'port_directions': port_directions,
-- 
2.43.0


From c022ed89fcd97c62c1e25bef4501f11add8c00c3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:25 +0000
Subject: [PATCH 43/54] fix: netlist svg ignored --cell (several top circuits
 could not be drawn at all)

---
 klayout_pex/netlist/netlist_cli.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/klayout_pex/netlist/netlist_cli.py b/klayout_pex/netlist/netlist_cli.py
index 93b5e36..50620b0 100755
--- a/klayout_pex/netlist/netlist_cli.py
+++ b/klayout_pex/netlist/netlist_cli.py
@@ -153,6 +153,14 @@ class NetlistCLI:
 
         top_circuit: kdb.Circuit
 
+        if args.cell_name is not None:
+            # NOTE: SPICE names are not case sensitive
+            top_circuits = [c for c in netlist.each_circuit() if c.name.lower() == args.cell_name.lower()]
+            if not top_circuits:
+                error(f"No circuit named {args.cell_name} found in SPICE netlist")
+                sys.exit(1)
+            n_circuits = len(top_circuits)
+
         match n_circuits:
             case 0:
                 error(f"No top circuit found in SPICE netlist, perhaps the SUBCKT with the ports is missing?!")
-- 
2.43.0


From 6b1905dfc47d06af86ac7fec15e6116c0dd7aca0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:26 +0000
Subject: [PATCH 44/54] fix: repair of a compressed marker database failed
 (gzip was not imported)

---
 klayout_pex/klayout/repair_rdb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klayout_pex/klayout/repair_rdb.py b/klayout_pex/klayout/repair_rdb.py
index 99dc179..ab91ae9 100644
--- a/klayout_pex/klayout/repair_rdb.py
+++ b/klayout_pex/klayout/repair_rdb.py
@@ -22,6 +22,7 @@
 # --------------------------------------------------------------------------------
 #
 import gzip
+import gzip
 import io
 import os.path
 import shutil
-- 
2.43.0


From 941633d9bb2507f4eaa49a1def3e8e7e65960423 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:26 +0000
Subject: [PATCH 45/54] fix: repair of a marker database misread category names
 with escapes or quotes

---
 klayout_pex/klayout/repair_rdb.py | 52 +++++++++++++------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/klayout_pex/klayout/repair_rdb.py b/klayout_pex/klayout/repair_rdb.py
index ab91ae9..b4176c4 100644
--- a/klayout_pex/klayout/repair_rdb.py
+++ b/klayout_pex/klayout/repair_rdb.py
@@ -25,6 +25,7 @@ import gzip
 import gzip
 import io
 import os.path
+import re
 import shutil
 import sys
 from typing import *
@@ -47,37 +48,28 @@ from ..log import (
 
 
 def parse_category_path(category_path: str) -> List[str]:
+    # names are separated by dots, and quoted if necessary;
+    # within quotes, a backslash escapes characters, other bytes (of UTF-8) are octal numbers
+    escapes = {'n': '\n', 'r': '\r', 't': '\t'}
     within_escaped = False
-    within_backslash = False
-    current_word = ''
+    current_word = b''
     path_list = []
-    for c in category_path:
-        match c:
-            case '.':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                elif within_escaped:
-                    current_word += c
-                else:
-                    path_list.append(current_word)
-                    current_word = ''
-            case '\\':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                else:
-                    within_backslash = True
-            case '\'':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                else:
-                    within_escaped = not within_escaped
-            case _:
-                current_word += c
-    if len(current_word) >= 1:
-        path_list.append(current_word)
+    for m in re.finditer(r"\\([0-7]{3}|.)|.", category_path, re.DOTALL):
+        escape = m.group(1)
+        c = m.group(0)
+        if escape is not None:
+            if len(escape) == 3:
+                current_word += bytes([int(escape, 8) & 0xff])
+            else:
+                current_word += escapes.get(escape, escape).encode('utf-8')
+        elif c == '\'':
+            within_escaped = not within_escaped
+        elif c == '.' and not within_escaped:
+            path_list.append(current_word.decode('utf-8', errors='replace'))
+            current_word = b''
+        else:
+            current_word += c.encode('utf-8')
+    path_list.append(current_word.decode('utf-8', errors='replace'))
     return path_list
 
 def repair_rdb_xml(xml_file: io.IOBase, new_xml_path: str):
@@ -94,7 +86,7 @@ def repair_rdb_xml(xml_file: io.IOBase, new_xml_path: str):
         elem = root
         for c in p:
             elemcats = elem.find("./categories")
-            subelem = elemcats.find("./category/name[.='{0}']/..".format(c))
+            subelem = next((e for e in elemcats.findall('./category') if (e.findtext('name') or '') == c), None)
             if subelem is None:
                 warning(f"In category path {p}, can't find element for component {c}")
                 new_category = ET.SubElement(elemcats, "category")
-- 
2.43.0


From acf7f95788de1147c474894233d84e9bb48f3315 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:15 +0000
Subject: [PATCH 46/54] fix: skinny triangles were split at the wrong vertex
 (index given as bool)

---
 klayout_pex/rcx25/r/resistor_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/rcx25/r/resistor_network.py b/klayout_pex/rcx25/r/resistor_network.py
index 5371083..b912bba 100644
--- a/klayout_pex/rcx25/r/resistor_network.py
+++ b/klayout_pex/rcx25/r/resistor_network.py
@@ -67,7 +67,7 @@ class ResistorNetwork:
         self.node_names = {}
 
     @staticmethod
-    def is_skinny_tri(pts: list[kdb.Point]) -> Optional[bool]:
+    def is_skinny_tri(pts: list[kdb.Point]) -> Optional[int]:
         for i in range(0, 3):
             pm1 = pts[i]
             p0 = pts[(i + 1) % 3]
@@ -78,7 +78,7 @@ class ResistorNetwork:
             l1 = (pm1 - p1).sq_length()
 
             if l0 + l1 < lm1 * (1.0 - 1e-10):
-                return i != 0
+                return i
 
         return None
 
-- 
2.43.0


From b1ebb3c8381ecc3c52fe1ae03a280435d8158ae0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:34 +0000
Subject: [PATCH 47/54] fix: log messages are no console markup, names like
 [/n] in them must not end a run

---
 klayout_pex/log/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/log/logger.py b/klayout_pex/log/logger.py
index ed882fd..c3ca915 100644
--- a/klayout_pex/log/logger.py
+++ b/klayout_pex/log/logger.py
@@ -27,6 +27,7 @@ from functools import cached_property
 import logging
 import rich.console
 import rich.logging
+import rich.markup
 from typing import *
 
 
@@ -49,7 +50,7 @@ class LogLevel(IntEnum):
 
 class LogLevelFormatter(logging.Formatter):
     def format(self, record: logging.LogRecord) -> str:
-        msg = record.getMessage()
+        msg = rich.markup.escape(record.getMessage())  # NOTE: messages can contain any names, which are no markup
         match record.levelno:
             case LogLevel.WARNING.value: return f"[yellow]{msg}"
             case LogLevel.ERROR.value: return f"[red]{msg}"
-- 
2.43.0


From 28654c3859185b076940c02527257b224d9c07bc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:53 +0000
Subject: [PATCH 48/54] fix: tool output that is no text in the locale's
 encoding must not end a run

---
 klayout_pex/fastcap/fastcap_runner.py       | 1 +
 klayout_pex/fastercap/fastercap_runner.py   | 1 +
 klayout_pex/klayout/lvs_runner.py           | 1 +
 klayout_pex/magic/magic_runner.py           | 1 +
 klayout_pex/netlistsvg/netlistsvg_runner.py | 1 +
 5 files changed, 5 insertions(+)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 853bc33..bf9bb23 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -81,6 +81,7 @@ def run_fastcap(exe_path: str,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
+                            errors='backslashreplace',  # NOTE: what isn't text must not end a run
                             text=True)
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
diff --git a/klayout_pex/fastercap/fastercap_runner.py b/klayout_pex/fastercap/fastercap_runner.py
index f91640f..f99b63f 100644
--- a/klayout_pex/fastercap/fastercap_runner.py
+++ b/klayout_pex/fastercap/fastercap_runner.py
@@ -81,6 +81,7 @@ def run_fastercap(exe_path: str,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
+                            errors='backslashreplace',  # NOTE: what isn't text must not end a run
                             text=True)
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
diff --git a/klayout_pex/klayout/lvs_runner.py b/klayout_pex/klayout/lvs_runner.py
index 6fc3980..8991b2e 100644
--- a/klayout_pex/klayout/lvs_runner.py
+++ b/klayout_pex/klayout/lvs_runner.py
@@ -78,6 +78,7 @@ class LVSRunner:
                                 stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT,
                                 universal_newlines=True,
+                                errors='backslashreplace',  # NOTE: what isn't text must not end a run
                                 text=True)
         with open(log_path, 'w', encoding='utf-8') as f:
             while True:
diff --git a/klayout_pex/magic/magic_runner.py b/klayout_pex/magic/magic_runner.py
index 6ec2e0f..ebd9f20 100644
--- a/klayout_pex/magic/magic_runner.py
+++ b/klayout_pex/magic/magic_runner.py
@@ -195,6 +195,7 @@ def run_magic(exe_path: str,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
+                            errors='backslashreplace',  # NOTE: what isn't text must not end a run
                             text=True)
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
diff --git a/klayout_pex/netlistsvg/netlistsvg_runner.py b/klayout_pex/netlistsvg/netlistsvg_runner.py
index 66b1dc9..5093cb1 100644
--- a/klayout_pex/netlistsvg/netlistsvg_runner.py
+++ b/klayout_pex/netlistsvg/netlistsvg_runner.py
@@ -67,6 +67,7 @@ def run_netlistsvg(exe_path: str,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
+                            errors='backslashreplace',  # NOTE: what isn't text must not end a run
                             text=True)
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
-- 
2.43.0


From f0547e4d7c28f377f1ee6c6928aefd75ffe0c298 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:53 +0000
Subject: [PATCH 49/54] fix: the last line of a tool's output was logged
 without its last character if it had no newline

---
 klayout_pex/fastcap/fastcap_runner.py       | 2 +-
 klayout_pex/fastercap/fastercap_runner.py   | 2 +-
 klayout_pex/klayout/lvs_runner.py           | 2 +-
 klayout_pex/magic/magic_runner.py           | 2 +-
 klayout_pex/netlistsvg/netlistsvg_runner.py | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index bf9bb23..f0b7991 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -88,7 +88,7 @@ def run_fastcap(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.rstrip('\n'))  # remove newline
             f.writelines([line])
     proc.wait()
 
diff --git a/klayout_pex/fastercap/fastercap_runner.py b/klayout_pex/fastercap/fastercap_runner.py
index f99b63f..cfafdca 100644
--- a/klayout_pex/fastercap/fastercap_runner.py
+++ b/klayout_pex/fastercap/fastercap_runner.py
@@ -88,7 +88,7 @@ def run_fastercap(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.rstrip('\n'))  # remove newline
             f.writelines([line])
     proc.wait()
 
diff --git a/klayout_pex/klayout/lvs_runner.py b/klayout_pex/klayout/lvs_runner.py
index 8991b2e..745c93a 100644
--- a/klayout_pex/klayout/lvs_runner.py
+++ b/klayout_pex/klayout/lvs_runner.py
@@ -85,7 +85,7 @@ class LVSRunner:
                 line = proc.stdout.readline()
                 if not line:
                     break
-                subproc(line[:-1])  # remove newline
+                subproc(line.rstrip('\n'))  # remove newline
                 f.writelines([line])
         proc.wait()
 
diff --git a/klayout_pex/magic/magic_runner.py b/klayout_pex/magic/magic_runner.py
index ebd9f20..fdec3c3 100644
--- a/klayout_pex/magic/magic_runner.py
+++ b/klayout_pex/magic/magic_runner.py
@@ -202,7 +202,7 @@ def run_magic(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.rstrip('\n'))  # remove newline
             f.writelines([line])
     proc.wait()
 
diff --git a/klayout_pex/netlistsvg/netlistsvg_runner.py b/klayout_pex/netlistsvg/netlistsvg_runner.py
index 5093cb1..c614791 100644
--- a/klayout_pex/netlistsvg/netlistsvg_runner.py
+++ b/klayout_pex/netlistsvg/netlistsvg_runner.py
@@ -74,7 +74,7 @@ def run_netlistsvg(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.rstrip('\n'))  # remove newline
             f.writelines([line])
     proc.wait()
 
-- 
2.43.0


From ed7aa86ac739150a2869dd218839af898838303e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:09 +0000
Subject: [PATCH 50/54] fix: runs at the same time shared the files of the
 preliminary log, and failed or mixed up their logs

---
 klayout_pex/kpex_cli.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index b7771de..1c61d14 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -38,6 +38,7 @@ from rich_argparse import RichHelpFormatter
 import shlex
 import shutil
 import sys
+import tempfile
 import time
 from typing import *
 
@@ -772,32 +773,38 @@ class KpexCLI:
             deregister_additional_handler(handler)
             handler.flush()
             handler.close()
-            os.makedirs(args.output_dir_path, exist_ok=True)
-            new_path = os.path.join(args.output_dir_path, os.path.basename(log_path))
+            # NOTE: the arguments could be rejected before the run directory is known
+            log_dir_path = getattr(args, 'output_dir_path', args.output_dir_base_path)
+            os.makedirs(log_dir_path, exist_ok=True)
+            new_path = os.path.join(log_dir_path, os.path.basename(log_path))
             if os.path.exists(new_path):
                 ctime = os.path.getctime(new_path)
                 dt = datetime.fromtimestamp(ctime)
                 timestamp = dt.strftime('%Y-%m-%d_%H-%M-%S')
                 backup_path = f"{new_path[:-4]}_{timestamp}.bak.log"
-                shutil.move(new_path, backup_path)
+                try:
+                    shutil.move(new_path, backup_path)
+                except FileNotFoundError:  # another run was faster
+                    pass
             log_path = shutil.move(log_path, new_path)
             register_log_file_handler(log_path, formatter)
 
         # setup preliminary logger
-        cli_log_path_plain = os.path.join(args.output_dir_base_path, f"kpex_plain.log")
-        cli_log_path_formatted = os.path.join(args.output_dir_base_path, f"kpex.log")
+        # NOTE: runs at the same time can have the same output directory, so each has preliminary files of its own
+        preliminary_log_dir_path = tempfile.mkdtemp(prefix='.kpex_log_', dir=args.output_dir_base_path)
+        cli_log_path_plain = os.path.join(preliminary_log_dir_path, f"kpex_plain.log")
+        cli_log_path_formatted = os.path.join(preliminary_log_dir_path, f"kpex.log")
         formatter = logging.Formatter('[%(asctime)s] [%(levelname)s]    %(message)s')
         file_handler_plain = register_log_file_handler(cli_log_path_plain, None)
         file_handler_formatted = register_log_file_handler(cli_log_path_formatted, formatter)
         try:
             self.validate_args(args)
         except ArgumentValidationError:
-            if hasattr(args, 'output_dir_path'):
-                reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None)
-                reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter)
             sys.exit(1)
-        reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None)
-        reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter)
+        finally:
+            reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None)
+            reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter)
+            os.rmdir(preliminary_log_dir_path)
 
         set_log_level(args.log_level)
 
-- 
2.43.0


From 2a77f579998d6a9501e531149ae36e61925e47cc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:09 +0000
Subject: [PATCH 51/54] fix: a log backup replaced another one made within the
 same second

---
 klayout_pex/kpex_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 1c61d14..9e86edb 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -782,6 +782,10 @@ class KpexCLI:
                 dt = datetime.fromtimestamp(ctime)
                 timestamp = dt.strftime('%Y-%m-%d_%H-%M-%S')
                 backup_path = f"{new_path[:-4]}_{timestamp}.bak.log"
+                number = 1
+                while os.path.exists(backup_path):  # several runs within a second
+                    number += 1
+                    backup_path = f"{new_path[:-4]}_{timestamp}_{number}.bak.log"
                 try:
                     shutil.move(new_path, backup_path)
                 except FileNotFoundError:  # another run was faster
-- 
2.43.0


From 5d5d572d8458095013c8bdbc69645623d6c6cd31 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:16 +0000
Subject: [PATCH 52/54] fix: later runs in a process were logged in the log
 files of the earlier ones as well

---
 klayout_pex/kpex_cli.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 9e86edb..b7da6ca 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -136,6 +136,8 @@ class PDK(StrEnum):
 
 
 class KpexCLI:
+    log_file_handlers: List[logging.Handler] = []  # of all runs in this process
+
     @staticmethod
     def parse_args(arg_list: List[str],
                    env: Env) -> argparse.Namespace:
@@ -765,6 +767,7 @@ class KpexCLI:
             if formatter:
                 handler.setFormatter(formatter)
             register_additional_handler(handler)
+            KpexCLI.log_file_handlers.append(handler)
             return handler
 
         def reregister_log_file_handler(handler: logging.Handler,
@@ -793,6 +796,12 @@ class KpexCLI:
             log_path = shutil.move(log_path, new_path)
             register_log_file_handler(log_path, formatter)
 
+        # the logs of earlier runs in this process are complete
+        for handler in KpexCLI.log_file_handlers:
+            deregister_additional_handler(handler)
+            handler.close()
+        KpexCLI.log_file_handlers.clear()
+
         # setup preliminary logger
         # NOTE: runs at the same time can have the same output directory, so each has preliminary files of its own
         preliminary_log_dir_path = tempfile.mkdtemp(prefix='.kpex_log_', dir=args.output_dir_base_path)
-- 
2.43.0


From 6d5f8cb4c6dd1aa039320ce9c6204ec2d7a93204 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:25 +0000
Subject: [PATCH 53/54] fix: --log_level all hid all messages but warnings and
 errors

---
 klayout_pex/log/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/log/logger.py b/klayout_pex/log/logger.py
index c3ca915..1586f30 100644
--- a/klayout_pex/log/logger.py
+++ b/klayout_pex/log/logger.py
@@ -32,7 +32,7 @@ from typing import *
 
 
 class LogLevel(IntEnum):
-    ALL = 0
+    ALL = 1  # NOTE: 0 would be logging.NOTSET, which means the level of the root logger
     DEBUG = 10
     SUBPROCESS = 12
     VERBOSE = 15
-- 
2.43.0


From caf9a0f11de03893b60d71b003dbfd6457cf4d39 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:13 +0000
Subject: [PATCH 54/54] fix: 2.5D extraction without a halo (or with zero
 overlap capacitances) divided by zero

---
 klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
index fa2606e..27c526e 100644
--- a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
+++ b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
@@ -335,7 +335,7 @@ class SidewallAndFringeExtractor:
                 full_halo_ratio = (2.0 / math.pi) * math.atan(alpha_c * self.side_halo)
                 # NOTE: for a large enough halo, full_halo would be 1,
                 #       but it is smaller, so we compensate
-                if full_halo_ratio < 1.0:
+                if 0.0 < full_halo_ratio < 1.0:
                     cnear /= full_halo_ratio
                     cfar /= full_halo_ratio
 
-- 
2.43.0

