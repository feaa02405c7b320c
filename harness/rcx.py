"""Drives the real 2.5D extractor on in-process LVS databases."""
import os
import sys
import klayout.db as kdb
from google.protobuf import json_format
from vlib import PB_DIR
from layout_lib import build_l2n, SKY_METALS, SKY_VIAS
from klayout_pex.log import LogLevel, get_log_level, set_log_level
from klayout_pex.tech_info import TechInfo
from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
from klayout_pex.rcx25.extractor import RCX25Extractor
from klayout_pex.rcx25.pex_mode import PEXMode
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2

CANON = [m[1] for m in SKY_METALS]


def shipped_tech(pdk='sky130A'):
    return TechInfo.parse_tech_def(os.path.join(PB_DIR, f'{pdk}_tech.pb.json'))


def custom_tech(halo, sub_area, sub_perim, overlap, sidewall, sideoverlap, pdk='sky130A'):
    """The shipped technology with other capacitance tables.
    sub_area[l], sub_perim[l], overlap[(top,bot)], sidewall[l] = (cap, offset), sideoverlap[(in,out)]; l = canonical name"""
    t = shipped_tech(pdk)
    pp = t.process_parasitics
    pp.side_halo = halo
    c = pp.capacitance
    del c.substrates[:]
    del c.overlaps[:]
    del c.sidewalls[:]
    del c.sideoverlaps[:]
    for l in sub_area:
        s = c.substrates.add()
        s.layer_name, s.area_capacitance, s.perimeter_capacitance = l, sub_area[l], sub_perim[l]
    for (a, b), v in overlap.items():
        o = c.overlaps.add()
        o.top_layer_name, o.bottom_layer_name, o.capacitance = a, b, v
    for l, (v, off) in sidewall.items():
        s = c.sidewalls.add()
        s.layer_name, s.capacitance, s.offset = l, v, off
    for (a, b), v in sideoverlap.items():
        o = c.sideoverlaps.add()
        o.in_layer_name, o.out_layer_name, o.capacitance = a, b, v
    return t


def extract(l2n, tech_pb, scratch, cell='TOP', mode=PEXMode.CC, scale=False, blackbox=False, report=None, debug=False):
    """debug: at the log level DEBUG (which adds to the report, and must not change the results)"""
    tech = TechInfo(tech=tech_pb, dielectric_filter=None)
    ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=l2n, top_cell=cell, tech=tech, blackbox_devices=blackbox)
    x = RCX25Extractor(pex_context=ctx, pex_mode=mode, scale_ratio_to_fit_halo=scale, delaunay_amax=50,
                       delaunay_b=0.5, tech_info=tech,
                       report_path=report or os.path.join(scratch, f'report_{os.getpid()}.rdb.gz'))
    level = get_log_level()
    try:
        set_log_level(LogLevel.DEBUG if debug else level)
        res = x.extract()
    finally:
        set_log_level(level)
    return res, ctx, tech


class Silence:
    """the extractor prints; keep the check's output readable"""
    def __enter__(self):
        sys.stdout.flush()
        self.fd = os.dup(1)
        self.fd2 = os.dup(2)
        n = os.open(os.devnull, os.O_WRONLY)
        os.dup2(n, 1)
        os.dup2(n, 2)
        os.close(n)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        os.dup2(self.fd, 1)
        os.dup2(self.fd2, 2)
        os.close(self.fd)
        os.close(self.fd2)
