"""python main.py <property>"""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
from vlib import run_check

CHECKS = {
    'C01': ('c_overlap', 'main', {}),
    'C02': ('c_lateral', 'main_sidewall', {}),
    'C04': ('c_rext', 'main', {}),
    'C06': ('c_summary', 'main', {}),
    'C05': ('c_out25', 'main_modes', {}),
    'C07': ('c_out25', 'main_out', {}),
    'C08': ('c_lvs', 'main', {}),
    'C10': ('c_cli', 'main', {}),
    'C11': ('c_matrix', 'main', {}),
    'C12': ('c_expand', 'main', {}),
    'C14': ('c_solid', 'main', {}),
    'C15': ('c_solid', 'main_files', {}),
    'C18': ('c_tech', 'main', {}),
    'C19': ('c_context', 'main', {}),
    'C20': ('c_ext', 'main', {}),
    'C21': ('c_report', 'main', {}),
    'C22': ('c_draw', 'main', {}),
    'C23': ('c_rdb', 'main', {}),
    'C24': ('c_resnet', 'main', {}),
    'C25': ('c_logs', 'main', {}),
    'C17': ('c_tools', 'main', {}),
    'C16': ('c_stack', 'main', {}),
    'C13': ('c_reduce', 'main', {}),
    'C09': ('c_engines', 'main', {}),
    'C03': ('c_lateral', 'main_fringe', {}),
}

if __name__ == '__main__':
    pid = sys.argv[1]
    mod, fn, kw = CHECKS[pid]

    def go(c):
        getattr(importlib.import_module(mod), fn)(c)
    run_check(pid, go, **kw)
