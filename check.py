#!/usr/bin/env python3
"""check.py ID: decides one property of properties.jsonl on /repo's working tree."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, api, cpu, sched, cli, tables, length

CHECKS = {"C01": api.c01, "C02": api.c02, "C03": api.c03, "C04": api.c04, "C05": api.c05, "C06": api.c06, "C07": api.c07,
          "C10": api.c10, "C11": api.c11, "C12": api.c12, "C17": api.c17, "C08": cpu.c08, "C09": sched.c09,
          "C13": cli.c13, "C14": cli.c14, "C15": cli.c15, "C16": cli.c16, "C18": tables.c18, "C19": length.c19}

if __name__ == "__main__":
    pid = sys.argv[1]
    sys.exit(core.main(pid, CHECKS[pid]))
