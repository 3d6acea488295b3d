#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N]"""
import argparse
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import vlib  # noqa: E402

MODULES = {
    "C22": "chk_columns", "C23": "chk_rules", "C24": "chk_memory",
    "C21": "chk_settings",
    "C14": "chk_agg", "C15": "chk_agg", "C16": "chk_agg", "C17": "chk_agg", "C18": "chk_agg", "C19": "chk_agg", "C20": "chk_agg",
    "C10": "chk_indexer",
    "C11": "chk_seg", "C12": "chk_seg", "C13": "chk_seg",
    "C06": "chk_catalog", "C07": "chk_catalog", "C08": "chk_catalog", "C09": "chk_catalog",
    "C01": "chk_store", "C02": "chk_store", "C03": "chk_store", "C04": "chk_store", "C05": "chk_store",
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier")
    ap.add_argument("--seed")
    a = ap.parse_args()
    ctx = vlib.Ctx(a.prop, a.tier, a.seed)
    try:
        rc = importlib.import_module(MODULES[a.prop]).run(ctx)
    except vlib.CheckError as e:
        print(f"ERROR of the check {a.prop}: {e}")
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.close()
    sys.exit(rc)


if __name__ == "__main__":
    main()
