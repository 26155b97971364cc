#!/opt/venv/bin/python
"""Entry point: check.py <property-id> [--tier quick|thorough] [--seed N] [-v] [--only SUBSTR]"""
import os
import sys

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ["JAX_ENABLE_X64"] = "1"
os.environ["EQX_ON_ERROR"] = "raise"
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def main():
    from vc import cli

    return cli.main(sys.argv[1:], REPO)


if __name__ == "__main__":
    sys.exit(main())
