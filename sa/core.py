import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dump, ir, ex, term
from term import *


def load(repo=None):
    return ir.Prog(dump.dump(repo) if repo else dump.dump())
