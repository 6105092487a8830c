"""The documented option combinations (snapshot) and which files each mode takes."""
import json, os
from . import build as B
COMBOS = [tuple(c.split()) for c in json.load(open(os.path.join(B.ROOT, "harness", "option_combinations.json")))]
OPTIONS = sorted({o for c in COMBOS for o in c})


def files_needed(c):
    """(required, optional) numbers of file arguments"""
    req, opt = 1, 0
    if "--twoDimensionalCost" in c or "--nonDeterministicMotion" in c:
        req += 1
    if "--symbolicStrategy" in c or "--simpleSymbolicStrategy" in c:
        req += 1
    if "--explicitStrategy" in c or "--extractExplicitPermissiveStrategy" in c or "--counterStrategy" in c:
        opt = 1
    return req, opt


STANDARD = [c for c in COMBOS if not set(c) & {"--IROSfastslow", "--nonDeterministicMotion", "--computeIncompleteInformationEstimator", "--twoDimensionalCost"}]
