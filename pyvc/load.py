"""Puts the real code under verification (and rdflib) on the path and imports it from /repo's working tree."""
import os, sys, logging, warnings
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/lib/python3.12/site-packages"
# /repo first; the venv (rdflib) last, without its .pth files, so that owlrl always comes from REPO
sys.path.insert(0, REPO)
if VENV not in sys.path:
    sys.path.append(VENV)
logging.getLogger("rdflib").setLevel(logging.CRITICAL)
warnings.filterwarnings("ignore")
import rdflib  # noqa: E402
import owlrl  # noqa: E402
assert os.path.realpath(owlrl.__file__).startswith(os.path.realpath(REPO) + os.sep), owlrl.__file__
from owlrl import Closure, OWLRL, RDFSClosure, CombinedClosure, OWLRLExtras  # noqa: E402,F401
from owlrl import DatatypeHandling, RestrictedDatatype, XsdDatatypes, AxiomaticTriples  # noqa: E402,F401
