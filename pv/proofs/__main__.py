import sys
from . import base
import pv.proofs.base
pv.proofs.base.main(sys.argv[1:])
