from props.inf.units import units
LEVEL = 'proof'
UNITS = units('func')

from vf.refute import Refuter
from props.inf.seeds import seeds
REFUTERS = [Refuter('differential', 'inf/refute.c', seconds=60, max_len=40000, seeds=seeds, flags=['-DPROP=3', '-DNDEBUG'])]
TECHNIQUE = 'function contracts and loop invariants on the real tinflate.c, discharged by CBMC (SAT, kissat)'
EXPLANATION = 'every function of the decoder carries its RFC 1951 meaning as a contract: bit order, canonical code construction and decoding, code length expansion, base/extra tables, overlapping copies, stored blocks, block sequence and each rejection'
ASSUMPTIONS = ['counting lemma (prefix counts are monotone) instantiated in tinf_build_tree']
