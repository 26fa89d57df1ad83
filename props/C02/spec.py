from props.inf.units import gz_units
LEVEL = 'proof'
UNITS = gz_units('func')

from vf.refute import Refuter
from props.inf.seeds import seeds
REFUTERS = [Refuter('differential', 'inf/refute.c', seconds=60, max_len=40000, seeds=seeds, flags=['-DPROP=2', '-DNDEBUG'])]
TECHNIQUE = 'function contracts and loop invariants on the real tinfgzip.c, discharged by CBMC (SAT)'
EXPLANATION = 'tinf_gzip_uncompress is proved against the contracts of tinf_uncompress (C03) and tinf_crc32; the checksum loop is proved against the bit-by-bit definition for any length'
