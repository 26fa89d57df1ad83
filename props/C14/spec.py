from props.cj import units as U
LEVEL = 'proof'
UNITS = U.source() + U.files()
TECHNIQUE = 'function contracts on the real source (system calls and tinyCC interface as stated contracts), discharged by CBMC (SAT)'
TRUSTED = ['operating-system calls, C library and tinyCC interface functions are replaced by contracts (props/cj/sys.h, props/cj/file.c): every documented outcome, including failure, is possible',
           'fatal() / early-exit paths inside tinyCC itself are behind the contract of its public functions (result < 0 on failure)']
EXPLANATION = 'one arbitrary byte position of the text is followed from the file to the compiler; sizes unbounded (below 2^40), number of lines of standard input unbounded (loop invariant)'
