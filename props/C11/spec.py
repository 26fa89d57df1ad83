from props.cj import units as U
LEVEL = 'proof'
UNITS = U.msg()
TECHNIQUE = 'function contracts on the real source (system calls and tinyCC interface as stated contracts), discharged by CBMC (SAT)'
TRUSTED = ['operating-system calls, C library and tinyCC interface functions are replaced by contracts (props/cj/sys.h, props/cj/file.c): every documented outcome, including failure, is possible',
           'fatal() / early-exit paths inside tinyCC itself are behind the contract of its public functions (result < 0 on failure)']
EXPLANATION = 'message length and contents are unbounded; the formatter is its contract (n-byte bound, terminated, returns the full length)'
