from props.cj import units as U
LEVEL = 'proof'
UNITS = U.mainu() + U.args() + U.parse()
TECHNIQUE = 'function contracts on the real source (system calls and tinyCC interface as stated contracts), discharged by CBMC (SAT)'
TRUSTED = ['the rest of cjit is replaced by contracts in the main() unit (props/cj/mainc.c): any result of any step; memory for option values never runs out',
           'process starts with at least one word (argc >= 1) and below 2^24 words; words shorter than 2^30',
           'induction facts about the specification functions (prefix counts of kept words are monotone; everything after -- is kept) are assumed as instances']
EXPLANATION = 'main(), ketopt(), ketopt_permute(), remove_args() and parse_value() each proved against a contract, callers over the callee contracts; numbers of words and lengths unbounded; the tables of options are the ones in the source'
