COMMON='Proved for all inputs from the LLVM IR that clang emits for the real headers; trusted: clang, the VC generator in vf/, z3, the stated contracts of external functions (evidence: trusted_base, external_contracts_used, assumptions). The same harnesses also run natively under sanitizers as a bounded companion that is not counted as proved.'
_SC='Rely-guarantee over sequentially consistent atomics plus acquire/release obligations; violations carry no schedule replay (no-failing-input-found).'
NOTE={
 'C08':'Bounded part: construction from an unsorted container (std::sort + std::unique) for up to 3 entries.',
 'C09':'Bounded part: construction from an unsorted container (std::sort + std::unique) for up to 3 entries.',
 'C21':'Bounded part: strftime results of up to 4000 characters; the C library\'s calendar functions are uninterpreted.',
 'C22':'Bounded part: erase_all and erase_all_if (std::remove_if) for up to 5 elements.',
 'C15':_SC,'C16':_SC,'C17':_SC,'C26':_SC,
}
NA={}
