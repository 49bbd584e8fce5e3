TECH = {
    'default': 'abstract interpretation of the source (intervals, linear forms, bit slices, finite sets; trace partitioning)',
}
NOTE = {
    'default': 'Each obligation is discharged when, in every partition of its abstract input class, the abstract output of the interpreted source equals the specified abstract output (or the specified refusal). Undecided obligations are counted in the evidence and claim nothing. Trusted: the abstract interpreter in absint/ and the specification tables in checks/.',
}
NA = {'default': 'not decided by a check'}
HOW = {}
FALSE = [
    'Regions whose contents exceed their declared end, an empty region reopened at its own start, an end address of 0 and relative references whose start is address 0 are outside the stated properties (the library has no declared behaviour there); the first versions of C02, C03 and C05 specified them and were narrowed.',
    'Left-to-right evaluation of formulas and byte selection before the operators are the documented behaviour; C07 follows it rather than arithmetic precedence.',
]
