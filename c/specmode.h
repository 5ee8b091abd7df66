/* From here on the text is specification: expressions of contracts need no
 * memory safety checks of their own (an access outside an object gives an
 * arbitrary value, which no postcondition survives).  Included after
 * pbtools.c, whose own accesses are all checked. */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
