// Forced include: the headers under test switch on __has_include(<optional>)
// in a branch that does not compile; the repository's build avoids it with an
// older language level.  Pull in the standard library first, then hide it.
#pragma GCC system_header
#include <bits/stdc++.h>
#undef __has_include
