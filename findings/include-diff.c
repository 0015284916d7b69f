/* -Ds, lines 2-5 and 7-9 are part of the diff: the blank line 6 is emitted twice. */
#include <c.h>

#include <e.h>
#include <a.h>

#include <d.h>

int x;
