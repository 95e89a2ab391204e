/* The end of a failed assertion, for the interpreter on the host C library
   (whose __assert_fail takes other arguments than that of the Mes C library). */
#include <stdio.h>
#include <stdlib.h>

void
vk_assert_fail (char const *s)
{
  fprintf (stderr, "assert fail: %s\n", s);
  abort ();
}
