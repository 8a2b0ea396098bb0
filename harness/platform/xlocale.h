/* Stand-in: on macOS this header declares uselocale() and friends. */
#include <locale.h>
