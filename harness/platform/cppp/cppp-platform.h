/* Stand-in for the header of the separate cppp-platform repository: the platform is chosen on the command line. */
#ifndef VERIF_PLATFORM_H
#define VERIF_PLATFORM_H
#ifndef __has_windows__
#define __has_windows__ 0
#endif
#ifndef __has_cygwin__
#define __has_cygwin__ 0
#endif
#ifndef __has_macos__
#define __has_macos__ 0
#endif
#ifndef __has_beos__
#define __has_beos__ 0
#endif
#ifndef __has_haiku__
#define __has_haiku__ 0
#endif
#ifndef __has_android__
#define __has_android__ 0
#endif
#ifndef __has_freebsd__
#define __has_freebsd__ 0
#endif
#endif
