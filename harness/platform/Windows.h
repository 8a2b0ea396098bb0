/* Stand-in: the two questions locale_charset asks Windows. */
#ifndef VERIF_WINDOWS_H
#define VERIF_WINDOWS_H
typedef unsigned int UINT;
#ifdef __cplusplus
extern "C" {
#endif
UINT GetACP(void);
UINT GetConsoleOutputCP(void);
#ifdef __cplusplus
}
#endif
#endif
