#include "w32api.h"
#include <string.h>
#include <stdio.h>
#ifndef _tcsncat_s
#define _tcsncat strncat
#define _tcslen strlen
#define _tcscpy strcpy
#define _tcsncpy strncpy
#define _tcscmp strcmp
#define _tprintf printf
#endif
