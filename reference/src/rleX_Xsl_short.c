#include "rle.h"

#include "rleX_extreme_common.h"

//////////////////////////////////////////////////////////////////////////

#define TYPE_SIZE 8
#define SYMBOL_COUNT 3

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 1

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 0

#include "rleX_Xsl_short.h"

#define SINGLE

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#undef SINGLE
#undef TYPE_SIZE

//////////////////////////////////////////////////////////////////////////

#define TYPE_SIZE 16
#define SYMBOL_COUNT 3

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 1

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 0

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define UNBOUND
#define SYMBOL_COUNT 3

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 1

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 0

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#undef UNBOUND
#undef TYPE_SIZE

//////////////////////////////////////////////////////////////////////////

#define TYPE_SIZE 32
#define SYMBOL_COUNT 3

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 1

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 0

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define UNBOUND
#define SYMBOL_COUNT 3

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 1

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 0

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#undef UNBOUND
#undef TYPE_SIZE

//////////////////////////////////////////////////////////////////////////

#define TYPE_SIZE 64
#define SYMBOL_COUNT 3

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 1

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 0

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define UNBOUND
#define SYMBOL_COUNT 3

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 1

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 0

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#undef UNBOUND
#undef TYPE_SIZE

//////////////////////////////////////////////////////////////////////////

#define TYPE_SIZE 24
#define SYMBOL_COUNT 3

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 1

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 0

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define UNBOUND
#define SYMBOL_COUNT 3

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 1

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 0

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#undef UNBOUND
#undef TYPE_SIZE

//////////////////////////////////////////////////////////////////////////

#define TYPE_SIZE 48
#define SYMBOL_COUNT 3

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 1

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 0

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define UNBOUND
#define SYMBOL_COUNT 3

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 1

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 0

#include "rleX_Xsl_short.h"

#undef SYMBOL_COUNT
#undef UNBOUND
#undef TYPE_SIZE

//////////////////////////////////////////////////////////////////////////
