#include "rle.h"

#include "rleX_extreme_common.h"

//////////////////////////////////////////////////////////////////////////

#define TYPE_SIZE 8
#define SYMBOL_COUNT 3

#include "rleX_Xsl.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl.h"

#undef TYPE_SIZE
#undef SYMBOL_COUNT

//////////////////////////////////////////////////////////////////////////

#define TYPE_SIZE 16
#define SYMBOL_COUNT 3

#include "rleX_Xsl.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl.h"

#undef SYMBOL_COUNT


#define UNBOUND

#define SYMBOL_COUNT 3

#include "rleX_Xsl.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl.h"

#undef TYPE_SIZE
#undef SYMBOL_COUNT

#undef UNBOUND

//////////////////////////////////////////////////////////////////////////

#define TYPE_SIZE 32
#define SYMBOL_COUNT 3

#include "rleX_Xsl.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl.h"

#undef SYMBOL_COUNT


#define UNBOUND

#define SYMBOL_COUNT 3

#include "rleX_Xsl.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl.h"

#undef TYPE_SIZE
#undef SYMBOL_COUNT

#undef UNBOUND

//////////////////////////////////////////////////////////////////////////

#define TYPE_SIZE 64
#define SYMBOL_COUNT 3

#include "rleX_Xsl.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl.h"

#undef SYMBOL_COUNT


#define UNBOUND

#define SYMBOL_COUNT 3

#include "rleX_Xsl.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl.h"

#undef TYPE_SIZE
#undef SYMBOL_COUNT

#undef UNBOUND

//////////////////////////////////////////////////////////////////////////

#define TYPE_SIZE 24
#define SYMBOL_COUNT 3

#include "rleX_Xsl.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl.h"

#undef SYMBOL_COUNT


#define UNBOUND

#define SYMBOL_COUNT 3

#include "rleX_Xsl.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl.h"

#undef TYPE_SIZE
#undef SYMBOL_COUNT

#undef UNBOUND

//////////////////////////////////////////////////////////////////////////

#define TYPE_SIZE 48
#define SYMBOL_COUNT 3

#include "rleX_Xsl.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl.h"

#undef SYMBOL_COUNT


#define UNBOUND

#define SYMBOL_COUNT 3

#include "rleX_Xsl.h"

#undef SYMBOL_COUNT
#define SYMBOL_COUNT 7

#include "rleX_Xsl.h"

#undef TYPE_SIZE
#undef SYMBOL_COUNT

#undef UNBOUND

//////////////////////////////////////////////////////////////////////////
