#pragma once
// Stand-in for qibuild's header, which is not installed here: only the export macro is used.
#define QI_LIB_API(name)
