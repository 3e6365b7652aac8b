#include <taglib/fileref.h>
